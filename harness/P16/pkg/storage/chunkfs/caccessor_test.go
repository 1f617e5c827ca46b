package chunkfs

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// TestVerifAccess drives a ChunkAccessor through random sequences of operations (some of them waiting) and compares every answer
// with the table of who may use a chunk.
func TestVerifAccess(t *testing.T) {
	ms, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if ms == 0 {
		ms = 15000
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	end := time.Now().Add(time.Duration(ms) * time.Millisecond)
	n := 0
	for time.Now().Before(end) {
		if log, bad := accRun(rnd); bad != "" {
			fmt.Printf("COUNTEREXAMPLE: NewChunkAccessor; %s: %s\n", strings.Join(log, "; "), bad)
			t.Fatal(bad)
		}
		n++
		if n%20 == 0 {
			if bad := accStress(rnd); bad != "" {
				fmt.Printf("COUNTEREXAMPLE: many goroutines taking and releasing one chunk: %s\n", bad)
				t.Fatal(bad)
			}
		}
	}
	fmt.Printf("EVALUATIONS: %d\n", n)
}

type accWait struct {
	open   bool
	cancel func()
	res    chan error
}

type accKey struct {
	use    int // 0 nobody, 2 writing, 3 deleting
	opened bool
	wait   *accWait
}

func accRun(rnd *rand.Rand) (log []string, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprintf("panic: %v", r)
		}
	}()
	cc := NewChunkAccessor()
	closed := false
	keys := []*accKey{{}, {}}
	defer func() {
		for _, k := range keys {
			if k.wait != nil {
				k.wait.cancel()
			}
		}
	}()
	await := func(ch chan error) (error, bool) {
		select {
		case err := <-ch:
			return err, true
		case <-time.After(2 * time.Second):
			return nil, false
		}
	}
	steps := 3 + rnd.Intn(14)
	for s := 0; s < steps; s++ {
		i := rnd.Intn(len(keys))
		k, id := keys[i], fmt.Sprintf("c%d", i)
		switch op := rnd.Intn(20); {
		case op < 5: // write
			if k.wait != nil {
				continue
			}
			ctx, cancel := context.WithCancel(context.Background())
			w := &accWait{cancel: cancel, res: make(chan error, 1)}
			log = append(log, "SetWriting("+id+")")
			go func() { w.res <- cc.SetWriting(ctx, id) }()
			if k.use == 2 && !closed {
				select {
				case err := <-w.res:
					return log, fmt.Sprintf("SetWriting(%s) returned %v while the chunk is written", id, err)
				case <-time.After(300 * time.Microsecond):
				}
				k.wait = w
				continue
			}
			err, ok := await(w.res)
			if !ok {
				return log, "SetWriting(" + id + ") hangs although nobody writes the chunk"
			}
			if want := !closed && k.use == 0; (err == nil) != want {
				return log, fmt.Sprintf("SetWriting(%s) returned %v (used %d, closed %t)", id, err, k.use, closed)
			}
			if err == nil {
				k.use = 2
			}
		case op < 9: // open
			if k.wait != nil {
				continue
			}
			ctx, cancel := context.WithCancel(context.Background())
			w := &accWait{open: true, cancel: cancel, res: make(chan error, 1)}
			log = append(log, "openChunk("+id+")")
			go func() { w.res <- cc.openChunk(ctx, id) }()
			if k.use == 2 && !closed && !k.opened {
				select {
				case err := <-w.res:
					return log, fmt.Sprintf("openChunk(%s) returned %v while the chunk is written", id, err)
				case <-time.After(300 * time.Microsecond):
				}
				k.wait = w
				continue
			}
			err, ok := await(w.res)
			if !ok {
				return log, "openChunk(" + id + ") hangs"
			}
			if want := !closed && k.use == 0 && !k.opened; (err == nil) != want {
				return log, fmt.Sprintf("openChunk(%s) returned %v (used %d, opened %t, closed %t)", id, err, k.use, k.opened, closed)
			}
			if err == nil {
				k.opened = true
			}
		case op < 12:
			log = append(log, "setDeleting("+id+")")
			got := cc.setDeleting(id)
			if want := !closed && k.use == 0 && !k.opened; got != want {
				return log, fmt.Sprintf("setDeleting(%s) returned %t (used %d, opened %t, closed %t)", id, got, k.use, k.opened, closed)
			}
			if got {
				k.use = 3
			}
		case op < 16:
			if k.use == 0 {
				continue
			}
			log = append(log, "SetIdle("+id+")")
			cc.SetIdle(id)
			k.use = 0
			if w := k.wait; w != nil {
				k.wait = nil
				err, ok := await(w.res)
				if !ok {
					return log, "the one waiting for " + id + " is not woken up"
				}
				if err != nil {
					return log, fmt.Sprintf("the one waiting for %s got %v", id, err)
				}
				if w.open {
					k.opened = true
				} else {
					k.use = 2
				}
			}
		case op < 18:
			if k.wait != nil && k.wait.open {
				continue
			}
			log = append(log, "closeChunk("+id+")")
			err := cc.closeChunk(id)
			if (err == nil) != k.opened {
				return log, fmt.Sprintf("closeChunk(%s) returned %v (opened %t)", id, err, k.opened)
			}
			k.opened = false
		case op < 19:
			if k.wait == nil {
				continue
			}
			log = append(log, "cancel the wait for "+id)
			k.wait.cancel()
			err, ok := await(k.wait.res)
			if !ok || err == nil {
				return log, fmt.Sprintf("canceled wait for %s: returned %t with %v", id, ok, err)
			}
			k.wait = nil
		default:
			if rnd.Intn(4) > 0 {
				continue
			}
			log = append(log, "Shutdown")
			cc.Shutdown()
			closed = true
			for j, k := range keys {
				if k.wait == nil {
					continue
				}
				err, ok := await(k.wait.res)
				if !ok || err == nil {
					return log, fmt.Sprintf("wait for c%d after Shutdown: returned %t with %v", j, ok, err)
				}
				k.wait = nil
			}
		}
	}
	return log, ""
}

func accStress(rnd *rand.Rand) string {
	cc := NewChunkAccessor()
	var users atomic.Int32
	var bad atomic.Value
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		r := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad.Store(fmt.Sprintf("panic: %v", e))
				}
			}()
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			defer cancel()
			for i := 0; i < 200; i++ {
				got := false
				if r.Intn(2) == 0 {
					got = cc.setDeleting("c")
				} else {
					err := cc.SetWriting(ctx, "c")
					if err != nil && ctx.Err() != nil {
						bad.Store("SetWriting waits for ever")
						return
					}
					got = err == nil
				}
				if got {
					if users.Add(1) != 1 {
						bad.Store("two users hold the chunk at a time")
					}
					if r.Intn(4) == 0 {
						time.Sleep(time.Microsecond)
					}
					users.Add(-1)
					cc.SetIdle("c")
				}
			}
		}()
	}
	wg.Wait()
	if s, ok := bad.Load().(string); ok {
		return s
	}
	return ""
}
