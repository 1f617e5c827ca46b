package lru

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type vlEnt struct{ k, v int }

// TestVerifLRU runs random histories against a plain list of entries in the order of their use.
func TestVerifLRU(t *testing.T) {
	ms, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if ms == 0 {
		ms = 5000
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	dl := time.Now().Add(time.Duration(ms) * time.Millisecond)
	n := int64(0)
	for time.Now().Before(dl) {
		rnd := rand.New(rand.NewSource(seed*1000003 + n))
		msg := ""
		if n%50 == 49 {
			msg = vlRace(rnd)
		} else {
			msg = vlHistory(rnd, 3+int(n/500)%60)
		}
		if msg != "" {
			fmt.Println("COUNTEREXAMPLE:", msg)
			t.Fatal("violated")
		}
		n++
	}
	fmt.Println("EVALUATIONS:", n)
}

func vlHistory(rnd *rand.Rand, steps int) (msg string) {
	var h []string
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic %v after %s", r, strings.Join(h, "; "))
		}
	}()
	bad := func(f string, a ...any) string { return fmt.Sprintf(f, a...) + " after " + strings.Join(h, "; ") }
	size := 1 + rnd.Intn(5)
	h = append(h, fmt.Sprintf("size %d", size))
	withCb := rnd.Intn(5) > 0
	made, fail := 0, false
	var log, want []vlEnt
	create := func(k []byte) (int, error) {
		made++
		if fail {
			return -made, fmt.Errorf("failed")
		}
		return made, nil
	}
	var onDel OnDeleteElemF[[]byte, int]
	if withCb {
		onDel = func(k []byte, v int) { log = append(log, vlEnt{int(k[0]), v}) }
	}
	if _, err := NewECache(rnd.Intn(3)-2, func(b []byte) int { return int(b[0]) }, create, onDel); err == nil {
		return bad("a cache of no size is made")
	}
	if _, err := NewECache[[]byte, int, int](1, func(b []byte) int { return int(b[0]) }, nil, onDel); err == nil {
		return bad("a cache with no function is made")
	}
	c, err := NewECache(size, func(b []byte) int { return int(b[0]) }, create, onDel)
	if err != nil {
		return bad("NewECache: %v", err)
	}
	var st []vlEnt
	keys := 1 + rnd.Intn(size+3)
	find := func(k int) int {
		for i, e := range st {
			if e.k == k {
				return i
			}
		}
		return -1
	}
	rep := func(e vlEnt) {
		if withCb {
			want = append(want, e)
		}
	}
	for i := 0; i < steps; i++ {
		k := rnd.Intn(keys)
		j := find(k)
		switch rnd.Intn(12) {
		case 0, 1:
			h = append(h, fmt.Sprintf("Remove(%d)", k))
			if got := c.Remove([]byte{byte(k)}); got != (j >= 0) {
				return bad("Remove returned %v", got)
			}
			if j >= 0 {
				rep(st[j])
				st = append(st[:j:j], st[j+1:]...)
			}
		case 2:
			if rnd.Intn(3) > 0 {
				continue
			}
			h = append(h, "Clear")
			from := len(log)
			if got := c.Clear(); got != len(st) {
				return bad("Clear returned %d for %d entries", got, len(st))
			}
			// any order
			if withCb {
				if len(log)-from != len(st) {
					return bad("Clear of %d entries called back %d times", len(st), len(log)-from)
				}
				for _, e := range st {
					ok := false
					for _, l := range log[from:] {
						ok = ok || l == e
					}
					if !ok {
						return bad("Clear did not report %v: %v", e, log[from:])
					}
				}
				want = append(want, log[from:]...)
			}
			st = nil
		default:
			fail = rnd.Intn(5) == 0
			h = append(h, fmt.Sprintf("GetOrCreate(%d)", k))
			if fail {
				h[len(h)-1] += "fails"
			}
			m0 := made
			v, err := c.GetOrCreate([]byte{byte(k)})
			if j >= 0 {
				if made != m0 || err != nil || v != st[j].v {
					return bad("a hit returned %d, %v, made %d; the entry is %v", v, err, made-m0, st[j])
				}
				e := st[j]
				st = append(append(st[:j:j], st[j+1:]...), e)
				break
			}
			if made != m0+1 {
				return bad("a miss created %d values", made-m0)
			}
			if fail {
				if err == nil {
					return bad("the failed creation is not reported")
				}
				break
			}
			if err != nil || v != made {
				return bad("a miss returned %d, %v, made %d", v, err, made)
			}
			st = append(st, vlEnt{k, v})
			if len(st) > size {
				rep(st[0])
				st = st[1:]
			}
		}
		if fmt.Sprint(log) != fmt.Sprint(want) {
			return bad("reported %v, expected %v", log, want)
		}
		if n := c.items.Len(); n != len(st) || n > size {
			return bad("%d entries, expected %d of at most %d", n, len(st), size)
		}
		// what is held
		for _, e := range st {
			if p, ok := c.items.Get(e.k); !ok || p.v != e.v || int(p.pk[0]) != e.k {
				return bad("the entry %v is not in the cache (%v %v)", e, p, ok)
			}
		}
		if len(c.inflight) != 0 {
			return bad("%d creations pending", len(c.inflight))
		}
	}
	return ""
}

// vlRace: goroutines over a few keys; the values alive are made and not yet reported.
func vlRace(rnd *rand.Rand) string {
	size := 1 + rnd.Intn(3)
	keys := 1 + rnd.Intn(4)
	var mk, del, fails atomic.Int64
	busy := make([]atomic.Int64, keys)
	var bad atomic.Value
	var mu sync.Mutex
	gone := map[int]int{}
	var ids atomic.Int64
	c, err := NewCache(size, func(k int) (vlEnt, error) {
		if busy[k].Add(1) != 1 {
			bad.Store(fmt.Sprintf("two creations of the key %d at the same time", k))
		}
		defer busy[k].Add(-1)
		id := ids.Add(1)
		if id%3 == 0 {
			time.Sleep(10 * time.Microsecond)
		}
		if id%7 == 0 {
			fails.Add(1)
			return vlEnt{}, fmt.Errorf("failed")
		}
		mk.Add(1)
		return vlEnt{k, int(id)}, nil
	}, func(k int, v vlEnt) {
		del.Add(1)
		if k != v.k {
			bad.Store(fmt.Sprintf("the entry %v is reported with the key %d", v, k))
		}
		mu.Lock()
		gone[v.v]++
		if gone[v.v] > 1 {
			bad.Store(fmt.Sprintf("the entry %v is reported twice", v))
		}
		mu.Unlock()
	})
	if err != nil {
		return err.Error()
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(rnd.Int63()))
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					bad.Store(fmt.Sprintf("panic %v", p))
				}
			}()
			for i := 0; i < 60; i++ {
				k := r.Intn(keys)
				switch r.Intn(8) {
				case 0:
					c.Remove(k)
				case 1:
					if r.Intn(6) == 0 {
						c.Clear()
					}
				default:
					if v, err := c.GetOrCreate(k); err == nil && v.k != k {
						bad.Store(fmt.Sprintf("GetOrCreate(%d) returned the value of %d", k, v.k))
					}
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		return "the goroutines hang"
	}
	held := c.items.Len()
	if held > size {
		return fmt.Sprintf("%d entries in a cache of %d", held, size)
	}
	if m := bad.Load(); m != nil {
		return m.(string)
	}
	if int64(held) != mk.Load()-del.Load() {
		return fmt.Sprintf("made %d, reported %d, held %d", mk.Load(), del.Load(), held)
	}
	if got := c.Clear(); got != held || mk.Load() != del.Load() {
		return fmt.Sprintf("Clear of %d returned %d; made %d, reported %d", held, got, mk.Load(), del.Load())
	}
	return ""
}
