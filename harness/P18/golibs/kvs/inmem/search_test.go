package inmem

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/kvs"
)

type vmrec struct {
	val, ver string
	exp      *time.Time
}

// TestVerifKvs runs random histories against a plain map.
func TestVerifKvs(t *testing.T) {
	ms, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if ms == 0 {
		ms = 5000
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	dl := time.Now().Add(time.Duration(ms) * time.Millisecond)
	rnd := rand.New(rand.NewSource(seed + 18))
	n := 0
	for time.Now().Before(dl) {
		if msg := verifHistory(rnd); msg != "" {
			fmt.Println("COUNTEREXAMPLE:", msg)
			t.Fatal("violated")
		}
		n++
	}
	fmt.Println("EVALUATIONS:", n)
}

func verifHistory(rnd *rand.Rand) (msg string) {
	hist := ""
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic %v after %s", r, hist)
		}
	}()
	s := New()
	keys := []string{"", "a", "b", "ab", "/x/y"}[:1+rnd.Intn(5)]
	m := map[string]vmrec{}
	vers := map[string]bool{}
	type watch struct {
		key, ver string
		done     chan error
		stop     context.CancelFunc
	}
	var ws []*watch
	defer func() {
		for _, w := range ws {
			w.stop()
		}
	}()
	live := func(k string) bool {
		r, ok := m[k]
		return ok && (r.exp == nil || r.exp.After(time.Now()))
	}
	exp := func() *time.Time {
		switch rnd.Intn(5) {
		case 0:
			e := time.Now().Add(-time.Duration(1+rnd.Intn(1000)) * time.Millisecond)
			return &e
		case 1:
			e := time.Now().Add(time.Hour)
			return &e
		case 2:
			e := time.Time{}
			if rnd.Intn(4) == 0 {
				return &e
			}
		}
		return nil
	}
	eq := func(k string, r kvs.Record) string {
		e := m[k]
		if r.Key != k || string(r.Value) != e.val || r.Version != e.ver || (r.ExpiresAt == nil) != (e.exp == nil) || r.ExpiresAt != nil && !r.ExpiresAt.Equal(*e.exp) {
			return fmt.Sprintf("record of %q is {%q %q %q}, stored {%q %q}; history %s", k, r.Key, r.Value, r.Version, e.val, e.ver, hist)
		}
		return ""
	}
	newVer := func(v string) string {
		if v == "" || vers[v] {
			return fmt.Sprintf("version %q is not new; history %s", v, hist)
		}
		vers[v] = true
		return ""
	}
	ctx := context.Background()
	all := func() string {
		for _, k := range keys {
			r, err := s.Get(ctx, k)
			if live(k) {
				if err != nil {
					return fmt.Sprintf("Get(%q) of a live record fails: %v; history %s", k, err, hist)
				}
				if e := eq(k, r); e != "" {
					return e
				}
			} else {
				if !errors.Is(err, errors.ErrNotExist) {
					return fmt.Sprintf("Get(%q) of an absent record returns %v, %v; history %s", k, r, err, hist)
				}
				delete(m, k)
			}
		}
		return ""
	}
	for i, n := 0, 1+rnd.Intn(12); i < n; i++ {
		k := keys[rnd.Intn(len(keys))]
		val := fmt.Sprint("v", rnd.Intn(100))
		if rnd.Intn(4) == 0 {
			val = ""
		}
		e := exp()
		es := "-"
		if e != nil {
			es = time.Until(*e).Round(time.Millisecond).String()
		}
		switch op := rnd.Intn(9); op {
		case 0, 1:
			hist += fmt.Sprintf(" Create(%q,%s,%s)", k, val, es)
			c := ctx
			dead := false
			if rnd.Intn(8) == 0 {
				cc, f := context.WithCancel(ctx)
				f()
				c = cc
				dead = true
				hist += "[cancelled]"
			}
			v, err := s.Create(c, kvs.Record{Key: k, Value: []byte(val), ExpiresAt: e, Version: "user"})
			if live(k) || dead {
				if err == nil {
					return fmt.Sprintf("Create succeeds; history %s", hist)
				}
				if !dead && !errors.Is(err, errors.ErrExist) {
					return fmt.Sprintf("Create of an existing record reports %v; history %s", err, hist)
				}
			} else {
				if err != nil {
					return fmt.Sprintf("Create of an absent record fails: %v; history %s", err, hist)
				}
				if e := newVer(v); e != "" {
					return e
				}
				m[k] = vmrec{val, v, e}
			}
		case 2:
			hist += fmt.Sprintf(" Put(%q,%s,%s)", k, val, es)
			r, err := s.Put(ctx, kvs.Record{Key: k, Value: []byte(val), ExpiresAt: e, Version: "user"})
			if err != nil {
				return fmt.Sprintf("Put fails: %v; history %s", err, hist)
			}
			if e := newVer(r.Version); e != "" {
				return e
			}
			m[k] = vmrec{val, r.Version, e}
			if e := eq(k, r); e != "" {
				return "Put returns: " + e
			}
		case 3, 4:
			ver := "other"
			if r, ok := m[k]; ok && rnd.Intn(3) > 0 {
				ver = r.ver
			} else if len(vers) > 0 && rnd.Intn(2) == 0 {
				for v := range vers {
					ver = v
					break
				}
			}
			hist += fmt.Sprintf(" Cas(%q,%s,%s,%s)", k, val, es, ver)
			r, err := s.CasByVersion(ctx, kvs.Record{Key: k, Value: []byte(val), ExpiresAt: e, Version: ver})
			switch {
			case !live(k):
				if !errors.Is(err, errors.ErrNotExist) {
					return fmt.Sprintf("Cas of an absent record: %v; history %s", err, hist)
				}
				delete(m, k)
			case m[k].ver != ver:
				if !errors.Is(err, errors.ErrConflict) {
					return fmt.Sprintf("Cas with another version: %v; history %s", err, hist)
				}
			default:
				if err != nil {
					return fmt.Sprintf("Cas with the stored version: %v; history %s", err, hist)
				}
				if e := newVer(r.Version); e != "" {
					return e
				}
				m[k] = vmrec{val, r.Version, e}
				if e := eq(k, r); e != "" {
					return "Cas returns: " + e
				}
			}
		case 5:
			hist += fmt.Sprintf(" Delete(%q)", k)
			err := s.Delete(ctx, k)
			if _, ok := m[k]; !ok {
				if !errors.Is(err, errors.ErrNotExist) {
					return fmt.Sprintf("Delete of an absent record: %v; history %s", err, hist)
				}
			} else if live(k) && err != nil {
				return fmt.Sprintf("Delete of a record: %v; history %s", err, hist)
			}
			delete(m, k)
		case 6:
			var rs []kvs.Record
			for j := rnd.Intn(4); j >= 0; j-- {
				rs = append(rs, kvs.Record{Key: keys[rnd.Intn(len(keys))], Value: []byte(fmt.Sprint("m", rnd.Intn(100))), ExpiresAt: exp()})
			}
			hist += " PutMany("
			for _, r := range rs {
				hist += fmt.Sprintf("%q=%s,", r.Key, r.Value)
			}
			hist += ")"
			if err := s.PutMany(ctx, rs); err != nil {
				return fmt.Sprintf("PutMany fails: %v; history %s", err, hist)
			}
			last := map[string]kvs.Record{}
			for _, r := range rs {
				last[r.Key] = r
			}
			for k, r := range last {
				m[k] = vmrec{string(r.Value), "?", r.ExpiresAt}
				if live(k) {
					g, err := s.Get(ctx, k)
					if err != nil || string(g.Value) != string(r.Value) {
						return fmt.Sprintf("PutMany stored %q as %v, %v; history %s", k, g, err, hist)
					}
					if e := newVer(g.Version); e != "" {
						return e
					}
					m[k] = vmrec{string(r.Value), g.Version, r.ExpiresAt}
				} else {
					_, _ = s.Get(ctx, k)
					delete(m, k)
				}
			}
		case 7:
			var ks []string
			for j := rnd.Intn(4); j >= 0; j-- {
				ks = append(ks, keys[rnd.Intn(len(keys))])
			}
			hist += fmt.Sprintf(" GetMany(%q)", ks)
			rs, err := s.GetMany(ctx, ks...)
			if err != nil || len(rs) != len(ks) {
				return fmt.Sprintf("GetMany returns %d records, %v; history %s", len(rs), err, hist)
			}
			for j, r := range rs {
				if live(ks[j]) != (r != nil) {
					return fmt.Sprintf("GetMany position %d: found %v, live %v; history %s", j, r != nil, live(ks[j]), hist)
				}
				if r != nil {
					if e := eq(ks[j], *r); e != "" {
						return "GetMany: " + e
					}
				}
			}
			for _, k := range ks {
				if !live(k) {
					delete(m, k)
				}
			}
		case 8:
			if r, ok := m[k]; ok && live(k) && len(ws) < 3 {
				hist += fmt.Sprintf(" Watch(%q)", k)
				c, f := context.WithCancel(ctx)
				w := &watch{k, r.ver, make(chan error, 1), f}
				ws = append(ws, w)
				if rnd.Intn(3) == 0 { // somebody else who gives up
					c, f := context.WithCancel(ctx)
					d := make(chan error, 1)
					go func() { d <- s.WaitForVersionChange(c, w.key, w.ver) }()
					time.Sleep(time.Duration(rnd.Intn(300)) * time.Microsecond)
					f()
					<-d
					hist += "+cancelled one"
				}
				go func() { w.done <- s.WaitForVersionChange(c, w.key, w.ver) }()
				for t := 0; t < 200; t++ {
					s.(*service).lock.Lock()
					_, in := s.(*service).verChange[k]
					s.(*service).lock.Unlock()
					if in {
						break
					}
					time.Sleep(50 * time.Microsecond)
				}
			} else {
				hist += " List"
				it, err := s.ListKeys(ctx, "*")
				if err == nil {
					for it.HasNext() {
						k, _ := it.Next()
						if _, ok := m[k]; !ok {
							return fmt.Sprintf("ListKeys lists %q; history %s", k, hist)
						}
					}
				}
			}
		}
		if rnd.Intn(3) == 0 {
			hist += " check"
			if e := all(); e != "" {
				return e
			}
		}
		for j := 0; j < len(ws); j++ {
			w := ws[j]
			r, ok := m[w.key]
			if ok && r.ver == w.ver {
				select {
				case err := <-w.done:
					return fmt.Sprintf("the wait for a change of %q ends with %v, but nothing changed; history %s", w.key, err, hist)
				default:
				}
				continue
			}
			if ok && !live(w.key) {
				continue
			}
			select {
			case <-w.done:
			case <-time.After(2 * time.Second):
				return fmt.Sprintf("nobody tells the waiter that %q changed; history %s", w.key, hist)
			}
			w.stop()
			ws = append(ws[:j], ws[j+1:]...)
			j--
		}
	}
	return all()
}
