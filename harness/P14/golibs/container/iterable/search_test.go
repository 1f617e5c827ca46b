package iterable

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)

type vmEntry struct{ key, val, seq int }

type vmIter struct {
	it  Iterator[MapEntry[int, int]]
	pos int
}

// TestVerifMap runs random histories with several open iterators against a plain list.
func TestVerifMap(t *testing.T) {
	ms, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if ms == 0 {
		ms = 5000
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	dl := time.Now().Add(time.Duration(ms) * time.Millisecond)
	n := int64(0)
	for time.Now().Before(dl) {
		rnd := rand.New(rand.NewSource(seed*1000003 + n))
		// short histories first: they make short counterexamples
		if msg := vmHistory(rnd, 4+int(n/2000)%40); msg != "" {
			fmt.Println("COUNTEREXAMPLE:", msg)
			t.Fatal("violated")
		}
		n++
	}
	fmt.Println("EVALUATIONS:", n)
}

func vmHistory(rnd *rand.Rand, steps int) (msg string) {
	var h []string
	add := func(f string, a ...any) { h = append(h, fmt.Sprintf(f, a...)) }
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic %v after %s", r, strings.Join(h, "; "))
		}
	}()
	bad := func(f string, a ...any) string {
		return fmt.Sprintf(f, a...) + " after " + strings.Join(h, "; ")
	}
	m := NewMap[int, int]()
	var live []vmEntry
	var its []*vmIter
	seq, cnt, keys := 0, 0, 1+rnd.Intn(5)
	find := func(k int) int {
		for i, e := range live {
			if e.key == k {
				return i
			}
		}
		return -1
	}
	at := func(pos int) int {
		for i, e := range live {
			if e.seq >= pos {
				return i
			}
		}
		return -1
	}
	for s := 0; s < steps; s++ {
		k := rnd.Intn(keys)
		switch op := rnd.Intn(12); {
		case op < 3:
			cnt++
			add("Add(%d,%d)", k, cnt)
			err := m.Add(k, cnt)
			if (err != nil) != (find(k) >= 0) {
				return bad("Add(%d) answered %v", k, err)
			}
			if err == nil {
				live = append(live, vmEntry{k, cnt, seq})
				seq++
			}
		case op < 5:
			add("Remove(%d)", k)
			m.Remove(k)
			if i := find(k); i >= 0 {
				live = append(live[:i:i], live[i+1:]...)
			}
		case op < 6 && len(its) < 4:
			add("it%d=Iterator", len(its))
			p := seq
			if len(live) > 0 {
				p = live[0].seq
			}
			its = append(its, &vmIter{m.Iterator(), p})
		case op < 7 && len(its) > 0:
			i := rnd.Intn(len(its))
			add("it%d.Close (the later ones move down)", i)
			if err := its[i].it.Close(); err != nil {
				return bad("Close: %v", err)
			}
			its = append(its[:i:i], its[i+1:]...)
		case op < 8 && len(its) > 0:
			i := rnd.Intn(len(its))
			add("it%d.HasNext", i)
			if got, want := its[i].it.HasNext(), at(its[i].pos) >= 0; got != want {
				return bad("HasNext answered %v, want %v", got, want)
			}
		case op < 11 && len(its) > 0:
			i := rnd.Intn(len(its))
			add("it%d.Next", i)
			e, ok := its[i].it.Next()
			j := at(its[i].pos)
			if ok != (j >= 0) {
				return bad("Next answered %v, want %v", ok, j >= 0)
			}
			if ok {
				if e.Key != live[j].key || e.Value != live[j].val {
					return bad("Next returned %v, want %v", e, live[j])
				}
				its[i].pos = live[j].seq + 1
			}
		default:
			add("check")
			if m.Len() != len(live) {
				return bad("Len is %d, want %d", m.Len(), len(live))
			}
			for q := 0; q < keys; q++ {
				v, ok := m.Get(q)
				j := find(q)
				if ok != (j >= 0) || ok && v != live[j].val {
					return bad("Get(%d) answered %d, %v", q, v, ok)
				}
			}
			f, ok := m.First()
			if ok != (len(live) > 0) || ok && f != live[0].key {
				return bad("First answered %d, %v", f, ok)
			}
		}
	}
	for _, it := range its {
		for n := 0; n <= len(live)+1; n++ {
			j := at(it.pos)
			e, ok := it.it.Next()
			if ok != (j >= 0) || ok && (e.Key != live[j].key || e.Value != live[j].val) {
				return bad("the rest of an iteration gave %v, %v", e, ok)
			}
			if !ok {
				break
			}
			it.pos = live[j].seq + 1
		}
		add("close")
		_ = it.it.Close()
	}
	it := m.Iterator()
	for _, w := range live {
		if e, ok := it.Next(); !ok || e.Key != w.key || e.Value != w.val {
			return bad("a full iteration gave %v, %v, want %v", e, ok, w)
		}
	}
	if it.HasNext() {
		return bad("a full iteration gave more entries than are live")
	}
	return ""
}
