package iterable

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"
)

type verifStream struct {
	v   []int
	pos int
	log *string
	id  int
}

func (s *verifStream) HasNext() bool { return s.pos < len(s.v) }
func (s *verifStream) Next() (int, bool) {
	if s.pos < len(s.v) {
		s.pos++
		return s.v[s.pos-1], true
	}
	return 0, false
}
func (s *verifStream) Close() error { return nil }
func (s *verifStream) Reset() error { s.pos = 0; return nil }

// Search for two streams, a selection function and an order of calls on which the merged stream is not the merge.
func TestVerifP10Mixer(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed + 10))
	sfs := map[string]func(a, b int) bool{
		"a/10<b/10": func(a, b int) bool { return a/10 < b/10 }, "a/10<=b/10": func(a, b int) bool { return a/10 <= b/10 },
		"a/10>b/10": func(a, b int) bool { return a/10 > b/10 }, "true": func(a, b int) bool { return true },
		"false": func(a, b int) bool { return false }, "parity": func(a, b int) bool { return (a+b)%2 == 0 },
	}
	names := []string{"a/10<b/10", "a/10<=b/10", "a/10>b/10", "true", "false", "parity"}
	for it := 0; it < 60000; it++ {
		n := names[rnd.Intn(len(names))]
		sf := sfs[n]
		mk := func() []int {
			var r []int
			for k := rnd.Intn(6); k > 0; k-- {
				r = append(r, 10*rnd.Intn(5)+rnd.Intn(10))
			}
			if rnd.Intn(2) == 0 {
				sort.SliceStable(r, func(i, j int) bool { return sf(r[i], r[j]) && !sf(r[j], r[i]) })
			}
			return r
		}
		a, b := mk(), mk()
		var m Mixer[int]
		m.Init(sf, &verifStream{v: a}, &verifStream{v: b})
		hist := fmt.Sprintf("streams %v %v, selection %s:", a, b, n)
		i, j := 0, 0
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Fatalf("COUNTEREXAMPLE: panic %v; %s", e, hist)
				}
			}()
			steps := 2 * (len(a) + len(b) + 3)
			for s := 0; s < steps; s++ {
				left := i < len(a) || j < len(b)
				switch op := rnd.Intn(12); {
				case op < 5:
					hist += " HasNext"
					if r := m.HasNext(); r != left {
						t.Fatalf("COUNTEREXAMPLE: HasNext()=%v, elements left: %v; %s", r, left, hist)
					}
				case op == 11 && rnd.Intn(3) == 0:
					hist += " Reset"
					if err := m.Reset(); err != nil {
						t.Fatalf("COUNTEREXAMPLE: Reset()=%v; %s", err, hist)
					}
					i, j = 0, 0
				default:
					hist += " Next"
					v, ok := m.Next()
					if ok != left {
						t.Fatalf("COUNTEREXAMPLE: Next()=%v,%v, elements left: %v; %s", v, ok, left, hist)
					}
					if !left {
						continue
					}
					want := 0
					if i < len(a) && (j >= len(b) || sf(a[i], b[j])) {
						want = a[i]
						i++
					} else {
						want = b[j]
						j++
					}
					if v != want {
						t.Fatalf("COUNTEREXAMPLE: Next()=%v, want %v; %s", v, want, hist)
					}
				}
			}
			if e, ok := any(&EmptyIterator[int]{}).(Iterator[int]); ok {
				if _, ok := e.Next(); ok || e.HasNext() {
					t.Fatalf("COUNTEREXAMPLE: the empty iterator has elements")
				}
			}
		}()
	}
	fmt.Println("EVALUATIONS: 60000")
}
