package intervals

import (
	"fmt"
	"testing"
)

// Exhaustive search for an input on which the interval operations break their contracts (small integer domain).
func TestVerifP01(t *testing.T) {
	const lo, hi = 0, 5
	cmp := func(a, b int) int {
		if a < b {
			return -7
		}
		if a > b {
			return 3
		}
		return 0
	}
	b := NewBasis[int](lo, hi, cmp)
	type iv = Interval[int]
	mem := func(i iv, v int) bool {
		return (i.L < v || i.LIn && i.L == v) && (v < i.R || i.RIn && v == i.R)
	}
	str := func(i iv) string { return fmt.Sprintf("%+v", i) }
	var all []iv
	for l := lo; l <= hi; l++ {
		for r := l; r <= hi; r++ {
			for k := 0; k < 4; k++ {
				all = append(all, iv{L: l, R: r, LIn: k&1 != 0, RIn: k&2 != 0})
			}
		}
	}
	n := 0
	guard := func(what string, f func()) {
		defer func() {
			if e := recover(); e != nil {
				t.Fatalf("COUNTEREXAMPLE: %s panics: %v", what, e)
			}
		}()
		n++
		f()
	}
	// constructors
	for l := lo; l <= hi; l++ {
		for r := l + 1; r <= hi; r++ {
			guard(fmt.Sprintf("constructor(%d,%d)", l, r), func() {
				for i, x := range []iv{b.Open(l, r), b.OpenL(l, r), b.OpenR(l, r), b.Closed(l, r)} {
					want := iv{L: l, R: r, LIn: i >= 2, RIn: i == 1 || i == 3}
					if x != want {
						t.Fatalf("COUNTEREXAMPLE: constructor %d for (%d,%d) gives %s, want %s", i, l, r, str(x), str(want))
					}
				}
			})
		}
	}
	for _, i := range all {
		guard("Negate("+str(i)+")", func() {
			res := b.Negate(i)
			if len(res) < 1 || len(res) > 2 {
				t.Fatalf("COUNTEREXAMPLE: Negate(%s) gives %d intervals", str(i), len(res))
			}
			for v := lo - 1; v <= hi+1; v++ {
				in := false
				for _, r := range res {
					in = in || mem(r, v)
				}
				want := v >= lo && v <= hi && !mem(i, v)
				if in != want {
					t.Fatalf("COUNTEREXAMPLE: Negate(%s) = %v: value %d in result %v, want %v", str(i), res, v, in, want)
				}
			}
			for _, r := range res {
				if r.L > r.R || r.L < lo || r.R > hi {
					t.Fatalf("COUNTEREXAMPLE: Negate(%s) gives ill-formed %s", str(i), str(r))
				}
			}
		})
		for _, j := range all {
			w := str(i) + "," + str(j)
			guard("Intersect/Union("+w+")", func() {
				ri, oki := b.Intersect(i, j)
				ru, oku := b.Union(i, j)
				for v := lo - 1; v <= hi+1; v++ {
					both, any := mem(i, v) && mem(j, v), mem(i, v) || mem(j, v)
					if oki && mem(ri, v) != both || !oki && both {
						t.Fatalf("COUNTEREXAMPLE: Intersect(%s) = %s,%v wrong at value %d", w, str(ri), oki, v)
					}
					if oku && mem(ru, v) != any || !oku && both {
						t.Fatalf("COUNTEREXAMPLE: Union(%s) = %s,%v wrong at value %d", w, str(ru), oku, v)
					}
				}
				if oki && ri.L > ri.R || oku && ru.L > ru.R {
					t.Fatalf("COUNTEREXAMPLE: Intersect/Union(%s) ill formed", w)
				}
			})
			guard("order("+w+")", func() {
				if got, want := b.Before(i, j), i.R < j.L || i.R == j.L && !(i.RIn && j.LIn); got != want {
					t.Fatalf("COUNTEREXAMPLE: Before(%s)=%v want %v", w, got, want)
				}
				if got, want := b.After(i, j), j.R < i.L || j.R == i.L && !(j.RIn && i.LIn); got != want {
					t.Fatalf("COUNTEREXAMPLE: After(%s)=%v want %v", w, got, want)
				}
				if got, want := b.StartsBefore(i, j), i.L < j.L || i.L == j.L && i.LIn && !j.LIn; got != want {
					t.Fatalf("COUNTEREXAMPLE: StartsBefore(%s)=%v want %v", w, got, want)
				}
				if got, want := b.EndsAfter(i, j), i.R > j.R || i.R == j.R && i.RIn && !j.RIn; got != want {
					t.Fatalf("COUNTEREXAMPLE: EndsAfter(%s)=%v want %v", w, got, want)
				}
			})
		}
	}
	fmt.Printf("EVALUATIONS: %d\nBOUND: integer basis [%d,%d], all interval pairs\n", n, lo, hi)
}
