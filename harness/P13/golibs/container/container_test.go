package container

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/solarisdb/solaris/golibs/errors"
)

// Search for a history of ring buffer operations or slice contents on which the contracts are broken.
func TestVerifP13(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed + 13))
	hist := ""
	fail := func(f string, a ...any) {
		t.Helper()
		t.Fatalf("COUNTEREXAMPLE: %s; history: %s", fmt.Sprintf(f, a...), hist)
	}
	guard := func(what string, f func()) {
		defer func() {
			if e := recover(); e != nil {
				fail("%s panics: %v", what, e)
			}
		}()
		f()
	}
	same := func(a, b []int) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	for it := 0; it < 20000; it++ {
		size := rnd.Intn(6)
		if rnd.Intn(20) == 0 {
			size = 40 + rnd.Intn(100)
		}
		hist = fmt.Sprintf("NewRingBuffer(%d)", size)
		guard("ring buffer", func() {
			var r RingBuffer[int] = NewRingBuffer[int](uint(size))
			q := []int{}
			next := 1
			for s := 0; s < 25; s++ {
				switch op := rnd.Intn(7); op {
				case 0, 1, 2:
					k := 1
					if size > 10 {
						k = rnd.Intn(size)
					}
					for ; k > 0; k-- {
						hist += fmt.Sprintf(" W%d", next)
						err := r.Write(next)
						if (err != nil) != (len(q) == size) || err != nil && !errors.Is(err, errors.ErrExhausted) {
							fail("Write with %d of %d values: %v", len(q), size, err)
						}
						if err == nil {
							q = append(q, next)
						}
						next++
					}
				case 3:
					hist += " R"
					v, err := r.Read()
					if (err != nil) != (len(q) == 0) || err != nil && !errors.Is(err, io.EOF) {
						fail("Read of %v: %v", q, err)
					}
					if err == nil {
						if v != q[0] {
							fail("Read gives %d, want %d", v, q[0])
						}
						q = q[1:]
					}
				case 4:
					n := rnd.Intn(size + 3)
					d := make([]int, n)
					for i := range d {
						d[i] = -7
					}
					hist += fmt.Sprintf(" RN%d", n)
					k := r.ReadN(d)
					w := min(n, len(q))
					if k != w || !same(d[:w], q[:w]) {
						fail("ReadN(%d) of %v gives %d %v", n, q, k, d)
					}
					for _, v := range d[w:] {
						if v != -7 {
							fail("ReadN(%d) of %v wrote beyond the values: %v", n, q, d)
						}
					}
					q = q[w:]
				case 5:
					n := rnd.Intn(size+4) - 1
					hist += fmt.Sprintf(" S%d", n)
					k := r.Skip(n)
					if w := max(0, min(n, len(q))); k != w {
						fail("Skip(%d) of %v gives %d", n, q, k)
					} else {
						q = q[w:]
					}
				case 6:
					if rnd.Intn(5) == 0 {
						hist += " C"
						r.Clear()
						q = nil
					}
				}
				if r.Len() != len(q) || r.Cap() != size {
					fail("Len %d Cap %d, want %d %d", r.Len(), r.Cap(), len(q), size)
				}
				for i := range q {
					if r.At(i) != q[i] {
						fail("At(%d) = %d, want %v", i, r.At(i), q)
					}
				}
				for _, i := range []int{-1, len(q), size + 1} {
					func() {
						defer func() {
							if recover() == nil {
								fail("At(%d) does not panic with %d values", i, len(q))
							}
						}()
						r.At(i)
					}()
				}
			}
		})
	}
	hist = ""
	gen := func(n, dom int) []int {
		s := make([]int, n, n+rnd.Intn(3))
		for i := range s {
			s[i] = rnd.Intn(dom) + 1
		}
		return s
	}
	cp := func(s []int) []int { return append([]int{}, s...) }
	set := func(s []int) map[int]bool {
		m := map[int]bool{}
		for _, v := range s {
			m[v] = true
		}
		return m
	}
	for it := 0; it < 60000; it++ {
		n := rnd.Intn(6)
		if rnd.Intn(6) == 0 {
			n = rnd.Intn(300)
		}
		s := gen(n, 1+rnd.Intn(8))
		o := cp(s)
		v := rnd.Intn(9)
		hist = fmt.Sprintf("slice %v value %d", o, v)
		guard("slice helper", func() {
			idx := -1
			for i := range s {
				if s[i] == v {
					idx = i
					break
				}
			}
			if r := IndexOf(s, v); r != idx {
				fail("IndexOf = %d, want %d", r, idx)
			}
			if r := IndexOfAny(s, v, func(a, b int) bool { return a == b }); r != idx {
				fail("IndexOfAny = %d, want %d", r, idx)
			}
			c := SliceCopy(s)
			if !same(c, s) {
				fail("SliceCopy = %v", c)
			}
			if n > 0 {
				c[0]++
				if !same(s, o) {
					fail("SliceCopy shares memory")
				}
				c[0]--
				k := rnd.Intn(n)
				cc := cp(s)
				r := SliceRemoveIdx(cc, k)
				w := cp(o)
				w[k] = w[n-1]
				if !same(r, w[:n-1]) {
					fail("SliceRemoveIdx(%d) = %v", k, r)
				}
			}
			r := SliceReverse(c)
			for i := range o {
				if len(r) != n || r[i] != o[n-1-i] || c[i] != r[i] {
					fail("SliceReverse = %v (%v)", r, c)
				}
			}
			big := append(append([]int{-5}, o...), -5)
			SliceFill(big[1:n+1], v)
			for i := range big {
				if (i == 0 || i == n+1) && big[i] != -5 || i > 0 && i <= n && big[i] != v {
					fail("SliceFill = %v", big)
				}
			}
		})
		s2 := gen(rnd.Intn(6), 1+rnd.Intn(8))
		o2 := cp(s2)
		hist = fmt.Sprintf("s1 %v s2 %v", o, o2)
		guard("set helper", func() {
			m1, m2 := set(o), set(o2)
			chk := func(what string, got []int, in func(v int) bool) {
				g := set(got)
				for v := 0; v < 12; v++ {
					if g[v] != in(v) {
						fail("%s: %v", what, got)
					}
				}
			}
			a, b := SliceExcludeOverlaps(s, s2)
			chk("SliceExcludeOverlaps first", a, func(v int) bool { return m1[v] && !m2[v] })
			chk("SliceExcludeOverlaps second", b, func(v int) bool { return m2[v] && !m1[v] })
			a, b = SliceExludeUniqueS2(s, s2)
			chk("SliceExludeUniqueS2 first", a, func(v int) bool { return m1[v] && !m2[v] })
			chk("SliceExludeUniqueS2 second", b, func(v int) bool { return m2[v] && m1[v] })
			chk("MergeSlicesUnique", MergeSlicesUnique(s, s2), func(v int) bool { return m2[v] || m1[v] })
			if !same(s, o) || !same(s2, o2) {
				fail("arguments changed: %v %v", s, s2)
			}
		})
	}
}
