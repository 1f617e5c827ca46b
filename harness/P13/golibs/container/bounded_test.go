package container

import (
	"fmt"
	"testing"
)

// Bounded stand-in for what no contract here decides: the number of Values of a map and MergeSlicesUnique.
func TestVerifP13Bounded(t *testing.T) {
	n := 0
	for mask := 0; mask < 1<<12; mask++ {
		// three slices of up to three elements over a four letter alphabet
		x := mask
		var ss [][]int
		for i := 0; i < 3; i++ {
			l := x & 3
			var s []int
			for j := 0; j < l; j++ {
				s = append(s, (mask>>(2*(i+j)))&3)
			}
			ss = append(ss, s)
			x >>= 4
		}
		for k := 0; k <= 3; k++ {
			n++
			r := MergeSlicesUnique(ss[:k]...)
			want := map[int]bool{}
			for _, s := range ss[:k] {
				for _, v := range s {
					want[v] = true
				}
			}
			got := map[int]bool{}
			for _, v := range r {
				if got[v] || !want[v] {
					t.Fatalf("COUNTEREXAMPLE: MergeSlicesUnique(%v) = %v", ss[:k], r)
				}
				got[v] = true
			}
			if len(got) != len(want) {
				t.Fatalf("COUNTEREXAMPLE: MergeSlicesUnique(%v) = %v", ss[:k], r)
			}
		}
	}
	for mask := 0; mask < 3*3*3*3*3; mask++ {
		m := map[int]int{}
		cnt := map[int]int{}
		for i, x := 0, mask; i < 5; i, x = i+1, x/3 {
			if x%3 > 0 {
				m[i] = x % 3
				cnt[x%3]++
			}
		}
		n++
		for _, v := range Values(m) {
			cnt[v]--
		}
		for _, c := range cnt {
			if c != 0 {
				t.Fatalf("COUNTEREXAMPLE: Values(%v) = %v", m, Values(m))
			}
		}
		if ks := Keys(m); len(ks) != len(m) {
			t.Fatalf("COUNTEREXAMPLE: Keys(%v) = %v", m, ks)
		}
	}
	fmt.Printf("EVALUATIONS: %d\nBOUND: MergeSlicesUnique of up to 3 slices of up to 3 of 4 values (4096 patterns); Values and Keys of all maps of up to 5 keys and 2 values\n", n)
}
