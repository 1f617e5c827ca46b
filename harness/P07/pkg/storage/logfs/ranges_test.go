package logfs

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/pkg/intervals"
)

// Random search for intervals, chunk bounds and start identifiers for which the identifier ranges select wrong records.
func TestVerifP07(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	ms, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if ms == 0 {
		ms = 8000
	}
	rnd := rand.New(rand.NewSource(seed))
	n := 0
	defer func() { fmt.Println("EVALUATIONS:", n) }()
	type iv = intervals.Interval[time.Time]
	bases := []int64{0, 1, 255, 256, 65535, 1 << 24, 1700000000000, 1<<40 - 2, 1<<41 + 3}
	for end := time.Now().Add(time.Duration(ms) * time.Millisecond); time.Now().Before(end); {
		n++
		base := bases[rnd.Intn(len(bases))]
		const W = 10 // window in milliseconds
		grid := int64(4 * W)
		unit := int64(250000)
		if rnd.Intn(2) == 0 {
			grid, unit = W, 1000000
		}
		at := func(k int64) time.Time { return time.Unix(0, 0).Add(time.Duration(base*1000000 + k*unit)).UTC() }
		// sorted disjoint intervals
		var tis []iv
		pos := int64(rnd.Intn(3))
		for i := rnd.Intn(4); i > 0 && pos <= grid; i-- {
			l := pos
			r := l + int64(rnd.Intn(int(grid)/3+1))
			x := iv{L: at(l), R: at(r), LIn: rnd.Intn(2) == 0, RIn: rnd.Intn(2) == 0}
			if l == r {
				x.LIn, x.RIn = true, true
			}
			if len(tis) > 0 && tis[len(tis)-1].R.Equal(x.L) && tis[len(tis)-1].RIn {
				x.LIn = false
				if l == r {
					break
				}
			}
			tis = append(tis, x)
			pos = r + int64(rnd.Intn(3))
		}
		mk := func(m int64, e byte) ulid.ULID {
			var id ulid.ULID
			_ = id.SetTime(uint64(base + m))
			b := make([]byte, 10)
			switch e {
			case 0:
			case 3:
				for i := range b {
					b[i] = 255
				}
			default:
				b[rnd.Intn(10)] = e
			}
			_ = id.SetEntropy(b)
			return id
		}
		a, z := mk(int64(rnd.Intn(W)), byte(rnd.Intn(4))), mk(int64(rnd.Intn(W)), byte(rnd.Intn(4)))
		if a.Compare(z) > 0 {
			a, z = z, a
		}
		ci := ChunkInfo{ID: "c", Min: a, Max: z, RecordsCount: 2}
		var ids []ulid.ULID
		for m := int64(0); m < W; m++ {
			for e := byte(0); e < 4; e++ {
				if id := mk(m, e); id.Compare(a) >= 0 && id.Compare(z) <= 0 {
					ids = append(ids, id)
				}
			}
		}
		ids = append(ids, a, z)
		in := func(id ulid.ULID) bool {
			tm := ulid.Time(id.Time())
			for _, x := range tis {
				if (x.L.Before(tm) || x.LIn && x.L.Equal(tm)) && (tm.Before(x.R) || x.RIn && tm.Equal(x.R)) {
					return true
				}
			}
			return false
		}
		desc := fmt.Sprintf("intervals %v chunk [%s(%d) .. %s(%d)]", tis, a, a.Time(), z, z.Time())
		var rs []idRange
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Fatalf("COUNTEREXAMPLE: %s: getRanges panics: %v", desc, e)
				}
			}()
			rs = getRanges(tis, ci)
		}()
		within := func(rs []idRange, id ulid.ULID, rev bool) bool {
			for _, r := range rs {
				s, e := r.start, r.end
				if rev {
					s, e = e, s
				}
				if s.Compare(id) <= 0 && id.Compare(e) <= 0 {
					return true
				}
			}
			return false
		}
		for _, id := range ids {
			if got, want := within(rs, id, false), in(id); got != want {
				t.Fatalf("COUNTEREXAMPLE: %s: record %s created at %v in the ranges=%v, in the intervals=%v (ranges %v)", desc, id, ulid.Time(id.Time()).UTC(), got, want, rs)
			}
		}
		num := func(id ulid.ULID) *big.Int { return new(big.Int).SetBytes(id[:]) }
		for i := 1; i < len(rs); i++ {
			if rs[i-1].end.Compare(rs[i].start) >= 0 {
				t.Fatalf("COUNTEREXAMPLE: %s: ranges not in order: %v", desc, rs)
			}
		}
		// restriction to a start identifier
		for _, d := range []bool{false, true} {
			sid := mk(int64(rnd.Intn(W)), byte(rnd.Intn(4)))
			if rnd.Intn(4) == 0 && len(rs) > 0 {
				r := rs[rnd.Intn(len(rs))]
				sid = []ulid.ULID{r.start, r.end}[rnd.Intn(2)]
			}
			if rnd.Intn(6) == 0 {
				sid = ulid.ULID{}
			}
			cp := append([]idRange{}, rs...)
			var got []idRange
			func() {
				defer func() {
					if e := recover(); e != nil {
						t.Fatalf("COUNTEREXAMPLE: considerSIDAndDesc(%v, %s, desc=%v) panics: %v", rs, sid, d, e)
					}
				}()
				got = considerSIDAndDesc(cp, sid, d)
			}()
			if len(rs) == 0 {
				if len(got) != 1 || got[0].start != sid || got[0].end != (ulid.ULID{}) {
					t.Fatalf("COUNTEREXAMPLE: considerSIDAndDesc(no ranges, %s, desc=%v) = %v", sid, d, got)
				}
				continue
			}
			for _, id := range append(ids, sid, rs[0].start, rs[0].end) {
				want := within(rs, id, false)
				if sid != (ulid.ULID{}) {
					want = want && (d && num(id).Cmp(num(sid)) <= 0 || !d && num(id).Cmp(num(sid)) >= 0)
				}
				if g := within(got, id, d); g != want {
					t.Fatalf("COUNTEREXAMPLE: considerSIDAndDesc(%v, %s, desc=%v) = %v: record %s selected=%v, should be %v", rs, sid, d, got, id, g, want)
				}
			}
			for i := 1; i < len(got); i++ {
				if c := got[i-1].end.Compare(got[i].start); !d && c >= 0 || d && c <= 0 {
					t.Fatalf("COUNTEREXAMPLE: considerSIDAndDesc(%v, %s, desc=%v) = %v: not in reading order", rs, sid, d, got)
				}
			}
		}
	}
}
