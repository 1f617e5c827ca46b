package chunkfs

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/files"
)

// Random search for a chunk content, a start identifier and a direction for which the reader returns wrong records.
func TestVerifP06(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	ms, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if ms == 0 {
		ms = 8000
	}
	rnd := rand.New(rand.NewSource(seed))
	n := 0
	what := ""
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("COUNTEREXAMPLE: %s: crash %v\n", what, r)
			t.Fail()
		}
		fmt.Println("EVALUATIONS:", n)
	}()
	dir := t.TempDir()
	bad := func(f string, a ...any) {
		fmt.Println("COUNTEREXAMPLE:", what+":", fmt.Sprintf(f, a...))
		t.FailNow()
	}
	for end := time.Now().Add(time.Duration(ms) * time.Millisecond); time.Now().Before(end); {
		fn := filepath.Join(dir, fmt.Sprint("c", n))
		if err := files.EnsureFileExists(fn); err != nil {
			t.Skip(err)
		}
		c := NewChunk(fn, "c", Config{NewSize: files.BlockSize, MaxChunkSize: 64 * files.BlockSize, MaxGrowIncreaseSize: 4 * files.BlockSize})
		if err := c.Open(false); err != nil {
			bad("Open: %v", err)
		}
		type rec struct {
			id  ulid.ULID
			val []byte
		}
		var model []rec
		what = "new chunk"
		for b := rnd.Intn(4); b > 0; b-- {
			k := rnd.Intn(4)
			if rnd.Intn(8) == 0 {
				k = 1 + rnd.Intn(60)
			}
			var recs []*solaris.Record
			for i := 0; i < k; i++ {
				p := make([]byte, rnd.Intn(1+rnd.Intn(100)))
				if rnd.Intn(200) == 0 {
					p = make([]byte, rnd.Intn(140000))
				}
				rnd.Read(p)
				recs = append(recs, &solaris.Record{Payload: p})
			}
			r, err := c.AppendRecords(recs)
			if err != nil {
				break
			}
			for i := 0; i < r.Written; i++ {
				model = append(model, rec{val: recs[i].Payload})
			}
		}
		if len(model) != c.total {
			c.Close()
			continue
		}
		// identifiers of our choosing, increasing, with and without gaps
		var id ulid.ULID
		switch rnd.Intn(3) {
		case 0:
			id = ulid.Make()
		case 1:
			rnd.Read(id[:])
			id[0] &= 0x3f
		}
		var ids []ulid.ULID
		for i := range model {
			if i > 0 || rnd.Intn(2) == 0 {
				for g := 1 + rnd.Intn(3); g > 0; g-- {
					ids = append(ids, id)
					id = next(id)
				}
			}
			model[i].id = id
			ids = append(ids, id)
		}
		ids = append(ids, next(id), ulid.ULID{}, ulid.ULID{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, ulid.Make())
		if len(model) > 0 {
			mb, err := c.getMetaBuf(c.total-1, c.total)
			if err != nil {
				bad("getMetaBuf: %v", err)
			}
			for i := range model {
				mr := mb.get(i)
				mr.ID = model[i].id
				mb.put(i, mr)
			}
		}
		if rnd.Intn(2) == 0 {
			what = fmt.Sprintf("reopened chunk with %d records", len(model))
			c.Close()
			if err := c.Open(false); err != nil {
				bad("reopen: %v", err)
			}
		}
		for q := 0; q < 30; q++ {
			n++
			desc := rnd.Intn(2) == 0
			what = fmt.Sprintf("chunk of %d records, descending=%v", len(model), desc)
			cr, err := c.OpenChunkReader(desc)
			if err != nil {
				bad("OpenChunkReader: %v", err)
			}
			want := append([]rec(nil), model...)
			if desc {
				sort.SliceStable(want, func(i, j int) bool { return want[i].id.Compare(want[j].id) > 0 })
			}
			// some steps, then maybe a positioning, then the rest
			for k := rnd.Intn(3); k > 0 && len(want) > 0; k-- {
				r, ok := cr.Next()
				if !ok || r.ID != want[0].id || !bytes.Equal(r.UnsafePayload, want[0].val) {
					bad("Next() = %v, %v, expected record %v", r.ID, ok, want[0].id)
				}
				want = want[1:]
			}
			if rnd.Intn(3) > 0 {
				sid := ids[rnd.Intn(len(ids))]
				what += " start " + sid.String()
				want = nil
				for _, m := range model {
					if cmp := m.id.Compare(sid); !desc && cmp >= 0 || desc && cmp <= 0 {
						want = append(want, m)
					}
				}
				if desc {
					sort.SliceStable(want, func(i, j int) bool { return want[i].id.Compare(want[j].id) > 0 })
				}
				if left := cr.SetStartID(sid); left != len(want) {
					bad("SetStartID reports %d records left, expected %d", left, len(want))
				}
			}
			for i := 0; ; i++ {
				if rnd.Intn(2) == 0 && cr.HasNext() != (i < len(want)) {
					bad("HasNext() = %v with %d records left", cr.HasNext(), len(want)-i)
				}
				r, ok := cr.Next()
				if ok != (i < len(want)) {
					bad("Next() reports %v with %d records left", ok, len(want)-i)
				}
				if !ok {
					break
				}
				if r.ID != want[i].id || !bytes.Equal(r.UnsafePayload, want[i].val) {
					bad("Next() #%d = %v, expected record %v", i, r.ID, want[i].id)
				}
			}
			if r, ok := cr.Next(); ok {
				bad("Next() after the end returned %v", r.ID)
			}
			cr.Close()
		}
		c.Close()
		os.Remove(fn)
	}
}

func next(id ulid.ULID) ulid.ULID {
	for i := 15; i >= 0; i-- {
		if id[i]++; id[i] != 0 {
			break
		}
	}
	return id
}
