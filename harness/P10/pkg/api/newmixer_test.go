package api

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/pkg/storage"
)

type verifLog struct {
	storage.Log
	recs map[string][]*solaris.Record // ascending
}

func (l *verifLog) QueryRecords(ctx context.Context, q storage.QueryRecordsRequest) ([]*solaris.Record, bool, error) {
	var res []*solaris.Record
	rs := l.recs[q.LogID]
	for i := range rs {
		r := rs[i]
		if q.Descending {
			r = rs[len(rs)-1-i]
		}
		if q.StartID != "" && (!q.Descending && r.ID < q.StartID || q.Descending && r.ID > q.StartID) {
			continue
		}
		if int64(len(res)) == q.Limit {
			return res, true, nil
		}
		res = append(res, r)
	}
	return res, false, nil
}

// Search for a set of logs whose merged records are not all their records in order.
func TestVerifP10Logs(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed + 100))
	for it := 0; it < 4000; it++ {
		n := rnd.Intn(9)
		if rnd.Intn(10) == 0 {
			n = 9 + rnd.Intn(30)
		}
		desc := rnd.Intn(2) == 0
		ls := &verifLog{recs: map[string][]*solaris.Record{}}
		var ids []string
		var all []string
		id := 0
		for i := 0; i < n; i++ {
			ids = append(ids, fmt.Sprintf("log%d", i))
		}
		for k := rnd.Intn(30); k > 0 && n > 0; k-- {
			id += 1 + rnd.Intn(3)
			s := fmt.Sprintf("%026d", id)
			l := ids[rnd.Intn(n)]
			ls.recs[l] = append(ls.recs[l], &solaris.Record{ID: s, LogID: l})
			all = append(all, s)
		}
		if desc {
			sort.Sort(sort.Reverse(sort.StringSlice(all)))
		}
		what := fmt.Sprintf("%d logs, descending %v, records %v", n, desc, all)
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Fatalf("COUNTEREXAMPLE: newMixer panics: %v; %s", e, what)
				}
			}()
			m := newMixer(context.Background(), func(error) {}, ls, storage.QueryRecordsRequest{Descending: desc, Limit: 1 + int64(rnd.Intn(5))}, ids)
			for i := 0; i < len(all)+2; i++ {
				if rnd.Intn(2) == 0 {
					if h := m.HasNext(); h != (i < len(all)) {
						t.Fatalf("COUNTEREXAMPLE: HasNext()=%v after %d records; %s", h, i, what)
					}
				}
				r, ok := m.Next()
				if ok != (i < len(all)) {
					t.Fatalf("COUNTEREXAMPLE: Next() ok=%v after %d records; %s", ok, i, what)
				}
				if ok && r.ID != all[i] {
					t.Fatalf("COUNTEREXAMPLE: record %d is %s, want %s; %s", i, r.ID, all[i], what)
				}
			}
		}()
	}
	fmt.Println("EVALUATIONS: 4000")
}
