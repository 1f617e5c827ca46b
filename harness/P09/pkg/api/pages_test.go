package api

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/logging"
	"github.com/solarisdb/solaris/pkg/storage"
)

// vpLog is a log storage in memory: records of a log in the ascending order of their IDs, at most cut of them in one answer.
type vpLog struct {
	storage.Log
	recs map[string][]*solaris.Record
	cut  int
	more int // 0: exact, 1: more is reported whenever the answer is as long as the limit
}

func (l *vpLog) QueryRecords(ctx context.Context, q storage.QueryRecordsRequest) ([]*solaris.Record, bool, error) {
	var all []*solaris.Record
	rs := l.recs[q.LogID]
	for i := range rs {
		r := rs[i]
		if q.Descending {
			r = rs[len(rs)-1-i]
		}
		if q.StartID == "" || (q.Descending && r.ID <= q.StartID) || (!q.Descending && r.ID >= q.StartID) {
			all = append(all, r)
		}
	}
	lim := int(q.Limit)
	if lim < 0 {
		lim = 0
	}
	if lim > l.cut {
		lim = l.cut
	}
	if len(all) > lim {
		return all[:lim], true, nil
	}
	return all, l.more == 1 && len(all) >= lim, nil
}

// TestVerifPages reads logs page by page and compares the pages with the records.
func TestVerifPages(t *testing.T) {
	ms, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if ms == 0 {
		ms = 5000
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	end := time.Now().Add(time.Duration(ms) * time.Millisecond)
	n := 0
	for time.Now().Before(end) {
		n++
		k := 1 + rnd.Intn(4)
		ls := &vpLog{recs: map[string][]*solaris.Record{}, cut: 1 + rnd.Intn(120), more: rnd.Intn(2)}
		var logs []string
		for i := 0; i < k; i++ {
			logs = append(logs, fmt.Sprint("log", i))
		}
		total := rnd.Intn(12)
		if rnd.Intn(4) == 0 {
			total = rnd.Intn(260)
		}
		var ids []string
		var id ulid.ULID
		id[2] = 1
		for i := 0; i < total; i++ {
			id[15]++
			if id[15] == 0 {
				id[14]++
			}
			if rnd.Intn(3) == 0 {
				id[15] |= 0xf
			}
			s := id.String()
			l := logs[rnd.Intn(k)]
			ls.recs[l] = append(ls.recs[l], &solaris.Record{ID: s, LogID: l})
			ids = append(ids, s)
		}
		desc := rnd.Intn(2) == 0
		if desc {
			for i, j := 0, len(ids)-1; i < j; i, j = i+1, j-1 {
				ids[i], ids[j] = ids[j], ids[i]
			}
		}
		lim := int64(1 + rnd.Intn(6))
		if rnd.Intn(4) == 0 {
			lim = int64(1 + rnd.Intn(200))
		}
		s := &Service{LogStorage: ls, logger: logging.NewLogger("verif")}
		func() {
			what := fmt.Sprintf("%d records in %d logs, descending=%v, limit=%d, %d records at most in a storage answer", total, k, desc, lim, ls.cut)
			defer func() {
				if e := recover(); e != nil {
					fmt.Printf("COUNTEREXAMPLE: %s: panic: %v\n", what, e)
					t.FailNow()
				}
			}()
			if rnd.Intn(10) == 0 {
				for _, l := range []int64{0, -1, -rnd.Int63()} {
					r, err := s.QueryRecords(context.Background(), &solaris.QueryRecordsRequest{LogIDs: logs, Descending: desc, Limit: l})
					if err == nil && len(r.Records) > 0 {
						fmt.Printf("COUNTEREXAMPLE: %s: a query with the limit %d returned %d records\n", what, l, len(r.Records))
						t.FailNow()
					}
				}
			}
			start, pos := "", 0
			for page := 0; ; page++ {
				r, err := s.QueryRecords(context.Background(), &solaris.QueryRecordsRequest{LogIDs: logs, Descending: desc, StartRecordID: start, Limit: lim})
				if err != nil {
					fmt.Printf("COUNTEREXAMPLE: %s: page %d: error %v\n", what, page, err)
					t.FailNow()
				}
				if int64(len(r.Records)) > lim || pos+len(r.Records) > total {
					fmt.Printf("COUNTEREXAMPLE: %s: page %d (start %q) has %d records after %d\n", what, page, start, len(r.Records), pos)
					t.FailNow()
				}
				for _, rec := range r.Records {
					if rec.ID != ids[pos] {
						fmt.Printf("COUNTEREXAMPLE: %s: page %d (start %q) has %s where record %d is %s\n", what, page, start, rec.ID, pos, ids[pos])
						t.FailNow()
					}
					pos++
				}
				if r.NextPageID == "" {
					if pos != total {
						fmt.Printf("COUNTEREXAMPLE: %s: page %d (start %q) has no token, %d records are read\n", what, page, start, pos)
						t.FailNow()
					}
					return
				}
				start = r.NextPageID
			}
		}()
	}
	fmt.Printf("EVALUATIONS: %d\n", n)
}
