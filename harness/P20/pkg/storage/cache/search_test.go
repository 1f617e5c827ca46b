package cache

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
)

// vcStore is a storage every operation of which can fail, before or after its effect.
type vcStore struct {
	rnd   *rand.Rand
	logs  map[string]string
	chks  map[string]map[string]int
	next  int
	fails bool // the last operation failed
}

func (s *vcStore) fail() (before, after bool) {
	switch s.rnd.Intn(8) {
	case 0:
		before = true
	case 1:
		after = true
	}
	s.fails = before || after
	return
}

func (s *vcStore) GetLogByID(ctx context.Context, id string) (*solaris.Log, error) {
	if b, a := s.fail(); b || a {
		return nil, fmt.Errorf("read failed")
	}
	v, ok := s.logs[id]
	if !ok {
		s.fails = true
		return nil, errors.ErrNotExist
	}
	return &solaris.Log{ID: id, Tags: map[string]string{"v": v}}, nil
}

func (s *vcStore) CreateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
	b, a := s.fail()
	if b {
		return nil, fmt.Errorf("failed")
	}
	_ = a
	s.fails = false
	id := fmt.Sprintf("n%d", s.next)
	s.next++
	s.logs[id] = log.Tags["v"]
	return &solaris.Log{ID: id, Tags: log.Tags}, nil
}

func (s *vcStore) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
	b, a := s.fail()
	if b {
		return nil, fmt.Errorf("failed")
	}
	if _, ok := s.logs[log.ID]; !ok {
		s.fails = true
		return nil, errors.ErrNotExist
	}
	s.logs[log.ID] = log.Tags["v"]
	if a {
		return nil, fmt.Errorf("failed after the update")
	}
	return log, nil
}

func (s *vcStore) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*solaris.QueryLogsResult, error) {
	if b, a := s.fail(); b || a {
		return nil, fmt.Errorf("failed")
	}
	return &solaris.QueryLogsResult{Total: int64(len(s.logs))}, nil
}

func (s *vcStore) DeleteLogs(ctx context.Context, req storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	b, a := s.fail()
	if b {
		return nil, fmt.Errorf("failed")
	}
	r := &solaris.DeleteLogsResult{}
	ids := req.IDs
	if len(ids) == 0 { // a condition: the logs of a value
		for id, v := range s.logs {
			if v == req.Condition {
				ids = append(ids, id)
			}
		}
	}
	for i, id := range ids {
		if a && i > 0 && i == len(ids)-1 {
			break
		}
		delete(s.logs, id)
		delete(s.chks, id)
		r.DeletedIDs = append(r.DeletedIDs, id)
	}
	if a {
		return nil, fmt.Errorf("failed half way")
	}
	return r, nil
}

func (s *vcStore) list(id string) []logfs.ChunkInfo {
	var r []logfs.ChunkInfo
	for c, n := range s.chks[id] {
		r = append(r, logfs.ChunkInfo{ID: c, RecordsCount: n})
	}
	return r
}

func (s *vcStore) GetLastChunk(ctx context.Context, logID string) (logfs.ChunkInfo, error) {
	if b, a := s.fail(); b || a {
		return logfs.ChunkInfo{}, fmt.Errorf("read failed")
	}
	return vcLast(s.list(logID)), nil
}

func (s *vcStore) GetChunks(ctx context.Context, logID string) ([]logfs.ChunkInfo, error) {
	if b, a := s.fail(); b || a {
		return nil, fmt.Errorf("read failed")
	}
	r := s.list(logID)
	s.rnd.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r, nil
}

func (s *vcStore) UpsertChunkInfos(ctx context.Context, logID string, cis []logfs.ChunkInfo) error {
	b, a := s.fail()
	if b {
		return fmt.Errorf("failed")
	}
	if s.chks[logID] == nil {
		s.chks[logID] = map[string]int{}
	}
	for _, c := range cis {
		s.chks[logID][c.ID] = c.RecordsCount
	}
	if a {
		return fmt.Errorf("failed after the change")
	}
	return nil
}

func vcLast(l []logfs.ChunkInfo) logfs.ChunkInfo {
	var r logfs.ChunkInfo
	for i, c := range l {
		if i == 0 || r.ID < c.ID {
			r = c
		}
	}
	return r
}

// TestVerifCache runs random histories and compares every read with the storage.
func TestVerifCache(t *testing.T) {
	ms, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if ms == 0 {
		ms = 5000
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	dl := time.Now().Add(time.Duration(ms) * time.Millisecond)
	n := int64(0)
	for time.Now().Before(dl) {
		if msg := vcHistory(rand.New(rand.NewSource(seed*1000003+n)), 3+int(n/500)%60); msg != "" {
			fmt.Println("COUNTEREXAMPLE:", msg)
			t.Fatal("violated")
		}
		n++
	}
	fmt.Println("EVALUATIONS:", n)
}

func vcHistory(rnd *rand.Rand, steps int) (msg string) {
	var h []string
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic %v after %s", r, strings.Join(h, "; "))
		}
	}()
	bad := func(f string, a ...any) string { return fmt.Sprintf(f, a...) + " after " + strings.Join(h, "; ") }
	st := &vcStore{rnd: rnd, logs: map[string]string{}, chks: map[string]map[string]int{}}
	ids := []string{"a", "b", "c"}[:1+rnd.Intn(3)]
	for _, id := range ids {
		st.logs[id] = "0"
	}
	c := NewCachedStorage(st)
	ctx := context.Background()
	told := func(err error) string {
		if (err != nil) != st.fails {
			return bad("the storage failed: %v, reported: %v", st.fails, err)
		}
		return ""
	}
	for i := 0; i < steps; i++ {
		id := ids[rnd.Intn(len(ids))]
		st.fails = false
		m := ""
		switch rnd.Intn(11) {
		case 0:
			v := strconv.Itoa(i)
			_, err := c.UpdateLog(ctx, &solaris.Log{ID: id, Tags: map[string]string{"v": v}})
			h = append(h, fmt.Sprintf("UpdateLog(%s,%s)=%v", id, v, err))
			m = told(err)
		case 1:
			if rnd.Intn(3) > 0 {
				continue
			}
			req := storage.DeleteLogsRequest{IDs: []string{id, ids[rnd.Intn(len(ids))]}}
			if rnd.Intn(2) == 0 {
				req = storage.DeleteLogsRequest{Condition: st.logs[id]}
			}
			r, err := c.DeleteLogs(ctx, req)
			h = append(h, fmt.Sprintf("DeleteLogs(%v)=%v,%v", req, r, err))
			m = told(err)
		case 2, 3:
			ci := logfs.ChunkInfo{ID: fmt.Sprintf("c%d", rnd.Intn(9)), RecordsCount: i}
			err := c.UpsertChunkInfos(ctx, id, []logfs.ChunkInfo{ci})
			h = append(h, fmt.Sprintf("UpsertChunkInfos(%s,%s:%d)=%v", id, ci.ID, i, err))
			m = told(err)
		case 4:
			if rnd.Intn(4) > 0 {
				continue
			}
			r, err := c.QueryLogs(ctx, storage.QueryLogsRequest{})
			h = append(h, "QueryLogs")
			if m = told(err); m == "" && err == nil && r.Total != int64(len(st.logs)) {
				m = bad("QueryLogs returned %d", r.Total)
			}
		case 5:
			if rnd.Intn(4) > 0 {
				continue
			}
			l, err := c.CreateLog(ctx, &solaris.Log{Tags: map[string]string{"v": "new"}})
			h = append(h, "CreateLog")
			if m = told(err); m == "" && err == nil {
				ids = append(ids[:len(ids):len(ids)], l.ID)
			}
		case 6, 7:
			l, err := c.GetLogByID(ctx, id)
			h = append(h, fmt.Sprintf("GetLogByID(%s)=%v", id, err))
			if err != nil {
				m = told(err)
			} else if v, ok := st.logs[id]; !ok || l.ID != id || l.Tags["v"] != v {
				m = bad("GetLogByID(%s) returned %v, the storage has %q (%v)", id, l, v, ok)
			}
		case 8:
			ci, err := c.GetLastChunk(ctx, id)
			h = append(h, fmt.Sprintf("GetLastChunk(%s)=%v", id, err))
			if err != nil {
				m = told(err)
			} else if w := vcLast(st.list(id)); w != ci {
				m = bad("GetLastChunk(%s) returned %v, the storage has %v", id, ci, w)
			}
		default:
			cis, err := c.GetChunks(ctx, id)
			h = append(h, fmt.Sprintf("GetChunks(%s)=%v", id, err))
			if err != nil {
				m = told(err)
				break
			}
			w := st.chks[id]
			ok := len(w) == len(cis)
			for _, ci := range cis {
				n, has := w[ci.ID]
				ok = ok && has && n == ci.RecordsCount
			}
			if !ok {
				m = bad("GetChunks(%s) returned %v, the storage has %v", id, cis, w)
			}
		}
		if m != "" {
			return m
		}
	}
	return ""
}
