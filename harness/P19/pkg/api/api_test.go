package api

import (
	"context"
	"fmt"
	"testing"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"google.golang.org/grpc/status"
)

type p19st struct {
	storage.Logs
	storage.Log
	e  error // error of the catalog
	e2 error // error of the records
}

func (s *p19st) CreateLog(ctx context.Context, l *solaris.Log) (*solaris.Log, error) { return l, s.e }
func (s *p19st) UpdateLog(ctx context.Context, l *solaris.Log) (*solaris.Log, error) { return l, s.e }
func (s *p19st) GetLogByID(ctx context.Context, id string) (*solaris.Log, error) {
	return &solaris.Log{ID: id}, s.e
}
func (s *p19st) QueryLogs(ctx context.Context, q storage.QueryLogsRequest) (*solaris.QueryLogsResult, error) {
	return &solaris.QueryLogsResult{Logs: []*solaris.Log{{ID: "a"}, {ID: "b"}}}, s.e
}
func (s *p19st) DeleteLogs(ctx context.Context, q storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	return &solaris.DeleteLogsResult{}, s.e
}
func (s *p19st) AppendRecords(ctx context.Context, q *solaris.AppendRecordsRequest) (*solaris.AppendRecordsResult, error) {
	return &solaris.AppendRecordsResult{}, s.e2
}
func (s *p19st) QueryRecords(ctx context.Context, q storage.QueryRecordsRequest) ([]*solaris.Record, bool, error) {
	return nil, false, s.e2
}
func (s *p19st) CountRecords(ctx context.Context, q storage.QueryRecordsRequest) (uint64, uint64, error) {
	return 0, 0, s.e2
}

// Search for a storage error that a service method hides or does not turn into the remote error of its class.
func TestVerifP19(t *testing.T) {
	fail := func(f string, a ...any) { t.Helper(); t.Fatalf("COUNTEREXAMPLE: "+f, a...) }
	classes := []error{errors.ErrExist, errors.ErrNotExist, errors.ErrInvalid, errors.ErrNotAuthorized, errors.ErrInternal, errors.ErrDataLoss, errors.ErrExhausted, errors.ErrUnimplemented, errors.ErrConflict, errors.ErrCanceled}
	for _, cl := range classes {
		for d := 0; d < 3; d++ {
			e := cl
			for i := 0; i < d; i++ {
				e = fmt.Errorf("w: %w", e)
			}
			want := status.Code(errors.GRPCWrap(e))
			for mode := 0; mode < 3; mode++ {
				st := &p19st{}
				if mode == 1 {
					st.e = e
				}
				if mode == 2 {
					st.e2 = e
				}
				s := NewService()
				s.LogsStorage, s.LogStorage = st, st
				ctx := context.Background()
				for name, f := range map[string]struct {
					uses int // 1 catalog, 2 records, 3 both
					f    func() error
				}{
					"CreateLog":  {1, func() error { _, e := s.CreateLog(ctx, &solaris.Log{}); return e }},
					"UpdateLog":  {1, func() error { _, e := s.UpdateLog(ctx, &solaris.Log{}); return e }},
					"QueryLogs":  {1, func() error { _, e := s.QueryLogs(ctx, &solaris.QueryLogsRequest{}); return e }},
					"DeleteLogs": {1, func() error { _, e := s.DeleteLogs(ctx, &solaris.DeleteLogsRequest{}); return e }},
					"AppendRecords": {3, func() error {
						_, e := s.AppendRecords(ctx, &solaris.AppendRecordsRequest{LogID: "a"})
						return e
					}},
					"CountRecords": {3, func() error { _, e := s.CountRecords(ctx, &solaris.QueryRecordsRequest{}); return e }},
					"CountRecords(ids)": {2, func() error {
						_, e := s.CountRecords(ctx, &solaris.QueryRecordsRequest{LogIDs: []string{"a", "b"}})
						return e
					}},
					"QueryRecords(id)": {2, func() error {
						_, e := s.QueryRecords(ctx, &solaris.QueryRecordsRequest{LogIDs: []string{"a"}, Limit: 5})
						return e
					}},
				} {
					func() {
						defer func() {
							if p := recover(); p != nil {
								fail("%s panics on the storage error %v: %v", name, e, p)
							}
						}()
						got := f.f()
						failing := mode > 0 && f.uses&mode != 0
						if failing && (got == nil || status.Code(got) != want) || !failing && got != nil {
							fail("%s with storage errors catalog=%v records=%v returns %v", name, st.e, st.e2, got)
						}
					}()
				}
			}
		}
	}
}
