package github.com/solarisdb/solaris/pkg/api

// the error of the last storage operation
ghostvar stErr error
extern github.com/solarisdb/solaris/pkg/storage.Logs.CreateLog(s, ctx, log) (r, err)
  modifies ghost(stErr)
  ensures stErr == err
extern github.com/solarisdb/solaris/pkg/storage.Logs.UpdateLog(s, ctx, log) (r, err)
  modifies ghost(stErr)
  ensures stErr == err
extern github.com/solarisdb/solaris/pkg/storage.Logs.QueryLogs(s, ctx, q) (r, err)
  modifies ghost(stErr)
  ensures stErr == err
  ensures err == nil ==> r != nil && forall i int :: { r.Logs[i] } 0 <= i && i < len(r.Logs) ==> r.Logs[i] != nil
extern github.com/solarisdb/solaris/pkg/storage.Logs.DeleteLogs(s, ctx, q) (r, err)
  modifies ghost(stErr)
  ensures stErr == err
  ensures err == nil ==> r != nil
extern github.com/solarisdb/solaris/pkg/storage.Logs.GetLogByID(s, ctx, id) (r, err)
  modifies ghost(stErr)
  ensures stErr == err
extern github.com/solarisdb/solaris/pkg/storage.Log.AppendRecords(s, ctx, q) (r, err)
  modifies ghost(stErr)
  ensures stErr == err
extern github.com/solarisdb/solaris/pkg/storage.Log.CountRecords(s, ctx, q) (total, count, err)
  modifies ghost(stErr)
  ensures stErr == err

macro svcOK(s) = stErr == nil && s.LogsStorage != nil && s.LogStorage != nil && s.logger != nil
macro mapped(e) = (stErr != nil ==> e != nil) && (e != nil ==> scode(e) != 2) && forall t error :: ofClass(stErr, t) ==> scode(e) == codeOf(t)
func (s *Service) CreateLog(ctx, log) (r, err)
  prop P19
  requires svcOK(s)
  modifies ghost(stErr)
  ensures @class mapped(err) && ((err == nil) <==> (stErr == nil))
func (s *Service) UpdateLog(ctx, log) (r, err)
  prop P19
  requires svcOK(s)
  modifies ghost(stErr)
  ensures @class mapped(err) && ((err == nil) <==> (stErr == nil))
func (s *Service) QueryLogs(ctx, request) (r, err)
  prop P19
  requires svcOK(s) && request != nil
  modifies ghost(stErr)
  ensures @class mapped(err) && ((err == nil) <==> (stErr == nil))
func (s *Service) DeleteLogs(ctx, request) (r, err)
  prop P19
  requires svcOK(s) && request != nil
  modifies ghost(stErr)
  ensures @class mapped(err) && ((err == nil) <==> (stErr == nil))
func (s *Service) AppendRecords(ctx, request) (r, err)
  prop P19
  requires svcOK(s) && request != nil
  modifies ghost(stErr)
  ensures @class mapped(err) && ((err == nil) <==> (stErr == nil))
func (s *Service) CountRecords(ctx, request) (r, err)
  prop P19
  inv stErr == nil
  requires svcOK(s) && request != nil
  modifies ghost(stErr)
  ensures @class mapped(err)
