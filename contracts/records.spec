package github.com/solarisdb/solaris/pkg/api

// The records of a log that match a condition, by position: their identifiers grow strictly.
uf lgN(string, string) Z
uf lgID(string, string, Z) Z
axiom lgOrder(c string, l string, j Z, k Z) 0 <= j && j < k && k < lgN(c, l) ==> lgID(c, l, j) < lgID(c, l, k)
  trigger lgID(c, l, j), lgID(c, l, k)
// no identifier is the least or the greatest of all: generated ones are not
axiom lgRange(c string, l string, k Z) 0 <= k && k < lgN(c, l) ==> 0 < lgID(c, l, k) && lgID(c, l, k) < pow2(128) - 1
  trigger lgID(c, l, k)
axiom lgCount(c string, l string) 0 <= lgN(c, l)
  trigger lgN(c, l)
// the position a read starts at: the first record not before the start (in the direction of the read)
uf lgFrom(string, string, string, bool) Z
axiom lgFromAll(c string, l string) lgFrom(c, l, "", false) == 0 && lgFrom(c, l, "", true) == lgN(c, l) - 1
  trigger lgN(c, l)
axiom lgFromAsc(c string, l string, s string) s != "" && ulidOK(s) ==> (lgFrom(c, l, s, false) < lgN(c, l) ==> ulidVal(s) <= lgID(c, l, lgFrom(c, l, s, false))) && (lgFrom(c, l, s, false) > 0 ==> lgID(c, l, lgFrom(c, l, s, false) - 1) < ulidVal(s))
  trigger lgFrom(c, l, s, false)
axiom lgFromDesc(c string, l string, s string) s != "" && ulidOK(s) ==> (lgFrom(c, l, s, true) >= 0 ==> lgID(c, l, lgFrom(c, l, s, true)) <= ulidVal(s)) && (lgFrom(c, l, s, true) + 1 < lgN(c, l) ==> ulidVal(s) < lgID(c, l, lgFrom(c, l, s, true) + 1))
  trigger lgFrom(c, l, s, true)
axiom lgFromIn(c string, l string, s string, d bool) d ? -1 <= lgFrom(c, l, s, d) && lgFrom(c, l, s, d) < lgN(c, l) : 0 <= lgFrom(c, l, s, d) && lgFrom(c, l, s, d) <= lgN(c, l)
  trigger lgFrom(c, l, s, d)
axiom idText(n Z) 0 <= n && n < pow2(128) ==> ulidOK(ulidText(n)) && ulidVal(ulidText(n)) == n && ulidText(n) != ""
  trigger ulidText(n)
axiom idNone(s string) ulidOK(s) ==> s != ""
  trigger ulidOK(s)

// the token arithmetic: a start at a record, after it, before it
lemma lgAt(c string, l string, s string, k Z)
  prop P09
  uses lgOrder lgRange lgFromAsc lgFromDesc lgFromIn idNone
  trigger ulidVal(s), lgID(c, l, k)
  ensures ulidOK(s) && 0 <= k && k < lgN(c, l) && ulidVal(s) == lgID(c, l, k) ==> lgFrom(c, l, s, false) == k && lgFrom(c, l, s, true) == k
lemma lgAfter(c string, l string, s string, k Z)
  prop P09
  uses lgOrder lgRange lgFromAsc lgFromDesc lgFromIn idNone
  trigger ulidVal(s), lgID(c, l, k)
  ensures ulidOK(s) && 0 <= k && k < lgN(c, l) && ulidVal(s) == lgID(c, l, k) + 1 ==> lgFrom(c, l, s, false) == k + 1
lemma lgBefore(c string, l string, s string, k Z)
  prop P09
  uses lgOrder lgRange lgFromAsc lgFromDesc lgFromIn idNone
  trigger ulidVal(s), lgID(c, l, k)
  ensures ulidOK(s) && 0 <= k && k < lgN(c, l) && ulidVal(s) == lgID(c, l, k) - 1 ==> lgFrom(c, l, s, true) == k - 1

macro nth(d, f, n) = (d ? f - (n) : f + (n))
macro from(q) = lgFrom(q.Condition, q.LogID, q.StartID, q.Descending)
macro rest(c, l, d, f) = (d ? f + 1 : lgN(c, l) - f)

// A read of a log: the records from the start on, at most the limit of them; at least one if there are any and the limit allows it.
extern github.com/solarisdb/solaris/pkg/storage.Log.QueryRecords(s, ctx, q) (r, more, err)
  modifies ghost(stErr)
  ensures stErr == err
  ensures err == nil ==> len(r) <= max(q.Limit, 0) && len(r) <= rest(q.Condition, q.LogID, q.Descending, from(q))
  ensures err == nil ==> forall i int :: { r[i] } 0 <= i && i < len(r) ==> r[i] != nil && ulidOK(r[i].ID) && ulidVal(r[i].ID) == lgID(q.Condition, q.LogID, nth(q.Descending, from(q), i))
  ensures err == nil && q.Limit > 0 && rest(q.Condition, q.LogID, q.Descending, from(q)) > 0 ==> len(r) > 0
  ensures err == nil && !more ==> len(r) == rest(q.Condition, q.LogID, q.Descending, from(q))

// the context of a query reported an error
macro over(c) = chRecv[ctxDone(c)] == 1

// the position of the record an iterator returns next, and what it has read ahead
macro riPos(i) = lgFrom(i.baseQuery.Condition, i.baseQuery.LogID, i.nextID, i.baseQuery.Descending)
macro riEnd(i) = rest(i.baseQuery.Condition, i.baseQuery.LogID, i.baseQuery.Descending, riPos(i)) <= 0
macro riOK(i) = i.ls != nil && i.ctx != nil && i.cf != nil && i.baseQuery.Limit > 0 && (i.nextID == "" || ulidOK(i.nextID)) && 0 <= i.bPos
  && (forall k int :: { i.buf[k] } i.bPos <= k && k < len(i.buf) ==> i.buf[k] != nil && ulidOK(i.buf[k].ID) && ulidVal(i.buf[k].ID) == lgID(i.baseQuery.Condition, i.baseQuery.LogID, nth(i.baseQuery.Descending, riPos(i), k - i.bPos)))
  && (i.bPos < len(i.buf) ==> len(i.buf) - i.bPos <= rest(i.baseQuery.Condition, i.baseQuery.LogID, i.baseQuery.Descending, riPos(i)))
macro riSame(i) = i.ls == old(i.ls) && i.ctx == old(i.ctx) && i.cf == old(i.cf) && i.baseQuery == old(i.baseQuery)

func (ri *rIterator) fillBuf() (err)
  prop P09
  uses lgRange lgCount lgFromAll lgFromIn idText idNone lgAt lgAfter lgBefore
  requires riOK(ri) && stErr == nil && (ri.eof ==> riEnd(ri))
  modifies *ri, ghost(stErr), ghost(chRecv)
  ensures @ok riSame(ri) && (stErr == nil ==> riOK(ri)) && (err == nil ==> stErr == nil)
  ensures @same ri.nextID == old(ri.nextID)
  ensures @some err == nil && ri.bPos >= len(ri.buf) ==> ri.eof && riEnd(ri)
  ensures @eof stErr == nil && ri.eof ==> riEnd(ri)
  ensures @more stErr == nil && !ri.eof && old(ri.bPos >= len(ri.buf)) ==> ri.bPos < len(ri.buf)
  ensures @err err != nil ==> stErr != nil || over(ri.ctx)
func (ri *rIterator) HasNext() (r)
  prop P09
  uses lgRange lgCount lgFromAll lgFromIn idText idNone lgAt lgAfter lgBefore
  requires riOK(ri) && stErr == nil && (ri.eof ==> riEnd(ri))
  modifies *ri, ghost(stErr), ghost(chRecv)
  ensures @ok riSame(ri) && ri.nextID == old(ri.nextID) && (stErr == nil ==> riOK(ri) && (ri.eof ==> riEnd(ri)))
  ensures @more r ==> !riEnd(ri)
  ensures @end !r && stErr == nil && !over(ri.ctx) ==> riEnd(ri)
func (ri *rIterator) Next() (v, ok)
  prop P09
  uses lgRange lgCount lgFromAll lgFromIn idText idNone lgAt lgAfter lgBefore
  requires riOK(ri) && stErr == nil && (ri.eof ==> riEnd(ri))
  inv stErr == nil && riSame(ri) && riOK(ri) && (ri.eof ==> riEnd(ri))
  inv ri.nextID == old(ri.nextID)
  modifies *ri, ghost(stErr), ghost(chRecv)
  ensures @ok riSame(ri) && (stErr == nil ==> riOK(ri) && (ri.eof ==> riEnd(ri)))
  ensures @next ok ==> old(!riEnd(ri)) && v != nil && ulidOK(v.ID) && ulidVal(v.ID) == lgID(ri.baseQuery.Condition, ri.baseQuery.LogID, old(riPos(ri)))
  ensures @step ok ==> riPos(ri) == nth(ri.baseQuery.Descending, old(riPos(ri)), 1)
  ensures @end !ok && stErr == nil && !over(ri.ctx) ==> riEnd(ri)
  ensures @stay !ok ==> ri.nextID == old(ri.nextID)

// the merged records of a query over several logs: the stream newMixer returned, from where it stood
uf mxRec(error, Z) ref
extern github.com/solarisdb/solaris/golibs/container/iterable.Iterator.HasNext#page(it) (r)
  ensures 0 <= itPos[it] && itPos[it] <= itTotal(it)
  ensures itPos[it] < itTotal(it) <==> r
extern github.com/solarisdb/solaris/golibs/container/iterable.Iterator.Next#page(it) (v, ok)
  modifies ghost(itPos)
  ensures 0 <= old(itPos[it]) && old(itPos[it]) <= itTotal(it)
  ensures ok <==> old(itPos[it]) < itTotal(it)
  ensures ok ==> v != nil && ref(v) == mxRec(it, old(itPos[it]))
  ensures itPos[it] == old(itPos[it]) + (ok ? 1 : 0)
extern github.com/solarisdb/solaris/golibs/context.WithCancelError(c) (r, f)
  ensures r != nil && f != nil

func (s *Service) QueryRecords#page(ctx, request) (r, err)
  prop P09
  uses lgRange lgCount lgFromAll lgFromIn idText idNone lgAt lgAfter lgBefore
  requires stErr == nil && s.LogsStorage != nil && s.LogStorage != nil && s.logger != nil && request != nil
  requires request.StartRecordID == "" || ulidOK(request.StartRecordID)
  modifies ghost(stErr), ghost(chRecv), ghost(itPos), ghost(mxIt), ghost(mxPos), ghost(itLo), ghost(itHi), ghost(itSF), ghost(leafN), ghost(leafLog)
  let one = len(request.LogIDs) == 1
  let c = request.Condition
  let l = request.LogIDs[0]
  let d = request.Descending
  let f = lgFrom(c, l, request.StartRecordID, d)
  inv [u slice, x int64] 0 <= len(u) && (request.Limit > 0 ==> len(u) + x == request.Limit && x >= 0) && (request.Limit <= 0 ==> len(u) == 0 && x == request.Limit)
  inv [u slice, x int64] itPos[mxIt] == mxPos + len(u)
  inv [u slice, x int64] forall k int :: { u[k] } 0 <= k && k < len(u) ==> ref(u[k]) == mxRec(mxIt, mxPos + k)
  ensures @limit err == nil ==> r != nil && len(r.Records) <= max(request.Limit, 0)
  ensures @one err == nil && one ==> len(r.Records) <= rest(c, l, d, f) && forall i int :: { r.Records[i] } 0 <= i && i < len(r.Records) ==> ulidVal(r.Records[i].ID) == lgID(c, l, nth(d, f, i))
  ensures @last err == nil && one && request.Limit > 0 && r.NextPageID == "" ==> len(r.Records) == rest(c, l, d, f)
  ensures @next err == nil && one && r.NextPageID != "" ==> len(r.Records) > 0 && ulidOK(r.NextPageID) && lgFrom(c, l, r.NextPageID, d) == nth(d, f, len(r.Records))
  ensures @many err == nil && len(request.LogIDs) > 1 ==> forall i int :: { r.Records[i] } 0 <= i && i < len(r.Records) ==> ref(r.Records[i]) == mxRec(mxIt, mxPos + i)
  ensures @manyEnd err == nil && len(request.LogIDs) > 1 && len(r.Records) < request.Limit ==> mxPos + len(r.Records) == itTotal(mxIt) && r.NextPageID == ""
  ensures @manyNext err == nil && len(request.LogIDs) > 1 && len(r.Records) == request.Limit ==> r.NextPageID == (mxPos + len(r.Records) < itTotal(mxIt) ? conv(mxRec(mxIt, mxPos + len(r.Records)), "*api/gen/solaris/v1.Record").ID : "")

// the class of the error of a query
extern github.com/solarisdb/solaris/golibs/container/iterable.Iterator.HasNext#class(it) (r)
extern github.com/solarisdb/solaris/golibs/container/iterable.Iterator.Next#class(it) (v, ok)
  modifies ghost(itPos), ghost(stErr)
  ensures ok ==> v != nil
extern github.com/solarisdb/solaris/pkg/storage.Log.QueryRecords#class(s, ctx, q) (r, more, err)
  modifies ghost(stErr)
  ensures stErr == err
  ensures err == nil ==> forall i int :: { r[i] } 0 <= i && i < len(r) ==> r[i] != nil && ulidOK(r[i].ID)
func (s *Service) QueryRecords#class(ctx, request) (r, err)
  prop P19
  requires svcOK(s) && request != nil
  modifies ghost(stErr), ghost(chRecv), ghost(itPos), ghost(mxIt), ghost(mxPos), ghost(itLo), ghost(itHi), ghost(itSF), ghost(leafN), ghost(leafLog)
  inv stErr == nil
  ensures @class len(request.LogIDs) == 1 ==> mapped(err) && ((err == nil) <==> (stErr == nil))
  ensures @coded err != nil ==> scode(err) != 2 && scode(err) != 0
