package github.com/solarisdb/solaris/golibs/container/iterable

// An iterator is a stream: itElem(it, 0), itElem(it, 1), ..., itElem(it, itTotal(it)-1), with a position in itPos.
uf itElem(error, Z) E
uf itTotal(error) Z
ghostvar itPos array[error] int

extern github.com/solarisdb/solaris/golibs/container/iterable.Iterator.HasNext(it) (r)
  ensures 0 <= itPos[it] && itPos[it] <= itTotal(it)
  ensures itPos[it] < itTotal(it) ==> r
extern github.com/solarisdb/solaris/golibs/container/iterable.Iterator.Next(it) (v, ok)
  modifies ghost(itPos)
  ensures 0 <= old(itPos[it]) && old(itPos[it]) <= itTotal(it)
  ensures ok <==> old(itPos[it]) < itTotal(it)
  ensures ok ==> v == itElem(it, old(itPos[it]))
  ensures itPos[it] == old(itPos[it]) + (ok ? 1 : 0)
  ensures forall o error :: { itPos[o] } o != it ==> itPos[o] == old(itPos[o])

// the number of elements of a source that were already returned
macro used1(m) = itPos[m.src1.it] - (m.src1.load ? 1 : 0)
macro used2(m) = itPos[m.src2.it] - (m.src2.load ? 1 : 0)
macro left1(m) = used1(m) < itTotal(m.src1.it)
macro left2(m) = used2(m) < itTotal(m.src2.it)
macro srcOK(s) = s.it != nil && 0 <= itPos[s.it] && itPos[s.it] <= itTotal(s.it) && (s.load ==> itPos[s.it] > 0 && s.e == itElem(s.it, itPos[s.it] - 1))
macro mixOK(m) = m.sf != nil && srcOK(m.src1) && srcOK(m.src2) && m.src1.it != m.src2.it && 0 <= m.st && m.st <= 3
  && (m.st == 1 ==> m.src1.load && (m.src2.load ? m.sf(m.src1.e, m.src2.e) : !left2(m)))
  && (m.st == 2 ==> m.src2.load && (m.src1.load ? !m.sf(m.src1.e, m.src2.e) : !left1(m)))
  && (m.st == 3 ==> !left1(m) && !left2(m))
macro mixSame(m) = m.sf == old(m.sf) && m.src1.it == old(m.src1.it) && m.src2.it == old(m.src2.it)
macro first(m) = left1(m) && (!left2(m) || m.sf(itElem(m.src1.it, used1(m)), itElem(m.src2.it, used2(m))))

// ghost: which log queries (numbered in order of their creation) an iterator covers, and by which function it merges them
ghostvar itLo array[error] int
ghostvar itHi array[error] int
ghostvar itSF array[error] int

// the selection function is a strict weak order, and both sources are sorted by it
macro swo(f) = (forall x, y E :: { f(x, y) } f(x, y) ==> !f(y, x)) && (forall x, y, z E :: { f(x, z), f(z, y) } f(x, y) ==> f(x, z) || f(z, y))
macro sortedIt(f, it) = forall j, k Z :: { itElem(it, j), itElem(it, k) } 0 <= j && j < k && k < itTotal(it) ==> !f(itElem(it, k), itElem(it, j))

func (mr *Mixer[E]) Init(sf, it1, it2)
  prop P10
  requires sf != nil && it1 != nil && it2 != nil && it1 != it2
  requires val(it1) != mr && val(it2) != mr
  modifies *mr, ghost(itLo), ghost(itHi), ghost(itSF)
  ghostset itLo store(itLo, mr, itLo[it1])
  ghostset itHi store(itHi, mr, itHi[it1] == itLo[it2] ? itHi[it2] : -1)
  ghostset itSF store(itSF, mr, (itSF[it1] == 0 || itSF[it1] == sf) && (itSF[it2] == 0 || itSF[it2] == sf) ? sf : -1)
  ensures @ok 0 <= itPos[it1] && itPos[it1] <= itTotal(it1) && 0 <= itPos[it2] && itPos[it2] <= itTotal(it2) ==> mixOK(mr)
  ensures itLo[mr] == old(itLo[it1]) && itHi[mr] == old(itHi[it1] == itLo[it2] ? itHi[it2] : -1)
  ensures itSF[mr] == old((itSF[it1] == 0 || itSF[it1] == sf) && (itSF[it2] == 0 || itSF[it2] == sf) ? sf : -1)
  ensures forall o error :: { itLo[o] } o != mr ==> itLo[o] == old(itLo[o])
  ensures forall o error :: { itHi[o] } o != mr ==> itHi[o] == old(itHi[o])
  ensures forall o error :: { itSF[o] } o != mr ==> itSF[o] == old(itSF[o])
  ensures @src mr.sf == sf && mr.src1.it == it1 && mr.src2.it == it2
  ensures @start used1(mr) == itPos[it1] && used2(mr) == itPos[it2]
func (mr *Mixer[E]) HasNext() (r)
  prop P10
  requires mixOK(mr)
  modifies *mr, ghost(itPos)
  ensures @ok mixOK(mr) && mixSame(mr)
  ensures @def r <==> left1(mr) || left2(mr)
  ensures @nochange used1(mr) == old(used1(mr)) && used2(mr) == old(used2(mr))
  ensures @others forall o error :: { itPos[o] } o != mr.src1.it && o != mr.src2.it ==> itPos[o] == old(itPos[o])
func (mr *Mixer[E]) Next() (v, ok)
  prop P10
  requires mixOK(mr)
  modifies *mr, ghost(itPos)
  ensures @ok mixOK(mr) && mixSame(mr)
  ensures @end ok <==> old(left1(mr)) || old(left2(mr))
  ensures @first old(first(mr)) ==> v == itElem(mr.src1.it, old(used1(mr))) && used1(mr) == old(used1(mr)) + 1 && used2(mr) == old(used2(mr))
  ensures @second old(!first(mr)) && ok ==> v == itElem(mr.src2.it, old(used2(mr))) && used2(mr) == old(used2(mr)) + 1 && used1(mr) == old(used1(mr))
  ensures @none !ok ==> used1(mr) == old(used1(mr)) && used2(mr) == old(used2(mr))
  ensures @others forall o error :: { itPos[o] } o != mr.src1.it && o != mr.src2.it ==> itPos[o] == old(itPos[o])
  ensures @sorted1 ok && swo(mr.sf) && sortedIt(mr.sf, mr.src1.it) && sortedIt(mr.sf, mr.src2.it) ==> forall k Z :: { itElem(mr.src1.it, k) } used1(mr) <= k && k < itTotal(mr.src1.it) ==> !mr.sf(itElem(mr.src1.it, k), v)
  ensures @sorted2 ok && swo(mr.sf) && sortedIt(mr.sf, mr.src1.it) && sortedIt(mr.sf, mr.src2.it) ==> forall k Z :: { itElem(mr.src2.it, k) } used2(mr) <= k && k < itTotal(mr.src2.it) ==> !mr.sf(itElem(mr.src2.it, k), v)
extern github.com/solarisdb/solaris/golibs.Reseter.Reset(r) (err)
  modifies ghost(itPos)
  ensures err == nil ==> itPos[r] == 0
  ensures forall o error :: { itPos[o] } o != r ==> itPos[o] == old(itPos[o])
func (mr *Mixer[E]) Reset() (err)
  prop P10
  requires mixOK(mr)
  modifies *mr, ghost(itPos)
  ensures @ok err == nil ==> mixOK(mr) && mixSame(mr) && used1(mr) == 0 && used2(mr) == 0
func (mr *Mixer[E]) Close() (err)
  prop P10
  modifies *mr
  ensures @closed mr.src1.it == nil && mr.src2.it == nil
extern github.com/solarisdb/solaris/golibs/container/iterable.Iterator.Close(it) (err)
func (ei *EmptyIterator[V]) HasNext() (r)
  prop P10
  ensures @def !r
func (ei *EmptyIterator[V]) Next() (v, ok)
  prop P10
  ensures @def !ok

package github.com/solarisdb/solaris/pkg/api

ghostvar leafN Z
ghostvar leafLog array string
func newRIterator(ctx, cf, ls, baseQuery) (r)
  prop P10
  modifies ghost(itLo), ghost(itHi), ghost(itSF), ghost(leafN), ghost(leafLog)
  ghostset itLo store(itLo, r, leafN)
  ghostset itHi store(itHi, r, leafN + 1)
  ghostset itSF store(itSF, r, 0)
  ghostset leafLog store(leafLog, leafN, baseQuery.LogID)
  ghostset leafN leafN + 1
  ensures @new fresh(r) && r != nil
  ensures @q r.baseQuery == baseQuery && r.nextID == baseQuery.StartID && !r.eof && len(r.buf) == 0 && r.ls == ls && r.ctx == ctx && r.cf == cf
  ensures itLo[r] == old(leafN) && itHi[r] == old(leafN) + 1 && itSF[r] == 0 && leafN == old(leafN) + 1 && leafLog[old(leafN)] == baseQuery.LogID
  ensures forall o error :: { itLo[o] } val(o) != r ==> itLo[o] == old(itLo[o])
  ensures forall o error :: { itHi[o] } val(o) != r ==> itHi[o] == old(itHi[o])
  ensures forall o error :: { itSF[o] } val(o) != r ==> itSF[o] == old(itSF[o])
  ensures forall k Z :: { leafLog[k] } k != old(leafN) ==> leafLog[k] == old(leafLog[k])

func ascendingRecords(r1, r2) (r)
  prop P10
  requires r1 != nil && r2 != nil
  ensures @def r <==> r1.ID < r2.ID
func descendingRecords(r1, r2) (r)
  prop P10
  requires r1 != nil && r2 != nil
  ensures @def r <==> r1.ID > r2.ID

// every log of the query is read by exactly one iterator, and all of them are merged by the order of the query
// the stream that the last call of newMixer returned, and where it stood
ghostvar mxIt error
ghostvar mxPos Z
func newMixer(ctx, cancel, ls, baseQuery, logIDs) (r)
  prop P10
  modifies ghost(itLo), ghost(itHi), ghost(itSF), ghost(leafN), ghost(leafLog), ghost(mxIt), ghost(mxPos)
  ghostset mxIt r
  ghostset mxPos itPos[r]
  inv leafN == old(leafN) + #
  inv forall k Z :: { leafLog[k] } old(leafN) <= k && k < old(leafN) + # ==> leafLog[k] == logIDs[k - old(leafN)]
  inv leafN == old(leafN) + len(logIDs)
  inv forall k Z :: { leafLog[k] } old(leafN) <= k && k < old(leafN) + len(logIDs) ==> leafLog[k] == logIDs[k - old(leafN)]
  inv [u anyislice] forall k int :: { u[k] } 0 <= k && k < # ==> u[k] != nil
  inv [u anyislice] forall k int :: { u[k] } 0 <= k && k < # ==> itSF[u[k]] == 0
  inv [u anyislice] forall k int :: { u[k] } 0 <= k && k < # ==> itLo[u[k]] == old(leafN) + k && itHi[u[k]] == old(leafN) + k + 1
  inv [u anyislice] forall k int :: { u[k] } 0 <= k && k < # ==> alloc(u[k])
  inv [u islice] forall k int :: { u[k] } 0 <= k && k < len(u) ==> alloc(u[k])
  inv [u anyislice, i int] forall k int :: { u[k] } (0 <= k && k < i / 2 || i <= k && k < len(u)) ==> alloc(u[k])
  inv [u islice] len(u) >= 1 && len(u) <= len(logIDs)
  inv [u islice] forall k int :: { u[k] } 0 <= k && k < len(u) ==> u[k] != nil && itLo[u[k]] < itHi[u[k]]
  inv [u islice] forall k int :: { u[k] } 0 <= k && k < len(u) ==> itSF[u[k]] == 0 || itSF[u[k]] == (baseQuery.Descending ? descendingRecords : ascendingRecords)
  inv [u islice] len(u) == 1 && len(logIDs) > 1 ==> itSF[u[0]] == (baseQuery.Descending ? descendingRecords : ascendingRecords)
  inv [u islice] itLo[u[0]] == old(leafN)
  inv [u islice] itHi[u[len(u)-1]] == old(leafN) + len(logIDs)
  inv [u islice] forall j, k int :: { u[j], u[k] } 0 <= j && j < k && k < len(u) ==> itHi[u[j]] <= itLo[u[k]]
  inv [u islice] forall j, k int :: { u[j], u[k] } 0 <= j && k == j + 1 && k < len(u) ==> itHi[u[j]] == itLo[u[k]]
  inv [i int] 0 <= i && i % 2 == 0
  inv [u anyislice, i int] i <= len(u)
  inv [u anyislice, i int] forall k int :: { u[k] } (0 <= k && k < i / 2 || i <= k && k < len(u)) ==> u[k] != nil && itLo[u[k]] < itHi[u[k]]
  inv [u anyislice, i int] forall k int :: { u[k] } 0 <= k && k < i / 2 ==> itSF[u[k]] == (baseQuery.Descending ? descendingRecords : ascendingRecords)
  inv [u anyislice, i int] forall k int :: { u[k] } i <= k && k < len(u) ==> itSF[u[k]] == 0 || itSF[u[k]] == (baseQuery.Descending ? descendingRecords : ascendingRecords)
  inv [u anyislice, i int] itLo[u[0]] == old(leafN)
  inv [u anyislice, i int] i < len(u) ==> itHi[u[len(u)-1]] == old(leafN) + len(logIDs)
  inv [u anyislice, i int] i == len(u) ==> itHi[u[i/2-1]] == old(leafN) + len(logIDs)
  inv [u anyislice, i int] 0 < i && i < len(u) ==> itHi[u[i/2-1]] == itLo[u[i]]
  inv [u anyislice, i int] forall j, k int :: { u[j], u[k] } (0 <= j && j < i / 2 || i <= j) && (0 <= k && k < i / 2 || i <= k && k < len(u)) && j < k ==> itHi[u[j]] <= itLo[u[k]]
  inv [u anyislice, i int] forall j, k int :: { u[j], u[k] } (0 <= j && k < i / 2 || i <= j && k < len(u)) && k == j + 1 ==> itHi[u[j]] == itLo[u[k]]
  ensures @some r != nil
  ensures @lo len(logIDs) > 0 ==> itLo[r] == old(leafN)
  ensures @hi len(logIDs) > 0 ==> itHi[r] == old(leafN) + len(logIDs)
  ensures @logs forall i int :: { logIDs[i] } 0 <= i && i < len(logIDs) ==> leafLog[old(leafN) + i] == logIDs[i]
  ensures @order len(logIDs) > 1 ==> itSF[r] == (baseQuery.Descending ? descendingRecords : ascendingRecords)
  ensures @result mxIt == r && mxPos == itPos[r]
