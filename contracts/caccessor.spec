package github.com/solarisdb/solaris/pkg/storage/chunkfs

// 1 once a channel is closed
ghostvar chClosed array int
// the right the calling goroutine holds for a chunk: 0 none, 2 writing, 3 deleting
ghostvar caHeld array[string] int
// how often a right was granted to it
ghostvar caGrants Z

macro stOf(cc, k) = k in cc.chunks ? cc.chunks[k].state : 0
macro opOf(cc, k) = k in cc.chunks && cc.chunks[k].opened
// the step leaves the chunk k as it was
macro caKept(cc, k) = stOf(cc, k) == old(stOf(cc, k)) && (opOf(cc, k) <==> old(opOf(cc, k)))

// 1 while the running goroutine itself has the chunk marked as open
ghostvar caOpen array[string] int
// 1 once the running goroutine has received from the channel
ghostvar chRecv array int
uf ctxDone(error) Z

monitor (cc *ChunkAccessor) lock
  modifies cc.closed, mapof(cc.chunks), heap(cc.chunks[""]), ghost(chClosed)
  inv @map cc.chunks != nil
  inv @done !cc.closed ==> cc.doneCh != nil && alloc(cc.doneCh) && chClosed[cc.doneCh] == 0
  inv @notdone forall k string :: { k in cc.chunks } k in cc.chunks && cc.chunks[k].waiterCh != nil ==> cc.chunks[k].waiterCh != cc.doneCh
  inv @recs forall k string :: { k in cc.chunks } k in cc.chunks ==> cc.chunks[k] != nil && alloc(cc.chunks[k]) && 1 <= cc.chunks[k].state && cc.chunks[k].state <= 3
  inv @own forall j, k string :: { cc.chunks[j], cc.chunks[k] } j in cc.chunks && k in cc.chunks && j != k ==> cc.chunks[j] != cc.chunks[k]
  // an idle chunk is recorded only while it is open, a chunk being deleted is never open
  inv @idle forall k string :: { k in cc.chunks } k in cc.chunks && cc.chunks[k].state == 1 ==> cc.chunks[k].opened
  inv @deleting forall k string :: { k in cc.chunks } k in cc.chunks && cc.chunks[k].state == 3 ==> !cc.chunks[k].opened
  // somebody waits for a chunk only while it is written
  inv @waiter forall k string :: { k in cc.chunks } k in cc.chunks && cc.chunks[k].waiterCh != nil ==> cc.chunks[k].state == 2 && alloc(cc.chunks[k].waiterCh) && chClosed[cc.chunks[k].waiterCh] == 0
  inv @waiters forall j, k string :: { cc.chunks[j], cc.chunks[k] } j in cc.chunks && k in cc.chunks && j != k && cc.chunks[j].waiterCh != nil ==> cc.chunks[j].waiterCh != cc.chunks[k].waiterCh
  // writing is granted to a chunk nobody writes or deletes, deleting to a chunk nobody uses at all
  guarantee @excl forall k string :: { k in cc.chunks } { old(k in cc.chunks) } (stOf(cc, k) == 2 && old(stOf(cc, k)) != 2 ==> old(stOf(cc, k)) <= 1) && (stOf(cc, k) == 3 && old(stOf(cc, k)) != 3 ==> old(stOf(cc, k)) == 0)
  // whoever waits is woken up when the writing ends
  guarantee @wake forall k string :: { old(k in cc.chunks) } old(k in cc.chunks && cc.chunks[k].waiterCh != nil) && stOf(cc, k) != 2 ==> chClosed[old(cc.chunks[k].waiterCh)] == 1
  guarantee @closed old(cc.closed) ==> cc.closed

func (cr *caRec) setState(newState)
  inline
func (cr *caRec) getWaiterCh() (r)
  inline

func (cc *ChunkAccessor) setDeleting(cID) (r)
  prop P16
  modifies ghost(caHeld), ghost(caGrants)
  ghostset caHeld r ? store(caHeld, cID, 3) : caHeld
  ghostset caGrants caGrants + (r ? 1 : 0)
  ensures @count caGrants == old(caGrants) + (r ? 1 : 0)
  guarantee @others forall k string :: { k in cc.chunks } { old(k in cc.chunks) } k != cID ==> caKept(cc, k)
  guarantee @step old(stOf(cc, cID)) == 0 && !old(cc.closed) ? stOf(cc, cID) == 3 && !opOf(cc, cID) : caKept(cc, cID)
  ensures @grant r <==> locked(stOf(cc, cID)) == 0 && !locked(cc.closed)
  ensures @granted r ==> unlocked(stOf(cc, cID)) == 3
  ensures @held caHeld == (r ? store(old(caHeld), cID, 3) : old(caHeld))

func (cc *ChunkAccessor) SetIdle(cID)
  prop P16
  requires caHeld[cID] != 0
  modifies ghost(caHeld)
  ghostset caHeld store(caHeld, cID, 0)
  guarantee @others forall k string :: { k in cc.chunks } { old(k in cc.chunks) } k != cID ==> caKept(cc, k)
  guarantee @step stOf(cc, cID) == (old(opOf(cc, cID)) ? 1 : 0) && (opOf(cc, cID) <==> old(opOf(cc, cID)))
  ensures @held caHeld == store(old(caHeld), cID, 0)

func (cc *ChunkAccessor) closeChunk(cID) (err)
  prop P16
  modifies ghost(caOpen)
  ghostset caOpen store(caOpen, cID, 0)
  ensures @mark caOpen == store(old(caOpen), cID, 0)
  guarantee @others forall k string :: { k in cc.chunks } { old(k in cc.chunks) } k != cID ==> caKept(cc, k)
  guarantee @step old(opOf(cc, cID)) ? !opOf(cc, cID) && stOf(cc, cID) == (old(stOf(cc, cID)) == 1 ? 0 : old(stOf(cc, cID))) : caKept(cc, cID)
  ensures @ok err == nil <==> locked(opOf(cc, cID))

func (cc *ChunkAccessor) SetWriting(ctx, cID) (err)
  prop P16
  requires ctx != nil
  modifies ghost(caHeld), ghost(caGrants)
  ghostset caHeld err == nil ? store(caHeld, cID, 2) : caHeld
  ghostset caGrants caGrants + (err == nil ? 1 : 0)
  ensures @count caGrants == old(caGrants) + (err == nil ? 1 : 0)
  guarantee @others forall k string :: { k in cc.chunks } { old(k in cc.chunks) } k != cID ==> caKept(cc, k)
  guarantee @step old(stOf(cc, cID)) <= 1 && !old(cc.closed) ? stOf(cc, cID) == 2 && (opOf(cc, cID) <==> old(opOf(cc, cID))) : caKept(cc, cID)
  ensures @grant err == nil <==> locked(stOf(cc, cID)) <= 1 && !locked(cc.closed)
  ensures @granted err == nil ==> unlocked(stOf(cc, cID)) == 2
  ensures @held caHeld == (err == nil ? store(old(caHeld), cID, 2) : old(caHeld))

func (cc *ChunkAccessor) openChunk(ctx, cID) (err)
  prop P16
  requires ctx != nil
  modifies ghost(caOpen)
  unlockset caOpen opOf(cc, cID) && !old(opOf(cc, cID)) ? store(caOpen, cID, 1) : caOpen
  inv # >= 0 && (old(caOpen)[cID] == 0 ==> caOpen[cID] == 0)
  inv # >= 0 && (forall k string :: { caOpen[k] } k != cID ==> caOpen[k] == old(caOpen)[k])
  ensures @undo old(caOpen)[cID] == 0 ==> caOpen[cID] == (err == nil ? 1 : 0)
  ensures @other forall k string :: { caOpen[k] } k != cID ==> caOpen[k] == old(caOpen)[k]
  guarantee @others forall k string :: { k in cc.chunks } { old(k in cc.chunks) } k != cID ==> caKept(cc, k)
  guarantee @step !old(cc.closed) && old(stOf(cc, cID)) != 3 && !old(opOf(cc, cID)) ? opOf(cc, cID) && stOf(cc, cID) == max(1, old(stOf(cc, cID))) : caKept(cc, cID)
  ensures @grant err == nil <==> !locked(cc.closed) && locked(stOf(cc, cID)) == 0
  ensures @granted err == nil ==> unlocked(stOf(cc, cID)) == 1 && unlocked(opOf(cc, cID))

func (cc *ChunkAccessor) Shutdown()
  prop P16
  guarantee @kept forall k string :: { k in cc.chunks } { old(k in cc.chunks) } caKept(cc, k)
  ensures @closed unlocked(cc.closed)

func NewChunkAccessor() (r)
  prop P16
  modifies ghost(chClosed)
  ensures @done r.doneCh != nil && fresh(r.doneCh) && chClosed[r.doneCh] == 0
  ensures @new r != nil && fresh(r) && r.chunks != nil && fresh(r.chunks) && !r.closed
  ensures @empty forall k string :: { k in r.chunks } !(k in r.chunks)

package context

extern context.Context.Done(ctx) (ch)
  ensures ch == ctxDone(ctx)
extern context.Context.Err(ctx) (err)
  // Err is set once Done is closed, and stays set
  modifies ghost(chRecv)
  ensures old(chRecv[ctxDone(ctx)]) == 1 ==> err != nil
  ensures chRecv == (err != nil ? store(old(chRecv), ctxDone(ctx), 1) : old(chRecv))
