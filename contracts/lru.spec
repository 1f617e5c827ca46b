package github.com/solarisdb/solaris/golibs/container/lru

// ghost: the calls of the removal callback, in order, and the number and the outcome of the creations by this goroutine
ghostvar delN Z
ghostvar delK array int
ghostvar delV array int
// where the last call for the key is in the log
ghostvar delAt array int
ghostvar madeN Z
ghostvar madeV Z
ghostvar madeOK Z
// 1 while this goroutine creates the value others wait for on the channel
ghostvar flMine array int
// what is compared of keys and values
uf tok(any) Z
uf untok(Z) any
axiom tokens(a any) untok(tok(a)) == a
  trigger tok(a)

extern github.com/solarisdb/solaris/golibs/container/lru.OnDeleteElemF(f, k, v)
  modifies ghost(delN), ghost(delK), ghost(delV), ghost(delAt)
  ensures delAt == store(old(delAt), tok(k), old(delN))
  ensures delN == old(delN) + 1 && delK == store(old(delK), old(delN), tok(k)) && delV == store(old(delV), old(delN), tok(v))
extern github.com/solarisdb/solaris/golibs/container/lru.CreatePoolElemF(f, k) (v, err)
  modifies ghost(madeN), ghost(madeV), ghost(madeOK)
  ensures madeN == old(madeN) + 1 && madeV == tok(v) && (err == nil <==> madeOK == 1)

monitor (p *ECache[PK,K,V]) lock
  modifies p.items.head, p.items.last, p.items.pool, mapof(p.items.vals), heap(p.items.head), mapof(p.inflight), ghost(itmOwn), ghost(itmPos), ghost(inPool), ghost(delN), ghost(delK), ghost(delV), ghost(delAt), ghost(chClosed)
  inv @map p.items != nil && mapOK(p.items)
  inv @noiters fewIters(p.items, 1)
  inv @cap p.maxSize >= 1 && len(p.items.vals) <= p.maxSize
  inv @keys forall k typeof(p.items.head.key) :: { k in p.items.vals } k in p.items.vals ==> p.mapToInnerKeyF(p.items.vals[k].val.pk) == k
  inv @infl p.inflight != nil && forall k typeof(p.items.head.key) :: { k in p.inflight } k in p.inflight ==> !(k in p.items.vals) && p.inflight[k] != nil && alloc(p.inflight[k]) && chClosed[p.inflight[k]] == 0
  inv @chans forall j, k typeof(p.items.head.key) :: { p.inflight[j], p.inflight[k] } j in p.inflight && k in p.inflight && j != k ==> p.inflight[j] != p.inflight[k]
  guarantee @log old(delN) <= delN
  guarantee @log2 forall i int :: { delK[i] } { delV[i] } i < old(delN) ==> delK[i] == old(delK[i]) && delV[i] == old(delV[i])
  // a goroutine touches only the creations it started
  guarantee @theirs forall k typeof(p.items.head.key) :: { k in p.inflight } { old(k in p.inflight) } old(k in p.inflight) && flMine[old(p.inflight[k])] != 1 ==> k in p.inflight && p.inflight[k] == old(p.inflight[k])
  stable @mine forall k typeof(p.items.head.key) :: { k in p.inflight } { old(k in p.inflight) } old(k in p.inflight) && flMine[old(p.inflight[k])] == 1 ==> k in p.inflight && p.inflight[k] == old(p.inflight[k])

macro cHas(p, k) = k in p.items.vals
macro cItm(p, k) = p.items.vals[k]
macro cKept(p, q) = (cHas(p, q) <==> old(cHas(p, q))) && (cHas(p, q) ==> cItm(p, q) == old(cItm(p, q)) && same(cItm(p, q).val, old(cItm(p, q).val)) && itmPos[cItm(p, q)] == old(itmPos[cItm(p, q)]))
macro cGone(p, q) = old(cHas(p, q)) && !cHas(p, q)

func (p *ECache[PK,K,V]) Remove(pk) (r)
  prop P15
  requires p.mapToInnerKeyF != nil && p.createNewF != nil
  guarantee @kept forall q typeof(p.items.head.key) :: { q in p.items.vals } { old(q in p.items.vals) } q != p.mapToInnerKeyF(pk) ==> cKept(p, q)
  guarantee @gone !cHas(p, p.mapToInnerKeyF(pk))
  guarantee @one old(cHas(p, p.mapToInnerKeyF(pk))) && p.onDeleteF != nil ==> delN == old(delN) + 1 && delK[old(delN)] == tok(old(cItm(p, p.mapToInnerKeyF(pk)).val.pk)) && delV[old(delN)] == tok(old(cItm(p, p.mapToInnerKeyF(pk)).val.v))
  guarantee @none !old(cHas(p, p.mapToInnerKeyF(pk))) || p.onDeleteF == nil ==> delN == old(delN)
  ensures @def r <==> locked(cHas(p, p.mapToInnerKeyF(pk)))

// the iterator is the only one, and everything that is left is ahead of it
macro cIt(u) = unbox(u, "*iterable.mapIterator[K,pair[PK,V]]")
macro onlyIter(m, a) = forall x typeof(m.head) :: { x.refCnt } chained(m, x) && x != a ==> x.refCnt == 0
macro aheadOf(m, a) = forall k typeof(m.head.key) :: { k in m.vals } k in m.vals ==> itmPos[a] <= itmPos[m.vals[k]]
macro cIter(p, u) = typeis(u, "*iterable.mapIterator[K,pair[PK,V]]") && cIt(u).im == p.items
// reported: the entry q had its call of the callback
macro cTok(p, q) = tok(locked(p.items.vals[q].val.pk))
macro cRep(p, q) = locked(delN) <= delAt[cTok(p, q)] && delAt[cTok(p, q)] < delN

func (p *ECache[PK,K,V]) Clear() (n)
  uses tokens
  opt candfull=40s
  prop P15
  requires p.mapToInnerKeyF != nil && p.createNewF != nil
  inv # >= 0 && mapOK(p.items)
  inv [u anyiface] # >= 0 && (cIter(p, u) ==> chained(p.items, cIt(u).ptr) && cIt(u).ptr != nil && cIt(u).ptr.refCnt == 1)
  inv [u anyiface] # >= 0 && (cIter(p, u) ==> onlyIter(p.items, cIt(u).ptr))
  inv [u anyiface] # >= 0 && (cIter(p, u) ==> aheadOf(p.items, cIt(u).ptr))
  inv [n int] n + len(p.items.vals) == locked(len(p.items.vals)) && n >= 0
  inv [n int] p.onDeleteF != nil ==> delN == locked(delN) + n
  inv # >= 0 && (p.onDeleteF == nil ==> delN == locked(delN))
  inv # >= 0 && delN >= locked(delN) && forall i int :: { delK[i] } { delV[i] } i < locked(delN) ==> delK[i] == locked(delK)[i] && delV[i] == locked(delV)[i]
  inv # >= 0 && forall q typeof(p.items.head.key) :: { q in p.items.vals } q in p.items.vals ==> locked(q in p.items.vals) && p.items.vals[q] == locked(p.items.vals[q]) && same(p.items.vals[q].val, locked(p.items.vals[q].val))
  inv # >= 0 && forall q, r typeof(p.items.head.key) :: { locked(q in p.items.vals), locked(r in p.items.vals) } locked(q in p.items.vals) && locked(r in p.items.vals) && q != r ==> cTok(p, q) != cTok(p, r)
  inv # >= 0 && (p.onDeleteF != nil ==> forall q typeof(p.items.head.key) :: { locked(q in p.items.vals) } locked(q in p.items.vals) ==> q in p.items.vals || cRep(p, q))
  inv # >= 0 && (p.onDeleteF != nil ==> forall q typeof(p.items.head.key) :: { locked(q in p.items.vals) } locked(q in p.items.vals) ==> q in p.items.vals || delK[delAt[cTok(p, q)]] == cTok(p, q))
  inv # >= 0 && (p.onDeleteF != nil ==> forall q typeof(p.items.head.key) :: { locked(q in p.items.vals) } locked(q in p.items.vals) ==> q in p.items.vals || delV[delAt[cTok(p, q)]] == tok(locked(p.items.vals[q].val.v)))
  guarantee @empty forall q typeof(p.items.head.key) :: { q in p.items.vals } !(q in p.items.vals)
  guarantee @silent p.onDeleteF == nil ==> delN == old(delN)
  guarantee @once p.onDeleteF != nil ==> delN == old(delN) + old(len(p.items.vals))
  guarantee @each p.onDeleteF != nil ==> forall q typeof(p.items.head.key) :: { old(q in p.items.vals) } old(q in p.items.vals) ==> old(delN) <= delAt[tok(old(p.items.vals[q].val.pk))] && delAt[tok(old(p.items.vals[q].val.pk))] < delN && delK[delAt[tok(old(p.items.vals[q].val.pk))]] == tok(old(p.items.vals[q].val.pk)) && delV[delAt[tok(old(p.items.vals[q].val.pk))]] == tok(old(p.items.vals[q].val.v))
  ensures @count n == locked(len(p.items.vals))

macro gcKey(p, pk) = p.mapToInnerKeyF(pk)
func (p *ECache[PK,K,V]) GetOrCreate(pk) (v, err)
  prop P15
  opt candfull=40s
  requires p.mapToInnerKeyF != nil && p.createNewF != nil
  modifies ghost(flMine), ghost(madeN), ghost(madeV), ghost(madeOK), ghost(chRecv)
  unlockset flMine (gcKey(p, pk) in p.inflight && !old(gcKey(p, pk) in p.inflight)) ? store(old(flMine), p.inflight[gcKey(p, pk)], 1) : ((!(gcKey(p, pk) in p.inflight) && old(gcKey(p, pk) in p.inflight)) ? store(old(flMine), old(p.inflight[gcKey(p, pk)]), 0) : old(flMine))
  inv # >= 0 && flMine == old(flMine)
  inv # >= 0 && madeN == old(madeN)
  guarantee @kept forall q typeof(p.items.head.key) :: { q in p.items.vals } { old(q in p.items.vals) } q != gcKey(p, pk) ==> cKept(p, q) || cGone(p, q)
  guarantee @full forall q typeof(p.items.head.key) :: { old(q in p.items.vals) } q != gcKey(p, pk) && cGone(p, q) ==> old(len(p.items.vals)) == p.maxSize && !old(cHas(p, gcKey(p, pk))) && cHas(p, gcKey(p, pk))
  guarantee @least forall q, r typeof(p.items.head.key) :: { old(q in p.items.vals), old(r in p.items.vals) } q != gcKey(p, pk) && cGone(p, q) && old(cHas(p, r)) ==> old(itmPos[cItm(p, q)]) <= old(itmPos[cItm(p, r)])
  guarantee @report forall q typeof(p.items.head.key) :: { old(q in p.items.vals) } q != gcKey(p, pk) && cGone(p, q) && p.onDeleteF != nil ==> delN == old(delN) + 1 && delK[old(delN)] == tok(old(cItm(p, q).val.pk)) && delV[old(delN)] == tok(old(cItm(p, q).val.v))
  guarantee @silent old(len(p.items.vals)) < p.maxSize || old(cHas(p, gcKey(p, pk))) || !cHas(p, gcKey(p, pk)) || p.onDeleteF == nil ==> delN == old(delN)
  guarantee @room old(len(p.items.vals)) < p.maxSize || old(cHas(p, gcKey(p, pk))) || !cHas(p, gcKey(p, pk)) ==> forall q typeof(p.items.head.key) :: { old(q in p.items.vals) } old(cHas(p, q)) ==> cHas(p, q)
  guarantee @recent cHas(p, gcKey(p, pk)) ==> forall q typeof(p.items.head.key) :: { q in p.items.vals } q != gcKey(p, pk) && cHas(p, q) ==> itmPos[cItm(p, q)] < itmPos[cItm(p, gcKey(p, pk))]
  guarantee @same old(cHas(p, gcKey(p, pk))) ==> cHas(p, gcKey(p, pk)) && same(cItm(p, gcKey(p, pk)).val, old(cItm(p, gcKey(p, pk)).val))
  guarantee @fails !old(cHas(p, gcKey(p, pk))) && cHas(p, gcKey(p, pk)) ==> madeOK == 1
  ensures @once madeN == old(madeN) || madeN == old(madeN) + 1
  ensures @hit madeN == old(madeN) ==> err == nil && locked(cHas(p, gcKey(p, pk))) && v == locked(cItm(p, gcKey(p, pk)).val.v)
  ensures @made madeN != old(madeN) ==> tok(v) == madeV && (err == nil <==> madeOK == 1) && !locked(cHas(p, gcKey(p, pk)))
  ensures @stored madeN != old(madeN) && err == nil ==> cHas(p, gcKey(p, pk)) && cItm(p, gcKey(p, pk)).val.v == v && cItm(p, gcKey(p, pk)).val.pk == pk
  ensures @nothing madeN != old(madeN) && err != nil ==> !cHas(p, gcKey(p, pk))

func NewECache(maxSize, toComparableF, createNewF, onDeleteF) (p, err)
  prop P15
  requires (forall p ref :: { itmOwn[p] } itmOwn[p] != 0 ==> p > 0 && itmOwn[p] > 0 && alloc(conv(p, "*iterable.rlItem[K,pair[PK,V]]")) && alloc(conv(itmOwn[p], "*iterable.rlItem[K,pair[PK,V]]"))) && (forall p ref :: { conv(p, "*iterable.rlItem[K,pair[PK,V]]").refCnt } inPool[p] != 0 ==> conv(p, "*iterable.rlItem[K,pair[PK,V]]").refCnt == 0)
  modifies ghost(itmOwn), ghost(itmPos), ghost(inPool)
  ensures @err err == nil <==> maxSize >= 1 && createNewF != nil
  ensures @made err == nil ==> p != nil && fresh(p) && p.maxSize == maxSize && p.createNewF == createNewF && p.onDeleteF == onDeleteF && p.mapToInnerKeyF == toComparableF
  ensures @map err == nil ==> p.items != nil && mapOK(p.items) && fewIters(p.items, 1)
  ensures @empty err == nil ==> len(p.items.vals) == 0 && forall k K :: { k in p.items.vals } !(k in p.items.vals)
  ensures @inflight err == nil ==> p.inflight != nil && len(p.inflight) == 0 && forall k K :: { k in p.inflight } !(k in p.inflight)

func NewCache(maxSize, createNewF, onDeleteF) (p, err)
  prop P15
  requires (forall p ref :: { itmOwn[p] } itmOwn[p] != 0 ==> p > 0 && itmOwn[p] > 0 && alloc(conv(p, "*iterable.rlItem[K,pair[K,V]]")) && alloc(conv(itmOwn[p], "*iterable.rlItem[K,pair[K,V]]"))) && (forall p ref :: { conv(p, "*iterable.rlItem[K,pair[K,V]]").refCnt } inPool[p] != 0 ==> conv(p, "*iterable.rlItem[K,pair[K,V]]").refCnt == 0)
  modifies ghost(itmOwn), ghost(itmPos), ghost(inPool)
  ensures @err err == nil <==> maxSize >= 1 && createNewF != nil
  ensures @made err == nil ==> p != nil && p.ECache != nil && fresh(p.ECache) && p.ECache.maxSize == maxSize && p.ECache.createNewF == createNewF && p.ECache.onDeleteF == onDeleteF && len(p.ECache.items.vals) == 0
  ensures @key err == nil ==> p.ECache.mapToInnerKeyF != nil
