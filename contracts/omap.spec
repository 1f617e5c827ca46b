package github.com/solarisdb/solaris/golibs/container/iterable

// ghost: the map an item was added to, its place in the order of additions, and whether it is out of use
ghostvar itmOwn array int
ghostvar itmPos array int
ghostvar inPool array int

extern sync.Pool.Get(p) (r)
  modifies ghost(inPool)
  ensures old(inPool[val(r)]) == 1 && inPool == store(old(inPool), val(r), 0) && val(r) != 0
  ensures typeis(r, "*iterable.rlItem[K,V]")
extern sync.Pool.Put(p, v)
  requires inPool[val(v)] == 0
  modifies ghost(inPool)
  ensures inPool == store(old(inPool), val(v), 1)

// p is an item of the map: live, the end mark, or removed with iterators still on it
macro chained(m, p) = itmOwn[p] == m && inPool[p] == 0
macro itmLive(m, p) = chained(m, p) && p.state == 1
macro mEnds(m) = m.vals != nil && m.head != nil && m.last != nil && chained(m, m.head) && chained(m, m.last) && m.last.state == 0 && m.last.next == nil && m.head.prev == nil
macro mItems(m) = forall p typeof(m.head) :: { p.state } chained(m, p) ==> p != nil && alloc(p) && p.refCnt >= 0 && itmPos[m.head] <= itmPos[p] && (p == m.last || itmPos[p] < itmPos[m.last]) && (p.state == 0 <==> p == m.last) && 0 <= p.state && p.state <= 2 && (p.state == 2 ==> p.refCnt > 0)
macro nexts(m) = (forall p typeof(m.head) :: { p.next } chained(m, p) && p != m.last ==> p.next != nil && chained(m, p.next) && itmPos[p] < itmPos[p.next])
  && (forall p, q typeof(m.head) :: { p.next, q.prev } chained(m, p) && chained(m, q) && p != m.last && q != m.head ==> (p.next == q <==> q.prev == p))
macro prevs(m) = forall p typeof(m.head) :: { p.prev } chained(m, p) && p != m.head ==> p.prev != nil && chained(m, p.prev) && itmPos[p.prev] < itmPos[p]
macro mOrder(m) = forall p, q typeof(m.head) :: { p.next, itmPos[q] } chained(m, p) && chained(m, q) && itmPos[p] < itmPos[q] ==> itmPos[p.next] <= itmPos[q]
macro mPlaces(m) = forall p, q typeof(m.head) :: { itmPos[p], itmPos[q] } chained(m, p) && chained(m, q) && itmPos[p] == itmPos[q] ==> p == q
macro mIndex(m) = forall k typeof(m.head.key) :: { k in m.vals } k in m.vals ==> m.vals[k] != nil && itmLive(m, m.vals[k]) && m.vals[k].key == k
macro lives(m) = forall p typeof(m.head) :: { p.key } itmLive(m, p) ==> p.key in m.vals && m.vals[p.key] == p
// items of no map, or of a map that exists
macro owners(m) = forall p ref :: { itmOwn[p] } itmOwn[p] != 0 ==> p > 0 && itmOwn[p] > 0 && alloc(conv(p, "typeof(m.head)")) && alloc(conv(itmOwn[p], "typeof(m.head)"))
macro pools(m) = forall p ref :: { conv(p, "typeof(m.head)").refCnt } inPool[p] != 0 ==> conv(p, "typeof(m.head)").refCnt == 0
macro mapOK(m) = mEnds(m) && mItems(m) && nexts(m) && prevs(m) && mOrder(m) && mPlaces(m) && mIndex(m) && lives(m) && owners(m) && pools(m)

// other maps stay as they are
macro otherMaps(m) = forall p typeof(m.head) :: { p.next } { itmOwn[p] } old(alloc(p)) && old(itmOwn[p]) != m && old(inPool[p]) == 0 ==> same(*p, old(*p)) && itmOwn[p] == old(itmOwn[p]) && itmPos[p] == old(itmPos[p]) && inPool[p] == 0
// the content of the map
macro entrySame(m, k) = (k in m.vals <==> old(k in m.vals)) && (k in m.vals ==> m.vals[k] == old(m.vals[k]) && m.vals[k].val == old(m.vals[k].val) && itmPos[m.vals[k]] == old(itmPos[m.vals[k]]))
// the iterators standing on an item
macro itmRefs(m, p) = old(chained(m, p)) && p.refCnt > 0 ==> chained(m, p) && itmPos[p] == old(itmPos[p])

func NewMap() (r)
  prop P14
  modifies ghost(itmOwn), ghost(itmPos), ghost(inPool)
  ghostset itmOwn store(old(itmOwn), r.head, r)
  ghostset inPool store(old(inPool), r.head, 0)
  requires (forall p ref :: { itmOwn[p] } itmOwn[p] != 0 ==> p > 0 && itmOwn[p] > 0 && alloc(conv(p, "*rlItem[K,V]")) && alloc(conv(itmOwn[p], "*rlItem[K,V]"))) && (forall p ref :: { conv(p, "*rlItem[K,V]").refCnt } inPool[p] != 0 ==> conv(p, "*rlItem[K,V]").refCnt == 0)
  ensures @new fresh(r)
  ensures @ends mEnds(r)
  ensures @items mItems(r)
  ensures @nexts nexts(r)
  ensures @prevs prevs(r)
  ensures @order mOrder(r)
  ensures @places mPlaces(r)
  ensures @index mIndex(r)
  ensures @lives lives(r)
  ensures @owners owners(r)
  ensures @pools pools(r)
  ensures @empty forall k K :: { k in r.vals } !(k in r.vals)
  ensures @alone forall p *rlItem[K,V] :: { p.refCnt } chained(r, p) ==> p.refCnt == 0

func (im *Map[K,V]) Len() (n)
  prop P14
  ensures @def n == len(im.vals)

func (im *Map[K,V]) Get(k) (v, ok)
  prop P14
  requires mapOK(im)
  ensures @def ok <==> k in im.vals
  ensures @val ok ==> v == im.vals[k].val

func (im *Map[K,V]) Add(k, v) (err)
  prop P14
  requires mapOK(im)
  modifies im.last, im.pool, mapof(im.vals), heap(im.head), ghost(itmOwn), ghost(itmPos), ghost(inPool)
  ghostset itmOwn err == nil ? store(old(itmOwn), im.last, im) : old(itmOwn)
  ghostset itmPos err == nil ? store(old(itmPos), im.last, old(itmPos[im.last]) + 1) : old(itmPos)
  ensures @ends mEnds(im)
  ensures @items mItems(im)
  ensures @nexts nexts(im)
  ensures @prevs prevs(im)
  ensures @order mOrder(im)
  ensures @places mPlaces(im)
  ensures @index mIndex(im)
  ensures @lives lives(im)
  ensures @owners owners(im)
  ensures @pools pools(im)
  ensures @err err != nil <==> old(k in im.vals)
  ensures @added k in im.vals && (err == nil ==> im.vals[k].val == v && im.vals[k] == old(im.last))
  ensures @end err == nil ==> forall p *rlItem[K,V] :: { itmOwn[p] } itmLive(im, p) ==> p == im.vals[k] || itmPos[p] < itmPos[im.vals[k]]
  ensures @rest forall q K :: { q in im.vals } { old(q in im.vals) } q != k || err != nil ==> entrySame(im, q)
  ensures @len len(im.vals) == old(len(im.vals)) + (err == nil ? 1 : 0)
  ensures @refs forall p *rlItem[K,V] :: { p.refCnt } old(chained(im, p)) ==> chained(im, p) && p.refCnt == old(p.refCnt) && itmPos[p] == old(itmPos[p])
  ensures @new forall p *rlItem[K,V] :: { p.refCnt } chained(im, p) ==> old(chained(im, p)) || p.refCnt == 0

func (im *Map[K,V]) Remove(k)
  prop P14
  requires mapOK(im)
  modifies im.head, im.pool, mapof(im.vals), heap(im.head), ghost(inPool)
  ensures @ends mEnds(im)
  ensures @items mItems(im)
  ensures @nexts nexts(im)
  ensures @prevs prevs(im)
  ensures @order mOrder(im)
  ensures @places mPlaces(im)
  ensures @index mIndex(im)
  ensures @lives lives(im)
  ensures @owners owners(im)
  ensures @pools pools(im)
  ensures @gone !(k in im.vals)
  ensures @rest forall q K :: { q in im.vals } { old(q in im.vals) } q != k ==> entrySame(im, q)
  ensures @len len(im.vals) == old(len(im.vals)) - old(k in im.vals ? 1 : 0)
  ensures @refs forall p *rlItem[K,V] :: { p.refCnt } chained(im, p) ==> old(chained(im, p)) && p.refCnt == old(p.refCnt) && itmPos[p] == old(itmPos[p])
  ensures @stays forall p *rlItem[K,V] :: { p.refCnt } old(chained(im, p)) && old(p.refCnt) > 0 ==> chained(im, p)

// an iterator stands on an item
macro iterOK(it) = it.im != nil && mapOK(it.im) && chained(it.im, it.ptr) && it.ptr != nil && it.ptr.refCnt > 0
// moving from item a to item b keeps every entry, and what the other iterators stand on
macro entsKept(m) = forall q typeof(m.head.key) :: { q in m.vals } { old(q in m.vals) } entrySame(m, q)
macro itMoved(m, a, b) = forall p typeof(m.head) :: { p.refCnt } old(chained(m, p)) && (p.refCnt > 0 || old(p.refCnt) > (p == a ? 1 : 0)) ==> chained(m, p) && itmPos[p] == old(itmPos[p]) && p.refCnt == old(p.refCnt) - (p == a ? 1 : 0) + (p == b ? 1 : 0)
// nothing comes back from the pool
macro noneNew(m) = forall q ref :: { inPool[q] } inPool[q] == 0 ==> old(inPool[q]) == 0
// no live entry from place lo up to place hi
macro noneLive(m, lo, hi) = forall p typeof(m.head) :: { p.state } itmLive(m, p) && lo <= itmPos[p] ==> hi <= itmPos[p]

// fewer than 2^62 open iterators
macro fewIters(m, n) = forall p typeof(m.head) :: { p.refCnt } chained(m, p) ==> p.refCnt < n

func (im *Map[K,V]) next(p) (r)
  opt candfull=25s
  prop P14
  helper
  requires mapOK(im) && fewIters(im, pow2(62)) && p != nil && chained(im, p) && p.refCnt > 0
  modifies im.head, im.pool, heap(p), ghost(inPool)
  inv [u ptr] mEnds(im)
  inv [u ptr] mItems(im)
  inv [u ptr] nexts(im)
  inv [u ptr] prevs(im)
  inv [u ptr] mOrder(im)
  inv [u ptr] mPlaces(im)
  inv [u ptr] mIndex(im)
  inv [u ptr] lives(im)
  inv [u ptr] owners(im)
  inv [u ptr] pools(im)
  inv [u ptr] u != nil && chained(im, u)
  inv [u ptr] u.refCnt > 0
  inv [u ptr] itmPos[u] >= old(itmPos[p])
  inv [u ptr] noneNew(im)
  inv [u ptr] u != p ==> itmPos[u] > old(itmPos[p])
  inv [u ptr] u != p ==> u.refCnt > 1
  inv [u ptr] u != p ==> u.state == 2
  inv [u ptr] forall q *rlItem[K,V] :: { q.state } itmLive(im, q) && old(itmPos[p]) < itmPos[q] ==> itmPos[u] <= itmPos[q]
  inv [u ptr] entsKept(im)
  inv [u ptr] itMoved(im, p, u)
  ensures @ends mEnds(im)
  ensures @items mItems(im)
  ensures @chain nexts(im) && prevs(im)
  ensures @order mOrder(im) && mPlaces(im)
  ensures @index mIndex(im) && lives(im)
  ensures @pools owners(im) && pools(im)
  ensures @here r != nil && chained(im, r) && r.refCnt > 0 && r.state != 2 && itmPos[r] >= old(itmPos[p])
  ensures @stay r == p ==> old(p.state) == 0
  ensures @stay2 old(p.state) == 0 ==> r == p
  ensures @after r != p ==> itmPos[r] > old(itmPos[p])
  ensures @none forall q *rlItem[K,V] :: { q.state } itmLive(im, q) && old(itmPos[p]) < itmPos[q] ==> itmPos[r] <= itmPos[q]
  ensures @kept entsKept(im)
  ensures @pool noneNew(im)
  ensures @refs itMoved(im, p, r)

func (im *Map[K,V]) Iterator() (r)
  prop P14
  requires mapOK(im) && fewIters(im, pow2(61))
  modifies heap(im.head)
  ensures @type typeis(r, "*mapIterator[K,V]") && fresh(unbox(r, "*mapIterator[K,V]")) && unbox(r, "*mapIterator[K,V]").im == im
  ensures @first unbox(r, "*mapIterator[K,V]").ptr == im.head
  ensures @valid iterOK(unbox(r, "*mapIterator[K,V]"))
  ensures @kept entsKept(im)
  ensures @refs forall p *rlItem[K,V] :: { p.refCnt } old(chained(im, p)) ==> chained(im, p) && p.refCnt == old(p.refCnt) + (p == im.head ? 1 : 0)

func (it *mapIterator[K,V]) HasNext() (r)
  prop P14
  requires iterOK(it) && fewIters(it.im, pow2(61))
  modifies it.ptr, it.im.head, it.im.pool, heap(it.ptr), ghost(inPool)
  ensures @valid iterOK(it) && it.im == old(it.im)
  ensures @def r <==> it.ptr.state == 1
  ensures @here it.ptr.state != 2
  ensures @end !r ==> forall k typeof(it.ptr.key) :: { k in it.im.vals } k in it.im.vals ==> itmPos[it.im.vals[k]] < old(itmPos[it.ptr])
  ensures @none noneLive(it.im, old(itmPos[it.ptr]), itmPos[it.ptr]) && itmPos[it.ptr] >= old(itmPos[it.ptr])
  ensures @kept entsKept(it.im)
  ensures @pool noneNew(it.im)
  ensures @refs itMoved(it.im, old(it.ptr), it.ptr)

func (it *mapIterator[K,V]) Next() (e, ok)
  prop P14
  requires iterOK(it) && fewIters(it.im, pow2(61))
  modifies it.ptr, it.im.head, it.im.pool, heap(it.ptr), ghost(inPool)
  ensures @valid iterOK(it) && it.im == old(it.im)
  ensures @kept entsKept(it.im)
  ensures @pool noneNew(it.im)
  ensures @entry ok ==> e.Key in it.im.vals && e.Value == it.im.vals[e.Key].val && old(itmPos[it.ptr]) <= itmPos[it.im.vals[e.Key]] && itmPos[it.im.vals[e.Key]] < itmPos[it.ptr]
  ensures @next ok ==> forall p *rlItem[K,V] :: { p.state } itmLive(it.im, p) && old(itmPos[it.ptr]) <= itmPos[p] ==> p == it.im.vals[e.Key] || itmPos[it.ptr] <= itmPos[p]
  ensures @end !ok ==> it.ptr.state == 0 && forall p *rlItem[K,V] :: { p.state } itmLive(it.im, p) ==> itmPos[p] < old(itmPos[it.ptr])
  ensures @refs itMoved(it.im, old(it.ptr), it.ptr)

func (it *mapIterator[K,V]) Close() (err)
  prop P14
  requires iterOK(it)
  modifies it.ptr, it.im.head, it.im.pool, heap(it.ptr), ghost(inPool)
  ensures @ok err == nil && mapOK(it.im) && it.im == old(it.im)
  ensures @kept entsKept(it.im)
  ensures @pool noneNew(it.im)
  ensures @refs itMoved(it.im, old(it.ptr), nil)

func (im *Map[K,V]) First() (k, ok)
  prop P14
  requires mapOK(im) && fewIters(im, pow2(60))
  modifies im.head, im.pool, heap(im.head), ghost(inPool)
  ensures @ok mapOK(im)
  ensures @kept entsKept(im)
  ensures @first ok ==> k in im.vals && forall p *rlItem[K,V] :: { p.key } itmLive(im, p) ==> itmPos[im.vals[k]] <= itmPos[p]
  ensures @none !ok ==> forall p *rlItem[K,V] :: { p.key } !itmLive(im, p)
  ensures @refs forall p *rlItem[K,V] :: { p.refCnt } chained(im, p) ==> old(chained(im, p)) && p.refCnt == old(p.refCnt)
