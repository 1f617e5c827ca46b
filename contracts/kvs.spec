package github.com/solarisdb/solaris/golibs/kvs/inmem

// versions handed out so far
ghostvar issued array[string] int
// the time read last
ghostvar lastNow Z
extern github.com/solarisdb/solaris/golibs/ulidutils.NewID() (r)
  modifies ghost(issued)
  ensures old(issued[r]) == 0 && issued == store(old(issued), r, 1)

macro waitOK(s) = forall k string :: { k in s.verChange } k in s.verChange ==> s.verChange[k] != nil && alloc(s.verChange[k]) && s.verChange[k].done != nil && alloc(s.verChange[k].done) && chClosed[s.verChange[k].done] == 0
macro waitOwn(s) = forall j, k string :: { s.verChange[j], s.verChange[k] } j in s.verChange && k in s.verChange && j != k ==> s.verChange[j] != s.verChange[k] && s.verChange[j].done != s.verChange[k].done
macro keyedOK(s) = forall k string :: { k in s.recs } k in s.recs ==> s.recs[k].Key == k && issued[s.recs[k].Version] != 0

macro waitLive(s) = forall k string :: { k in s.verChange } k in s.verChange ==> k in s.recs
monitor (s *service) lock
  modifies mapof(s.recs), mapof(s.verChange), heap(s.verChange[""]), ghost(chClosed), ghost(issued)
  inv @maps s.recs != nil && s.verChange != nil
  inv @keyed keyedOK(s)
  inv @waiters waitOK(s)
  inv @own waitOwn(s)
  // only a record has waiters
  inv @live waitLive(s)
  stable @done forall w *waiter :: { w.done } old(alloc(w)) ==> w.done == old(w.done)
  // an issued version is not issued again
  stable @issued forall v string :: { issued[v] } old(issued[v]) != 0 ==> issued[v] != 0
  // a record that stays has its version changed with its content
  guarantee @version forall k string :: { k in s.recs } k in s.recs && old(k in s.recs) && s.recs[k].Version == old(s.recs[k].Version) ==> same(s.recs[k], old(s.recs[k]))
  guarantee @fresh forall k string :: { k in s.recs } k in s.recs && (!old(k in s.recs) || !same(s.recs[k], old(s.recs[k]))) ==> old(issued)[s.recs[k].Version] == 0
  // who waits for the change of a record learns about it
  guarantee @kept forall k string :: { old(k in s.verChange) } old(k in s.verChange) && !(k in s.verChange && s.verChange[k] == old(s.verChange[k])) ==> chClosed[old(s.verChange[k].done)] == 1
  guarantee @told forall k string :: { old(k in s.verChange) } old(k in s.verChange) && (!(k in s.recs) || s.recs[k].Version != old(s.recs[k].Version)) ==> chClosed[old(s.verChange[k].done)] == 1

macro rKept(s, k) = (k in s.recs <==> old(k in s.recs)) && (k in s.recs ==> same(s.recs[k], old(s.recs[k])))
macro othersKept(s, key) = forall k string :: { k in s.recs } { old(k in s.recs) } k != key ==> rKept(s, k)
macro sameKept(s, key) = unlocked(key in s.recs) && same(unlocked(s.recs[key]), locked(s.recs[key]))
// the record with the key has expired by now
macro gone(s, k) = s.recs[k].ExpiresAt != nil && nanos(*s.recs[k].ExpiresAt) < lastNow
macro sameBut(a, b) = a.Key == b.Key && same(a.Value, b.Value) && a.ExpiresAt == b.ExpiresAt
macro dead(s, k) = !locked(k in s.recs) || locked(s.recs[k].ExpiresAt) != nil && nanos(*locked(s.recs[k].ExpiresAt)) < lastNow

func New() (r)
  prop P18
  ensures @new typeis(r, *service) && unbox(r, *service) != nil && fresh(unbox(r, *service))
  ensures @empty unbox(r, *service).recs != nil && fresh(unbox(r, *service).recs) && forall k string :: { k in unbox(r, *service).recs } !(k in unbox(r, *service).recs)

func (s *service) notifyWaiters(key)
  inline

func (s *service) Create(ctx, record) (ver, err)
  prop P18
  requires ctx != nil
  modifies ghost(lastNow), ghost(chRecv)
  guarantee @others othersKept(s, record.Key)
  ensures @canCreate chRecv[ctxDone(ctx)] != 1 && dead(s, record.Key) ==> err == nil
  ensures @only err == nil ==> dead(s, record.Key)
  ensures @stored err == nil ==> unlocked(record.Key in s.recs) && unlocked(s.recs[record.Key].Version) == ver && same(unlocked(s.recs[record.Key].Value), record.Value) && unlocked(s.recs[record.Key].ExpiresAt) == record.ExpiresAt
  ensures @refused err != nil ==> (locked(record.Key in s.recs) ? sameKept(s, record.Key) : !unlocked(record.Key in s.recs))

func (s *service) Get(ctx, key) (r, err)
  prop P18
  modifies ghost(lastNow)
  guarantee @others othersKept(s, key)
  ensures @found err == nil <==> !dead(s, key)
  ensures @value err == nil ==> same(r, locked(s.recs[key])) && sameKept(s, key)
  ensures @absent err != nil ==> err == errors.ErrNotExist && !unlocked(key in s.recs)

func (s *service) Put(ctx, record) (r, err)
  prop P18
  guarantee @others othersKept(s, record.Key)
  ensures @ok err == nil && sameBut(r, record)
  ensures @stored unlocked(record.Key in s.recs) && same(unlocked(s.recs[record.Key]), r)
  ensures @new locked(record.Key in s.recs) ==> r.Version != locked(s.recs[record.Key].Version)

func (s *service) CasByVersion(ctx, record) (r, err)
  prop P18
  modifies ghost(lastNow)
  guarantee @others othersKept(s, record.Key)
  ensures @ok err == nil <==> !dead(s, record.Key) && locked(s.recs[record.Key].Version) == record.Version
  ensures @stored err == nil ==> unlocked(record.Key in s.recs) && same(unlocked(s.recs[record.Key]), r) && sameBut(r, record) && r.Version != record.Version
  ensures @conflict !dead(s, record.Key) && locked(s.recs[record.Key].Version) != record.Version ==> err == errors.ErrConflict && sameKept(s, record.Key)
  ensures @absent dead(s, record.Key) ==> err == errors.ErrNotExist && !unlocked(record.Key in s.recs)

func (s *service) Delete(ctx, key) (err)
  prop P18
  guarantee @others othersKept(s, key)
  ensures @absent !unlocked(key in s.recs)
  ensures @ok err == nil <==> locked(key in s.recs)

func (s *service) PutMany(ctx, records) (err)
  prop P18
  guarantee @others forall k string :: { k in s.recs } { old(k in s.recs) } (forall i int :: { records[i] } 0 <= i && i < len(records) ==> records[i].Key != k) ==> rKept(s, k)
  inv forall k string :: { k in s.recs } { locked(k in s.recs) } (forall i int :: { records[i] } 0 <= i && i < # ==> records[i].Key != k) ==> (k in s.recs <==> locked(k in s.recs)) && (k in s.recs ==> same(s.recs[k], locked(s.recs[k])))
  inv # >= 0 && waitOK(s)
  inv # >= 0 && waitOwn(s)
  inv # >= 0 && waitLive(s)
  inv # >= 0 && forall k string :: { k in s.verChange } k in s.verChange ==> locked(k in s.verChange) && s.verChange[k] == locked(s.verChange[k]) && k in s.recs && locked(k in s.recs) && s.recs[k].Version == locked(s.recs[k].Version)
  inv # >= 0 && forall k string :: { locked(k in s.verChange) } locked(k in s.verChange) && !(k in s.verChange) ==> chClosed[locked(s.verChange[k].done)] == 1
  inv # >= 0 && forall k string :: { locked(k in s.verChange) } locked(k in s.verChange) && (!(k in s.recs) || s.recs[k].Version != locked(s.recs[k].Version)) ==> chClosed[locked(s.verChange[k].done)] == 1
  inv # >= 0 && keyedOK(s)
  inv # >= 0 && forall w *waiter :: { w.done } locked(alloc(w)) ==> w.done == locked(w.done)
  inv # >= 0 && forall v string :: { issued[v] } locked(issued[v]) != 0 ==> issued[v] != 0
  inv # >= 0 && forall k string :: { k in s.recs } k in s.recs && (!locked(k in s.recs) || !same(s.recs[k], locked(s.recs[k]))) ==> locked(issued)[s.recs[k].Version] == 0
  inv forall i int :: { records[i] } 0 <= i && i < # && (forall j int :: { records[j] } i < j && j < # ==> records[j].Key != records[i].Key) ==> records[i].Key in s.recs && sameBut(s.recs[records[i].Key], records[i])
  ensures @ok err == nil
  ensures @stored forall i int :: { records[i] } 0 <= i && i < len(records) && (forall j int :: { records[j] } i < j && j < len(records) ==> records[j].Key != records[i].Key) ==> unlocked(records[i].Key in s.recs) && sameBut(unlocked(s.recs[records[i].Key]), records[i])

func (s *service) GetMany(ctx, keys) (r, err)
  prop P18
  modifies ghost(lastNow)
  guarantee @kept forall k string :: { k in s.recs } { old(k in s.recs) } rKept(s, k) || old(k in s.recs) && !(k in s.recs) && old(s.recs[k].ExpiresAt) != nil
  inv forall k string :: { k in s.recs } { locked(k in s.recs) } k in s.recs ==> locked(k in s.recs) && same(s.recs[k], locked(s.recs[k]))
  inv forall k string :: { k in s.recs } { locked(k in s.recs) } locked(k in s.recs) && !(k in s.recs) ==> locked(s.recs[k].ExpiresAt) != nil
  inv # >= 0 && waitOK(s)
  inv # >= 0 && waitOwn(s)
  inv # >= 0 && waitLive(s)
  inv # >= 0 && forall k string :: { k in s.verChange } k in s.verChange ==> locked(k in s.verChange) && s.verChange[k] == locked(s.verChange[k]) && k in s.recs && locked(k in s.recs) && s.recs[k].Version == locked(s.recs[k].Version)
  inv # >= 0 && forall k string :: { locked(k in s.verChange) } locked(k in s.verChange) && !(k in s.verChange) ==> chClosed[locked(s.verChange[k].done)] == 1
  inv # >= 0 && forall k string :: { locked(k in s.verChange) } locked(k in s.verChange) && (!(k in s.recs) || s.recs[k].Version != locked(s.recs[k].Version)) ==> chClosed[locked(s.verChange[k].done)] == 1
  inv # >= 0 && keyedOK(s)
  inv # >= 0 && forall w *waiter :: { w.done } locked(alloc(w)) ==> w.done == locked(w.done)
  inv # >= 0 && forall v string :: { issued[v] } locked(issued[v]) != 0 ==> issued[v] != 0
  inv [u any[]*Record] forall i int :: { u[i] } # <= i && i < len(u) ==> u[i] == nil
  inv [u any[]*Record] forall i int :: { u[i] } 0 <= i && i < # && u[i] != nil ==> alloc(u[i])
  inv [u any[]*Record] forall i int :: { u[i] } 0 <= i && i < # && u[i] != nil ==> locked(keys[i] in s.recs)
  inv [u any[]*Record] forall i int :: { u[i] } 0 <= i && i < # && u[i] != nil ==> same(*u[i], locked(s.recs[keys[i]]))
  inv [u any[]*Record] forall i int :: { u[i] } 0 <= i && i < # && u[i] == nil ==> !locked(keys[i] in s.recs) || locked(s.recs[keys[i]].ExpiresAt) != nil
  ensures @len err == nil && len(r) == len(keys)
  ensures @found forall i int :: { r[i] } 0 <= i && i < len(r) && r[i] != nil ==> locked(keys[i] in s.recs) && same(*r[i], locked(s.recs[keys[i]]))
  ensures @absent forall i int :: { r[i] } 0 <= i && i < len(r) && r[i] == nil ==> !locked(keys[i] in s.recs) || locked(s.recs[keys[i]].ExpiresAt) != nil

func (s *service) WaitForVersionChange(ctx, key, ver) (err)
  prop P18
  requires ctx != nil
  guarantee @kept forall k string :: { k in s.recs } { old(k in s.recs) } rKept(s, k)
  ensures @changed err == nil ==> locked(key in s.recs) && locked(s.recs[key].Version) != ver

func (s *service) ListKeys(ctx, pattern) (r, err)
  prop P18
  guarantee @kept forall k string :: { k in s.recs } { old(k in s.recs) } rKept(s, k)
  inv [u any[]string] forall i int :: { u[i] } 0 <= i && i < len(u) ==> u[i] in s.recs
  ensures @known err == nil ==> typeis(r, *keysIterator) && unbox(r, *keysIterator) != nil
  ensures @keys err == nil ==> forall i int, k string :: 0 <= i && i < len(unbox(r, *keysIterator).res) && k == unbox(r, *keysIterator).res[i] ==> locked(k in s.recs)

func (k *keysIterator) HasNext() (r)
  helper
  ensures r == (len(k.res) > 0)

func (k *keysIterator) Next() (r, ok)
  modifies k.res
  ensures ok == (old(len(k.res)) > 0)
  ensures ok ==> r == old(k.res[0]) && same(k.res, old(k.res)[1:])
  ensures !ok ==> r == "" && same(k.res, old(k.res))
  prop P18

extern github.com/gobwas/glob.Compile(pattern, separators) (g, err)
  ensures err == nil ==> g != nil
extern github.com/gobwas/glob.Glob.Match(g, s) (r)
