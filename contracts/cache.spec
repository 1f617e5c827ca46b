package github.com/solarisdb/solaris/pkg/storage/cache

// what a value read from the storage says: a log, or a list of chunks
uf what(any) Z
// a place of a cache
uf at(Z, Z) Z
uf atA(Z) Z
uf atB(Z) Z
axiom places(a Z, b Z) atA(at(a, b)) == a && atB(at(a, b)) == b
  trigger at(a, b)
// how the storage answers reads now: of logs (0), of lists of chunks (1)
uf lst(Z) Z
ghostvar stG array int
uf stAt(Z, Z) Z
uf stA(Z) Z
uf stB(Z) Z
axiom stored(a Z, b Z) stA(stAt(a, b)) == a && stB(stAt(a, b)) == b
  trigger stAt(a, b)
// whether the last operation of the storage succeeded
ghostvar stOK Z
// what the caches hold, by place
ghostvar cHeld array int
ghostvar cWhat array int
// the identifiers of the chunks in a list, by what it says
uf hasID(Z, string) Bool
macro idsOf(v) = (forall j int :: 0 <= j && j < len(v) ==> hasID(what(v), v[j].ID)) && (forall x string :: { hasID(what(v), x) } hasID(what(v), x) ==> exists j int :: 0 <= j && j < len(v) && v[j].ID == x)
macro byID(v) = forall a, b int :: 0 <= a && a < b && b < len(v) ==> !(v[b].ID < v[a].ID)
// which read a function given to a cache repeats: 1 logs, 2 chunks
uf reads(Z) Z

macro logNow(id) = stG[stAt(1, tok(id))]
macro chunksNow(id) = stG[stAt(2, tok(id))]
macro onlyAt(kind, id) = forall i Z :: { stG[i] } i != stAt(kind, tok(id)) ==> stG[i] == old(stG[i])

extern github.com/solarisdb/solaris/pkg/storage/cache.LogsChunksMetaStorage.GetLogByID(s, ctx, id) (l, err)
  ensures err == nil ==> l != nil && what(l) == logNow(id) && what(l) != 0
extern github.com/solarisdb/solaris/pkg/storage/cache.LogsChunksMetaStorage.CreateLog(s, ctx, log) (l, err)
  modifies ghost(stOK)
  ensures err == nil <==> stOK == 1
  modifies ghost(stG), *log
  ensures err == nil ==> l != nil && forall i Z :: { stG[i] } stG[i] == old(stG[i]) || (old(stG[i]) == 0 && stA(i) == 1)
  ensures err != nil ==> stG == old(stG)
// a failed update may have been done, or not
extern github.com/solarisdb/solaris/pkg/storage/cache.LogsChunksMetaStorage.UpdateLog(s, ctx, log) (l, err)
  modifies ghost(stOK)
  ensures err == nil <==> stOK == 1
  requires log != nil
  modifies ghost(stG)
  ensures onlyAt(1, log.ID)
  ensures err == nil ==> l != nil
extern github.com/solarisdb/solaris/pkg/storage/cache.LogsChunksMetaStorage.QueryLogs(s, ctx, qr) (r, err)
  modifies ghost(stOK)
  ensures err == nil <==> stOK == 1
// a failed deletion may have deleted some of the logs
extern github.com/solarisdb/solaris/pkg/storage/cache.LogsChunksMetaStorage.DeleteLogs(s, ctx, request) (r, err)
  modifies ghost(stOK)
  ensures err == nil <==> stOK == 1
  modifies ghost(stG)
  ensures err == nil ==> r != nil && forall i Z :: { stG[i] } stG[i] == old(stG[i]) || exists j int :: 0 <= j && j < len(r.DeletedIDs) && (i == stAt(1, tok(r.DeletedIDs[j])) || i == stAt(2, tok(r.DeletedIDs[j])))
extern github.com/solarisdb/solaris/pkg/storage/cache.LogsChunksMetaStorage.GetChunks(s, ctx, logID) (cis, err)
  ensures err == nil ==> what(cis) == chunksNow(logID) && idsOf(cis)
// a failed change of the chunks may have been done, or not
extern github.com/solarisdb/solaris/pkg/storage/cache.LogsChunksMetaStorage.UpsertChunkInfos(s, ctx, logID, cis) (err)
  modifies ghost(stOK)
  ensures err == nil <==> stOK == 1
  modifies ghost(stG)
  ensures onlyAt(2, logID)

// the cache in sequential histories
macro inC(c, k) = cHeld[at(c, tok(k))] == 1
macro othersC(c, k) = forall i Z :: { cHeld[i] } i != at(c, tok(k)) && cHeld[i] == 1 ==> old(cHeld[i]) == 1 && cWhat[i] == old(cWhat[i])
extern github.com/solarisdb/solaris/golibs/container/lru.ECache.GetOrCreate#seq(p, pk) (v, err)
  requires p.createNewF != nil
  modifies ghost(cHeld), ghost(cWhat)
  ensures old(inC(p, pk)) ==> err == nil && what(v) == old(cWhat[at(p, tok(pk))])
  ensures !old(inC(p, pk)) && err == nil ==> reads(p.createNewF) != 0 && what(v) == stG[stAt(reads(p.createNewF), tok(pk))] && (reads(p.createNewF) == 1 ==> what(v) != 0)
  ensures err == nil ==> inC(p, pk) && cWhat[at(p, tok(pk))] == what(v)
  ensures err != nil ==> !inC(p, pk)
  ensures typeis(v, "[]pkg/storage/logfs.ChunkInfo") ==> err == nil ==> idsOf(v) && byID(v)
  ensures othersC(p, pk)
extern github.com/solarisdb/solaris/golibs/container/lru.ECache.Remove#seq(p, pk) (r)
  modifies ghost(cHeld), ghost(cWhat)
  ensures !inC(p, pk) && othersC(p, pk)
extern github.com/solarisdb/solaris/golibs/container/lru.ECache.Clear#seq(p) (r)
  modifies ghost(cHeld), ghost(cWhat)
  ensures forall i Z :: { cHeld[i] } cHeld[i] == 1 ==> atA(i) != p && old(cHeld[i]) == 1 && cWhat[i] == old(cWhat[i])
extern github.com/solarisdb/solaris/golibs/container/lru.NewCache#seq(maxSize, createNewF, onDeleteF) (c, err)
  modifies ghost(cHeld), ghost(cWhat)
  callback createNewF(k) (v, err) @reads err == nil ==> what(v) == stG[stAt(typeis(v, "*api/gen/solaris/v1.Log") ? 1 : 2, tok(k))] && (typeis(v, "*api/gen/solaris/v1.Log") ==> what(v) != 0)
  callback createNewF(k) (v, err) @ordered typeis(v, "[]pkg/storage/logfs.ChunkInfo") ==> err == nil ==> idsOf(v) && byID(v)
  ensures err == nil <==> maxSize >= 1 && createNewF != nil
  ensures err == nil ==> reads(createNewF) == (typeis(c, "*golibs/container/lru.Cache[string,*api/gen/solaris/v1.Log]") ? 1 : 2)
  ensures err == nil ==> c != nil && c.ECache != nil && fresh(c) && fresh(c.ECache) && c.ECache.createNewF == createNewF && c.ECache.createNewF != nil
  ensures err == nil ==> forall i Z :: { cHeld[i] } cHeld[i] == 1 ==> atA(i) != c.ECache && old(cHeld[i]) == 1 && cWhat[i] == old(cWhat[i])

macro caches(s) = s.storage != nil && s.logsCache != nil && s.logsCache.ECache != nil && s.chunksCache != nil && s.chunksCache.ECache != nil && ref(s.logsCache.ECache) != ref(s.chunksCache.ECache) && s.logsCache.ECache.createNewF != nil && s.chunksCache.ECache.createNewF != nil && reads(s.logsCache.ECache.createNewF) == 1 && reads(s.chunksCache.ECache.createNewF) == 2
macro fresh20(s) = caches(s) && (forall k Z :: { cHeld[at(s.logsCache.ECache, k)] } cHeld[at(s.logsCache.ECache, k)] == 1 ==> cWhat[at(s.logsCache.ECache, k)] == stG[stAt(1, k)] && stG[stAt(1, k)] != 0) && (forall k Z :: { cHeld[at(s.chunksCache.ECache, k)] } cHeld[at(s.chunksCache.ECache, k)] == 1 ==> cWhat[at(s.chunksCache.ECache, k)] == stG[stAt(2, k)])

func (s *CachedStorage) GetLogByID#seq(ctx, id) (l, err)
  prop P20
  uses places stored tokens
  requires fresh20(s)
  modifies ghost(cHeld), ghost(cWhat)
  ensures @now err == nil ==> what(l) == logNow(id)
  ensures @coherent fresh20(s)

func (s *CachedStorage) GetChunks#seq(ctx, id) (cis, err)
  prop P20
  uses places stored tokens
  requires fresh20(s)
  modifies ghost(cHeld), ghost(cWhat)
  ensures @now err == nil ==> what(cis) == chunksNow(id)
  ensures @coherent fresh20(s)

func (s *CachedStorage) UpdateLog#seq(ctx, log) (l, err)
  modifies ghost(stOK)
  ensures @told err == nil <==> stOK == 1
  prop P20
  uses places stored tokens
  requires fresh20(s) && log != nil
  modifies ghost(cHeld), ghost(cWhat), ghost(stG)
  ensures @coherent fresh20(s)
  ensures @rest onlyAt(1, log.ID)
  ensures @reported err == nil ==> l != nil

func (s *CachedStorage) CreateLog#seq(ctx, log) (l, err)
  modifies ghost(stOK)
  ensures @told err == nil <==> stOK == 1
  prop P20
  uses places stored tokens
  requires fresh20(s) && log != nil
  modifies ghost(stG), *log
  ensures @coherent fresh20(s)

func (s *CachedStorage) DeleteLogs#seq(ctx, request) (r, err)
  modifies ghost(stOK)
  ensures @told err == nil <==> stOK == 1
  prop P20
  uses places stored tokens
  requires fresh20(s)
  modifies ghost(cHeld), ghost(cWhat), ghost(stG)
  inv # >= 0 && caches(s) && forall j Z :: { cHeld[j] } cHeld[j] == 1 ==> old(cHeld[j]) == 1 && cWhat[j] == old(cWhat[j])
  inv [dr any*DeleteLogsResult] forall j int :: 0 <= j && j < # && j < len(dr.DeletedIDs) ==> !inC(s.logsCache.ECache, dr.DeletedIDs[j]) && !inC(s.chunksCache.ECache, dr.DeletedIDs[j])
  ensures @gone err == nil ==> forall j int :: 0 <= j && j < len(r.DeletedIDs) ==> !inC(s.logsCache.ECache, r.DeletedIDs[j]) && !inC(s.chunksCache.ECache, r.DeletedIDs[j])
  ensures @coherent fresh20(s)

func (s *CachedStorage) UpsertChunkInfos#seq(ctx, logID, cis) (err)
  modifies ghost(stOK)
  ensures @told err == nil <==> stOK == 1
  prop P20
  uses places stored tokens
  requires fresh20(s)
  modifies ghost(cHeld), ghost(cWhat), ghost(stG)
  ensures @coherent fresh20(s)

func (s *CachedStorage) GetLastChunk#seq(ctx, logID) (ci, err)
  prop P20
  uses places stored tokens
  requires fresh20(s)
  modifies ghost(cHeld), ghost(cWhat)
  ensures @last err == nil ==> (hasID(chunksNow(logID), ci.ID) || ci.ID == "") && forall x string :: { hasID(chunksNow(logID), x) } hasID(chunksNow(logID), x) ==> hasID(chunksNow(logID), ci.ID) && !(ci.ID < x)
  ensures @coherent fresh20(s)

func NewCachedStorage#seq(storage) (s)
  prop P20
  uses places stored tokens
  requires storage != nil
  modifies ghost(cHeld), ghost(cWhat)
  ensures @made fresh(s) && s.storage == storage
  ensures @coherent fresh20(s)

func (s *CachedStorage) QueryLogs#seq(ctx, qr) (r, err)
  prop P20
  uses places stored tokens
  requires fresh20(s)
  modifies ghost(stOK)
  ensures @told err == nil <==> stOK == 1
  ensures @coherent fresh20(s)
