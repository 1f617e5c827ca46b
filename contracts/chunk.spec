package github.com/solarisdb/solaris/golibs/files

// an opened mapped file
macro mmOK(m) = m.mf != nil && off(m.mf) == 0 && len(m.mf) == m.size && 0 < m.size && m.size <= pow2(40)

func (mmf *MMFile) Size() (r)
  prop P05 P06
  ensures @def r == mmf.size
func (mmf *MMFile) Buffer(offs, size) (r, err)
  prop P05 P06
  requires mmOK(mmf)
  requires 0 <= size && size <= pow2(40)
  ensures @bad (offs < 0 || offs >= mmf.size) <==> err != nil
  ensures @ok err == nil ==> ref(r) == ref(mmf.mf) && off(r) == offs && len(r) == min(size, mmf.size - offs)

// the bytes of the file on disk: a shared mapping shows them and leaves them behind when it is removed
ghostvar fileB array int
extern github.com/edsrzf/mmap-go.MMap.Unmap(m) (err)
  modifies *m, ghost(fileB)
  ensures *m == nil
  ensures forall i Z :: { fileB[i] } 0 <= i && i < old(len(*m)) ==> fileB[i] == old((*m)[i])
  ensures forall i Z :: { fileB[i] } i >= old(len(*m)) ==> fileB[i] == old(fileB[i])
extern github.com/edsrzf/mmap-go.MapRegion(f, n, prot, flags, o) (r, err)
  ensures err != nil ==> r == nil
  ensures err == nil ==> fresh(r) && off(r) == 0 && len(r) == n && r != nil && forall i int :: { r[i] } 0 <= i && i < n ==> r[i] == fileB[i]
extern os.File.Truncate(f, n) (err)
extern os.File.Close(f) (err)

func checkSize(size) (err)
  prop P05
  ensures @def (err == nil) <==> (size > 0 && size % 4096 == 0)
func (mmf *MMFile) unmap()
  prop P05
  modifies mmf.mf, ghost(fileB)
  ensures @nil mmf.mf == nil
  ensures @kept forall i Z :: { fileB[i] } 0 <= i && i < old(len(mmf.mf)) ==> fileB[i] == old(mmf.mf[i])
  ensures @rest forall i Z :: { fileB[i] } i >= old(len(mmf.mf)) ==> fileB[i] == old(fileB[i])
func (mmf *MMFile) Close() (err)
  prop P05
  modifies mmf.mf, mmf.f, mmf.size, ghost(fileB)
  ensures @closed old(mmf.f) != nil ==> mmf.f == nil && mmf.mf == nil && mmf.size == -1
  ensures @noop old(mmf.f) == nil ==> mmf.mf == old(mmf.mf) && mmf.size == old(mmf.size) && mmf.f == nil
  ensures @kept forall i Z :: { fileB[i] } 0 <= i && i < old(len(mmf.mf)) && old(mmf.f) != nil ==> fileB[i] == old(mmf.mf[i])
  ensures @rest forall i Z :: { fileB[i] } i >= old(len(mmf.mf)) || old(mmf.f) == nil ==> fileB[i] == old(fileB[i])
func (mmf *MMFile) Grow(newSize) (err)
  prop P05
  requires mmOK(mmf) && mmf.f != nil
  requires newSize <= pow2(40)
  modifies mmf.mf, mmf.f, mmf.size, ghost(fileB)
  ensures @size err == nil ==> mmf.size == newSize && newSize >= old(mmf.size) && mmOK(mmf) && mmf.f == old(mmf.f)
  ensures @valid err == nil ==> newSize == old(mmf.size) || newSize % 4096 == 0
  ensures @bytes err == nil ==> forall i int :: { mmf.mf[i] } 0 <= i && i < old(mmf.size) ==> mmf.mf[i] == old(mmf.mf[i])
  ensures @map err == nil ==> mmf.mf == old(mmf.mf) || fresh(mmf.mf)
  ensures @failed err != nil ==> (mmf.mf == old(mmf.mf) && mmf.size == old(mmf.size) && mmf.f == old(mmf.f)) || mmf.size == -1
  ensures @onDisk err != nil && mmf.size == -1 ==> forall i Z :: { fileB[i] } 0 <= i && i < old(mmf.size) ==> fileB[i] == old(mmf.mf[i])
  ensures @works newSize >= old(mmf.size) && newSize % 4096 == 0 && err != nil ==> mmf.size == -1

package github.com/solarisdb/solaris/pkg/storage/chunkfs

// the index of a chunk of size s with the bytes a: record k is described by the 24 bytes that end 24*k bytes before the end
macro be32(a, p) = a[p] * pow2(24) + a[p+1] * pow2(16) + a[p+2] * 256 + a[p+3]
uf mOff([64]byte, Z, Z) Z
uf mLen([64]byte, Z, Z) Z
uf mID([64]byte, Z, Z) Z
axiom mOffDef(a [64]byte, s Z, k Z) mOff(a, s, k) == be32(a, s - 24 * (k + 1) + 16)
axiom mLenDef(a [64]byte, s Z, k Z) mLen(a, s, k) == be32(a, s - 24 * (k + 1) + 20)
macro u128at(a, p) = ((((((((((((((((a[p+0])*256 + a[p+1])*256 + a[p+2])*256 + a[p+3])*256 + a[p+4])*256 + a[p+5])*256 + a[p+6])*256 + a[p+7])*256 + a[p+8])*256 + a[p+9])*256 + a[p+10])*256 + a[p+11])*256 + a[p+12])*256 + a[p+13])*256 + a[p+14])*256 + a[p+15])
axiom mIDDef(a [64]byte, s Z, k Z) mID(a, s, k) == u128at(a, s - 24 * (k + 1))

func (mb metaBuf) get(idx) (r)
  prop P05 P06
  uses uidDef mIDDef mOffDef mLenDef
  requires 0 <= idx && 24 * (idx + 1) <= len(mb)
  ensures @id uid(r.ID) == mID(mem(mb), off(mb) + len(mb), idx)
  ensures @off mOff(mem(mb), off(mb) + len(mb), idx) < pow2(31) ==> r.offset == mOff(mem(mb), off(mb) + len(mb), idx)
  ensures @len mLen(mem(mb), off(mb) + len(mb), idx) < pow2(31) ==> r.size == mLen(mem(mb), off(mb) + len(mb), idx)
func (mb metaBuf) put(idx, mr)
  prop P05
  uses uidDef mIDDef mOffDef mLenDef
  requires 0 <= idx && 24 * (idx + 1) <= len(mb)
  requires 0 <= mr.offset && 0 <= mr.size
  modifies elems(mb[len(mb)-24*(idx+1):len(mb)-24*idx])
  ensures @id mID(mem(mb), off(mb) + len(mb), idx) == uid(mr.ID)
  ensures @off mOff(mem(mb), off(mb) + len(mb), idx) == mr.offset
  ensures @len mLen(mem(mb), off(mb) + len(mb), idx) == mr.size

macro recOff(c, k) = mOff(mem(c.mmf.mf), c.mmf.size, k)
macro recLen(c, k) = mLen(mem(c.mmf.mf), c.mmf.size, k)
macro recID(c, k) = mID(mem(c.mmf.mf), c.mmf.size, k)
// an opened chunk: payload region growing upwards from the header, index region growing downwards from the end
macro chOK(c) = c.logger != nil && c.mmf != nil && mmOK(c.mmf) && c.mmf.size <= pow2(31) && 0 <= c.total && 32 <= c.freeOffset && c.freeOffset + 24 * c.total <= c.mmf.size
   && (forall k Z :: { recOff(c, k) } 0 <= k && k < c.total ==> 32 <= recOff(c, k) && 0 <= recLen(c, k) && recOff(c, k) + recLen(c, k) <= c.freeOffset)
   && (forall j, k Z :: { recOff(c, j), recOff(c, k) } 0 <= j && j < k && k < c.total ==> recOff(c, j) + recLen(c, j) <= recOff(c, k))
macro sortedIDs(c) = forall j, k Z :: { recID(c, j), recID(c, k) } 0 <= j && j < k && k < c.total ==> recID(c, j) < recID(c, k)
macro rdOK(cr) = cr.c != nil && chOK(cr.c) && (cr.inc == 1 || cr.inc == -1) && -1 <= cr.idx && cr.idx <= cr.c.total && (cr.c.total > 0 ==> ref(cr.mb) == ref(cr.c.mmf.mf) && off(cr.mb) == cr.c.mmf.size - 24 * cr.c.total && len(cr.mb) == 24 * cr.c.total)

func (c *Chunk) getMetaBuf(startIdx, ln) (r, err)
  prop P05 P06
  requires c.logger != nil && c.mmf != nil && mmOK(c.mmf) && c.mmf.size <= pow2(31)
  requires 0 <= ln && ln <= startIdx + 1 && startIdx <= pow2(31) && ln <= pow2(31)
  ensures @bad (startIdx < 0 || 24 * (startIdx + 1) > c.mmf.size) <==> err != nil
  ensures @ok err == nil ==> ref(r) == ref(c.mmf.mf) && off(r) == c.mmf.size - 24 * (startIdx + 1) && len(r) == 24 * ln

func (c *Chunk) OpenChunkReader(descending) (r, err)
  prop P06
  requires c.mmf != nil ==> chOK(c)
  ensures @closed c.mmf == nil ==> err != nil
  ensures @ok c.mmf != nil ==> err == nil
  ensures @reader err == nil ==> rdOK(r) && r.c == c && r.inc == (descending ? -1 : 1) && r.idx == (descending ? c.total - 1 : 0)
func (cr *ChunkReader) HasNext() (r)
  prop P06
  requires rdOK(cr)
  ensures @def r <==> (0 <= cr.idx && cr.idx < cr.c.total)
func (cr *ChunkReader) Next() (r, ok)
  prop P06
  uses mOffDef mLenDef
  requires rdOK(cr)
  modifies cr.idx
  ensures @end ok <==> (0 <= old(cr.idx) && old(cr.idx) < cr.c.total)
  ensures @idx cr.idx == (ok ? old(cr.idx) + cr.inc : old(cr.idx))
  ensures @id ok ==> uid(r.ID) == recID(cr.c, old(cr.idx))
  ensures @payload ok ==> ref(r.UnsafePayload) == ref(cr.c.mmf.mf) && off(r.UnsafePayload) == recOff(cr.c, old(cr.idx)) && len(r.UnsafePayload) == recLen(cr.c, old(cr.idx))
func (cr *ChunkReader) SetStartID(startID) (r)
  prop P06
  requires rdOK(cr) && sortedIDs(cr.c)
  modifies cr.idx
  inv [i int, j int] forall k Z :: { recID(cr.c, k) } 0 <= k && k < i && k < cr.c.total ==> (cr.inc == 1 ? recID(cr.c, k) < uid(startID) : recID(cr.c, k) <= uid(startID))
  inv [i int, j int] forall k Z :: { recID(cr.c, k) } j <= k && 0 <= k && k < cr.c.total ==> (cr.inc == 1 ? recID(cr.c, k) >= uid(startID) : recID(cr.c, k) > uid(startID))
  ensures @asc cr.inc == 1 ==> 0 <= cr.idx && cr.idx <= cr.c.total && (forall k Z :: { recID(cr.c, k) } 0 <= k && k < cr.idx ==> recID(cr.c, k) < uid(startID)) && (forall k Z :: { recID(cr.c, k) } cr.idx <= k && k < cr.c.total ==> recID(cr.c, k) >= uid(startID))
  ensures @desc cr.inc == -1 ==> -1 <= cr.idx && cr.idx < cr.c.total && (forall k Z :: { recID(cr.c, k) } 0 <= k && k <= cr.idx ==> recID(cr.c, k) <= uid(startID)) && (forall k Z :: { recID(cr.c, k) } cr.idx < k && k < cr.c.total ==> recID(cr.c, k) > uid(startID))
  ensures @left r == (cr.inc == 1 ? cr.c.total - cr.idx : cr.idx + 1)

// ---- appending
// glen: the payload length of the record at each absolute position of the slice of records handed to the chunk
ghostvar glen array int
uf psum([64]byte, Z, Z) Z
uf psumF([64]byte, Z, Z) Z
axiom psumSyn(a [64]byte, lo Z, hi Z) psum(a, lo, hi) == psumF(a, lo, hi)
  trigger psum(a, lo, hi)
axiom psumDef(a [64]byte, lo Z, hi Z) psum(a, lo, hi) == (hi <= lo ? 0 : psumF(a, lo, hi - 1) + a[hi-1])
  trigger psum(a, lo, hi)
lemma psumLe(a [64]byte, lo Z, mid Z, hi Z)
  requires forall p Z :: { a[p] } a[p] >= 0
  requires lo <= mid && mid <= hi
  induct hi - mid
  uses psumSyn psumDef
  trigger psum(a, lo, mid), psum(a, lo, hi)
  ensures psum(a, lo, mid) <= psum(a, lo, hi)
macro recsOK(recs) = (forall p Z :: { glen[p] } glen[p] >= 0) && forall i int :: { recs[i] } 0 <= i && i < len(recs) ==> recs[i] != nil && glen[off(recs)+i] == len(recs[i].Payload)
macro cfgOK(c) = 4096 <= c.cfg.MaxChunkSize && c.cfg.MaxChunkSize <= pow2(31) && c.cfg.MaxChunkSize % 4096 == 0 && 4096 <= c.cfg.MaxGrowIncreaseSize && c.cfg.MaxGrowIncreaseSize <= pow2(31) && c.cfg.MaxGrowIncreaseSize % 4096 == 0 && c.mmf.size % 4096 == 0

func (c *Chunk) available() (r)
  prop P05
  requires chOK(c)
  ensures @def r == c.mmf.size - c.freeOffset - 24 * c.total

func (c *Chunk) writable(recs) (n, size)
  prop P05
  uses psumSyn psumDef
  requires chOK(c) && cfgOK(c) && recsOK(recs)
  let maxA = c.cfg.MaxChunkSize - c.freeOffset - 24 * c.total
  inv [x int] x == psum(glen, off(recs), off(recs) + #) + 24 * #
  inv [x int] 24 * # <= x
  inv [x int] # > 0 ==> x <= maxA
  inv # <= len(recs)
  ensures @range 0 <= n && n <= len(recs)
  ensures @pos 24 * n <= size
  ensures @size size == psum(glen, off(recs), off(recs) + n) + 24 * n
  ensures @fits n > 0 ==> size <= maxA
  ensures @most n < len(recs) ==> size + 24 + len(recs[n].Payload) > maxA

// positions of the stored index entries do not depend on the size of the file
macro kept(c) = (forall k Z :: { recID(c, k) } 0 <= k && k < old(c.total) ==> recID(c, k) == old(recID(c, k)))
   && (forall k Z :: { recOff(c, k) } 0 <= k && k < old(c.total) ==> recOff(c, k) == old(recOff(c, k)) && recLen(c, k) == old(recLen(c, k)))
   && (forall p int :: { c.mmf.mf[p] } 12 <= p && p < old(c.freeOffset) ==> c.mmf.mf[p] == old(c.mmf.mf[p]))

func (c *Chunk) growForWrite(size) (err)
  prop P05
  uses mOffDef mLenDef mIDDef
  requires chOK(c) && cfgOK(c) && c.mmf.f != nil
  requires 0 <= size && size <= pow2(31)
  modifies *c.mmf, ghost(fileB), array(c.mmf.mf)
  ensures @room err == nil ==> c.mmf.size - c.freeOffset - 24 * c.total >= size
  ensures @max err == nil ==> c.mmf.size == old(c.mmf.size) || (c.mmf.size <= c.cfg.MaxChunkSize && c.mmf.size % 4096 == 0)
  ensures @open err == nil ==> mmOK(c.mmf) && c.mmf.f != nil && (c.mmf.mf == old(c.mmf.mf) || fresh(c.mmf.mf))
  ensures @ok err == nil ==> chOK(c)
  ensures @kept err == nil ==> kept(c)
  ensures @head err == nil ==> forall p int :: { c.mmf.mf[p] } 0 <= p && p < old(c.freeOffset) ==> c.mmf.mf[p] == old(c.mmf.mf[p])
  ensures @failed err != nil ==> c.mmf.size == -1 || (c.mmf.mf == old(c.mmf.mf) && c.mmf.size == old(c.mmf.size) && mem(c.mmf.mf) == old(mem(c.mmf.mf)))
  ensures @refused err != nil && c.mmf.size != -1 ==> old(c.mmf.size - (c.mmf.size - c.freeOffset - 24 * c.total)) + size > c.cfg.MaxChunkSize

func (c *Chunk) AppendRecords(recs) (r, err)
  prop P05
  uses mOffDef mLenDef mIDDef psumSyn psumDef psumLe uidDef
  requires c.mmf != nil ==> chOK(c) && cfgOK(c) && c.mmf.f != nil
  requires recsOK(recs)
  requires forall i, j int :: { recs[i], recs[j] } 0 <= i && i < j && j < len(recs) ==> recs[i] != recs[j]
  requires c.mmf != nil ==> forall i int :: { recs[i] } 0 <= i && i < len(recs) ==> ref(recs[i].Payload) != ref(c.mmf.mf)
  modifies *c.mmf, ghost(fileB), array(c.mmf.mf), c.total, c.freeOffset, heap(recs[0])
  ensures @closed old(c.mmf) == nil ==> err != nil
  ensures @failed err != nil ==> r.Written == 0 && c.total == old(c.total) && c.freeOffset == old(c.freeOffset)
  ensures @n err == nil ==> 0 <= r.Written && r.Written <= len(recs) && c.total == old(c.total) + r.Written
  ensures @ok err == nil ==> chOK(c) && c.mmf.f != nil
  ensures @max err == nil ==> c.mmf.size == old(c.mmf.size) || c.mmf.size <= c.cfg.MaxChunkSize
  ensures @kept err == nil ==> kept(c)
  ensures @count err == nil && r.Written > 0 ==> be32(c.mmf.mf, 8) == c.total
  ensures @payload err == nil ==> forall i, j int :: { recs[i], recs[i].Payload[j] } 0 <= i && i < r.Written && 0 <= j && j < len(recs[i].Payload) ==> c.mmf.mf[recOff(c, old(c.total) + i) + j] == recs[i].Payload[j]
  ensures @len err == nil ==> forall i int :: { recs[i] } 0 <= i && i < r.Written ==> recLen(c, old(c.total) + i) == len(recs[i].Payload)
  ensures @same forall i int :: { recs[i] } 0 <= i && i < len(recs) ==> recs[i].Payload == old(recs[i].Payload)
  ensures @id err == nil ==> forall i int :: { recs[i] } 0 <= i && i < r.Written ==> recs[i].ID == ulidText(recID(c, old(c.total) + i))
  ensures @startID err == nil && r.Written > 0 ==> uid(r.StartID) == recID(c, old(c.total)) && uid(r.LastID) == recID(c, c.total - 1)
  ensures @partial err == nil && r.Written < len(recs) ==> c.freeOffset + 24 * c.total + 24 + len(recs[r.Written].Payload) > c.cfg.MaxChunkSize
