package github.com/solarisdb/solaris/golibs/files

// the local file system: the version of the content of every path (0: there is no file); a version names one content
ghostvar fsGen array[string] int
// the remote storage: the version of the content stored for every key (0: nothing)
ghostvar rmt array[string] int
// what was copied into the entry of a zip archive being written
ghostvar zwGot array int
// the content of the first entry of an archive whose content is the version
uf zipOf(Z) Z
// contents of size 0
uf emptyGen(Z) bool
// the content a reader delivers, the path a writer writes to, the archive writer behind an entry writer
uf rdGen(Z) Z
uf outPath(Z) string
uf zpath(Z) string
uf wz(Z) Z
uf fiSize(error) Z
macro fsKeptBut(p) = forall q string :: { fsGen[q] } q != p ==> fsGen[q] == old(fsGen[q])

extern os.Remove(name) (err)
  modifies ghost(fsGen)
  ensures err == nil ==> fsGen == store(old(fsGen), name, 0)
  ensures err != nil ==> fsGen == old(fsGen) && scode(err) == 2 && (iserr(err, errors.ErrNotExist) ==> fsGen[name] == 0)
extern os.Stat(name) (fi, err)
  ensures err == nil ==> fi != nil && fsGen[name] != 0 && fiSize(fi) >= 0 && (fiSize(fi) == 0 ==> emptyGen(fsGen[name]))
extern io/fs.FileInfo.Size(fi) (r)
  ensures r == fiSize(fi)
extern os.Open(name) (f, err)
  ensures err == nil ==> f != nil && fresh(f) && rdGen(f) == fsGen[name]
extern os.Create(name) (f, err)
  modifies ghost(fsGen)
  ensures err == nil ==> f != nil && fresh(f) && outPath(f) == name
  ensures fsKeptBut(name)
extern io.Copy(dst, src) (n, err)
  modifies ghost(fsGen), ghost(zwGot)
  ensures fsKeptBut(outPath(val(dst)))
  ensures err == nil ==> zwGot == store(old(zwGot), wz(val(dst)), rdGen(val(src)))
extern archive/zip.NewWriter(w) (z)
  ensures z != nil && fresh(z) && zpath(z) == outPath(val(w))
extern archive/zip.Writer.Create(z, name) (w, err)
  modifies ghost(fsGen)
  ensures err == nil ==> w != nil && outPath(val(w)) == zpath(z) && wz(val(w)) == z
  ensures fsKeptBut(zpath(z))
extern archive/zip.Writer.Close(z) (err)
  modifies ghost(fsGen)
  ensures fsKeptBut(zpath(z))
  ensures err == nil ==> fsGen[zpath(z)] != 0 && zipOf(fsGen[zpath(z)]) == zwGot[z]

func NewZipWriter(zipFilename) (zw, err)
  prop P17
  modifies ghost(fsGen)
  ensures @new err == nil ==> zw != nil && fresh(zw) && zw.zw != nil && zw.created != nil && zpath(zw.zw) == zipFilename
  ensures @own err == nil ==> fresh(zw.created) && fresh(zw.zw)
  ensures @fs fsKeptBut(zipFilename)
func (zw *ZipWriter) Create(fileName) (w, err)
  prop P17
  requires zw.zw != nil && zw.created != nil
  modifies ghost(fsGen), mapof(zw.created)
  ensures @entry err == nil ==> w != nil && outPath(val(w)) == zpath(zw.zw) && wz(val(w)) == zw.zw
  ensures @fs fsKeptBut(zpath(zw.zw))
func (zw *ZipWriter) Close() (err)
  prop P17
  opt nilrecv
  modifies ghost(fsGen), zw.zw, zw.f
  ensures @again zw == nil || old(zw.zw) == nil ==> fsGen == old(fsGen)
  ensures @fs zw != nil && old(zw.zw) != nil ==> fsKeptBut(zpath(old(zw.zw)))
  ensures @whole err == nil && zw != nil && old(zw.zw) != nil ==> fsGen[zpath(old(zw.zw))] != 0 && zipOf(fsGen[zpath(old(zw.zw))]) == zwGot[old(zw.zw)]
  ensures @done zw != nil ==> zw.zw == nil

package github.com/solarisdb/solaris/pkg/storage/chunkfs

uf pjoin(string, string) string
uf pjoin3(string, string, string) string
extern path/filepath.Join(elem) (r)
  ensures len(elem) == 2 ==> r == pjoin(elem[0], elem[1])
  ensures len(elem) == 3 ==> r == pjoin3(elem[0], elem[1], elem[2])

extern github.com/solarisdb/solaris/golibs/sss.Storage.Put(s, ctx, key, r) (err)
  modifies ghost(rmt)
  ensures err == nil ==> rmt == store(old(rmt), key, rdGen(val(r)))
  ensures forall k string :: { rmt[k] } k != key ==> rmt[k] == old(rmt[k])
extern github.com/solarisdb/solaris/golibs/sss.Storage.Delete(s, ctx, key) (err)
  modifies ghost(rmt)
  ensures err == nil ==> rmt == store(old(rmt), key, 0)
  ensures forall k string :: { rmt[k] } k != key ==> rmt[k] == old(rmt[k])
extern github.com/solarisdb/solaris/golibs/sss.Storage.Get(s, ctx, key) (r, err)
  ensures err == nil ==> r != nil && rdGen(val(r)) == rmt[key]

// the key of a chunk in the remote storage
uf storKey(string) string
axiom storKeyDef(x string, id string) x == id[len(id)-2:] ==> pjoin3("/", x, id) == storKey(id)
  trigger pjoin3("/", x, id)
macro keyOf(id) = storKey(id)
macro rmtKeptBut(p) = forall q string :: { rmt[q] } q != p ==> rmt[q] == old(rmt[q])
macro fsKeptBut2(p, p2) = forall q string :: { fsGen[q] } q != p && q != p2 ==> fsGen[q] == old(fsGen[q])
// the content v is stored remotely for the chunk, or there is nothing to store
macro synced(id, v) = emptyGen(v) || zipOf(rmt[keyOf(id)]) == v

func getStorageKey(cID) (r)
  prop P17
  requires len(cID) >= 2
  uses storKeyDef
  ensures r == keyOf(cID)

func zipFile(cID, fn, zfn) (err)
  prop P17
  requires fn != zfn
  modifies ghost(fsGen), ghost(zwGot)
  ensures @fs fsKeptBut(zfn)
  ensures @whole err == nil ==> zipOf(fsGen[zfn]) == fsGen[fn]

func (r *Replicator) zipAndUploadChunk(ctx, cID) (err)
  prop P17
  requires len(cID) >= 2 && r.fileNameByID != nil && r.logger != nil && r.Storage != nil
  modifies ghost(fsGen), ghost(zwGot), ghost(rmt)
  ensures @fs fsKeptBut(r.fileNameByID(cID) + ".zip")
  ensures @rmt rmtKeptBut(keyOf(cID))
  ensures @stored err == nil ==> synced(cID, fsGen[r.fileNameByID(cID)])
  ensures @absent fsGen[r.fileNameByID(cID)] == 0 ==> rmt == old(rmt)

func (r *Replicator) DeleteChunk(ctx, cID, flags) (err)
  prop P17
  requires len(cID) >= 2 && r.fileNameByID != nil && r.logger != nil && r.Storage != nil && r.CA != nil && flags >= 0
  modifies ghost(fsGen), ghost(zwGot), ghost(rmt), ghost(caHeld), ghost(caGrants)
  requires caHeld[cID] == 0
  ensures @right caHeld == old(caHeld)
  ensures @fs fsKeptBut2(r.fileNameByID(cID), r.fileNameByID(cID) + ".zip")
  ensures @rmt rmtKeptBut(keyOf(cID))
  ensures @flags flags % 4 == 3 ==> err != nil && fsGen == old(fsGen) && rmt == old(rmt)
  ensures @granted fsGen != old(fsGen) || rmt != old(rmt) || err == nil ==> caGrants == old(caGrants) + 1
  ensures @done err == nil ==> fsGen[r.fileNameByID(cID)] == 0 && (flags % 2 == 1 ==> rmt[keyOf(cID)] == 0)
  ensures @gone fsGen[r.fileNameByID(cID)] == old(fsGen[r.fileNameByID(cID)]) || fsGen[r.fileNameByID(cID)] == 0
  ensures @absent flags / 2 % 2 == 1 && old(fsGen[r.fileNameByID(cID)]) == 0 ==> rmt == old(rmt)
  ensures @safe flags / 2 % 2 == 1 && fsGen[r.fileNameByID(cID)] != old(fsGen[r.fileNameByID(cID)]) ==> synced(cID, old(fsGen[r.fileNameByID(cID)]))

func (r *Replicator) UploadChunk(ctx, cID) (err)
  prop P17
  requires len(cID) >= 2 && r.fileNameByID != nil && r.logger != nil && r.Storage != nil && r.CA != nil && ctx != nil
  requires caHeld[cID] == 0
  modifies ghost(fsGen), ghost(zwGot), ghost(rmt), ghost(caHeld), ghost(caGrants)
  ensures @right caHeld == old(caHeld)
  ensures @fs fsKeptBut(r.fileNameByID(cID) + ".zip")
  ensures @rmt rmtKeptBut(keyOf(cID))
  ensures @stored err == nil ==> synced(cID, fsGen[r.fileNameByID(cID)])
  ensures @granted fsGen != old(fsGen) || rmt != old(rmt) || err == nil ==> caGrants == old(caGrants) + 1

func (p *Provider) GetFileNameByID(id) (r)
  helper
  prop P17
  requires len(id) >= 2
  ensures r == pjoin(pjoin(p.dir, id[len(id)-2:]), id)
func (p *Provider) getPathByID(id) (r)
  helper
  prop P17
  requires len(id) >= 2
  ensures r == pjoin(p.dir, id[len(id)-2:])

func (p *Provider) DeleteFileIfEmpty(cID)
  prop P17
  requires len(cID) == 0 || len(cID) >= 2
  requires p.CA != nil && p.logger != nil && caHeld[cID] == 0
  modifies ghost(fsGen), ghost(caHeld), ghost(caGrants)
  ensures @right caHeld == old(caHeld)
  ensures @fs fsKeptBut(pjoin(pjoin(p.dir, cID[len(cID)-2:]), cID))
  ensures @granted fsGen != old(fsGen) ==> caGrants == old(caGrants) + 1
  ensures @empty fsGen != old(fsGen) ==> len(cID) > 0 && emptyGen(old(fsGen[pjoin(pjoin(p.dir, cID[len(cID)-2:]), cID)]))

macro rOK(r) = r != nil && r.fileNameByID != nil && r.logger != nil && r.Storage != nil && r.CA != nil
// different chunks have different files and remote keys, and no chunk is named like another one's archive
macro namesOK(r) = (forall a, b string :: { r.fileNameByID(a), r.fileNameByID(b) } a != b ==> r.fileNameByID(a) != r.fileNameByID(b)) && (forall a, b string :: { r.fileNameByID(a), r.fileNameByID(b) + ".zip" } r.fileNameByID(a) != r.fileNameByID(b) + ".zip") && (forall a, b string :: { keyOf(a), keyOf(b) } a != b ==> keyOf(a) != keyOf(b))
// the chunk's file is as it was, or it is gone and the remote storage has its content
macro noLoss(r, id) = fsGen[r.fileNameByID(id)] == old(fsGen[r.fileNameByID(id)]) || fsGen[r.fileNameByID(id)] == 0 && synced(id, old(fsGen[r.fileNameByID(id)]))

func (s *Scanner) sweep(ctx, dir, sis)
  prop P17
  requires s.logger != nil && rOK(s.Replicator) && namesOK(s.Replicator) && ctx != nil
  requires forall k string :: { sis[k] } k in sis ==> len(sis[k].ID) >= 2
  requires forall k string :: { caHeld[k] } caHeld[k] == 0
  modifies ghost(fsGen), ghost(zwGot), ghost(rmt), ghost(caHeld), ghost(caGrants), mapof(sis)
  inv # >= 0 && caHeld == old(caHeld)
  inv # >= 0 && forall k string :: { sis[k] } k in sis ==> len(sis[k].ID) >= 2
  inv # >= 0 && forall id string :: { s.Replicator.fileNameByID(id) } noLoss(s.Replicator, id)
  ensures @right caHeld == old(caHeld)
  ensures @safe forall id string :: { s.Replicator.fileNameByID(id) } noLoss(s.Replicator, id)
func (s *Scanner) replicate(ctx, sis)
  prop P17
  requires s.logger != nil && rOK(s.Replicator) && namesOK(s.Replicator) && ctx != nil
  requires forall k string :: { sis[k] } k in sis ==> len(sis[k].ID) >= 2
  requires forall k string :: { caHeld[k] } caHeld[k] == 0
  modifies ghost(fsGen), ghost(zwGot), ghost(rmt), ghost(caHeld), ghost(caGrants), mapof(sis)
  inv # >= 0 && caHeld == old(caHeld)
  inv # >= 0 && forall k string :: { sis[k] } k in sis ==> len(sis[k].ID) >= 2
  inv # >= 0 && forall id string :: { s.Replicator.fileNameByID(id) } fsGen[s.Replicator.fileNameByID(id)] == old(fsGen[s.Replicator.fileNameByID(id)])
  ensures @right caHeld == old(caHeld)
  ensures @kept forall id string :: { s.Replicator.fileNameByID(id) } fsGen[s.Replicator.fileNameByID(id)] == old(fsGen[s.Replicator.fileNameByID(id)])

extern archive/zip.NewReader(r, size) (z, err)
  ensures err == nil ==> z != nil && fresh(z)
extern archive/zip.File.Open(f) (r, err)
  ensures err == nil ==> r != nil
extern io.ReadCloser.Close(r) (err)
extern encoding/json.Marshal(v) (b, err)
extern os.File.Write(f, b) (n, err)
  modifies ghost(fsGen)
  ensures fsKeptBut(outPath(f))
extern github.com/solarisdb/solaris/golibs/files.NewZipIterator(zfn) (r, err)
  ensures err == nil ==> r != nil
extern github.com/solarisdb/solaris/golibs/files.ZipIterator.Next(z) (r)
extern github.com/solarisdb/solaris/golibs/files.ZipIterator.Close(z) (err)

func (r *Replicator) downloadZip(ctx, cID, zfn) (err)
  prop P17
  requires len(cID) >= 2 && r.Storage != nil
  modifies ghost(fsGen), ghost(zwGot)
  ensures @fs fsKeptBut(zfn)
func (r *Replicator) unzip(zfn, fn) (err)
  prop P17
  modifies ghost(fsGen), ghost(zwGot)
  ensures @fs fsKeptBut(fn)
func createScanInfo(cID, fn) (err)
  prop P17
  modifies ghost(fsGen)
  ensures @fs fsKeptBut(fn + ".info")
func createScanInfoWithInfo(fn, si) (err)
  prop P17
  modifies ghost(fsGen)
  ensures @fs fsKeptBut(fn + ".info")
func (r *Replicator) DownloadChunk(ctx, cID, flags) (err)
  prop P17
  requires len(cID) >= 2 && rOK(r) && ctx != nil && flags >= 0
  requires caHeld[cID] == 0
  modifies ghost(fsGen), ghost(zwGot), ghost(caHeld), ghost(caGrants)
  ensures @right caHeld == old(caHeld)
  ensures @granted fsGen != old(fsGen) || err == nil ==> caGrants == old(caGrants) + 1
  ensures @fs forall q string :: { fsGen[q] } q != r.fileNameByID(cID) && q != r.fileNameByID(cID) + ".zip" && q != r.fileNameByID(cID) + ".info" ==> fsGen[q] == old(fsGen[q])
