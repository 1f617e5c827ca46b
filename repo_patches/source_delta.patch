From 8daa0c1774eea6b8fc995a90e43a9496ad250a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:02 +0000
Subject: [PATCH 01/13] fix: xbinary.UnmarshalBytes panicked on a length that
 overflows int

---
 golibs/xbinary/xbinary.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/golibs/xbinary/xbinary.go b/golibs/xbinary/xbinary.go
index 80fb62c..4cf32de 100644
--- a/golibs/xbinary/xbinary.go
+++ b/golibs/xbinary/xbinary.go
@@ -266,10 +266,10 @@ func UnmarshalBytes(buf []byte, newBuf bool) (int, []byte, error) {
 		return 0, nil, err
 	}
 
-	ln := int(uln)
-	if len(buf) < ln+idx {
-		return 0, nil, noBufErr("UnmarshalBytes-size-body", len(buf)-idx, ln)
+	if uln > uint(len(buf)-idx) {
+		return 0, nil, noBufErr("UnmarshalBytes-size-body", len(buf)-idx, int(uln))
 	}
+	ln := int(uln)
 
 	res := buf[idx : idx+ln]
 	if newBuf {
-- 
2.43.0


From a60190fa5cc9ebcfa7428a1f799d4ccb1a432916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:55 +0000
Subject: [PATCH 02/13] fix: SliceExcludeOverlaps reported a value repeated in
 s2 as unique

---
 golibs/container/sliceutils.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/golibs/container/sliceutils.go b/golibs/container/sliceutils.go
index a68fe3e..bd34956 100644
--- a/golibs/container/sliceutils.go
+++ b/golibs/container/sliceutils.go
@@ -64,15 +64,18 @@ func SliceExcludeOverlaps[V comparable](s1, s2 []V) ([]V, []V) {
 	}
 	uniqueS2 := []V{}
 	for _, v := range s2 {
-		if m[v] {
-			delete(m, v)
+		if _, ok := m[v]; ok {
+			// keep the key, so the v repeated in s2 is not considered unique
+			m[v] = false
 		} else {
 			uniqueS2 = append(uniqueS2, v)
 		}
 	}
 	uniqueS1 := make([]V, 0, len(m))
-	for v := range m {
-		uniqueS1 = append(uniqueS1, v)
+	for v, unique := range m {
+		if unique {
+			uniqueS1 = append(uniqueS1, v)
+		}
 	}
 	return uniqueS1, uniqueS2
 }
-- 
2.43.0


From f96996ae0c21cb8325d61b2fbecb2fca000f0a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:09 +0000
Subject: [PATCH 03/13] fix: Service.CountRecords returned storage errors
 without their gRPC code

---
 pkg/api/service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index de44642..b390637 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -186,7 +186,7 @@ func (s *Service) CountRecords(ctx context.Context, request *solaris.QueryRecord
 			Limit:   request.Limit},
 		)
 		if err != nil {
-			return nil, err
+			return nil, errors.GRPCWrap(err)
 		}
 
 		total += t
-- 
2.43.0


From 440366ddfceb9ba16ceb4979edb4493ef5388b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 04/13] fix: logfs.toRange missed or added records at interval
 bounds with a sub-millisecond part

---
 pkg/storage/logfs/locallog.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/storage/logfs/locallog.go b/pkg/storage/logfs/locallog.go
index 7d126c5..e2bb5a9 100644
--- a/pkg/storage/logfs/locallog.go
+++ b/pkg/storage/logfs/locallog.go
@@ -484,15 +484,16 @@ func getRanges(tis []intervals.Interval[time.Time], ci ChunkInfo) []idRange {
 }
 
 func toRange(ti intervals.Interval[time.Time]) idRange {
-	if ti.IsClosed() {
-		return idRange{start: minULIDForTime(ti.L), end: maxULIDForTime(ti.R)}
-	} else if ti.IsOpenL() {
-		return idRange{start: minULIDForTime(ti.L.Add(time.Millisecond)), end: maxULIDForTime(ti.R)}
-	} else if ti.IsOpenR() {
-		return idRange{start: minULIDForTime(ti.L), end: maxULIDForTime(ti.R.Add(-time.Millisecond))}
-	} else { // open
-		return idRange{start: minULIDForTime(ti.L.Add(time.Millisecond)), end: maxULIDForTime(ti.R.Add(-time.Millisecond))}
+	// the record IDs have millisecond resolution, so the range consists of the whole milliseconds which belong to ti
+	start := ti.L.Truncate(time.Millisecond)
+	if !ti.LIn || start.Before(ti.L) {
+		start = start.Add(time.Millisecond)
 	}
+	end := ti.R.Truncate(time.Millisecond)
+	if !ti.RIn && end.Equal(ti.R) {
+		end = end.Add(-time.Millisecond)
+	}
+	return idRange{start: minULIDForTime(start), end: maxULIDForTime(end)}
 }
 
 func minULIDForTime(t time.Time) ulid.ULID {
-- 
2.43.0


From 9daa19406f32dcc7a324ca75e2c04a567e2ac65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 05/13] fix: OpenChunkReader accepts a chunk that has no
 records yet

---
 pkg/storage/chunkfs/chunk.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/chunkfs/chunk.go b/pkg/storage/chunkfs/chunk.go
index 2780015..7c862f4 100644
--- a/pkg/storage/chunkfs/chunk.go
+++ b/pkg/storage/chunkfs/chunk.go
@@ -394,10 +394,14 @@ func (c *Chunk) OpenChunkReader(descending bool) (*ChunkReader, error) {
 		c.lock.RUnlock()
 		return nil, fmt.Errorf("the chunk %s is closed: %w ", c.fn, errors.ErrClosed)
 	}
-	mb, err := c.getMetaBuf(c.total-1, c.total)
-	if err != nil {
-		c.lock.RUnlock()
-		return nil, err
+	var mb metaBuf
+	if c.total > 0 {
+		var err error
+		mb, err = c.getMetaBuf(c.total-1, c.total)
+		if err != nil {
+			c.lock.RUnlock()
+			return nil, err
+		}
 	}
 
 	cr := new(ChunkReader)
-- 
2.43.0


From 0c5ec03c5e1c30a9e239c55da664fd6a8af2928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 06/13] fix: keep the local chunk file when its upload fails
 before the removal

---
 pkg/storage/chunkfs/replicator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index a2c5097..0545814 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -109,7 +109,8 @@ func (r *Replicator) DeleteChunk(ctx context.Context, cID string, flags int) err
 	if flags&RFRemoteSync != 0 {
 		if err := r.zipAndUploadChunk(ctx, cID); err != nil {
 			r.logger.Warnf("error while syncing chunk cID=%s, flags=%d to remote: %s", cID, flags, err)
-			resErr = err
+			// the local file is the only copy, so keep it
+			return err
 		}
 	}
 
-- 
2.43.0


From 5bd1d2d3eeb1177a42e5f89480384539b88849be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 07/13] fix: DeleteFileIfEmpty leaves a chunk alone which it
 could not lock

---
 pkg/storage/chunkfs/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/chunkfs/provider.go b/pkg/storage/chunkfs/provider.go
index a884117..0877c73 100644
--- a/pkg/storage/chunkfs/provider.go
+++ b/pkg/storage/chunkfs/provider.go
@@ -78,6 +78,7 @@ func (p *Provider) DeleteFileIfEmpty(cID string) {
 	}
 	if !p.CA.setDeleting(cID) {
 		p.logger.Errorf("DeleteFileIfEmpty(): something goes wrong, cannot mark chunk %s for deleting", cID)
+		return
 	}
 	defer p.CA.SetIdle(cID)
 	fn := p.GetFileNameByID(cID)
-- 
2.43.0


From 330b1c0203f54b3edaac3a5b16ffb23f66039788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 08/13] fix: do not upload a chunk archive which could not be
 written completely

---
 pkg/storage/chunkfs/replicator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/chunkfs/replicator.go b/pkg/storage/chunkfs/replicator.go
index 0545814..323a05e 100644
--- a/pkg/storage/chunkfs/replicator.go
+++ b/pkg/storage/chunkfs/replicator.go
@@ -178,7 +178,8 @@ func zipFile(cID, fn, zfn string) error {
 	if _, err := io.Copy(w, f); err != nil {
 		return err
 	}
-	return nil
+	// the archive is complete only when it is closed without an error
+	return zw.Close()
 }
 
 func getStorageKey(cID string) string {
-- 
2.43.0


From 62c173d9d3c0a0afa16e95814ab9d15c74444681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 09/13] fix: creating a record in memory replaces an expired
 one

---
 golibs/kvs/inmem/inmem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/golibs/kvs/inmem/inmem.go b/golibs/kvs/inmem/inmem.go
index 8ef80ba..02a5c89 100644
--- a/golibs/kvs/inmem/inmem.go
+++ b/golibs/kvs/inmem/inmem.go
@@ -58,7 +58,11 @@ func (s *service) Create(ctx context.Context, record kvs.Record) (string, error)
 		return "", ctx.Err()
 	}
 	if r, ok := s.recs[record.Key]; ok {
-		return r.Version, errors.ErrExist
+		if r.ExpiresAt == nil || !r.ExpiresAt.Before(time.Now()) {
+			return r.Version, errors.ErrExist
+		}
+		// the expired record does not exist anymore
+		s.notifyWaiters(record.Key)
 	}
 	record.Version = ulidutils.NewID()
 	s.recs[record.Key] = record
-- 
2.43.0


From 73fc54eab4c998fe92a819d5d6dfc66a9009d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 10/13] fix: closing an iterator over a removed first entry
 keeps the map usable

---
 golibs/container/iterable/map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/golibs/container/iterable/map.go b/golibs/container/iterable/map.go
index 405716c..311075b 100644
--- a/golibs/container/iterable/map.go
+++ b/golibs/container/iterable/map.go
@@ -132,7 +132,10 @@ func (im *Map[K, V]) getValue(p *rlItem[K, V]) *rlItem[K, V] {
 func (im *Map[K, V]) release(p *rlItem[K, V]) {
 	p.refCnt--
 	if p.state == rlDeleted {
-		p.delete()
+		head := p.delete()
+		if head != nil {
+			im.head = head
+		}
 		if p.refCnt == 0 {
 			im.pool.Put(p)
 		}
-- 
2.43.0


From d339cb3eab6d57dfb0347e97c275bde15c9a2587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 11/13] fix: Clear of the cache closes its iterator

---
 golibs/container/lru/ecache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/golibs/container/lru/ecache.go b/golibs/container/lru/ecache.go
index fc651d5..c9403e0 100644
--- a/golibs/container/lru/ecache.go
+++ b/golibs/container/lru/ecache.go
@@ -133,6 +133,7 @@ func (p *ECache[PK, K, V]) Clear() int {
 	p.lock.Lock()
 	defer p.lock.Unlock()
 	it := p.items.Iterator()
+	defer it.Close()
 	removed := 0
 	for it.HasNext() {
 		e, ok := it.Next()
-- 
2.43.0


From 63a6c3d53598e7138449b740e3dac00e642bd15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:09 +0000
Subject: [PATCH 12/13] fix: a failed metadata change does not leave stale
 entries in the cache

---
 pkg/storage/cache/cache.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/storage/cache/cache.go b/pkg/storage/cache/cache.go
index c4f3992..a337d36 100644
--- a/pkg/storage/cache/cache.go
+++ b/pkg/storage/cache/cache.go
@@ -90,10 +90,11 @@ func (s *CachedStorage) GetLogByID(ctx context.Context, id string) (*solaris.Log
 // UpdateLog implements storage.Logs
 func (s *CachedStorage) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
 	l, err := s.storage.UpdateLog(ctx, log)
+	// a failed update could be applied to the storage before it failed
+	s.logsCache.Remove(log.ID)
 	if err != nil {
 		return nil, err
 	}
-	s.logsCache.Remove(log.ID)
 	return l, err
 }
 
@@ -106,6 +107,9 @@ func (s *CachedStorage) QueryLogs(ctx context.Context, qr storage.QueryLogsReque
 func (s *CachedStorage) DeleteLogs(ctx context.Context, request storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
 	dr, err := s.storage.DeleteLogs(ctx, request)
 	if err != nil {
+		// some of the logs could be deleted before it failed, which ones is not known
+		s.logsCache.Clear()
+		s.chunksCache.Clear()
 		return nil, err
 	}
 	for _, id := range dr.DeletedIDs {
@@ -134,9 +138,8 @@ func (s *CachedStorage) GetChunks(ctx context.Context, logID string) ([]logfs.Ch
 
 // UpsertChunkInfos implements logfs.LogsMetaStorage
 func (s *CachedStorage) UpsertChunkInfos(ctx context.Context, logID string, cis []logfs.ChunkInfo) error {
-	if err := s.storage.UpsertChunkInfos(ctx, logID, cis); err != nil {
-		return err
-	}
+	err := s.storage.UpsertChunkInfos(ctx, logID, cis)
+	// a failed change could be applied to the storage before it failed
 	s.chunksCache.Remove(logID)
-	return nil
+	return err
 }
-- 
2.43.0


From 9d99bc31831c676d9fb3575c22f64df50a898e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:03 +0000
Subject: [PATCH 13/13] fix: the token of a descending page continues after it,
 odd limits do not crash record queries

---
 pkg/api/service.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/api/service.go b/pkg/api/service.go
index b390637..5c5419e 100644
--- a/pkg/api/service.go
+++ b/pkg/api/service.go
@@ -118,8 +118,12 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 			return nil, errors.GRPCWrap(err)
 		}
 		nextID := ""
-		if more {
-			nextID = ulidutils.NextID(res[len(res)-1].ID)
+		if more && len(res) > 0 {
+			if lastID := res[len(res)-1].ID; request.Descending {
+				nextID = ulidutils.PrevID(lastID)
+			} else {
+				nextID = ulidutils.NextID(lastID)
+			}
 		}
 		return &solaris.QueryRecordsResult{Records: res, NextPageID: nextID}, nil
 	}
@@ -134,7 +138,7 @@ func (s *Service) QueryRecords(ctx context.Context, request *solaris.QueryRecord
 
 	lim := request.Limit
 
-	res := make([]*solaris.Record, 0, lim)
+	res := []*solaris.Record{}
 	for mx.HasNext() && lim > 0 {
 		r, ok := mx.Next()
 		if !ok {
-- 
2.43.0

