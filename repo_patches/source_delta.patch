From f5d7e258da506583f92f6de152cdadb6a65941f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 01/62] fix: SearchUnique keeps its half-open upper bound so no
 element is skipped

---
 util/sliceu/sliceu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/sliceu/sliceu.go b/util/sliceu/sliceu.go
index 6916104..19dcd6c 100644
--- a/util/sliceu/sliceu.go
+++ b/util/sliceu/sliceu.go
@@ -104,7 +104,7 @@ func SearchUnique[S ~[]E, E, T any](x S, target T, cmp func(E, T) int) (int, boo
 		if cmpValue < 0 {
 			low = i + 1
 		} else {
-			high = i - 1
+			high = i
 		}
 	}
 
-- 
2.43.0


From 1017bf0989aa806d502f03e9710f96e144945496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 02/62] fix: SortedCache size accounting when an identical item
 is pushed again

---
 util/ds/sorted_cache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/ds/sorted_cache.go b/util/ds/sorted_cache.go
index e8fc497..69146c1 100644
--- a/util/ds/sorted_cache.go
+++ b/util/ds/sorted_cache.go
@@ -23,7 +23,9 @@ func NewSortedCache(maxSizeBytes uint64) *SortedCache {
 
 func (s *SortedCache) Push(addValue []byte) {
 	s.byteSize += uint64(len(addValue))
-	s.tree.ReplaceOrInsert(addValue)
+	if replaced, ok := s.tree.ReplaceOrInsert(addValue); ok {
+		s.byteSize -= uint64(len(replaced))
+	}
 }
 
 func (s *SortedCache) Pop() (min []byte, ok bool) {
-- 
2.43.0


From bbdf23f1eed1e8decd53d5f25bb1fbe5c559f23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 03/62] fix: table sequence number range covers every entry,
 not just the first and last key

---
 dkv/sst/table_writer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index 0176881..39609de 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -63,10 +63,15 @@ func writeEntry(t *Table, entry kv.Entry) {
 	if t.size == 0 {
 		t.startKey = entry.Key()
 		t.startSeqNum = entry.SeqNum()
+		t.endSeqNum = entry.SeqNum()
 	}
 	// Set ending entry values
 	t.endKey = entry.Key()
-	t.endSeqNum = entry.SeqNum()
+
+	// Entries are ordered by key, so the table's sequence number range needs to
+	// be widened by any entry.
+	t.startSeqNum = min(t.startSeqNum, entry.SeqNum())
+	t.endSeqNum = max(t.endSeqNum, entry.SeqNum())
 
 	// Add to metadata
 	t.searchIndex.IndexOffset(t.size)
-- 
2.43.0


From 52e8755ca0fcc02d7a476014707dc8a97d9a07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 04/62] fix: looking up a key before a table's first entry
 doesn't index out of range

---
 dkv/sst/search_index.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dkv/sst/search_index.go b/dkv/sst/search_index.go
index 09bb3a3..97fc15a 100644
--- a/dkv/sst/search_index.go
+++ b/dkv/sst/search_index.go
@@ -54,6 +54,11 @@ func (si *SearchIndex) Search(targetKey []byte, readKey func(offset int64) ([]by
 		foundIndex--
 	}
 
+	// The target sorts before the first entry, so there's nothing to scan.
+	if foundIndex < 0 {
+		return 0, 0, nil
+	}
+
 	// Use a scan from this point to look for the key
 	startOffset := int64(si.offsets[foundIndex])
 
-- 
2.43.0


From 2e3904112bc5c14759b6d9910dfa2e60e65e78d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 05/62] fix: WriteRun doesn't end a run with an empty table

---
 dkv/sst/table_writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index 39609de..34618cd 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -104,6 +104,11 @@ func (c *TableWriter) WriteRun(entries iter.Seq[kv.Entry], targetSize uint64) ([
 		for buffer.size < int(targetSize) {
 			entry, ok := next()
 			if !ok {
+				// Don't end the run with an empty table
+				if len(buffer.entries) == 0 && len(tables) > 0 {
+					return tables, nil
+				}
+
 				t, err := c.Write(buffer.all())
 				if err != nil {
 					return nil, err
-- 
2.43.0


From a1bd402234ee97d857b12b78c211bffc86d1e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 06/62] fix: binary table key ranges survive the JSON
 checkpoint document

---
 dkv/sst/table.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dkv/sst/table.go b/dkv/sst/table.go
index baa830a..136e9ae 100644
--- a/dkv/sst/table.go
+++ b/dkv/sst/table.go
@@ -66,8 +66,8 @@ func NewTable(file storage.File) *Table {
 }
 
 type TableDocument struct {
-	StartKey    string
-	EndKey      string
+	StartKey    []byte // Keys are arbitrary bytes which JSON strings can't represent
+	EndKey      []byte
 	Size        uint64
 	EntriesSize uint64
 	URI         string
@@ -85,8 +85,8 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 		file:        fs.Open(doc.URI),
 		size:        int64(doc.Size),
 		entriesSize: int64(doc.EntriesSize),
-		startKey:    []byte(doc.StartKey),
-		endKey:      []byte(doc.EndKey),
+		startKey:    doc.StartKey,
+		endKey:      doc.EndKey,
 		startSeqNum: doc.StartSeqNum,
 		endSeqNum:   doc.EndSeqNum,
 	}
@@ -101,8 +101,8 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 	params := CleanupParams{
 		deleteFunc:    t.file.CreateDeleteFunc(),
 		dataOwnership: dataOwnership,
-		startKey:      []byte(doc.StartKey),
-		endKey:        []byte(doc.EndKey),
+		startKey:      doc.StartKey,
+		endKey:        doc.EndKey,
 		uri:           doc.URI,
 	}
 
@@ -351,8 +351,8 @@ func (t *Table) ensureMetadataLoaded() {
 
 func (t *Table) Document() TableDocument {
 	return TableDocument{
-		StartKey:    string(t.startKey),
-		EndKey:      string(t.endKey),
+		StartKey:    t.startKey,
+		EndKey:      t.endKey,
 		Size:        uint64(t.size),
 		EntriesSize: uint64(t.entriesSize),
 		URI:         t.file.URI(),
-- 
2.43.0


From 54d25326f2d28234a4f1443cd81e8795fbafbbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:02 +0000
Subject: [PATCH 07/62] fix: a rotated WAL keeps the sequence numbers of the
 segments it carries over

---
 dkv/wal/writer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dkv/wal/writer.go b/dkv/wal/writer.go
index 8656180..1fc6bac 100644
--- a/dkv/wal/writer.go
+++ b/dkv/wal/writer.go
@@ -90,11 +90,12 @@ func (w *Writer) Rotate(fs storage.FileSystem) *Writer {
 	nextLog.maxSize = w.maxSize
 	nextLog.latestSeqNum = w.latestSeqNum
 
-	// Include all data from previous buffers
+	// Include all data from previous buffers along with the sequence numbers
+	// which tell Truncate whether the data is obsolete.
 	for i, b := range w.sealedBuffers {
-		nextLog.sealedBuffers[i] = &bufferSegment{buf: b.buf}
+		nextLog.sealedBuffers[i] = &bufferSegment{buf: b.buf, latestSeqNum: b.latestSeqNum}
 	}
-	nextLog.sealedBuffers[len(w.sealedBuffers)] = &bufferSegment{buf: w.activeBuffer.buf}
+	nextLog.sealedBuffers[len(w.sealedBuffers)] = &bufferSegment{buf: w.activeBuffer.buf, latestSeqNum: w.latestSeqNum}
 
 	// And initialize a new active buffer
 	nextLog.activeBuffer = &bufferSegment{}
-- 
2.43.0


From c327ee33056dbd279a8971e7fc89c539fd6fa281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 08/62] fix: memtable lookups search the newest table first

---
 dkv/memtable/list.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dkv/memtable/list.go b/dkv/memtable/list.go
index 4651c6d..f4cc2ef 100644
--- a/dkv/memtable/list.go
+++ b/dkv/memtable/list.go
@@ -3,6 +3,7 @@ package memtable
 import (
 	"fmt"
 	"iter"
+	"slices"
 	"strings"
 	"sync"
 
@@ -72,7 +73,8 @@ func (l *List) Put(key []byte, value []byte, seqNum uint64) (full bool) {
 }
 
 func (l *List) Get(key []byte) (kv.Entry, error) {
-	for _, t := range l.tablesSnap() {
+	// The newest table is last and its entries supersede those in older tables
+	for _, t := range slices.Backward(l.tablesSnap()) {
 		v, err := t.Get(key)
 		if err != nil {
 			if err == kv.ErrNotFound {
-- 
2.43.0


From d7c4ac01c1ff598b4a63b991d9628461c17d5eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 09/62] fix: deletes in memtables mask older puts in prefix
 scans

---
 dkv/db.go                | 13 ++++++++++++-
 dkv/memtable/list.go     |  2 ++
 dkv/memtable/memtable.go |  5 +----
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index aa86028..595e7e6 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -202,7 +202,18 @@ func (db *DB) Get(key []byte) (kv.Entry, error) {
 func (db *DB) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
 	sstables := db.currentSSTables()
 	iters := []iter.Seq[kv.Entry]{db.mtables.ScanPrefix(prefix, errOut), sstables.ScanPrefix(prefix, errOut)}
-	return kv.MergeEntries(iters)
+
+	// Skip deleted entries after they've masked older entries
+	return func(yield func(kv.Entry) bool) {
+		for entry := range kv.MergeEntries(iters) {
+			if entry.IsDelete() {
+				continue
+			}
+			if !yield(entry) {
+				return
+			}
+		}
+	}
 }
 
 // Checkpoint initiates a DB checkpoint associated with the caller's provided
diff --git a/dkv/memtable/list.go b/dkv/memtable/list.go
index f4cc2ef..d298c41 100644
--- a/dkv/memtable/list.go
+++ b/dkv/memtable/list.go
@@ -87,6 +87,8 @@ func (l *List) Get(key []byte) (kv.Entry, error) {
 	return nil, kv.ErrNotFound
 }
 
+// ScanPrefix returns the newest entry for each key matching the prefix,
+// including deleted entries.
 func (l *List) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
 	tables := l.tablesSnap()
 	iters := make([]iter.Seq[kv.Entry], len(tables))
diff --git a/dkv/memtable/memtable.go b/dkv/memtable/memtable.go
index 4f015d7..59a04c0 100644
--- a/dkv/memtable/memtable.go
+++ b/dkv/memtable/memtable.go
@@ -56,13 +56,10 @@ func (t *MemTable) Delete(key []byte, seqNum uint64) (full bool) {
 }
 
 // ScanPrefix returns all entries matching the prefix in ascending order. This
-// method transparently omits deleted entries.
+// method includes deleted entries because they may mask puts in older tables.
 func (t *MemTable) ScanPrefix(prefix []byte) iter.Seq[kv.Entry] {
 	return func(yield func(kv.Entry) bool) {
 		for node := range t.zt.AscendPrefix(prefix) {
-			if isDeleteOp(node) {
-				continue
-			}
 			if !yield(newEntryFromNode(node)) {
 				return
 			}
-- 
2.43.0


From dd11bd224d7593e63c639f23d14468499e1e9dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 10/62] fix: reads concurrent with a flush don't miss the
 flushed entries

---
 dkv/db.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index 595e7e6..db90ffa 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -183,25 +183,27 @@ func (db *DB) Delete(key []byte) {
 }
 
 func (db *DB) Get(key []byte) (kv.Entry, error) {
-	sstables := db.currentSSTables()
-
 	// First try to get from the memtables
 	v, err := db.mtables.Get(key)
 	if err == nil {
 		return v, nil
 	}
 
-	// Then try the SSTables
+	// Then try the SSTables. These must be obtained after reading the memtables
+	// because a concurrent flush moves entries from memtables to SSTables.
 	if err == kv.ErrNotFound {
-		return sstables.Get(key)
+		return db.currentSSTables().Get(key)
 	}
 
 	return nil, err
 }
 
 func (db *DB) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
-	sstables := db.currentSSTables()
-	iters := []iter.Seq[kv.Entry]{db.mtables.ScanPrefix(prefix, errOut), sstables.ScanPrefix(prefix, errOut)}
+	// SSTables must be obtained after the memtables because a concurrent flush
+	// moves entries from memtables to SSTables.
+	mtablesIter := db.mtables.ScanPrefix(prefix, errOut)
+	sstablesIter := db.currentSSTables().ScanPrefix(prefix, errOut)
+	iters := []iter.Seq[kv.Entry]{mtablesIter, sstablesIter}
 
 	// Skip deleted entries after they've masked older entries
 	return func(yield func(kv.Entry) bool) {
-- 
2.43.0


From 74589dda8dc9bb9cc5a37da8c745518ba90da5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 11/62] fix: level list lookups return the newest entry among
 level 0 tables

---
 dkv/sst/level_list.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dkv/sst/level_list.go b/dkv/sst/level_list.go
index 9d5eb7c..408855f 100644
--- a/dkv/sst/level_list.go
+++ b/dkv/sst/level_list.go
@@ -81,7 +81,14 @@ func NewLevelListFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwners
 }
 
 func (ll *LevelList) Get(key []byte) (kv.Entry, error) {
+	var newest kv.Entry
 	for t := range ll.AllTablesForKey(key) {
+		// Several L0 tables may have the key so all of them are compared, but any
+		// entry found in a level supersedes the ones in deeper levels.
+		if newest != nil && !ll.At(0).tables.Has(t) {
+			break
+		}
+
 		v, err := t.Get(key)
 		if err != nil {
 			if err == kv.ErrNotFound {
@@ -89,9 +96,14 @@ func (ll *LevelList) Get(key []byte) (kv.Entry, error) {
 			}
 			return nil, fmt.Errorf("table %#v, %w", t, err)
 		}
-		return v, nil
+		if newest == nil || v.SeqNum() > newest.SeqNum() {
+			newest = v
+		}
+	}
+	if newest == nil {
+		return nil, kv.ErrNotFound
 	}
-	return nil, kv.ErrNotFound
+	return newest, nil
 }
 
 func (ll *LevelList) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
-- 
2.43.0


From e9464d0f4300892f136180ae2974190284a0c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 12/62] verif: hook points inside database reads (build tag
 verif)

---
 dkv/db.go         |  3 +++
 util/vhook/off.go |  8 ++++++++
 util/vhook/on.go  | 23 +++++++++++++++++++++++
 3 files changed, 34 insertions(+)
 create mode 100644 util/vhook/off.go
 create mode 100644 util/vhook/on.go

diff --git a/dkv/db.go b/dkv/db.go
index db90ffa..46fec3c 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -15,6 +15,7 @@ import (
 	"reduction.dev/reduction/dkv/storage"
 	"reduction.dev/reduction/dkv/wal"
 	"reduction.dev/reduction/util/size"
+	"reduction.dev/reduction/util/vhook"
 )
 
 var flushMemTablesQueue = bg.NewQueue(5)
@@ -188,6 +189,7 @@ func (db *DB) Get(key []byte) (kv.Entry, error) {
 	if err == nil {
 		return v, nil
 	}
+	vhook.At("dkv.get")
 
 	// Then try the SSTables. These must be obtained after reading the memtables
 	// because a concurrent flush moves entries from memtables to SSTables.
@@ -202,6 +204,7 @@ func (db *DB) ScanPrefix(prefix []byte, errOut *error) iter.Seq[kv.Entry] {
 	// SSTables must be obtained after the memtables because a concurrent flush
 	// moves entries from memtables to SSTables.
 	mtablesIter := db.mtables.ScanPrefix(prefix, errOut)
+	vhook.At("dkv.scan")
 	sstablesIter := db.currentSSTables().ScanPrefix(prefix, errOut)
 	iters := []iter.Seq[kv.Entry]{mtablesIter, sstablesIter}
 
diff --git a/util/vhook/off.go b/util/vhook/off.go
new file mode 100644
index 0000000..a211ebd
--- /dev/null
+++ b/util/vhook/off.go
@@ -0,0 +1,8 @@
+//go:build !verif
+
+// Package vhook marks points where the verification harness (build tag verif)
+// may steer the schedule. Without the tag the calls compile to nothing.
+package vhook
+
+// At marks a named point.
+func At(point string) {}
diff --git a/util/vhook/on.go b/util/vhook/on.go
new file mode 100644
index 0000000..c4b7a04
--- /dev/null
+++ b/util/vhook/on.go
@@ -0,0 +1,23 @@
+//go:build verif
+
+package vhook
+
+import "sync/atomic"
+
+var hook atomic.Pointer[func(string)]
+
+// Set installs the function called at every point, nil removes it.
+func Set(fn func(point string)) {
+	if fn == nil {
+		hook.Store(nil)
+		return
+	}
+	hook.Store(&fn)
+}
+
+// At marks a named point.
+func At(point string) {
+	if fn := hook.Load(); fn != nil {
+		(*fn)(point)
+	}
+}
-- 
2.43.0


From bafc7470115b3a4f2c42da81bb4508e0ef3cac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 13/62] fix: major compaction stops at the level where the
 amplification goal is met

---
 dkv/sst/compaction.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/dkv/sst/compaction.go b/dkv/sst/compaction.go
index 5bfeef4..d3f1724 100644
--- a/dkv/sst/compaction.go
+++ b/dkv/sst/compaction.go
@@ -53,16 +53,27 @@ func (c *Compactor) majorCompaction(levels *LevelList, sar SAR) (*ChangeSet, err
 	// Go through all non-base levels from oldest to newest and pick tables to
 	// merge into base level.
 	var tablesToMerge []*Table
+pickTables:
 	for level := range levels.AscendLevels(1) {
-		tableIter := slices.SortedFunc(level.AllTables(), OrderOldToNew)
+		candidates := slices.SortedFunc(level.AllTables(), OrderOldToNew)
 
 		// Keep adding tables and recalculating SAR until we've met the Space
-		// Amplification goal.
-		for _, candidate := range tableIter {
+		// Amplification goal. Once it's met no tables from newer levels can be
+		// merged because they would end up beneath the older data left in this
+		// level.
+		var latestSeqNum uint64
+		for i, candidate := range candidates {
 			sar = sar.WithCompactedBytes(int64(candidate.Size()))
 			tablesToMerge = append(tablesToMerge, candidate)
+			latestSeqNum = max(latestSeqNum, candidate.endSeqNum)
+
+			// L0 tables with interleaved sequence numbers (from separate instances)
+			// need to stay together for the same reason.
+			if level.Num == 0 && i+1 < len(candidates) && candidates[i+1].startSeqNum <= latestSeqNum {
+				continue
+			}
 			if sar.Percentage() < c.MaxSizeAmplificationPercent {
-				break
+				break pickTables
 			}
 		}
 	}
-- 
2.43.0


From 13c8bf3b599fc18af6516e49000da6173e4f7827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 14/62] fix: checkpoint lists are safe for concurrent
 checkpoints and retention updates

---
 dkv/recovery/checkpoint_list.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index eba92ae..d56434b 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"slices"
+	"sync"
 
 	"reduction.dev/reduction/dkv/kv"
 	"reduction.dev/reduction/dkv/sst"
@@ -19,6 +20,8 @@ const checkpointsFileName = "checkpoints"
 type CheckpointList struct {
 	checkpoints               []*Checkpoint
 	checkpointsPendingRemoval []*Checkpoint // Track removed checkpoints so they can be destroyed on Save
+	mu                        sync.Mutex    // Protects the lists
+	saveMu                    sync.Mutex    // Serializes Save so that an older list can't replace a newer one
 }
 
 func NewCheckpointList() *CheckpointList {
@@ -40,15 +43,24 @@ func (cl *CheckpointList) Add(ckptID uint64, ll *sst.LevelList, w *wal.Writer, l
 		WALs:       []wal.Handle{w.Handle(ll.LatestSeqNum)},
 		LastSeqNum: lastSeqNum,
 	}
+
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	cl.checkpoints = append(cl.checkpoints, cp)
 }
 
 func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
+	cl.saveMu.Lock()
+	defer cl.saveMu.Unlock()
+
 	// Collect a list of checkpoint docs for serialization
+	cl.mu.Lock()
+	pendingRemoval := cl.checkpointsPendingRemoval
 	checkpointDocs := make([]checkpointDocument, len(cl.checkpoints))
 	for i, ckpt := range cl.checkpoints {
 		checkpointDocs[i] = ckpt.Document()
 	}
+	cl.mu.Unlock()
 	doc := checkpointListDocument{
 		Checkpoints: checkpointDocs,
 	}
@@ -69,29 +81,39 @@ func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
 	}
 
 	// Call cp.Destroy() to delete WAL files
-	for _, cp := range cl.checkpointsPendingRemoval {
+	for _, cp := range pendingRemoval {
 		if err := cp.Destroy(); err != nil {
 			return "", err
 		}
 	}
 
-	// Clear the list of pending checkpoints
-	cl.checkpointsPendingRemoval = nil
+	// Clear the destroyed checkpoints, keeping any that were removed since the
+	// saved list was collected.
+	cl.mu.Lock()
+	cl.checkpointsPendingRemoval = cl.checkpointsPendingRemoval[len(pendingRemoval):]
+	cl.mu.Unlock()
 
 	return file.URI(), nil
 }
 
 func (cl *CheckpointList) IsEmpty() bool {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	return len(cl.checkpoints) == 0
 }
 
 func (cl *CheckpointList) Latest() *Checkpoint {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	return cl.checkpoints[len(cl.checkpoints)-1]
 }
 
 // RetainOnly keeps only the checkpoints with the specified IDs in the list. Other checkpoints
 // aren't really removed until the next successful Save.
 func (cl *CheckpointList) RetainOnly(ids []uint64) {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
+
 	idsSet := ds.SetOf(ids...)
 	nextCheckpoints := make([]*Checkpoint, 0, len(ids))
 	for _, cp := range cl.checkpoints {
@@ -109,6 +131,8 @@ func (cl *CheckpointList) RetainOnly(ids []uint64) {
 }
 
 func (cl *CheckpointList) IncludesTable(uri string) bool {
+	cl.mu.Lock()
+	defer cl.mu.Unlock()
 	for _, cp := range cl.checkpoints {
 		if cp.IncludesTable(uri) {
 			return true
-- 
2.43.0


From 6301a1574912481ffcbf9584f74655ea23706c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 15/62] fix: a checkpoint is listed only after its WAL has been
 saved

---
 dkv/db.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dkv/db.go b/dkv/db.go
index 46fec3c..4c43728 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -228,13 +228,16 @@ func (db *DB) Checkpoint(ckptID uint64) (wait func() (recovery.CheckpointHandle,
 	db.mu.Lock()
 	prevWAL := db.wal
 	db.wal = db.wal.Rotate(db.fs)
-	db.checkpoints.Add(ckptID, db.sstables, prevWAL, db.seqNum)
+	sstables, seqNum := db.sstables, db.seqNum
 	db.mu.Unlock()
 
 	return bg.Task2(func() (recovery.CheckpointHandle, error) {
 		if err := prevWAL.Save(); err != nil {
 			return recovery.CheckpointHandle{}, err
 		}
+		// Listed checkpoints may be dropped, which deletes their WAL, so only a
+		// checkpoint with a saved WAL is added.
+		db.checkpoints.Add(ckptID, sstables, prevWAL, seqNum)
 		uri, err := db.checkpoints.Save(db.fs)
 		if err != nil {
 			return recovery.CheckpointHandle{}, err
-- 
2.43.0


From 8b93ff0d046fe52e45e17529044344ad319c9af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 16/62] fix: retention updates don't drop a newer checkpoint
 that is in progress

---
 dkv/db.go                       |  4 +++-
 dkv/recovery/checkpoint_list.go | 20 ++++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index 4c43728..2b63c41 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -250,7 +250,9 @@ func (db *DB) Checkpoint(ckptID uint64) (wait func() (recovery.CheckpointHandle,
 }
 
 func (db *DB) UpdateRetainedCheckpoints(ids []uint64) error {
-	db.checkpoints.RetainOnly(ids)
+	if err := db.checkpoints.RetainOnly(ids); err != nil {
+		return err
+	}
 	_, err := db.checkpoints.Save(db.fs)
 	return err
 }
diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index d56434b..47edfc5 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -108,26 +108,34 @@ func (cl *CheckpointList) Latest() *Checkpoint {
 	return cl.checkpoints[len(cl.checkpoints)-1]
 }
 
-// RetainOnly keeps only the checkpoints with the specified IDs in the list. Other checkpoints
+// RetainOnly keeps only the checkpoints with the specified IDs in the list, and
+// the ones newer than those because they may still be in progress. Other checkpoints
 // aren't really removed until the next successful Save.
-func (cl *CheckpointList) RetainOnly(ids []uint64) {
+func (cl *CheckpointList) RetainOnly(ids []uint64) error {
 	cl.mu.Lock()
 	defer cl.mu.Unlock()
 
+	if len(ids) == 0 {
+		return fmt.Errorf("retained checkpoints must not be empty")
+	}
 	idsSet := ds.SetOf(ids...)
-	nextCheckpoints := make([]*Checkpoint, 0, len(ids))
+	newestID := slices.Max(ids)
+	nextCheckpoints := make([]*Checkpoint, 0, len(cl.checkpoints))
+	var removedCheckpoints []*Checkpoint
 	for _, cp := range cl.checkpoints {
-		if idsSet.Has(cp.ID) {
+		if idsSet.Has(cp.ID) || cp.ID > newestID {
 			nextCheckpoints = append(nextCheckpoints, cp)
 		} else {
-			cl.checkpointsPendingRemoval = append(cl.checkpointsPendingRemoval, cp)
+			removedCheckpoints = append(removedCheckpoints, cp)
 		}
 	}
 	if len(nextCheckpoints) == 0 {
-		panic(fmt.Sprintf("db missing the job's retained checkpoints; job_retained=%v, db_current=%v", ids, cl.checkpoints))
+		return fmt.Errorf("db missing the job's retained checkpoints; job_retained=%v", ids)
 	}
 
 	cl.checkpoints = nextCheckpoints
+	cl.checkpointsPendingRemoval = append(cl.checkpointsPendingRemoval, removedCheckpoints...)
+	return nil
 }
 
 func (cl *CheckpointList) IncludesTable(uri string) bool {
-- 
2.43.0


From 46022b946e3c17c757e362b3d2dfa0f97956b5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 17/62] fix: tables written after a restore don't overwrite the
 checkpoint's tables

---
 dkv/db.go                  |  3 +++
 dkv/recovery/checkpoint.go |  9 +++++++++
 dkv/sst/table_writer.go    | 25 ++++++++++++++++++++++++-
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/dkv/db.go b/dkv/db.go
index 2b63c41..b4e5331 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -137,6 +137,9 @@ func (db *DB) Start(initCheckpoints []recovery.CheckpointHandle) error {
 	db.sstables = latestCP.Levels
 	db.seqNum = latestCP.Levels.LatestSeqNum
 
+	// New tables must not replace the files of the checkpoint's tables.
+	db.tableWriter.ContinueFrom(latestCP.NextTableID())
+
 	// Start a new writer that doesn't write to a file yet.
 	db.wal = wal.NewWriter(db.fs, latestCP.NextWALID(), db.maxWALSize)
 
diff --git a/dkv/recovery/checkpoint.go b/dkv/recovery/checkpoint.go
index 75981c5..11806af 100644
--- a/dkv/recovery/checkpoint.go
+++ b/dkv/recovery/checkpoint.go
@@ -86,6 +86,15 @@ func (cp *Checkpoint) NextWALID() int {
 	return maxID + 1
 }
 
+// Return 1 greater than the largest table ID in this checkpoint.
+func (cp *Checkpoint) NextTableID() int64 {
+	var nextID int64
+	for uri := range cp.tableURIset {
+		nextID = max(nextID, sst.TableIDFromURI(uri)+1)
+	}
+	return nextID
+}
+
 // WALSeq provides an iterator that concatenates all the entries in the list of
 // WALs.
 func (cp *Checkpoint) WALSeq(fs storage.FileSystem) iter.Seq2[wal.Entry, error] {
diff --git a/dkv/sst/table_writer.go b/dkv/sst/table_writer.go
index 34618cd..5df9f64 100644
--- a/dkv/sst/table_writer.go
+++ b/dkv/sst/table_writer.go
@@ -4,7 +4,10 @@ import (
 	"fmt"
 	"iter"
 	"math"
+	"path/filepath"
 	"slices"
+	"strconv"
+	"strings"
 	"sync/atomic"
 
 	"reduction.dev/reduction/dkv/fields"
@@ -29,9 +32,29 @@ func NewTableWriter(fs storage.FileSystem, id int64) *TableWriter {
 	return &TableWriter{fs: fs, id: atomicNum}
 }
 
+// ContinueFrom sets the ID of the next written table.
+func (c *TableWriter) ContinueFrom(id int64) {
+	c.id.Store(id)
+}
+
+const tableFileExtension = ".sst"
+
+func tableFileName(id int64) string {
+	return fmt.Sprintf("%06d%s", id, tableFileExtension)
+}
+
+// TableIDFromURI returns the ID of a table from its file's location.
+func TableIDFromURI(uri string) int64 {
+	id, err := strconv.ParseInt(strings.TrimSuffix(filepath.Base(uri), tableFileExtension), 10, 64)
+	if err != nil {
+		panic(fmt.Sprintf("failed to get table ID from URI %s: %v", uri, err))
+	}
+	return id
+}
+
 func (c *TableWriter) Write(entries iter.Seq[kv.Entry]) (*Table, error) {
 	reservedNum := c.id.Add(1) - 1
-	f := c.fs.New(fmt.Sprintf("%06d.sst", reservedNum))
+	f := c.fs.New(tableFileName(reservedNum))
 
 	table := NewTable(f)
 	for e := range entries {
-- 
2.43.0


From 3040e26425621c1b2af125a7791249078d1005c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 18/62] fix: a closed database no longer changes files, and
 redeployed operators close theirs

---
 dkv/db.go                          | 11 ++++--
 dkv/storage/closable_filesystem.go | 63 ++++++++++++++++++++++++++++++
 workers/operator/operator.go       | 14 ++++++-
 3 files changed, 83 insertions(+), 5 deletions(-)
 create mode 100644 dkv/storage/closable_filesystem.go

diff --git a/dkv/db.go b/dkv/db.go
index b4e5331..8d08064 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -22,7 +22,7 @@ var flushMemTablesQueue = bg.NewQueue(5)
 var compactionQueue = bg.NewQueue(5)
 
 type DB struct {
-	fs            storage.FileSystem
+	fs            *storage.ClosableFileSystem
 	wal           *wal.Writer
 	maxWALSize    uint64
 	mtables       *memtable.List
@@ -89,7 +89,8 @@ func New(options DBOptions) *DB {
 		options.DataOwnership = &kv.AllDataOwnership{}
 	}
 
-	tw := sst.NewTableWriter(options.FileSystem, 0)
+	fs := storage.NewClosableFileSystem(options.FileSystem)
+	tw := sst.NewTableWriter(fs, 0)
 	compactor := &sst.Compactor{
 		TableWriter:                 tw,
 		L0RunNumCompactionTrigger:   options.L0TableNumCompactionTrigger,
@@ -109,7 +110,7 @@ func New(options DBOptions) *DB {
 		maxWALSize:    options.MaxWALSize,
 		compactor:     compactor,
 		mu:            &sync.RWMutex{},
-		fs:            options.FileSystem,
+		fs:            fs,
 		tasks:         bg.NewAsyncGroup(),
 		checkpoints:   recovery.NewCheckpointList(),
 		logger:        options.Logger,
@@ -264,7 +265,11 @@ func (db *DB) NeedsTable(filePath string) bool {
 	return db.checkpoints.IncludesTable(filePath)
 }
 
+// Close detaches the database from its files, which may belong to a database
+// that was restored from one of the checkpoints from now on. Neither background
+// tasks nor the garbage collection of tables change any files afterwards.
 func (db *DB) Close() error {
+	db.fs.Close()
 	return nil
 }
 
diff --git a/dkv/storage/closable_filesystem.go b/dkv/storage/closable_filesystem.go
new file mode 100644
index 0000000..5abc68d
--- /dev/null
+++ b/dkv/storage/closable_filesystem.go
@@ -0,0 +1,63 @@
+package storage
+
+import (
+	"errors"
+	"sync/atomic"
+)
+
+var ErrClosed = errors.New("file system is closed")
+
+// ClosableFileSystem wraps a FileSystem so that a user of its files can be cut
+// off from them. After Close, files can still be read but they're neither saved
+// nor deleted.
+type ClosableFileSystem struct {
+	FileSystem
+	closed *atomic.Bool
+}
+
+func NewClosableFileSystem(fs FileSystem) *ClosableFileSystem {
+	return &ClosableFileSystem{FileSystem: fs, closed: &atomic.Bool{}}
+}
+
+func (fs *ClosableFileSystem) Close() {
+	fs.closed.Store(true)
+}
+
+func (fs *ClosableFileSystem) New(path string) File {
+	return &closableFile{File: fs.FileSystem.New(path), closed: fs.closed}
+}
+
+func (fs *ClosableFileSystem) Open(path string) File {
+	return &closableFile{File: fs.FileSystem.Open(path), closed: fs.closed}
+}
+
+type closableFile struct {
+	File
+	closed *atomic.Bool
+}
+
+func (f *closableFile) Save() error {
+	if f.closed.Load() {
+		return ErrClosed
+	}
+	return f.File.Save()
+}
+
+func (f *closableFile) Delete() error {
+	if f.closed.Load() {
+		return nil
+	}
+	return f.File.Delete()
+}
+
+func (f *closableFile) CreateDeleteFunc() func() error {
+	closed, deleteFile := f.closed, f.File.CreateDeleteFunc()
+	return func() error {
+		if closed.Load() {
+			return nil
+		}
+		return deleteFile()
+	}
+}
+
+var _ FileSystem = (*ClosableFileSystem)(nil)
diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 835de06..e02b4b7 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -131,8 +131,10 @@ func (o *Operator) Start(ctx context.Context) error {
 	<-ctx.Done() // Afterward, begin shutdown
 
 	o.Logger.Info("stopping")
-	if err := o.db.Close(); err != nil {
-		return err
+	if o.db != nil {
+		if err := o.db.Close(); err != nil {
+			return err
+		}
 	}
 	if o.registerPoller != nil {
 		o.registerPoller.Stop()
@@ -207,6 +209,14 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 		return fmt.Errorf("creating filesystem: %w", err)
 	}
 
+	// Detach any database of a previous deployment from files that the restored
+	// databases are going to use.
+	if o.db != nil {
+		if err := o.db.Close(); err != nil {
+			return fmt.Errorf("closing previous database: %w", err)
+		}
+	}
+
 	// Start the DKV database.
 	o.db = dkv.Open(dkv.DBOptions{
 		FileSystem:    fs,
-- 
2.43.0


From 341a3c1e31bec3229da7fd681beff9a91661c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 19/62] verif: tuning points for limits and the file system
 (build tag verif)

---
 dkv/db.go                    |  2 ++
 dkv/storage/filesystem.go    |  7 +++++++
 util/vhook/off.go            |  6 +++++-
 util/vhook/on.go             | 17 +++++++++++++++++
 workers/operator/operator.go |  5 ++++-
 5 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/dkv/db.go b/dkv/db.go
index 8d08064..8fa2b97 100644
--- a/dkv/db.go
+++ b/dkv/db.go
@@ -60,6 +60,8 @@ func Open(options DBOptions, initCheckpoints []recovery.CheckpointHandle) *DB {
 }
 
 func New(options DBOptions) *DB {
+	vhook.Tune("dkv.options", &options)
+
 	// Default size to 64 MB
 	if options.MemTableSize == 0 {
 		options.MemTableSize = 64 * size.MB
diff --git a/dkv/storage/filesystem.go b/dkv/storage/filesystem.go
index 5d86dbd..6a02817 100644
--- a/dkv/storage/filesystem.go
+++ b/dkv/storage/filesystem.go
@@ -4,6 +4,8 @@ import (
 	"errors"
 	"io"
 	"strings"
+
+	"reduction.dev/reduction/util/vhook"
 )
 
 type FileSystem interface {
@@ -31,6 +33,11 @@ const FILE_MODE_WRITE = 1
 var ErrNotFound = errors.New("file not found")
 
 func NewFileSystemFromLocation(location string) (FileSystem, error) {
+	var tunedFS FileSystem
+	if vhook.Tune("storage.filesystem", location, &tunedFS); tunedFS != nil {
+		return tunedFS, nil
+	}
+
 	if strings.HasPrefix(location, s3Protocol) {
 		return NewS3FileSystemFromURI(location)
 	}
diff --git a/util/vhook/off.go b/util/vhook/off.go
index a211ebd..19ee9e3 100644
--- a/util/vhook/off.go
+++ b/util/vhook/off.go
@@ -1,8 +1,12 @@
 //go:build !verif
 
 // Package vhook marks points where the verification harness (build tag verif)
-// may steer the schedule. Without the tag the calls compile to nothing.
+// may steer the schedule or tune limits. Without the tag the calls compile to
+// nothing.
 package vhook
 
 // At marks a named point.
 func At(point string) {}
+
+// Tune marks values which the harness may adjust.
+func Tune(point string, values ...any) {}
diff --git a/util/vhook/on.go b/util/vhook/on.go
index c4b7a04..b8f7823 100644
--- a/util/vhook/on.go
+++ b/util/vhook/on.go
@@ -5,6 +5,7 @@ package vhook
 import "sync/atomic"
 
 var hook atomic.Pointer[func(string)]
+var tuneHook atomic.Pointer[func(string, ...any)]
 
 // Set installs the function called at every point, nil removes it.
 func Set(fn func(point string)) {
@@ -21,3 +22,19 @@ func At(point string) {
 		(*fn)(point)
 	}
 }
+
+// SetTune installs the function that adjusts values, nil removes it.
+func SetTune(fn func(point string, values ...any)) {
+	if fn == nil {
+		tuneHook.Store(nil)
+		return
+	}
+	tuneHook.Store(&fn)
+}
+
+// Tune marks values which the harness may adjust.
+func Tune(point string, values ...any) {
+	if fn := tuneHook.Load(); fn != nil {
+		(*fn)(point, values...)
+	}
+}
diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index e02b4b7..c73797a 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -25,6 +25,7 @@ import (
 	"reduction.dev/reduction/proto/snapshotpb"
 	"reduction.dev/reduction/proto/workerpb"
 	"reduction.dev/reduction/util/size"
+	"reduction.dev/reduction/util/vhook"
 )
 
 type Operator struct {
@@ -224,7 +225,9 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 		DataOwnership: newOperatorPartition(o.keyGroupRange, neighborPartitions),
 	}, ckptHandles)
 	o.stateStore = NewKeyedStateStore(o.db, o.keySpace)
-	o.timerRegistry = NewTimerRegistry(NewTimerStore(o.db, o.keySpace, o.keyGroupRange, size.GB), req.SourceRunnerIds)
+	var timerCacheSize uint64 = size.GB
+	vhook.Tune("operator.timer_cache_size", &timerCacheSize)
+	o.timerRegistry = NewTimerRegistry(NewTimerStore(o.db, o.keySpace, o.keyGroupRange, timerCacheSize), req.SourceRunnerIds)
 
 	o.sourceRunners = newUpstreams(req.SourceRunnerIds)
 	o.sink = sink
-- 
2.43.0


From d762eb5dcced4499036904fd0210ab00b3bad62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 20/62] fix: batches flushed concurrently keep their order and
 failed fetches leave no gap-filling results

---
 batching/batching.go        |  4 +---
 batching/reorder_buffer.go  |  7 +++----
 batching/reorder_fetcher.go | 23 +++++++++++++++++++----
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/batching/batching.go b/batching/batching.go
index 64edff3..4e70912 100644
--- a/batching/batching.go
+++ b/batching/batching.go
@@ -61,9 +61,7 @@ func (b *EventBatcher[T]) Add(event T) {
 		b.timer.Set(b.maxDelay, func() {
 			select {
 			case <-b.ctx.Done():
-				return
-			default:
-				b.BatchTimedOut <- currentBatchToken
+			case b.BatchTimedOut <- currentBatchToken:
 			}
 		})
 	}
diff --git a/batching/reorder_buffer.go b/batching/reorder_buffer.go
index 936ac6b..3e6d6f9 100644
--- a/batching/reorder_buffer.go
+++ b/batching/reorder_buffer.go
@@ -3,13 +3,14 @@ package batching
 import (
 	"iter"
 	"sync"
+	"sync/atomic"
 )
 
 // ReorderBuffer stores out-of-order items provided by Add() and returns then in
 // order from the Drain() method.
 type ReorderBuffer[T any] struct {
 	items         map[uint64]T
-	nextSeqNum    uint64
+	nextSeqNum    atomic.Uint64
 	drainedSeqNum uint64
 
 	// Keep track of the number of reserved buffer slots in a channel
@@ -38,9 +39,7 @@ func (b *ReorderBuffer[T]) Add(seq uint64, item T) {
 // blocks until the buffer is no longer full.
 func (b *ReorderBuffer[T]) Reserve() uint64 {
 	b.reserved <- struct{}{}
-	seq := b.nextSeqNum
-	b.nextSeqNum++
-	return seq
+	return b.nextSeqNum.Add(1) - 1
 }
 
 // Drain iterates over the ordered items of the buffer. Only one drain iterator
diff --git a/batching/reorder_fetcher.go b/batching/reorder_fetcher.go
index fc35a81..406cbc9 100644
--- a/batching/reorder_fetcher.go
+++ b/batching/reorder_fetcher.go
@@ -2,6 +2,7 @@ package batching
 
 import (
 	"context"
+	"sync"
 )
 
 type BatchFetcher[T, R any] func(ctx context.Context, events []T) ([]R, error)
@@ -15,6 +16,7 @@ type ReorderFetcher[T, R any] struct {
 	fetchBatch BatchFetcher[T, R]
 	errChan    chan error
 	buffer     *ReorderBuffer[[]R]
+	flushMu    sync.Mutex // Batches must reserve their place in the order they're flushed
 }
 
 type NewReorderFetcherParams[T, R any] struct {
@@ -43,8 +45,8 @@ func NewReorderFetcher[T, R any](ctx context.Context, params NewReorderFetcherPa
 	go func() {
 		for {
 			select {
-			case <-rf.batcher.BatchTimedOut:
-				rf.flush(ctx, CurrentBatch)
+			case token := <-rf.batcher.BatchTimedOut:
+				rf.flush(ctx, token)
 			case <-ctx.Done():
 				return
 			}
@@ -69,6 +71,9 @@ func (d *ReorderFetcher[T, R]) Flush(ctx context.Context) {
 
 // flush the current batch and then asynchronously run the `FetchBatch` callback.
 func (d *ReorderFetcher[T, R]) flush(ctx context.Context, token BatchToken) {
+	d.flushMu.Lock()
+	defer d.flushMu.Unlock()
+
 	events := d.batcher.Flush(token)
 	if d.batcher == nil {
 		panic("batcher became nil")
@@ -81,12 +86,22 @@ func (d *ReorderFetcher[T, R]) flush(ctx context.Context, token BatchToken) {
 	go func() {
 		result, err := d.fetchBatch(ctx, events)
 		if err != nil {
-			d.errChan <- err
+			// Leave the gap in the buffer so that later results can't be taken for
+			// the failed ones.
+			select {
+			case d.errChan <- err:
+			case <-ctx.Done():
+			}
+			return
 		}
 		d.buffer.Add(seqNum, result)
 		for resp := range d.buffer.Drain() {
 			for _, result := range resp {
-				d.Output <- result
+				select {
+				case d.Output <- result:
+				case <-ctx.Done():
+					return
+				}
 			}
 		}
 	}()
-- 
2.43.0


From 9a3a2aa3fbe578ed77496a100b8e0ccc7919bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:25 +0000
Subject: [PATCH 21/62] verif: hook point between flushing a batch and
 reserving its place (build tag verif)

---
 batching/reorder_fetcher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/batching/reorder_fetcher.go b/batching/reorder_fetcher.go
index 406cbc9..29d809d 100644
--- a/batching/reorder_fetcher.go
+++ b/batching/reorder_fetcher.go
@@ -3,6 +3,8 @@ package batching
 import (
 	"context"
 	"sync"
+
+	"reduction.dev/reduction/util/vhook"
 )
 
 type BatchFetcher[T, R any] func(ctx context.Context, events []T) ([]R, error)
@@ -78,6 +80,7 @@ func (d *ReorderFetcher[T, R]) flush(ctx context.Context, token BatchToken) {
 	if d.batcher == nil {
 		panic("batcher became nil")
 	}
+	vhook.At("batching.flush")
 	if len(events) == 0 {
 		return
 	}
-- 
2.43.0


From 4166f96e4939482b84c9da1eb5dcfe33f5239474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 22/62] fix: operators ignore events of previous deployments
 and of failed or unknown senders

Redeploying an operator left batched events, blocked senders and the checkpoint
alignment of the previous deployment behind, which then changed restored state.
A failed batch before a checkpoint was ignored, a failed acknowledgement left
the finished alignment in place.
---
 workers/operator/checkpoint.go |  21 +++-
 workers/operator/operator.go   | 224 ++++++++++++++++++++++++---------
 2 files changed, 179 insertions(+), 66 deletions(-)

diff --git a/workers/operator/checkpoint.go b/workers/operator/checkpoint.go
index ec58ef9..a4b0e9d 100644
--- a/workers/operator/checkpoint.go
+++ b/workers/operator/checkpoint.go
@@ -1,6 +1,7 @@
 package operator
 
 import (
+	"context"
 	"fmt"
 
 	"reduction.dev/reduction/proto/workerpb"
@@ -25,6 +26,9 @@ func (c *checkpoint) registerBarrier(senderID string, barrier *workerpb.Checkpoi
 	if barrier.CheckpointId != c.checkpointID {
 		return fmt.Errorf("checkpoint ID mismatch, had %d got %d", c.checkpointID, barrier.CheckpointId)
 	}
+	if _, ok := c.srIDs[senderID]; !ok {
+		return fmt.Errorf("unexpected barrier %d from %s", barrier.CheckpointId, senderID)
+	}
 	delete(c.srIDs, senderID)
 	if len(c.srIDs) == 0 {
 		close(c.allBarriersReceived)
@@ -38,15 +42,22 @@ func (c *checkpoint) hasAllBarriers() bool {
 
 // alignSender returns a waiter function that will block requests from senders
 // until all barriers have been received.
-func (c *checkpoint) alignSender(senderID string) (wait func()) {
+func (c *checkpoint) alignSender(senderID string) (wait func(ctx, deploymentCtx context.Context) error) {
 	if c == nil {
-		return func() {} // no-op if there is no checkpoint
+		return func(ctx, deploymentCtx context.Context) error { return nil } // no-op if there is no checkpoint
 	}
 
 	if _, ok := c.srIDs[senderID]; !ok {
-		return func() {
-			<-c.allBarriersReceived
+		return func(ctx, deploymentCtx context.Context) error {
+			select {
+			case <-c.allBarriersReceived:
+				return nil
+			case <-ctx.Done():
+				return ctx.Err()
+			case <-deploymentCtx.Done():
+				return errDeploymentEnded()
+			}
 		}
 	}
-	return func() {}
+	return func(ctx, deploymentCtx context.Context) error { return nil }
 }
diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index c73797a..6cc78d2 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -2,6 +2,7 @@ package operator
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"log/slog"
 	"slices"
@@ -25,6 +26,7 @@ import (
 	"reduction.dev/reduction/proto/snapshotpb"
 	"reduction.dev/reduction/proto/workerpb"
 	"reduction.dev/reduction/util/size"
+	"reduction.dev/reduction/util/sliceu"
 	"reduction.dev/reduction/util/vhook"
 )
 
@@ -35,7 +37,8 @@ type Operator struct {
 	job                     proto.Job
 	userHandler             proto.Handler
 	Logger                  *slog.Logger
-	mu                      *sync.RWMutex
+	mu                      *sync.RWMutex // Guards deployment, db, and checkpoint
+	processMu               *sync.Mutex   // Held while processing events or deploying
 	clock                   clocks.Clock
 	events                  chan func()
 	stop                    context.CancelFunc
@@ -56,6 +59,16 @@ type Operator struct {
 	sourceRunners  *upstreams
 
 	checkpoint *checkpoint
+
+	// The current deployment, used to reject events sent for previous ones.
+	deployment *deployment
+}
+
+// deployment identifies one HandleDeploy call.
+type deployment struct {
+	ctx    context.Context // Done when the operator is deployed again
+	cancel context.CancelFunc
+	srIDs  map[string]struct{} // Source runners which may send events
 }
 
 // Events bound for the user's handler
@@ -95,6 +108,7 @@ func NewOperator(params NewOperatorParams) *Operator {
 		userHandler:             params.UserHandler,
 		Logger:                  log,
 		mu:                      &sync.RWMutex{},
+		processMu:               &sync.Mutex{},
 		clock:                   params.Clock,
 		events:                  make(chan func()),
 		stop:                    func() {}, // initialize with noop
@@ -109,6 +123,11 @@ func (o *Operator) Start(ctx context.Context) error {
 	defer cancel()
 	o.stop = cancel
 
+	// Must be available before registering because deployments may follow
+	o.processMu.Lock()
+	o.eventBatcher = batching.NewEventBatcher[RxnHandlerEvent](ctx, o.eventBatchingParams)
+	o.processMu.Unlock()
+
 	o.registerPoller = o.clock.Every(3*time.Second, func(ec *clocks.EveryContext) {
 		if err := o.job.RegisterOperator(ctx, &jobpb.NodeIdentity{
 			Id:   o.id,
@@ -120,8 +139,6 @@ func (o *Operator) Start(ctx context.Context) error {
 	}, "register")
 	o.registerPoller.Trigger() // Try to register immediately
 
-	o.eventBatcher = batching.NewEventBatcher[RxnHandlerEvent](ctx, o.eventBatchingParams)
-
 	go func() {
 		if err := o.processEvents(ctx); err != nil {
 			o.Logger.Error("processEvents failed", "err", err)
@@ -132,8 +149,12 @@ func (o *Operator) Start(ctx context.Context) error {
 	<-ctx.Done() // Afterward, begin shutdown
 
 	o.Logger.Info("stopping")
-	if o.db != nil {
-		if err := o.db.Close(); err != nil {
+	o.mu.Lock()
+	o.deployment.end()
+	db := o.db
+	o.mu.Unlock()
+	if db != nil {
+		if err := db.Close(); err != nil {
 			return err
 		}
 	}
@@ -159,8 +180,15 @@ func (o *Operator) Halt() {
 }
 
 func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperatorRequest, sink connectors.SinkWriter) error {
+	// Release senders of the previous deployment and wait for any processing to
+	// finish before replacing what it uses.
 	o.mu.Lock()
-	defer o.mu.Unlock()
+	o.status.LoadingStarted()
+	o.deployment.end()
+	o.mu.Unlock()
+
+	o.processMu.Lock()
+	defer o.processMu.Unlock()
 
 	o.Logger.Info("deploy command",
 		"operators", req.Operators,
@@ -200,8 +228,12 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 		}
 	}
 
-	// Update status to loading before opening database
-	o.status.LoadingStarted()
+	// Drop batched events of the previous deployment. They will be read again
+	// after being restored from a checkpoint.
+	if o.eventBatcher != nil {
+		o.eventBatcher.Flush(batching.CurrentBatch)
+	}
+
 	dkvOpenStart := time.Now()
 
 	// Initialize the DKV filesystem using the ID for a prefix
@@ -219,19 +251,25 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	}
 
 	// Start the DKV database.
-	o.db = dkv.Open(dkv.DBOptions{
+	db := dkv.Open(dkv.DBOptions{
 		FileSystem:    fs,
 		Logger:        o.Logger,
 		DataOwnership: newOperatorPartition(o.keyGroupRange, neighborPartitions),
 	}, ckptHandles)
-	o.stateStore = NewKeyedStateStore(o.db, o.keySpace)
+	o.stateStore = NewKeyedStateStore(db, o.keySpace)
 	var timerCacheSize uint64 = size.GB
 	vhook.Tune("operator.timer_cache_size", &timerCacheSize)
-	o.timerRegistry = NewTimerRegistry(NewTimerStore(o.db, o.keySpace, o.keyGroupRange, timerCacheSize), req.SourceRunnerIds)
+	o.timerRegistry = NewTimerRegistry(NewTimerStore(db, o.keySpace, o.keyGroupRange, timerCacheSize), req.SourceRunnerIds)
 
 	o.sourceRunners = newUpstreams(req.SourceRunnerIds)
 	o.sink = sink
 
+	o.mu.Lock()
+	defer o.mu.Unlock()
+	o.db = db
+	o.checkpoint = nil
+	o.deployment = newDeployment(req.SourceRunnerIds)
+
 	if err := o.status.DidLoad(); err != nil {
 		return fmt.Errorf("invalid status transition: %w", err)
 	}
@@ -240,53 +278,104 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	return nil
 }
 
+func newDeployment(srIDs []string) *deployment {
+	ctx, cancel := context.WithCancel(context.Background())
+	return &deployment{ctx: ctx, cancel: cancel, srIDs: sliceu.KeyMap(srIDs)}
+}
+
+func (d *deployment) end() {
+	if d != nil {
+		d.cancel()
+	}
+}
+
 func (o *Operator) HandleRemoveCheckpoints(ctx context.Context, req *workerpb.UpdateRetainedCheckpointsRequest) error {
-	return o.db.UpdateRetainedCheckpoints(req.CheckpointIds)
+	o.mu.RLock()
+	db := o.db
+	o.mu.RUnlock()
+	if db == nil {
+		return connect.NewError(connect.CodeFailedPrecondition, fmt.Errorf("operator has no database (status: %s)", o.status))
+	}
+	return db.UpdateRetainedCheckpoints(req.CheckpointIds)
 }
 
 func (o *Operator) HandleNeedsTable(fileURI string) bool {
+	o.mu.RLock()
+	defer o.mu.RUnlock()
+
+	// Until it's deployed this operator can't tell which tables it will need.
+	if !o.status.IsReady() {
+		return true
+	}
 	return o.db.NeedsTable(fileURI)
 }
 
 func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *workerpb.Event) error {
-	if !o.status.IsReady() {
+	o.mu.RLock()
+	isReady := o.status.IsReady()
+	dep := o.deployment
+	waitOnAlignment := o.checkpoint.alignSender(senderID)
+	o.mu.RUnlock()
+
+	if !isReady {
 		err := fmt.Errorf("operator not ready to handle events (status: %s)", o.status)
 		o.Logger.Debug("HandleEvent", "sender", senderID, "event", req.Event, "status", o.status, "err", err)
 		return connect.NewError(connect.CodeUnavailable, err)
 	}
 
-	o.Logger.Debug("handling", "sender", senderID, "event", req.Event)
+	// Only the source runners of this deployment may change the state
+	if _, ok := dep.srIDs[senderID]; !ok {
+		return connect.NewError(connect.CodeUnavailable, fmt.Errorf("sender %s is not part of the operator's deployment", senderID))
+	}
 
-	// Block the sender to align checkpoint barriers if needed
-	o.mu.RLock()
-	waitOnAlignment := o.checkpoint.alignSender(senderID)
-	o.mu.RUnlock()
-	waitOnAlignment()
+	o.Logger.Debug("handling", "sender", senderID, "event", req.Event)
 
-	// Collect the err response from the queued event.
-	respErr := make(chan error)
+	var handle func() error
 	switch typedEvent := req.Event.(type) {
 	case *workerpb.Event_KeyedEvent:
-		o.events <- func() {
-			respErr <- o.handleUserEvent(ctx, typedEvent.KeyedEvent)
-		}
+		handle = func() error { return o.handleUserEvent(ctx, typedEvent.KeyedEvent) }
 	case *workerpb.Event_Watermark:
-		o.events <- func() {
-			respErr <- o.handleWatermark(ctx, senderID, typedEvent.Watermark)
-		}
+		handle = func() error { return o.handleWatermark(ctx, senderID, typedEvent.Watermark) }
 	case *workerpb.Event_CheckpointBarrier:
-		o.events <- func() {
-			respErr <- o.handleCheckpointBarrier(ctx, senderID, typedEvent.CheckpointBarrier)
-		}
+		handle = func() error { return o.handleCheckpointBarrier(ctx, senderID, typedEvent.CheckpointBarrier) }
 	case *workerpb.Event_SourceComplete:
-		o.events <- func() {
-			respErr <- o.handleSourceComplete(senderID)
-		}
+		handle = func() error { return o.handleSourceComplete(senderID) }
 	default:
 		return fmt.Errorf("unknown event to handle %v", typedEvent)
 	}
 
-	return <-respErr
+	// Block the sender to align checkpoint barriers if needed
+	if err := waitOnAlignment(ctx, dep.ctx); err != nil {
+		return err
+	}
+
+	// Collect the err response from the queued event.
+	respErr := make(chan error, 1)
+	queuedEvent := func() {
+		// The sender may have given up or the operator may have been deployed
+		// again since the event was queued.
+		if err := ctx.Err(); err != nil {
+			respErr <- err
+			return
+		}
+		if dep.ctx.Err() != nil {
+			respErr <- errDeploymentEnded()
+			return
+		}
+		respErr <- handle()
+	}
+	select {
+	case o.events <- queuedEvent:
+		return <-respErr
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-dep.ctx.Done():
+		return errDeploymentEnded()
+	}
+}
+
+func errDeploymentEnded() error {
+	return connect.NewError(connect.CodeUnavailable, errors.New("operator was stopped or deployed again"))
 }
 
 // Process events until the o.events channel is closed or the context is canceled.
@@ -297,12 +386,17 @@ func (o *Operator) processEvents(ctx context.Context) error {
 			if !ok {
 				return nil
 			}
+			o.processMu.Lock()
 			event()
+			o.processMu.Unlock()
 		case batchToken, ok := <-o.eventBatcher.BatchTimedOut:
 			if !ok {
 				return nil
 			}
-			if err := o.processEventBatch(ctx, batchToken); err != nil {
+			o.processMu.Lock()
+			err := o.processEventBatch(ctx, batchToken)
+			o.processMu.Unlock()
+			if err != nil {
 				return err
 			}
 		case <-ctx.Done():
@@ -344,42 +438,50 @@ func (o *Operator) handleWatermark(ctx context.Context, senderID string, wm *wor
 }
 
 func (o *Operator) handleCheckpointBarrier(ctx context.Context, senderID string, barrier *workerpb.CheckpointBarrier) error {
-	// Get lock for checkpoint resource which is shared between all callers.
 	o.mu.Lock()
-	defer o.mu.Unlock()
-
 	if o.checkpoint == nil {
 		o.checkpoint = newCheckpoint(barrier.CheckpointId, o.sourceRunners.all)
 	}
-	if err := o.checkpoint.registerBarrier(senderID, barrier); err != nil {
+	ckpt := o.checkpoint
+	if err := ckpt.registerBarrier(senderID, barrier); err != nil {
+		o.mu.Unlock()
 		return err
 	}
-
-	if o.checkpoint.hasAllBarriers() {
-		o.processEventBatch(ctx, batching.CurrentBatch) // Must flush any pending events before checkpointing
-		cp, err := o.db.Checkpoint(o.checkpoint.checkpointID)()
-		if err != nil {
-			return err
-		}
-
-		err = o.job.OperatorCheckpointComplete(ctx, &snapshotpb.OperatorCheckpoint{
-			CheckpointId: o.checkpoint.checkpointID,
-			OperatorId:   o.id,
-			DkvFileUri:   cp.URI,
-			KeyGroupRange: &snapshotpb.KeyGroupRange{
-				Start: int32(o.keyGroupRange.Start),
-				End:   int32(o.keyGroupRange.End),
-			},
-		})
-		if err != nil {
-			return err
-		}
-
-		// Reset checkpoint to nil for next checkpoint
+	hasAllBarriers := ckpt.hasAllBarriers()
+	if hasAllBarriers {
+		// Reset checkpoint to nil for next checkpoint. Released senders can't be
+		// processed before this checkpoint has been taken.
 		o.checkpoint = nil
+	}
+	o.mu.Unlock()
+
+	if !hasAllBarriers {
 		return nil
 	}
 
+	// Must flush any pending events before checkpointing
+	if err := o.processEventBatch(ctx, batching.CurrentBatch); err != nil {
+		return err
+	}
+	cp, err := o.db.Checkpoint(ckpt.checkpointID)()
+	if err != nil {
+		return err
+	}
+
+	err = o.job.OperatorCheckpointComplete(ctx, &snapshotpb.OperatorCheckpoint{
+		CheckpointId: ckpt.checkpointID,
+		OperatorId:   o.id,
+		DkvFileUri:   cp.URI,
+		KeyGroupRange: &snapshotpb.KeyGroupRange{
+			Start: int32(o.keyGroupRange.Start),
+			End:   int32(o.keyGroupRange.End),
+		},
+	})
+	if err != nil {
+		// Without the acknowledgement the job won't complete this checkpoint but
+		// that's no reason for the sender to fail.
+		o.Logger.Error("failed to acknowledge checkpoint", "id", ckpt.checkpointID, "err", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 62dd97ab05a5580eb2ae68c2684c8a36b7ef5ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 23/62] fix: a redeployed source runner drops everything of its
 previous deployment

The previous deployment's loops kept reading and sending, its watermark, keyed
results, barriers and splits carried over, and a sender continued with later
batches after a failed one.
---
 workers/sourcerunner/operator_cluster.go |  37 +++-
 workers/sourcerunner/source_runner.go    | 215 +++++++++++++++--------
 2 files changed, 175 insertions(+), 77 deletions(-)

diff --git a/workers/sourcerunner/operator_cluster.go b/workers/sourcerunner/operator_cluster.go
index 6a9df88..52f0c6e 100644
--- a/workers/sourcerunner/operator_cluster.go
+++ b/workers/sourcerunner/operator_cluster.go
@@ -3,6 +3,7 @@ package sourcerunner
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	gproto "google.golang.org/protobuf/proto"
 	"reduction.dev/reduction/batching"
@@ -22,12 +23,13 @@ type newClusterParams struct {
 	operators      []proto.Operator
 	batchingParams batching.EventBatcherParams
 	errChan        chan<- error
+	senders        *sync.WaitGroup // Tracks goroutines sending to operators
 }
 
 func newOperatorCluster(ctx context.Context, params *newClusterParams) *operatorCluster {
 	operators := make([]*batchingOperator, len(params.operators))
 	for i, op := range params.operators {
-		operators[i] = newBatchingOperator(ctx, op, params.batchingParams, params.errChan)
+		operators[i] = newBatchingOperator(ctx, op, params)
 	}
 	return &operatorCluster{
 		keyGroupCount: params.keyGroupCount,
@@ -62,32 +64,38 @@ func (c *operatorCluster) flush() {
 }
 
 type batchingOperator struct {
+	ctx     context.Context
 	op      proto.Operator
 	batcher *batching.EventBatcher[*workerpb.Event]
 	errChan chan<- error
 	batches chan []*workerpb.Event
 }
 
-func newBatchingOperator(ctx context.Context, op proto.Operator, params batching.EventBatcherParams, errChan chan<- error) *batchingOperator {
+func newBatchingOperator(ctx context.Context, op proto.Operator, params *newClusterParams) *batchingOperator {
 	o := &batchingOperator{
+		ctx:     ctx,
 		op:      op,
-		batcher: batching.NewEventBatcher[*workerpb.Event](ctx, params),
+		batcher: batching.NewEventBatcher[*workerpb.Event](ctx, params.batchingParams),
 		batches: make(chan []*workerpb.Event),
-		errChan: errChan,
+		errChan: params.errChan,
 	}
 
+	params.senders.Add(1)
 	go func() {
+		defer params.senders.Done()
 		for {
 			select {
 			case <-ctx.Done():
 				return
 			case batchToken := <-o.batcher.BatchTimedOut:
 				if err := o.op.HandleEventBatch(ctx, o.batcher.Flush(batchToken)); err != nil {
-					o.errChan <- err
+					reportError(ctx, o.errChan, err)
+					return // Nothing may follow the failed batch
 				}
 			case batch := <-o.batches:
 				if err := o.op.HandleEventBatch(ctx, batch); err != nil {
-					o.errChan <- err
+					reportError(ctx, o.errChan, err)
+					return // Nothing may follow the failed batch
 				}
 			}
 		}
@@ -104,5 +112,20 @@ func (o *batchingOperator) HandleEvent(event *workerpb.Event) {
 }
 
 func (o *batchingOperator) Flush() {
-	o.batches <- o.batcher.Flush(batching.CurrentBatch)
+	select {
+	case <-o.ctx.Done():
+	case o.batches <- o.batcher.Flush(batching.CurrentBatch):
+	}
+}
+
+// reportError sends an error to the channel unless it's a consequence of the
+// context being done.
+func reportError(ctx context.Context, errChan chan<- error, err error) {
+	if ctx.Err() != nil {
+		return
+	}
+	select {
+	case <-ctx.Done():
+	case errChan <- err:
+	}
 }
diff --git a/workers/sourcerunner/source_runner.go b/workers/sourcerunner/source_runner.go
index 6a9b555..fdd79c9 100644
--- a/workers/sourcerunner/source_runner.go
+++ b/workers/sourcerunner/source_runner.go
@@ -5,7 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
-	"math"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -27,37 +27,45 @@ import (
 type SourceRunner struct {
 	host                string // A host name used to contract this SourceRunner
 	ID                  string
-	sourceReader        connectors.SourceReader
 	userHandler         proto.Handler
-	operators           *operatorCluster
 	job                 proto.Job
-	watermarker         *wmark.Watermarker
-	watermarkTicker     *time.Ticker
 	clock               clocks.Clock
 	isHalting           atomic.Bool
-	stopLoop            context.CancelFunc      // Signal to stop the event loop if running
 	stop                context.CancelCauseFunc // Signal to stop all source runner processes
 	operatorFactory     proto.OperatorFactory
 	sourceReaderFactory func(*jobconfigpb.Source) connectors.SourceReader
 	errChan             chan error
 	batchingParams      batching.EventBatcherParams
-	outputStream        chan *workerpb.Event
-	keyEventChannel     *batching.ReorderFetcher[[]byte, []*handlerpb.KeyedEvent]
-	initDone            chan struct{}                 // Used by HandleStart to wait until Start finishes initializing
-	sourceChannel       *connectors.ReadSourceChannel // The channel to read events from the source
-
-	// Checkpoint barriers are enqueued for processing in series with other events.
-	checkpointBarrier chan *workerpb.CheckpointBarrier
+	initDone            chan struct{} // Used by HandleStart to wait until Start finishes initializing
 
 	Logger         *slog.Logger
 	registerPoller *clocks.Ticker
 
-	// Add a context field to SourceRunner for use in HandleAssignSplits
-	ctx context.Context
-
 	runnerCtx context.Context // Context tied to SourceRunner lifecycle
 
-	startSourceChannelCh chan struct{} // signal to start the source channel
+	deployMu   sync.Mutex // Guards current
+	current    *deployment
+	didStopAll bool // Set when shutdown began and nothing more may be deployed
+}
+
+// deployment has everything that belongs to one deployment of a SourceRunner, so
+// that nothing read, keyed, or queued for a previous assembly can reach the
+// operators of the current one.
+type deployment struct {
+	*SourceRunner
+	ctx             context.Context
+	stopLoop        context.CancelFunc // Signal to stop the event loop
+	senders         sync.WaitGroup     // Goroutines sending to operators
+	sourceReader    connectors.SourceReader
+	sourceChannel   *connectors.ReadSourceChannel // The channel to read events from the source
+	operators       *operatorCluster
+	watermarker     *wmark.Watermarker
+	watermarkTicker *time.Ticker
+	outputStream    chan *workerpb.Event
+	keyEventChannel *batching.ReorderFetcher[[]byte, []*handlerpb.KeyedEvent]
+
+	// Checkpoint barriers are enqueued for processing in series with other events.
+	checkpointBarrier chan *workerpb.CheckpointBarrier
 
 	splitsWereAssigned chan []*workerpb.SourceSplit // channel for split assignment requests
 }
@@ -84,21 +92,15 @@ func New(params NewParams) *SourceRunner {
 		ID:                  srID,
 		host:                params.Host,
 		job:                 params.Job,
-		watermarker:         &wmark.Watermarker{},
-		watermarkTicker:     time.NewTicker(math.MaxInt64), // initialize with ticker that never ticks
 		userHandler:         params.UserHandler,
-		checkpointBarrier:   make(chan *workerpb.CheckpointBarrier, 1),
 		Logger:              log,
 		clock:               params.Clock,
-		stopLoop:            func() {},          // initialize with noop
 		stop:                func(err error) {}, // initialize with noop
 		operatorFactory:     params.OperatorFactory,
 		sourceReaderFactory: params.SourceReaderFactory,
 		errChan:             make(chan error),
 		batchingParams:      params.EventBatching,
-		outputStream:        make(chan *workerpb.Event, 1_000),
 		initDone:            make(chan struct{}),
-		splitsWereAssigned:  make(chan []*workerpb.SourceSplit, 1),
 	}
 
 	if sr.sourceReaderFactory == nil {
@@ -140,20 +142,14 @@ func (r *SourceRunner) Start(ctx context.Context) error {
 
 	// Listen for errors on the errChan
 	go func() {
-		result := <-r.errChan
-		r.Logger.Error("source runner error", "err", result)
-		cancel(result)
+		select {
+		case result := <-r.errChan:
+			r.Logger.Error("source runner error", "err", result)
+			cancel(result)
+		case <-ctx.Done():
+		}
 	}()
 
-	r.keyEventChannel = batching.NewReorderFetcher(ctx, batching.NewReorderFetcherParams[[]byte, []*handlerpb.KeyedEvent]{
-		Batcher: batching.NewEventBatcher[[]byte](ctx, r.batchingParams),
-		FetchBatch: func(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
-			return r.userHandler.KeyEventBatch(ctx, events)
-		},
-		ErrChan:    r.errChan,
-		BufferSize: r.batchingParams.MaxSize,
-	})
-
 	close(r.initDone) // Signal that initialization is done
 
 	<-ctx.Done() // Afterward begin shutdown process
@@ -161,8 +157,10 @@ func (r *SourceRunner) Start(ctx context.Context) error {
 	r.Logger.Info("starting shutdown")
 	defer r.Logger.Info("shutdown complete")
 
-	r.stopLoop()
-	r.watermarkTicker.Stop()
+	r.deployMu.Lock()
+	r.didStopAll = true
+	r.current.stop()
+	r.deployMu.Unlock()
 	r.registerPoller.Stop()
 
 	if !r.isHalting.Load() {
@@ -198,44 +196,99 @@ func (r *SourceRunner) HandleDeploy(ctx context.Context, msg *workerpb.DeploySou
 		panic("exactly one source required")
 	}
 
-	r.watermarkTicker = time.NewTicker(time.Millisecond * 200)
+	r.deployMu.Lock()
+	defer r.deployMu.Unlock()
 
-	deploymentCtx, cancel := context.WithCancel(context.Background())
-	r.stopLoop = cancel
-	r.ctx = deploymentCtx // assign loopCtx to r.ctx for later use
+	if r.didStopAll {
+		return errors.New("source runner is stopping")
+	}
+
+	// Stop sending to the operators of the previous deployment before starting
+	// the next one.
+	r.current.stop()
 
-	r.sourceReader = r.sourceReaderFactory(msg.Sources[0])
-	r.sourceChannel = connectors.NewReadSourceChannel(r.sourceReader)
+	watermarkInterval := time.Millisecond * 200
+
+	deploymentCtx, cancel := context.WithCancel(context.Background())
+	d := &deployment{
+		SourceRunner:       r,
+		ctx:                deploymentCtx,
+		stopLoop:           cancel,
+		sourceReader:       r.sourceReaderFactory(msg.Sources[0]),
+		watermarker:        &wmark.Watermarker{},
+		watermarkTicker:    time.NewTicker(watermarkInterval),
+		outputStream:       make(chan *workerpb.Event, 1_000),
+		checkpointBarrier:  make(chan *workerpb.CheckpointBarrier, 1),
+		splitsWereAssigned: make(chan []*workerpb.SourceSplit, 1),
+	}
+	d.sourceChannel = connectors.NewReadSourceChannel(d.sourceReader)
+	d.keyEventChannel = batching.NewReorderFetcher(d.ctx, batching.NewReorderFetcherParams[[]byte, []*handlerpb.KeyedEvent]{
+		Batcher: batching.NewEventBatcher[[]byte](d.ctx, r.batchingParams),
+		FetchBatch: func(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
+			return r.userHandler.KeyEventBatch(ctx, events)
+		},
+		ErrChan:    r.errChan,
+		BufferSize: r.batchingParams.MaxSize,
+	})
 
 	ops := make([]proto.Operator, len(msg.Operators))
 	for i, op := range msg.Operators {
 		ops[i] = r.operatorFactory(r.ID, op)
 	}
-	r.operators = newOperatorCluster(r.ctx, &newClusterParams{
+	d.operators = newOperatorCluster(d.ctx, &newClusterParams{
 		keyGroupCount:  int(msg.KeyGroupCount),
 		operators:      ops,
 		batchingParams: r.batchingParams,
 		errChan:        r.errChan,
+		senders:        &d.senders,
 	})
+	r.current = d
 
 	go func() {
-		if err := r.processEvents(r.ctx); err != nil {
+		if err := d.processEvents(d.ctx); err != nil {
 			r.Logger.Error("processEvents stopped with error", "err", err)
 		}
 		cancel()
 	}()
-	go func() {
-		for opEvent := range r.outputStream {
+	go d.sendOutputStream()
+
+	return nil
+}
+
+// stop ends the deployment. When it returns no more events are being sent to
+// operators.
+func (r *deployment) stop() {
+	if r == nil {
+		return
+	}
+	r.stopLoop()
+	r.watermarkTicker.Stop()
+	r.senders.Wait()
+}
+
+// sendOutputStream sends the output stream's events to the operators.
+func (r *deployment) sendOutputStream() {
+	for {
+		select {
+		case <-r.ctx.Done():
+			return
+		case opEvent := <-r.outputStream:
 			if err := r.sendOperatorEvent(opEvent); err != nil {
-				r.errChan <- err
+				reportError(r.ctx, r.errChan, err)
 			}
 		}
-	}()
+	}
+}
 
-	return nil
+// putOutput adds an event to the output stream unless the deployment is stopped.
+func (r *deployment) putOutput(event *workerpb.Event) {
+	select {
+	case <-r.ctx.Done():
+	case r.outputStream <- event:
+	}
 }
 
-func (r *SourceRunner) processEvents(ctx context.Context) error {
+func (r *deployment) processEvents(ctx context.Context) error {
 	for {
 		select {
 		case <-ctx.Done():
@@ -246,29 +299,26 @@ func (r *SourceRunner) processEvents(ctx context.Context) error {
 				return err
 			}
 			if len(splits) > 0 {
-				if r.sourceChannel == nil {
-					return fmt.Errorf("sourceChannel is nil")
-				}
 				r.sourceChannel.Start(r.ctx)
 			}
 		case <-r.watermarkTicker.C:
-			r.outputStream <- &workerpb.Event{Event: &workerpb.Event_Watermark{Watermark: &workerpb.Watermark{}}}
+			r.putOutput(&workerpb.Event{Event: &workerpb.Event_Watermark{Watermark: &workerpb.Watermark{}}})
 		case barrier := <-r.checkpointBarrier:
 			if err := r.createCheckpoint(barrier.CheckpointId); err != nil {
 				return fmt.Errorf("creating checkpoint: %w", err)
 			}
-			r.outputStream <- &workerpb.Event{Event: &workerpb.Event_CheckpointBarrier{CheckpointBarrier: barrier}}
+			r.putOutput(&workerpb.Event{Event: &workerpb.Event_CheckpointBarrier{CheckpointBarrier: barrier}})
 		case readFunc, ok := <-r.sourceChannel.C:
 			if !ok {
 				// Channel closed, Flush events, Send watermark, send source complete event
 				r.keyEventChannel.Flush(ctx)
-				r.outputStream <- &workerpb.Event{Event: &workerpb.Event_Watermark{
+				r.putOutput(&workerpb.Event{Event: &workerpb.Event_Watermark{
 					Watermark: &workerpb.Watermark{},
-				}}
-				r.outputStream <- &workerpb.Event{Event: &workerpb.Event_SourceComplete{}}
+				}})
+				r.putOutput(&workerpb.Event{Event: &workerpb.Event_SourceComplete{}})
 
 				// Stop reading from sourceChannel
-				r.sourceChannel = nil
+				r.sourceChannel.C = nil
 				continue
 			}
 
@@ -292,14 +342,31 @@ func (r *SourceRunner) processEvents(ctx context.Context) error {
 }
 
 func (r *SourceRunner) HandleStartCheckpoint(ctx context.Context, id uint64) {
-	r.checkpointBarrier <- &workerpb.CheckpointBarrier{CheckpointId: id}
+	r.deployMu.Lock()
+	d := r.current
+	r.deployMu.Unlock()
+	if d == nil {
+		r.Logger.Warn("ignoring checkpoint before being deployed", "id", id)
+		return
+	}
+
+	select {
+	case d.checkpointBarrier <- &workerpb.CheckpointBarrier{CheckpointId: id}:
+	case <-d.ctx.Done():
+	case <-ctx.Done():
+	}
 }
 
-func (r *SourceRunner) sendOperatorEvent(event *workerpb.Event) error {
+func (r *deployment) sendOperatorEvent(event *workerpb.Event) error {
 	switch typedEvent := event.Event.(type) {
 	case *workerpb.Event_KeyedEvent:
 		// Get the async result for this placeholder event
-		asyncResult := <-r.keyEventChannel.Output
+		var asyncResult []*handlerpb.KeyedEvent
+		select {
+		case <-r.ctx.Done():
+			return nil
+		case asyncResult = <-r.keyEventChannel.Output:
+		}
 		for _, event := range asyncResult {
 			r.watermarker.AdvanceTime(event.Timestamp.AsTime())
 			r.operators.routeEvent(event.Key, &workerpb.Event{
@@ -325,17 +392,17 @@ func (r *SourceRunner) sendOperatorEvent(event *workerpb.Event) error {
 	}
 }
 
-func (r *SourceRunner) sendKeyEvent(ctx context.Context, event []byte) {
+func (r *deployment) sendKeyEvent(ctx context.Context, event []byte) {
 	// Put a placeholder on the output stream that will be joined with the async
 	// KeyEvent result.
-	r.outputStream <- &workerpb.Event{Event: &workerpb.Event_KeyedEvent{}}
+	r.putOutput(&workerpb.Event{Event: &workerpb.Event_KeyedEvent{}})
 	r.keyEventChannel.Add(ctx, event)
 }
 
 // createCheckpoint gets checkpoint data from the source reader and notifies the job.
-func (r *SourceRunner) createCheckpoint(id uint64) error {
+func (r *deployment) createCheckpoint(id uint64) error {
 	data := r.sourceReader.Checkpoint()
-	return r.job.OnSourceRunnerCheckpointComplete(context.Background(), &jobpb.SourceRunnerCheckpointCompleteRequest{
+	return r.job.OnSourceRunnerCheckpointComplete(r.ctx, &jobpb.SourceRunnerCheckpointCompleteRequest{
 		CheckpointId:   id,
 		SplitStates:    data,
 		SourceRunnerId: r.ID,
@@ -344,9 +411,17 @@ func (r *SourceRunner) createCheckpoint(id uint64) error {
 
 // HandleAssignSplits is invoked to assign new splits and start reading from them.
 func (r *SourceRunner) HandleAssignSplits(splits []*workerpb.SourceSplit) error {
-	if r.sourceReader == nil {
+	r.deployMu.Lock()
+	d := r.current
+	r.deployMu.Unlock()
+	if d == nil {
 		return fmt.Errorf("sourceReader is not initialized")
 	}
-	r.splitsWereAssigned <- splits
-	return nil
+
+	select {
+	case d.splitsWereAssigned <- splits:
+		return nil
+	case <-d.ctx.Done():
+		return fmt.Errorf("source runner was stopped or deployed again")
+	}
 }
-- 
2.43.0


From e52fb3fe6f67ea85d5bc85085e2426765feac0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 24/62] verif: tuning point for the source runner's watermark
 interval (build tag verif)

---
 workers/sourcerunner/source_runner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/workers/sourcerunner/source_runner.go b/workers/sourcerunner/source_runner.go
index fdd79c9..1838457 100644
--- a/workers/sourcerunner/source_runner.go
+++ b/workers/sourcerunner/source_runner.go
@@ -21,6 +21,7 @@ import (
 	"reduction.dev/reduction/proto"
 	"reduction.dev/reduction/proto/jobpb"
 	"reduction.dev/reduction/proto/workerpb"
+	"reduction.dev/reduction/util/vhook"
 	"reduction.dev/reduction/workers/wmark"
 )
 
@@ -208,6 +209,7 @@ func (r *SourceRunner) HandleDeploy(ctx context.Context, msg *workerpb.DeploySou
 	r.current.stop()
 
 	watermarkInterval := time.Millisecond * 200
+	vhook.Tune("sourcerunner.watermark_interval", &watermarkInterval)
 
 	deploymentCtx, cancel := context.WithCancel(context.Background())
 	d := &deployment{
-- 
2.43.0


From 9484abfc9400d45644acf6a80836b0b83b835190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 25/62] fix: namespaces of 255 bytes and more keep their full
 length in state keys

---
 workers/operator/keyed_state_store.go | 37 ++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/workers/operator/keyed_state_store.go b/workers/operator/keyed_state_store.go
index b2c6c54..4d8ecfd 100644
--- a/workers/operator/keyed_state_store.go
+++ b/workers/operator/keyed_state_store.go
@@ -69,6 +69,18 @@ func (s *KeyedStateStore) ApplyMutations(subjectKey []byte, mutations []*handler
 	return nil
 }
 
+// A namespace length byte with this value means that the actual length follows
+// as a uint32. Shorter namespaces have their length in the byte itself.
+const longNamespaceMarker = 0xff
+
+// The number of bytes needed to encode the namespace's length.
+func namespaceLenSize(namespace string) int {
+	if len(namespace) < longNamespaceMarker {
+		return 1
+	}
+	return 1 + 4
+}
+
 // Create a composite key for DKV storage like
 //
 //	<key-group><schema><subject-key><namespace><data>
@@ -76,8 +88,8 @@ func (s *KeyedStateStore) ApplyMutations(subjectKey []byte, mutations []*handler
 // Schema is 0x00, subject-key and namespace are length encoded and data is the
 // data bytes as-is.
 func (s *KeyedStateStore) encodeDBKey(subjectKey []byte, namespace string, data []byte) []byte {
-	// 2 key group bytes + 1 schema byte + 4 subject key length bytes + subject key + 1 namespace length byte + namespace + data
-	buf := make([]byte, 2+1+4+len(subjectKey)+1+len(namespace)+len(data))
+	// 2 key group bytes + 1 schema byte + 4 subject key length bytes + subject key + namespace length bytes + namespace + data
+	buf := make([]byte, 2+1+4+len(subjectKey)+namespaceLenSize(namespace)+len(namespace)+len(data))
 	offset := 0
 
 	// Key group prefix
@@ -97,8 +109,13 @@ func (s *KeyedStateStore) encodeDBKey(subjectKey []byte, namespace string, data
 	offset += copy(buf[offset:], subjectKey)
 
 	// Namespace length
-	buf[offset] = uint8(len(namespace))
-	offset += 1
+	if namespaceLenSize(namespace) == 1 {
+		buf[offset] = uint8(len(namespace))
+	} else {
+		buf[offset] = longNamespaceMarker
+		binary.BigEndian.PutUint32(buf[offset+1:], uint32(len(namespace)))
+	}
+	offset += namespaceLenSize(namespace)
 
 	// Namespace content
 	offset += copy(buf[offset:], namespace)
@@ -139,17 +156,23 @@ func (s *KeyedStateStore) decodeKey(compositeKey []byte) (namespace, data []byte
 	}
 
 	// Read the namespace value
-	var namespaceLen uint8
-	if err := binary.Read(r, binary.BigEndian, &namespaceLen); err != nil {
+	lenByte, err := r.ReadByte()
+	if err != nil {
 		panic(err)
 	}
+	namespaceLen := uint32(lenByte)
+	if lenByte == longNamespaceMarker {
+		if err := binary.Read(r, binary.BigEndian, &namespaceLen); err != nil {
+			panic(err)
+		}
+	}
 	namespace = make([]byte, namespaceLen)
 	if err := binary.Read(r, binary.BigEndian, &namespace); err != nil {
 		panic(err)
 	}
 
 	// Read remaining data
-	data, err := io.ReadAll(r)
+	data, err = io.ReadAll(r)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From ca3e07cc851de90fc0e005b0a88397cabb47ab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:27 +0000
Subject: [PATCH 26/62] fix: checkpoints of several operators restore to all of
 their tables and can be saved again

---
 dkv/recovery/checkpoint.go      | 14 ++++-----
 dkv/recovery/checkpoint_list.go | 51 +++++++++++++++++++++++++--------
 2 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/dkv/recovery/checkpoint.go b/dkv/recovery/checkpoint.go
index 11806af..1258d72 100644
--- a/dkv/recovery/checkpoint.go
+++ b/dkv/recovery/checkpoint.go
@@ -62,19 +62,17 @@ func (cp *Checkpoint) Destroy() error {
 }
 
 func (cp *Checkpoint) Document() checkpointDocument {
-	if len(cp.WALs) > 1 {
-		panic("should not serialize a checkpoint with multiple WALs")
+	walDocs := make([]wal.HandleDocument, len(cp.WALs))
+	for i, w := range cp.WALs {
+		walDocs[i] = w.Document()
 	}
-	doc := checkpointDocument{
+
+	return checkpointDocument{
 		ID:         cp.ID,
+		WALs:       walDocs,
 		Levels:     cp.Levels.Document(),
 		LastSeqNum: cp.LastSeqNum,
 	}
-	if len(cp.WALs) == 1 {
-		doc.WALs = []wal.HandleDocument{cp.WALs[0].Document()}
-	}
-
-	return doc
 }
 
 // Return 1 greater than the largest WAL ID in this checkpoint.
diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index 47edfc5..1ed0117 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -190,21 +190,48 @@ func LoadCheckpointList(fs storage.FileSystem, dataOwnership kv.DataOwnership, c
 		checkpointDocs[i] = doc.Checkpoints[ckptIndex]
 	}
 
-	// Merge the checkpoint documents into the first
-	compositeCheckpointDoc, rest := checkpointDocs[0], checkpointDocs[1:]
-	for _, doc := range rest {
-		// Merge WAL handles
-		compositeCheckpointDoc.WALs = append(compositeCheckpointDoc.WALs, doc.WALs...)
-
-		// Merge level list
-		for levelIndex, level := range doc.Levels {
-			compositeCheckpointDoc.Levels[levelIndex] = append(compositeCheckpointDoc.Levels[levelIndex], level...)
-		}
+	compositeCheckpoint := newCheckpointFromDocument(fs, dataOwnership, mergeCheckpointDocs(checkpointDocs))
+
+	return &CheckpointList{checkpoints: []*Checkpoint{compositeCheckpoint}}, nil
+}
+
+// mergeCheckpointDocs combines documents for the same checkpoint from separate
+// DKV instances into one.
+func mergeCheckpointDocs(docs []checkpointDocument) checkpointDocument {
+	if len(docs) == 1 {
+		return docs[0]
 	}
 
-	compositeCheckpoint := newCheckpointFromDocument(fs, dataOwnership, compositeCheckpointDoc)
+	composite := docs[0]
+	composite.WALs = nil
+	composite.Levels = make([][]sst.TableDocument, len(docs[0].Levels))
 
-	return &CheckpointList{checkpoints: []*Checkpoint{compositeCheckpoint}}, nil
+	walURIs := ds.NewSet[string](len(docs))
+	tableURIs := ds.NewSet[string](len(docs))
+	for _, doc := range docs {
+		composite.LastSeqNum = max(composite.LastSeqNum, doc.LastSeqNum)
+
+		for _, w := range doc.WALs {
+			if !walURIs.Has(w.URI) {
+				walURIs.Add(w.URI)
+				composite.WALs = append(composite.WALs, w)
+			}
+		}
+
+		// Instances that were restored from the same checkpoint have tables in
+		// common, and the key ranges of tables from separate instances overlap
+		// because restored tables include keys that an instance doesn't own. Only
+		// L0 allows for overlapping tables, it relies on the sequence numbers.
+		for _, level := range doc.Levels {
+			for _, t := range level {
+				if !tableURIs.Has(t.URI) {
+					tableURIs.Add(t.URI)
+					composite.Levels[0] = append(composite.Levels[0], t)
+				}
+			}
+		}
+	}
+	return composite
 }
 
 // Example format:
-- 
2.43.0


From 7350543fbff5a5557463a6fe0d2a9945b0e309c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:30 +0000
Subject: [PATCH 27/62] fix: operators are given all overlapping checkpoints
 whatever order they completed in

---
 partitioning/key_space.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/partitioning/key_space.go b/partitioning/key_space.go
index 93c79c5..df2de2b 100644
--- a/partitioning/key_space.go
+++ b/partitioning/key_space.go
@@ -92,21 +92,14 @@ func keyGroupRanges(keyGroupCount, rangeCount int) []KeyGroupRange {
 
 // Return a slice where each slice index corresponds to an item in `to` where
 // the value is a list of KegGroup indices assigned from the `from`
-// KeyGroupRanges.
+// KeyGroupRanges. The ranges may be in any order.
 func AssignRanges(to []KeyGroupRange, from []KeyGroupRange) [][]int {
 	assignments := make([][]int, len(to))
-	fromIdx := 0
 	for toIdx, toRange := range to {
-		// Advance fromIdx to the first possible overlap
-		for fromIdx < len(from) && from[fromIdx].End <= toRange.Start {
-			fromIdx++
-		}
-		j := fromIdx
-		for j < len(from) && from[j].Start < toRange.End {
-			if toRange.Overlaps(from[j]) {
-				assignments[toIdx] = append(assignments[toIdx], j)
+		for fromIdx, fromRange := range from {
+			if toRange.Overlaps(fromRange) {
+				assignments[toIdx] = append(assignments[toIdx], fromIdx)
 			}
-			j++
 		}
 	}
 	return assignments
-- 
2.43.0


From fbd92e1b2ddb0c438d47c3074668b736a7cc4b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 28/62] fix: an operator's watermark starts at the epoch rather
 than the zero time

---
 workers/operator/timer_registry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/workers/operator/timer_registry.go b/workers/operator/timer_registry.go
index 3f42798..83465db 100644
--- a/workers/operator/timer_registry.go
+++ b/workers/operator/timer_registry.go
@@ -33,6 +33,7 @@ func NewTimerRegistry(store *TimerStore, srIDs []string) *TimerRegistry {
 	return &TimerRegistry{
 		upstreams: upstreams,
 		store:     store,
+		watermark: time.Unix(0, 0), // The minimum of the initial upstream watermarks
 	}
 }
 
-- 
2.43.0


From 4968ac52c905498518f5c1468fa0908682b71385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:00 +0000
Subject: [PATCH 29/62] fix: timers that don't fit the cache are neither lost
 nor fired out of order

---
 util/ds/sorted_cache.go         |  4 ++++
 workers/operator/timer_store.go | 15 +++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/util/ds/sorted_cache.go b/util/ds/sorted_cache.go
index 69146c1..5c63f8d 100644
--- a/util/ds/sorted_cache.go
+++ b/util/ds/sorted_cache.go
@@ -48,6 +48,10 @@ func (s *SortedCache) Peek() (min []byte, ok bool) {
 	return s.tree.Min()
 }
 
+func (s *SortedCache) PeekLast() (max []byte, ok bool) {
+	return s.tree.Max()
+}
+
 func (s *SortedCache) Delete(key []byte) {
 	deleted, ok := s.tree.Delete(key)
 	if ok {
diff --git a/workers/operator/timer_store.go b/workers/operator/timer_store.go
index 3f2ab50..d357315 100644
--- a/workers/operator/timer_store.go
+++ b/workers/operator/timer_store.go
@@ -145,6 +145,13 @@ func (pq *KeyGroupPriorityQueue) Pop() ([]byte, bool) {
 
 func (pq *KeyGroupPriorityQueue) Push(data []byte) {
 	pq.loadFromDB()
+	pq.db.Put(data, nil) // write-through cache to db
+
+	// The cache must hold the earliest items. When there are more items in the DB
+	// then any of those may precede an item that comes after the cached items.
+	if last, ok := pq.cache.PeekLast(); ok && !pq.allDataInCache && bytes.Compare(data, last) > 0 {
+		return
+	}
 	pq.cache.Push(data)
 
 	// If pushing the item exceeded the cache capacity, evict items until we're back under the limit
@@ -152,8 +159,6 @@ func (pq *KeyGroupPriorityQueue) Push(data []byte) {
 		pq.cache.PopLast()
 		pq.allDataInCache = false // evicted item is now only in the DB
 	}
-
-	pq.db.Put(data, nil) // write-through cache to db
 }
 
 func (pq *KeyGroupPriorityQueue) AssignIndex(i int) {
@@ -176,7 +181,7 @@ func (pq *KeyGroupPriorityQueue) Delete(data []byte) {
 	pq.db.Delete(data)
 }
 
-// Load all of the given KeyGroup's data into the cache.
+// Load the given KeyGroup's earliest data into the cache, as much as fits.
 func (pq *KeyGroupPriorityQueue) loadFromDB() {
 	if !pq.cache.IsEmpty() || pq.allDataInCache {
 		return
@@ -187,16 +192,18 @@ func (pq *KeyGroupPriorityQueue) loadFromDB() {
 	prefix[2] = 0x01 // Schema byte
 
 	var err error
+	loadedAll := true
 	for entry := range pq.db.ScanPrefix(prefix, &err) {
 		pq.cache.Push(entry.Key())
 		if pq.cache.IsFull() {
+			loadedAll = false
 			break
 		}
 	}
 	if err != nil {
 		panic(err)
 	}
-	pq.allDataInCache = true
+	pq.allDataInCache = loadedAll
 }
 
 var _ ds.QueuePartition[[]byte] = &KeyGroupPriorityQueue{}
-- 
2.43.0


From 6fe807645e5c538f4ba4dc7949cbf377191c4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:16 +0000
Subject: [PATCH 30/62] fix: closing a database waits for file changes that
 have begun

---
 dkv/storage/closable_filesystem.go | 37 +++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/dkv/storage/closable_filesystem.go b/dkv/storage/closable_filesystem.go
index 5abc68d..5269cbe 100644
--- a/dkv/storage/closable_filesystem.go
+++ b/dkv/storage/closable_filesystem.go
@@ -2,7 +2,7 @@ package storage
 
 import (
 	"errors"
-	"sync/atomic"
+	"sync"
 )
 
 var ErrClosed = errors.New("file system is closed")
@@ -12,48 +12,63 @@ var ErrClosed = errors.New("file system is closed")
 // nor deleted.
 type ClosableFileSystem struct {
 	FileSystem
-	closed *atomic.Bool
+	gate *closeGate
+}
+
+// closeGate is held open (read locked) by each change of a file while it happens.
+type closeGate struct {
+	mu     sync.RWMutex
+	closed bool
 }
 
 func NewClosableFileSystem(fs FileSystem) *ClosableFileSystem {
-	return &ClosableFileSystem{FileSystem: fs, closed: &atomic.Bool{}}
+	return &ClosableFileSystem{FileSystem: fs, gate: &closeGate{}}
 }
 
+// Close waits for changes that have begun and prevents any further ones.
 func (fs *ClosableFileSystem) Close() {
-	fs.closed.Store(true)
+	fs.gate.mu.Lock()
+	defer fs.gate.mu.Unlock()
+	fs.gate.closed = true
 }
 
 func (fs *ClosableFileSystem) New(path string) File {
-	return &closableFile{File: fs.FileSystem.New(path), closed: fs.closed}
+	return &closableFile{File: fs.FileSystem.New(path), gate: fs.gate}
 }
 
 func (fs *ClosableFileSystem) Open(path string) File {
-	return &closableFile{File: fs.FileSystem.Open(path), closed: fs.closed}
+	return &closableFile{File: fs.FileSystem.Open(path), gate: fs.gate}
 }
 
 type closableFile struct {
 	File
-	closed *atomic.Bool
+	gate *closeGate
 }
 
 func (f *closableFile) Save() error {
-	if f.closed.Load() {
+	f.gate.mu.RLock()
+	defer f.gate.mu.RUnlock()
+	if f.gate.closed {
 		return ErrClosed
 	}
 	return f.File.Save()
 }
 
 func (f *closableFile) Delete() error {
-	if f.closed.Load() {
+	f.gate.mu.RLock()
+	defer f.gate.mu.RUnlock()
+	if f.gate.closed {
 		return nil
 	}
 	return f.File.Delete()
 }
 
 func (f *closableFile) CreateDeleteFunc() func() error {
-	closed, deleteFile := f.closed, f.File.CreateDeleteFunc()
+	gate, deleteFile := f.gate, f.File.CreateDeleteFunc()
 	return func() error {
-		if closed.Load() {
+		gate.mu.RLock()
+		defer gate.mu.RUnlock()
+		if gate.closed {
 			return nil
 		}
 		return deleteFile()
-- 
2.43.0


From dae2757caa32ca164e965a1aee75c614573a32c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 31/62] fix: a redeployed operator doesn't replace the files of
 retained checkpoints

---
 workers/operator/operator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 6cc78d2..0dd7a92 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -236,8 +236,10 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 
 	dkvOpenStart := time.Now()
 
-	// Initialize the DKV filesystem using the ID for a prefix
-	fs, err := storage.NewFileSystemFromLocation(storage.Join(req.StorageLocation, o.id))
+	// Initialize the DKV filesystem with a prefix that's unique to this
+	// deployment. Files of previous deployments must not be replaced because
+	// retained checkpoints refer to them.
+	fs, err := storage.NewFileSystemFromLocation(storage.Join(req.StorageLocation, o.id, ksuid.New().String()))
 	if err != nil {
 		return fmt.Errorf("creating filesystem: %w", err)
 	}
-- 
2.43.0


From fc406a93fd63afe380437bffba3d6d47bb1bda93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 32/62] fix: a database needs the tables of the checkpoints it
 took, not just of the restored ones

---
 dkv/recovery/checkpoint.go      | 24 +++++++++++-------------
 dkv/recovery/checkpoint_list.go |  9 +++++----
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/dkv/recovery/checkpoint.go b/dkv/recovery/checkpoint.go
index 1258d72..10d6bf6 100644
--- a/dkv/recovery/checkpoint.go
+++ b/dkv/recovery/checkpoint.go
@@ -30,27 +30,25 @@ func newCheckpointFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwner
 		walHandles[i] = wal.NewHandle(fs, doc)
 	}
 
-	tableCount := 0
-	for _, level := range doc.Levels {
-		tableCount += len(level)
-	}
-
-	tableURISet := make(map[string]struct{}, tableCount)
-	for _, level := range doc.Levels {
-		for _, tableDoc := range level {
-			tableURISet[tableDoc.URI] = struct{}{}
-		}
-	}
-
 	return &Checkpoint{
 		ID:          uint64(doc.ID),
 		WALs:        walHandles,
 		Levels:      sst.NewLevelListFromDocument(fs, dataOwnership, doc.Levels),
-		tableURIset: tableURISet,
+		tableURIset: newTableURISet(doc.Levels),
 		LastSeqNum:  doc.LastSeqNum,
 	}
 }
 
+func newTableURISet(levels [][]sst.TableDocument) map[string]struct{} {
+	tableURISet := make(map[string]struct{})
+	for _, level := range levels {
+		for _, tableDoc := range level {
+			tableURISet[tableDoc.URI] = struct{}{}
+		}
+	}
+	return tableURISet
+}
+
 func (cp *Checkpoint) Destroy() error {
 	for _, wal := range cp.WALs {
 		if err := wal.Delete(); err != nil {
diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index 1ed0117..833e889 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -38,10 +38,11 @@ type CheckpointHandle struct {
 // Checkpoint is responsible for the LevelList and WAL cleanup when destroyed.
 func (cl *CheckpointList) Add(ckptID uint64, ll *sst.LevelList, w *wal.Writer, lastSeqNum uint64) {
 	cp := &Checkpoint{
-		ID:         ckptID,
-		Levels:     ll,
-		WALs:       []wal.Handle{w.Handle(ll.LatestSeqNum)},
-		LastSeqNum: lastSeqNum,
+		ID:          ckptID,
+		Levels:      ll,
+		WALs:        []wal.Handle{w.Handle(ll.LatestSeqNum)},
+		tableURIset: newTableURISet(ll.Document()),
+		LastSeqNum:  lastSeqNum,
 	}
 
 	cl.mu.Lock()
-- 
2.43.0


From 391416632d5cc1f76036a9e0c8d6dda5beb52202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 33/62] fix: a table isn't deleted while any neighbor operator
 needs it or can't tell

---
 dkv/sst/table.go                       |  1 +
 workers/operator/operator.go           | 11 +++-----
 workers/operator/operator_partition.go | 36 +++++---------------------
 3 files changed, 11 insertions(+), 37 deletions(-)

diff --git a/dkv/sst/table.go b/dkv/sst/table.go
index 136e9ae..5bd8834 100644
--- a/dkv/sst/table.go
+++ b/dkv/sst/table.go
@@ -110,6 +110,7 @@ func NewTableFromDocument(fs storage.FileSystem, dataOwnership kv.DataOwnership,
 		canDelete, err := p.dataOwnership.ExclusivelyOwnsTable(p.uri, p.startKey, p.endKey)
 		if err != nil {
 			slog.Error("failed determining exclusive ownership, not deleting", "err", err, "uri", p.uri)
+			return
 		}
 
 		if canDelete {
diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 0dd7a92..bcd8547 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -208,16 +208,13 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	keyGroupRanges := o.keySpace.KeyGroupRanges()
 	o.keyGroupRange = keyGroupRanges[ownIndex]
 
-	// Create the neighbor operator partitions
-	neighborPartitions := make([]neighborPartition, 0, len(req.Operators)-1)
+	// Create clients for the neighbor operators
+	neighbors := make([]proto.Operator, 0, len(req.Operators)-1)
 	for i, op := range req.Operators {
 		if i == ownIndex {
 			continue
 		}
-		neighborPartitions = append(neighborPartitions, neighborPartition{
-			keyGroupRange: keyGroupRanges[i],
-			operator:      o.neighborOperatorFactory(o.id, op),
-		})
+		neighbors = append(neighbors, o.neighborOperatorFactory(o.id, op))
 	}
 
 	ckptHandles := make([]recovery.CheckpointHandle, len(req.Checkpoints))
@@ -256,7 +253,7 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	db := dkv.Open(dkv.DBOptions{
 		FileSystem:    fs,
 		Logger:        o.Logger,
-		DataOwnership: newOperatorPartition(o.keyGroupRange, neighborPartitions),
+		DataOwnership: newOperatorPartition(o.keyGroupRange, neighbors),
 	}, ckptHandles)
 	o.stateStore = NewKeyedStateStore(db, o.keySpace)
 	var timerCacheSize uint64 = size.GB
diff --git a/workers/operator/operator_partition.go b/workers/operator/operator_partition.go
index 91a04f5..4d99bb8 100644
--- a/workers/operator/operator_partition.go
+++ b/workers/operator/operator_partition.go
@@ -11,10 +11,10 @@ import (
 
 type OperatorPartition struct {
 	keyGroupRange partitioning.KeyGroupRange
-	neighbors     []neighborPartition
+	neighbors     []proto.Operator
 }
 
-func newOperatorPartition(keyGroupRange partitioning.KeyGroupRange, neighbors []neighborPartition) *OperatorPartition {
+func newOperatorPartition(keyGroupRange partitioning.KeyGroupRange, neighbors []proto.Operator) *OperatorPartition {
 	return &OperatorPartition{
 		keyGroupRange: keyGroupRange,
 		neighbors:     neighbors,
@@ -27,12 +27,9 @@ func (o *OperatorPartition) OwnsKey(key []byte) bool {
 }
 
 func (o *OperatorPartition) ExclusivelyOwnsTable(uri string, startKey []byte, endKey []byte) (bool, error) {
-	// If this partition owns the entire key range then there's no need to check
-	// other operators.
-	otherRange := partitioning.KeyGroupRangeFromBytes(startKey[:2], endKey[:2])
-	if o.keyGroupRange.Contains(otherRange) {
-		return true, nil
-	}
+	// Neighbors may need the table regardless of its key range. An operator is
+	// restored from all of a checkpoint's tables, including ones with none of its
+	// own keys, and keeps those in its own checkpoints.
 
 	// Setup context to race the NeedsTable calls.
 	ctx, cancel := context.WithCancel(context.Background())
@@ -46,7 +43,7 @@ func (o *OperatorPartition) ExclusivelyOwnsTable(uri string, startKey []byte, en
 	results := make(chan result, len(o.neighbors))
 	for _, neighbor := range o.neighbors {
 		go func() {
-			needsTable, err := neighbor.NeedsTable(ctx, uri, startKey, endKey)
+			needsTable, err := neighbor.NeedsTable(ctx, uri)
 			results <- result{needsTable, err}
 			if needsTable {
 				cancel() // Can cancel the other NeedsTable calls
@@ -73,24 +70,3 @@ func (o *OperatorPartition) ExclusivelyOwnsTable(uri string, startKey []byte, en
 }
 
 var _ kv.DataOwnership = &OperatorPartition{}
-
-type neighborPartition struct {
-	keyGroupRange partitioning.KeyGroupRange
-	operator      proto.Operator
-}
-
-func (o *neighborPartition) NeedsTable(ctx context.Context, filePath string, startKey []byte, endKey []byte) (bool, error) {
-	// Derive the key group range from the start and end keys of a table.
-	tableKeyGroupRange := partitioning.KeyGroupRange{
-		Start: int(partitioning.KeyGroupFromBytes(startKey[:2])),
-		End:   int(partitioning.KeyGroupFromBytes(endKey[:2])) + 1,
-	}
-
-	// If the neighboring operator's key group range doesn't intersect with the
-	// table's key range then we don't need to ask if it needs the table.
-	if !o.keyGroupRange.Overlaps(tableKeyGroupRange) {
-		return false, nil
-	}
-
-	return o.operator.NeedsTable(ctx, filePath)
-}
-- 
2.43.0


From ad2cc109012fa22c78a497234e5357e81f20041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 34/62] fix: deleting a local file that another operator
 already deleted isn't an error

---
 dkv/storage/local_filesystem.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dkv/storage/local_filesystem.go b/dkv/storage/local_filesystem.go
index a1a70ba..8d72a85 100644
--- a/dkv/storage/local_filesystem.go
+++ b/dkv/storage/local_filesystem.go
@@ -181,7 +181,7 @@ func (d *DiskFile) Delete() error {
 		panic("tried to delete a file being written")
 	}
 
-	return os.Remove(filepath.Join(d.dir, d.name))
+	return removeFile(filepath.Join(d.dir, d.name))
 }
 
 func (d *DiskFile) Size() int64 {
@@ -204,8 +204,17 @@ func (d *DiskFile) URI() string {
 func (d *DiskFile) CreateDeleteFunc() func() error {
 	uri := d.URI()
 	return func() error {
-		return os.Remove(uri)
+		return removeFile(uri)
 	}
 }
 
+// removeFile deletes a file which may already have been deleted, as is the case
+// for the other file systems.
+func removeFile(path string) error {
+	if err := os.Remove(path); err != nil && !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
+	return nil
+}
+
 var _ File = (*DiskFile)(nil)
-- 
2.43.0


From c6016bdde6edfbb80a807ac2b1554fd4e5f62944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 35/62] fix: operators restore a checkpoint only after source
 runners stopped sending earlier events

---
 jobs/assembly.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jobs/assembly.go b/jobs/assembly.go
index 9d2bcd6..529e506 100644
--- a/jobs/assembly.go
+++ b/jobs/assembly.go
@@ -78,12 +78,20 @@ func (a *Assembly) Deploy(cfg *config.Config, ckpt *snapshotpb.JobCheckpoint) er
 		})
 	}
 
+	// Source runners must have stopped sending events of a previous deployment
+	// before any operator restores the checkpoint. They don't send new events
+	// until splits are assigned.
+	if err := eg.Wait(); err != nil {
+		return err
+	}
+
 	// Create list of ranges from checkpoints
 	ckptRanges := make([]partitioning.KeyGroupRange, len(ckpt.GetOperatorCheckpoints()))
 	for i, opCkpt := range ckpt.GetOperatorCheckpoints() {
 		ckptRanges[i] = partitioning.KeyGroupRangeFromProto(opCkpt.KeyGroupRange)
 	}
 
+	eg, gctx = errgroup.WithContext(context.Background())
 	opCkptAssignments := partitioning.AssignRanges(cfg.KeySpace().KeyGroupRanges(), ckptRanges)
 	for i, op := range a.operators {
 		eg.Go(func() error {
-- 
2.43.0


From 9019d0bc97c2b5133fbe2916abe3bbbff63650a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 36/62] fix: dropped checkpoints don't keep their tables from
 being garbage collected

---
 dkv/recovery/checkpoint_list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dkv/recovery/checkpoint_list.go b/dkv/recovery/checkpoint_list.go
index 833e889..6fa4447 100644
--- a/dkv/recovery/checkpoint_list.go
+++ b/dkv/recovery/checkpoint_list.go
@@ -89,9 +89,9 @@ func (cl *CheckpointList) Save(fs storage.FileSystem) (string, error) {
 	}
 
 	// Clear the destroyed checkpoints, keeping any that were removed since the
-	// saved list was collected.
+	// saved list was collected. A new slice lets go of their tables.
 	cl.mu.Lock()
-	cl.checkpointsPendingRemoval = cl.checkpointsPendingRemoval[len(pendingRemoval):]
+	cl.checkpointsPendingRemoval = append([]*Checkpoint(nil), cl.checkpointsPendingRemoval[len(pendingRemoval):]...)
 	cl.mu.Unlock()
 
 	return file.URI(), nil
-- 
2.43.0


From 8a239b320158a9631891c5a513c0322fa02d0834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 37/62] fix: operators keep the tables of a previous deployment
 until all operators are deployed

---
 workers/operator/operator.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index bcd8547..5a1fa91 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -69,6 +69,9 @@ type deployment struct {
 	ctx    context.Context // Done when the operator is deployed again
 	cancel context.CancelFunc
 	srIDs  map[string]struct{} // Source runners which may send events
+
+	restoredID uint64 // The checkpoint the deployment was restored from
+	complete   bool   // Whether all operators are known to be deployed
 }
 
 // Events bound for the user's handler
@@ -268,6 +271,9 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	o.db = db
 	o.checkpoint = nil
 	o.deployment = newDeployment(req.SourceRunnerIds)
+	for _, h := range ckptHandles {
+		o.deployment.restoredID = h.CheckpointID // The same for all
+	}
 
 	if err := o.status.DidLoad(); err != nil {
 		return fmt.Errorf("invalid status transition: %w", err)
@@ -289,9 +295,12 @@ func (d *deployment) end() {
 }
 
 func (o *Operator) HandleRemoveCheckpoints(ctx context.Context, req *workerpb.UpdateRetainedCheckpointsRequest) error {
-	o.mu.RLock()
+	o.mu.Lock()
 	db := o.db
-	o.mu.RUnlock()
+	if o.deployment != nil && slices.ContainsFunc(req.CheckpointIds, func(id uint64) bool { return id > o.deployment.restoredID }) {
+		o.deployment.complete = true // All operators took part in the checkpoint
+	}
+	o.mu.Unlock()
 	if db == nil {
 		return connect.NewError(connect.CodeFailedPrecondition, fmt.Errorf("operator has no database (status: %s)", o.status))
 	}
@@ -302,8 +311,10 @@ func (o *Operator) HandleNeedsTable(fileURI string) bool {
 	o.mu.RLock()
 	defer o.mu.RUnlock()
 
-	// Until it's deployed this operator can't tell which tables it will need.
-	if !o.status.IsReady() {
+	// Until it's deployed this operator can't tell which tables it will need. And
+	// until the others are, they may be going to need tables that used to be its
+	// own, which operators of the previous deployment don't ask them for.
+	if !o.status.IsReady() || !o.deployment.complete {
 		return true
 	}
 	return o.db.NeedsTable(fileURI)
-- 
2.43.0


From 99ce243262a8a685231683cdf164633c07a7727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 38/62] fix: operators left over from a previous deployment
 don't delete tables others may need

---
 proto/workerpb/worker.proto     |  1 +
 rpc/operator_connect_client.go  |  5 ++++-
 rpc/operator_connect_handler.go |  2 +-
 workers/operator/operator.go    | 11 ++++++++++-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/proto/workerpb/worker.proto b/proto/workerpb/worker.proto
index 66c67d3..e436983 100644
--- a/proto/workerpb/worker.proto
+++ b/proto/workerpb/worker.proto
@@ -84,6 +84,7 @@ message UpdateRetainedCheckpointsRequest {
 
 message NeedsTableRequest {
   string table_uri = 1;
+  string sender_id = 2;
 }
 
 message NeedsTableResponse {
diff --git a/rpc/operator_connect_client.go b/rpc/operator_connect_client.go
index 2828aab..cdb20c4 100644
--- a/rpc/operator_connect_client.go
+++ b/rpc/operator_connect_client.go
@@ -70,7 +70,10 @@ func (c *OperatorConnectClient) UpdateRetainedCheckpoints(ctx context.Context, i
 }
 
 func (c *OperatorConnectClient) NeedsTable(ctx context.Context, fileURI string) (bool, error) {
-	result, err := c.connectClient.NeedsTable(ctx, connect.NewRequest(&workerpb.NeedsTableRequest{TableUri: fileURI}))
+	result, err := c.connectClient.NeedsTable(ctx, connect.NewRequest(&workerpb.NeedsTableRequest{
+		SenderId: c.senderID,
+		TableUri: fileURI,
+	}))
 	if err != nil {
 		return false, err
 	}
diff --git a/rpc/operator_connect_handler.go b/rpc/operator_connect_handler.go
index a9b673a..f362538 100644
--- a/rpc/operator_connect_handler.go
+++ b/rpc/operator_connect_handler.go
@@ -48,7 +48,7 @@ func (l *OperatorConnectHandler) UpdateRetainedCheckpoints(ctx context.Context,
 }
 
 func (l *OperatorConnectHandler) NeedsTable(ctx context.Context, req *connect.Request[workerpb.NeedsTableRequest]) (*connect.Response[workerpb.NeedsTableResponse], error) {
-	tableNeeded := l.operator.HandleNeedsTable(req.Msg.TableUri)
+	tableNeeded := l.operator.HandleNeedsTable(req.Msg.SenderId, req.Msg.TableUri)
 	return connect.NewResponse(&workerpb.NeedsTableResponse{TableNeeded: tableNeeded}), nil
 }
 
diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 5a1fa91..deb2880 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -69,6 +69,7 @@ type deployment struct {
 	ctx    context.Context // Done when the operator is deployed again
 	cancel context.CancelFunc
 	srIDs  map[string]struct{} // Source runners which may send events
+	opIDs  map[string]struct{} // Operators which may delete shared tables
 
 	restoredID uint64 // The checkpoint the deployment was restored from
 	complete   bool   // Whether all operators are known to be deployed
@@ -213,7 +214,9 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 
 	// Create clients for the neighbor operators
 	neighbors := make([]proto.Operator, 0, len(req.Operators)-1)
+	opIDs := make([]string, 0, len(req.Operators))
 	for i, op := range req.Operators {
+		opIDs = append(opIDs, op.Id)
 		if i == ownIndex {
 			continue
 		}
@@ -271,6 +274,7 @@ func (o *Operator) HandleDeploy(ctx context.Context, req *workerpb.DeployOperato
 	o.db = db
 	o.checkpoint = nil
 	o.deployment = newDeployment(req.SourceRunnerIds)
+	o.deployment.opIDs = sliceu.KeyMap(opIDs)
 	for _, h := range ckptHandles {
 		o.deployment.restoredID = h.CheckpointID // The same for all
 	}
@@ -307,7 +311,7 @@ func (o *Operator) HandleRemoveCheckpoints(ctx context.Context, req *workerpb.Up
 	return db.UpdateRetainedCheckpoints(req.CheckpointIds)
 }
 
-func (o *Operator) HandleNeedsTable(fileURI string) bool {
+func (o *Operator) HandleNeedsTable(senderID string, fileURI string) bool {
 	o.mu.RLock()
 	defer o.mu.RUnlock()
 
@@ -317,6 +321,11 @@ func (o *Operator) HandleNeedsTable(fileURI string) bool {
 	if !o.status.IsReady() || !o.deployment.complete {
 		return true
 	}
+	// An operator which isn't part of the deployment anymore doesn't know who to
+	// ask.
+	if _, ok := o.deployment.opIDs[senderID]; !ok {
+		return true
+	}
 	return o.db.NeedsTable(fileURI)
 }
 
-- 
2.43.0


From 4290e9b8c8e443a16506bcd5be8096e595cb5747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 39/62] fix: a repeated source runner acknowledgement doesn't
 repeat its split positions

---
 storage/snapshots/snapshot.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/storage/snapshots/snapshot.go b/storage/snapshots/snapshot.go
index eedb3fb..b1a4c0f 100644
--- a/storage/snapshots/snapshot.go
+++ b/storage/snapshots/snapshot.go
@@ -78,6 +78,7 @@ func (s *jobSnapshot) addSourceRunnerSnapshot(ckpt *jobpb.SourceRunnerCheckpoint
 	}
 	if wasCompleted {
 		slog.Warn("received another source runner checkpoint from same id", "id", ckpt.SourceRunnerId)
+		return nil
 	}
 
 	s.sourceRunnerIDsComplete[ckpt.SourceRunnerId] = true
-- 
2.43.0


From 862dcc8279c560a75ae4b2fd379c7aa79a53c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 40/62] fix: jobs restart from the checkpoint with the highest
 id and don't reuse ids after starting from a savepoint

---
 storage/snapshots/savepoint_artifact.go | 29 ++++++++++++++++--
 storage/snapshots/store.go              | 40 ++++++++++++++-----------
 2 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/storage/snapshots/savepoint_artifact.go b/storage/snapshots/savepoint_artifact.go
index c8fc41c..e03c8fe 100644
--- a/storage/snapshots/savepoint_artifact.go
+++ b/storage/snapshots/savepoint_artifact.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"path"
 	"path/filepath"
+	"strings"
 
 	"reduction.dev/reduction/dkv/recovery"
 	"reduction.dev/reduction/proto/snapshotpb"
@@ -104,8 +105,32 @@ func parseDKVURI(uri string) (opID, base string, err error) {
 	return opPrefix, baseFileName, nil
 }
 
-// Create a URL safe encoding to create a path segment. Lexicographic order will
-// be descending such that later checkpoints will appear first in a file list.
+// The name of a job snapshot file.
+func snapshotFileName(id uint64) string {
+	return "job-" + pathSegment(id) + ".snapshot"
+}
+
+// Get the checkpoint ID from the name of a job snapshot file. Returns false if
+// the name isn't one of a snapshot file.
+func parseSnapshotFileName(name string) (uint64, bool) {
+	segment, ok := strings.CutPrefix(name, "job-")
+	if !ok {
+		return 0, false
+	}
+	segment, ok = strings.CutSuffix(segment, ".snapshot")
+	if !ok {
+		return 0, false
+	}
+	buf, err := base64.RawURLEncoding.DecodeString(segment)
+	if err != nil || len(buf) != 8 {
+		return 0, false
+	}
+	return math.MaxUint64 - binary.BigEndian.Uint64(buf), true
+}
+
+// Create a URL safe encoding to create a path segment. The lexicographic order of
+// segments isn't the order of IDs because the encoding's alphabet isn't in
+// lexicographic order.
 func pathSegment(id uint64) string {
 	reversed := math.MaxUint64 - id
 	buf := make([]byte, 8)
diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 8759f1c..635a9d0 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
+	"path"
 	"path/filepath"
 	"sync"
 
@@ -193,7 +194,7 @@ func (s *Store) finishSnapshotAsync(snap *jobSnapshot) (uri string, err error) {
 	}
 
 	uri, err = s.fileStore.Write(
-		filepath.Join(s.checkpointsPath, "job-"+pathSegment(snap.id)+".snapshot"),
+		filepath.Join(s.checkpointsPath, snapshotFileName(snap.id)),
 		bytes.NewBuffer(data))
 	if err != nil {
 		return "", fmt.Errorf("failed creating job snapshot: %v", err)
@@ -213,7 +214,7 @@ func (s *Store) finishSnapshotAsync(snap *jobSnapshot) (uri string, err error) {
 		go func() {
 			paths := make([]string, 0, len(obsoleteIDs))
 			for _, id := range obsoleteIDs {
-				paths = append(paths, filepath.Join(s.checkpointsPath, "job-"+pathSegment(id)+".snapshot"))
+				paths = append(paths, filepath.Join(s.checkpointsPath, snapshotFileName(id)))
 			}
 			if err := s.fileStore.Remove(paths...); err != nil {
 				s.log.Error("failed to remove obsolete checkpoint files", "paths", paths, "err", err)
@@ -260,6 +261,21 @@ func (s *Store) CurrentCheckpoint() *snapshotpb.JobCheckpoint {
 func (s *Store) LoadCheckpoint() error {
 	var loadedCheckpoint *snapshotpb.JobCheckpoint
 
+	// Find the snapshot file with the highest checkpoint ID. There can be several
+	// if the job stopped before it removed the obsolete ones.
+	var latestCheckpointFile string
+	var latestCheckpointID uint64
+	for filePath, err := range s.fileStore.List() {
+		if err != nil {
+			return err
+		}
+		id, ok := parseSnapshotFileName(path.Base(filePath))
+		if ok && (latestCheckpointFile == "" || id > latestCheckpointID) {
+			latestCheckpointFile = filePath
+			latestCheckpointID = id
+		}
+	}
+
 	// For now let savepoint always override using local checkpoints. Later will
 	// want to be able to start the job with an out-of-date savepoint to make
 	// configuring a starting savepoint possible. This means that the checkpoints
@@ -278,20 +294,7 @@ func (s *Store) LoadCheckpoint() error {
 			return fmt.Errorf("restore checkpoints from savepoint: %v", err)
 		}
 	} else {
-		// For a new job, check the file store for first (latest) snapshot file.
-		// Checkpoint IDs are encoded so that files will be in reverse chronological
-		// order.
-		var latestCheckpointFile string
-		for filePath, err := range s.fileStore.List() {
-			if err != nil {
-				return err
-			}
-			if filepath.Ext(filePath) == ".snapshot" {
-				latestCheckpointFile = filePath
-				break
-			}
-		}
-
+		// For a new job, use the latest snapshot file in the file store.
 		if latestCheckpointFile == "" {
 			return nil // No checkpoint to load
 		}
@@ -303,8 +306,9 @@ func (s *Store) LoadCheckpoint() error {
 		loadedCheckpoint = snap
 	}
 
-	// Set the initial checkpoint ID counter
-	s.state.checkpointID = loadedCheckpoint.Id
+	// Set the initial checkpoint ID counter. A savepoint may be older than the
+	// checkpoints in storage.
+	s.state.checkpointID = max(loadedCheckpoint.Id, latestCheckpointID)
 
 	// Create a job snapshot from the loaded checkpoint
 	if len(loadedCheckpoint.SourceCheckpoints) != 1 {
-- 
2.43.0


From b4f8ca3ff82eb8c3284286fed6eb1013af3d5f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 41/62] fix: snapshots are published and announced one after
 another in the order of their ids

---
 storage/snapshots/store.go | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 635a9d0..c017001 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -31,6 +31,9 @@ type Store struct {
 	state                      storeState
 	stateMu                    sync.Mutex
 	sourceSplitters            []connectors.SourceSplitter
+	publication                chan struct{} // Closed when the last started publication is done, protected by stateMu
+	nextRetained               []uint64      // The latest retained checkpoints that aren't sent yet, protected by stateMu
+	sendingRetained            bool          // Whether a goroutine is sending retained checkpoints, protected by stateMu
 }
 
 type storeState struct {
@@ -175,8 +178,18 @@ func (s *Store) finishSnapshot(snap *jobSnapshot) {
 	}
 	snap.splitterState = s.sourceSplitters[0].Checkpoint()
 
+	// Snapshots are published one after another in the order of their IDs, so that
+	// a publication delayed by storage doesn't make a newer snapshot obsolete.
+	previous := s.publication
+	done := make(chan struct{})
+	s.publication = done
+
 	go func() {
+		if previous != nil {
+			<-previous
+		}
 		uri, err := s.finishSnapshotAsync(snap)
+		close(done)
 		if err != nil {
 			s.errChan <- err
 			return
@@ -223,9 +236,11 @@ func (s *Store) finishSnapshotAsync(snap *jobSnapshot) (uri string, err error) {
 
 		// Notify subscribers of new list of checkpoints to retain (just the completed one)
 		if s.retainedCheckpointsUpdated != nil {
-			go func() {
-				s.retainedCheckpointsUpdated <- []uint64{snap.id}
-			}()
+			s.nextRetained = []uint64{snap.id}
+			if !s.sendingRetained {
+				s.sendingRetained = true
+				go s.sendRetained()
+			}
 		}
 	}
 
@@ -245,6 +260,23 @@ func (s *Store) finishSnapshotAsync(snap *jobSnapshot) (uri string, err error) {
 	return uri, nil
 }
 
+// sendRetained sends the latest list of retained checkpoints, in order, until
+// there is none to send.
+func (s *Store) sendRetained() {
+	for {
+		s.stateMu.Lock()
+		retained := s.nextRetained
+		s.nextRetained = nil
+		s.sendingRetained = retained != nil
+		s.stateMu.Unlock()
+
+		if retained == nil {
+			return
+		}
+		s.retainedCheckpointsUpdated <- retained
+	}
+}
+
 // CurrentCheckpoint returns the latest checkpoint from memory.
 func (s *Store) CurrentCheckpoint() *snapshotpb.JobCheckpoint {
 	s.stateMu.Lock()
-- 
2.43.0


From df7519d88df159534aac602874fb0ea7b1a84a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 42/62] fix: kinesis splitter doesn't block the job when splits
 finish in quick succession

---
 connectors/kinesis/source_splitter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/connectors/kinesis/source_splitter.go b/connectors/kinesis/source_splitter.go
index 24d63f5..298d65d 100644
--- a/connectors/kinesis/source_splitter.go
+++ b/connectors/kinesis/source_splitter.go
@@ -135,7 +135,10 @@ func (s *SourceSplitter) IsSourceSplitter() {}
 
 func (s *SourceSplitter) NotifySplitsFinished(sourceRunnerID string, splitIDs []string) {
 	s.splitTracker.RemoveSplits(splitIDs)
-	s.splitsDidFinish <- struct{}{}
+	select {
+	case s.splitsDidFinish <- struct{}{}:
+	default: // Already signaled
+	}
 }
 
 func (s *SourceSplitter) Close() error {
-- 
2.43.0


From 466c6822b4c48702b03bdffc890a3e91e822a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 43/62] fix: a job's checkpoints and splitter don't outlive its
 assembly

---
 jobs/assembly.go           |  26 +++++++
 jobs/job.go                | 151 ++++++++++++++++++++++++++++---------
 storage/snapshots/store.go |  26 ++++++-
 3 files changed, 167 insertions(+), 36 deletions(-)

diff --git a/jobs/assembly.go b/jobs/assembly.go
index 529e506..6d5c5fe 100644
--- a/jobs/assembly.go
+++ b/jobs/assembly.go
@@ -3,6 +3,7 @@ package jobs
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	"golang.org/x/sync/errgroup"
 	"reduction.dev/reduction-protocol/jobconfigpb"
@@ -19,18 +20,34 @@ import (
 type Assembly struct {
 	sourceRunners []proto.SourceRunner
 	operators     []proto.Operator
+
+	ctx           context.Context // Done when the assembly is retired
+	cancel        context.CancelFunc
+	checkpointing sync.RWMutex // Read locked while starting a checkpoint
 }
 
 func NewAssembly(
 	operators []proto.Operator,
 	sourceRunners []proto.SourceRunner,
 ) *Assembly {
+	ctx, cancel := context.WithCancel(context.Background())
 	return &Assembly{
 		sourceRunners: sourceRunners,
 		operators:     operators,
+		ctx:           ctx,
+		cancel:        cancel,
 	}
 }
 
+// Retire ends the use of the assembly. When it returns, none of its source runners
+// is being told to start a checkpoint, which a later assembly with some of the same
+// source runners wouldn't know about.
+func (a *Assembly) Retire() {
+	a.cancel()
+	a.checkpointing.Lock()
+	defer a.checkpointing.Unlock()
+}
+
 // Healthy checks whether all nodes in the assembly are still active
 // Returns true if healthy, or false with a reason if unhealthy
 func (a *Assembly) Healthy(registry NodeRegistry) (bool, string) {
@@ -122,6 +139,15 @@ func (a *Assembly) AssignSplits(splits map[string][]*workerpb.SourceSplit) error
 }
 
 func (a *Assembly) StartCheckpoint(ctx context.Context, id uint64) error {
+	a.checkpointing.RLock()
+	defer a.checkpointing.RUnlock()
+	if err := a.ctx.Err(); err != nil {
+		return fmt.Errorf("assembly is retired: %w", err)
+	}
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+	defer context.AfterFunc(a.ctx, cancel)()
+
 	g, gctx := errgroup.WithContext(ctx)
 	for _, sr := range a.sourceRunners {
 		g.Go(func() error {
diff --git a/jobs/job.go b/jobs/job.go
index d779939..299185b 100644
--- a/jobs/job.go
+++ b/jobs/job.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"os"
+	"sync"
 	"time"
 
 	"connectrpc.com/connect"
@@ -34,8 +35,11 @@ type Job struct {
 	sourceRunnerFactory proto.SourceRunnerFactory
 	status              *jobStatus
 	errChan             chan error
+	runMu               sync.Mutex // Held while changing the status, assembly, source splitter, or ticker, and while creating a checkpoint for them
 }
 
+var errAssemblyNotRunning = errors.New("job isn't running with the assembly")
+
 type NewParams struct {
 	JobConfig           *config.Config
 	SavepointURI        string
@@ -124,7 +128,7 @@ func New(params *NewParams) (*Job, error) {
 
 	go func() {
 		for retained := range retainedCheckpointsUpdatedChan {
-			job.assembly.UpdateRetainedCheckpoints(ctx, retained)
+			job.currentAssembly().UpdateRetainedCheckpoints(ctx, retained)
 		}
 	}()
 
@@ -170,19 +174,15 @@ func (j *Job) HandleDeregisterSourceRunner(sr *jobpb.NodeIdentity) {
 }
 
 func (j *Job) HandleCreateSavepoint(ctx context.Context) (uint64, error) {
-	if j.status.Value() != StatusRunning {
-		return 0, fmt.Errorf("cannot create savepoint: job not running (status: %s)", j.status)
-	}
-
 	// Create a pending savepoint in the snapshot store to track savepointing.
-	checkpointID, created, err := j.snapshotStore.CreateSavepoint(j.assembly.OperatorIDs(), j.assembly.SourceRunnerIDs())
+	assembly, checkpointID, created, err := j.createSavepoint()
 	if err != nil {
-		return 0, fmt.Errorf("failed creating savepoint: %v", err)
+		return 0, err
 	}
 
 	// Only start the checkpoint if it's new. Otherwise the checkpoint was already in-flight.
 	if created {
-		if err := j.assembly.StartCheckpoint(ctx, checkpointID); err != nil {
+		if err := assembly.StartCheckpoint(ctx, checkpointID); err != nil {
 			return 0, fmt.Errorf("failed starting snapshot: %w", err)
 		}
 	}
@@ -190,32 +190,95 @@ func (j *Job) HandleCreateSavepoint(ctx context.Context) (uint64, error) {
 	return checkpointID, nil
 }
 
+func (j *Job) createSavepoint() (assembly *Assembly, id uint64, created bool, err error) {
+	j.runMu.Lock()
+	defer j.runMu.Unlock()
+
+	if j.status.Value() != StatusRunning {
+		return nil, 0, false, fmt.Errorf("cannot create savepoint: job not running (status: %s)", j.status)
+	}
+	id, created, err = j.snapshotStore.CreateSavepoint(j.assembly.OperatorIDs(), j.assembly.SourceRunnerIDs())
+	if err != nil {
+		return nil, 0, false, fmt.Errorf("failed creating savepoint: %v", err)
+	}
+	return j.assembly, id, created, nil
+}
+
+// createCheckpoint creates a pending checkpoint unless the job isn't running with
+// the assembly anymore.
+func (j *Job) createCheckpoint(assembly *Assembly) (uint64, error) {
+	j.runMu.Lock()
+	defer j.runMu.Unlock()
+
+	if j.status.Value() != StatusRunning || j.assembly != assembly {
+		return 0, errAssemblyNotRunning
+	}
+	return j.snapshotStore.CreateCheckpoint(assembly.OperatorIDs(), assembly.SourceRunnerIDs())
+}
+
+func (j *Job) currentAssembly() *Assembly {
+	j.runMu.Lock()
+	defer j.runMu.Unlock()
+	return j.assembly
+}
+
 func (j *Job) HandleGetSavepointURI(ctx context.Context, savepointID uint64) (string, error) {
 	return j.snapshotStore.SavepointURIForID(savepointID)
 }
 
 func (j *Job) HandleOperatorCheckpointComplete(ctx context.Context, req *snapshotpb.OperatorCheckpoint) error {
-	return j.snapshotStore.AddOperatorSnapshot(req)
+	if err := j.snapshotStore.AddOperatorSnapshot(req); err != nil {
+		// Not the operator's fault, the checkpoint was abandoned.
+		j.log.Warn("ignoring operator checkpoint", "err", err)
+	}
+	return nil
 }
 
 func (j *Job) HandleSourceRunnerCheckpointComplete(ctx context.Context, req *jobpb.SourceRunnerCheckpointCompleteRequest) error {
-	return j.snapshotStore.AddSourceSnapshot(req)
+	if err := j.snapshotStore.AddSourceSnapshot(req); err != nil {
+		// Not the source runner's fault, the checkpoint was abandoned.
+		j.log.Warn("ignoring source runner checkpoint", "err", err)
+	}
+	return nil
 }
 
 func (j *Job) HandleNotifySplitsFinished(sourceRunnerID string, splitIDs []string) error {
-	if j.sourceSplitter == nil {
+	j.runMu.Lock()
+	splitter := j.sourceSplitter
+	j.runMu.Unlock()
+	if splitter == nil {
 		return connect.NewError(connect.CodeNotFound, fmt.Errorf("sourceSplitter not initialized"))
 	}
 	j.taskQueue <- func() error {
-		j.sourceSplitter.NotifySplitsFinished(sourceRunnerID, splitIDs)
+		splitter.NotifySplitsFinished(sourceRunnerID, splitIDs)
 		return nil
 	}
 	return nil
 }
 
 func (j *Job) Close() {
-	j.checkpointTicker.Stop()
-	j.sourceSplitter.Close()
+	j.runMu.Lock()
+	defer j.runMu.Unlock()
+	if j.checkpointTicker != nil {
+		j.checkpointTicker.Stop()
+	}
+	if j.sourceSplitter != nil {
+		j.sourceSplitter.Close()
+	}
+}
+
+// pause stops using the assembly, which ends what is in progress with it.
+func (j *Job) pause() {
+	j.runMu.Lock()
+	defer j.runMu.Unlock()
+	j.status.Set(StatusPaused)
+	if j.checkpointTicker != nil {
+		j.checkpointTicker.Stop()
+	}
+	if j.sourceSplitter != nil {
+		j.sourceSplitter.Close()
+	}
+	j.snapshotStore.AbandonPending()
 }
 
 // Process the next available task.
@@ -251,10 +314,7 @@ func (j *Job) evaluateClusterStatus() {
 	case StatusRunning:
 		if ok, reason := j.assembly.Healthy(j.registry); !ok {
 			j.log.Info("assembly not healthy", "reason", reason)
-			j.status.Set(StatusPaused)
-			if j.checkpointTicker != nil {
-				j.checkpointTicker.Stop()
-			}
+			j.pause()
 		}
 
 	case StatusInit, StatusPaused:
@@ -269,18 +329,21 @@ func (j *Job) evaluateClusterStatus() {
 			break
 		}
 
+		j.runMu.Lock()
+		previous := j.assembly
 		j.status.Set(StatusAssemblyStarting)
 		j.assembly = assembly
+		j.runMu.Unlock()
 
 		go func() {
-			err := j.start()
+			if previous != nil {
+				previous.Retire()
+			}
+			err := j.start(assembly)
 			if err != nil {
 				j.taskQueue <- func() error {
 					j.log.Error("failed to start job", "err", err)
-					j.status.Set(StatusPaused)
-					if j.checkpointTicker != nil {
-						j.checkpointTicker.Stop()
-					}
+					j.pause()
 					j.evaluateClusterStatus()
 					return nil
 				}
@@ -290,25 +353,34 @@ func (j *Job) evaluateClusterStatus() {
 }
 
 // Transition the job to the running state.
-func (j *Job) start() error {
+func (j *Job) start(assembly *Assembly) error {
 	j.log.Info("starting")
 
+	// Nodes may have completed a checkpoint that isn't published yet
+	j.snapshotStore.AwaitPublication()
+
 	// Get the job's current checkpoint which may be nil
 	ckpt := j.snapshotStore.CurrentCheckpoint()
 
 	// Create the source splitter
-	j.sourceSplitter = j.config.Sources[0].NewSourceSplitter(j.assembly.SourceRunnerIDs(), connectors.SourceSplitterHooks{
+	splitter := j.config.Sources[0].NewSourceSplitter(assembly.SourceRunnerIDs(), connectors.SourceSplitterHooks{
 		AssignSplits: func(assignments map[string][]*workerpb.SourceSplit) {
 			j.taskQueue <- func() error {
-				j.assembly.AssignSplits(assignments)
-				return nil
+				// Splits of a previous assembly are assigned by a new splitter
+				if j.currentAssembly() != assembly {
+					return nil
+				}
+				return assembly.AssignSplits(assignments)
 			}
 		},
 	}, j.errChan)
-	j.snapshotStore.RegisterSourceSplitter(j.sourceSplitter)
+	j.runMu.Lock()
+	j.sourceSplitter = splitter
+	j.runMu.Unlock()
+	j.snapshotStore.RegisterSourceSplitter(splitter)
 
 	// Start the assembly
-	if err := j.assembly.Deploy(j.config, ckpt); err != nil {
+	if err := assembly.Deploy(j.config, ckpt); err != nil {
 		return fmt.Errorf("starting assembly: %v", err)
 	}
 
@@ -319,22 +391,31 @@ func (j *Job) start() error {
 	}
 
 	// Start the source splitter with a checkpoint if available and allow it to run background work.
-	j.sourceSplitter.Start(sourceCkpt)
+	if err := splitter.Start(sourceCkpt); err != nil {
+		return fmt.Errorf("starting source splitter: %v", err)
+	}
 
 	j.taskQueue <- func() error {
 		j.log.Info("running")
-		j.status.Set(StatusRunning)
-
-		j.checkpointTicker = j.clock.Every(1*time.Minute, func(tc *clocks.EveryContext) {
-			cpID, err := j.snapshotStore.CreateCheckpoint(j.assembly.OperatorIDs(), j.assembly.SourceRunnerIDs())
+		ticker := j.clock.Every(1*time.Minute, func(tc *clocks.EveryContext) {
+			cpID, err := j.createCheckpoint(assembly)
 			if errors.Is(err, snapshots.ErrCheckpointInProgress) {
 				tc.RetryIn(1 * time.Second)
 				return
 			}
-			if err := j.assembly.StartCheckpoint(context.Background(), cpID); err != nil {
+			if err != nil {
+				j.log.Warn("failed to create checkpoint", "err", err)
+				return
+			}
+			if err := assembly.StartCheckpoint(context.Background(), cpID); err != nil {
 				j.log.Error("failed to start checkpoint", "err", err)
 			}
 		}, "checkpointing")
+
+		j.runMu.Lock()
+		j.checkpointTicker = ticker
+		j.status.Set(StatusRunning)
+		j.runMu.Unlock()
 		j.evaluateClusterStatus()
 		return nil
 	}
diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index c017001..c19161a 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -165,10 +165,34 @@ func (s *Store) AddSourceSnapshot(ckpt *jobpb.SourceRunnerCheckpointCompleteRequ
 	return nil
 }
 
+// RegisterSourceSplitter sets the source splitter whose state is included in
+// snapshots. The splitter of a previous deployment is replaced.
 func (s *Store) RegisterSourceSplitter(splitter connectors.SourceSplitter) {
 	s.stateMu.Lock()
 	defer s.stateMu.Unlock()
-	s.sourceSplitters = append(s.sourceSplitters, splitter)
+	s.sourceSplitters = []connectors.SourceSplitter{splitter}
+}
+
+// AbandonPending drops a pending snapshot because the nodes that it waits for
+// may never respond.
+func (s *Store) AbandonPending() {
+	s.stateMu.Lock()
+	defer s.stateMu.Unlock()
+	if s.state.pendingSnapshot != nil {
+		s.log.Info("abandoning pending snapshot", "id", s.state.pendingSnapshot.id)
+		s.state.pendingSnapshot = nil
+	}
+}
+
+// AwaitPublication waits until all snapshots that nodes completed are published,
+// or failed to be, so that CurrentCheckpoint includes them.
+func (s *Store) AwaitPublication() {
+	s.stateMu.Lock()
+	publication := s.publication
+	s.stateMu.Unlock()
+	if publication != nil {
+		<-publication
+	}
 }
 
 func (s *Store) finishSnapshot(snap *jobSnapshot) {
-- 
2.43.0


From 7c8b3fe921f0c8714520c4d879fd7cbaf8c39564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 44/62] fix: source runners' checkpoints include splits that
 were just assigned

---
 workers/sourcerunner/source_runner.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/workers/sourcerunner/source_runner.go b/workers/sourcerunner/source_runner.go
index 1838457..038c061 100644
--- a/workers/sourcerunner/source_runner.go
+++ b/workers/sourcerunner/source_runner.go
@@ -297,15 +297,21 @@ func (r *deployment) processEvents(ctx context.Context) error {
 			r.Logger.Info("stopping source runner loop", "cause", context.Cause(ctx))
 			return nil
 		case splits := <-r.splitsWereAssigned:
-			if err := r.sourceReader.AssignSplits(splits); err != nil {
+			if err := r.assignSplits(splits); err != nil {
 				return err
 			}
-			if len(splits) > 0 {
-				r.sourceChannel.Start(r.ctx)
-			}
 		case <-r.watermarkTicker.C:
 			r.putOutput(&workerpb.Event{Event: &workerpb.Event_Watermark{Watermark: &workerpb.Watermark{}}})
 		case barrier := <-r.checkpointBarrier:
+			// Include the positions of splits that were assigned before the
+			// checkpoint started.
+			select {
+			case splits := <-r.splitsWereAssigned:
+				if err := r.assignSplits(splits); err != nil {
+					return err
+				}
+			default:
+			}
 			if err := r.createCheckpoint(barrier.CheckpointId); err != nil {
 				return fmt.Errorf("creating checkpoint: %w", err)
 			}
@@ -343,6 +349,16 @@ func (r *deployment) processEvents(ctx context.Context) error {
 	}
 }
 
+func (r *deployment) assignSplits(splits []*workerpb.SourceSplit) error {
+	if err := r.sourceReader.AssignSplits(splits); err != nil {
+		return err
+	}
+	if len(splits) > 0 {
+		r.sourceChannel.Start(r.ctx)
+	}
+	return nil
+}
+
 func (r *SourceRunner) HandleStartCheckpoint(ctx context.Context, id uint64) {
 	r.deployMu.Lock()
 	d := r.current
-- 
2.43.0


From b05b980e21b0acb2bec92443c1bd742ee2cdba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 45/62] fix: listing an S3 location returns all objects, not
 just the first page

---
 storage/locations/s3_location.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/storage/locations/s3_location.go b/storage/locations/s3_location.go
index 020755b..8fcc592 100644
--- a/storage/locations/s3_location.go
+++ b/storage/locations/s3_location.go
@@ -102,23 +102,31 @@ func (l *S3Location) Copy(sourceURI string, destination string) error {
 	return nil
 }
 
-// List returns the result of a ListObjectsV2 call to S3. It doesn't paginate
-// so it returns up to 1,000 objects.
+// List returns the results of paginated ListObjectsV2 calls to S3.
 func (l *S3Location) List() iter.Seq2[string, error] {
 	return func(yield func(string, error) bool) {
-		result, err := l.s3.ListObjectsV2(context.TODO(), &s3.ListObjectsV2Input{
-			Bucket: &l.bucket,
-			Prefix: &l.prefix,
-		})
-		if err != nil {
-			yield("", err)
-			return
-		}
+		var continuationToken *string
+		for {
+			result, err := l.s3.ListObjectsV2(context.TODO(), &s3.ListObjectsV2Input{
+				Bucket:            &l.bucket,
+				Prefix:            &l.prefix,
+				ContinuationToken: continuationToken,
+			})
+			if err != nil {
+				yield("", err)
+				return
+			}
+
+			for _, obj := range result.Contents {
+				if !yield(s3URI(l.bucket, *obj.Key), nil) {
+					return
+				}
+			}
 
-		for _, obj := range result.Contents {
-			if !yield(s3URI(l.bucket, *obj.Key), nil) {
+			if result.NextContinuationToken == nil {
 				return
 			}
+			continuationToken = result.NextContinuationToken
 		}
 	}
 }
-- 
2.43.0


From b665d87f296da1fc44167885e9e6833ec9dbd846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 46/62] fix: files of local directories appear only when
 they're complete

---
 storage/locations/local_directory.go | 45 +++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/storage/locations/local_directory.go b/storage/locations/local_directory.go
index 83f95ad..6aa8180 100644
--- a/storage/locations/local_directory.go
+++ b/storage/locations/local_directory.go
@@ -9,6 +9,8 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
+
+	"github.com/segmentio/ksuid"
 )
 
 type LocalDirectory struct {
@@ -32,27 +34,41 @@ func (d *LocalDirectory) Write(fname string, reader io.Reader) (string, error) {
 		return "", fmt.Errorf("Directory.Write error creating directory %s: %w", d.Path, err)
 	}
 
-	targetFile, err := os.Create(fullPath)
+	// Write to a temporary file first so that an incomplete file never appears
+	// at the destination.
+	tmpPath := tmpPathFor(fullPath)
+	tmpFile, err := os.Create(tmpPath)
 	if err != nil {
-		return "", fmt.Errorf("Directory.Write creating file %s: %w", fullPath, err)
+		return "", fmt.Errorf("Directory.Write creating file %s: %w", tmpPath, err)
 	}
 
-	_, err = io.Copy(targetFile, reader)
-	if err != nil {
-		return "", err
+	_, err = io.Copy(tmpFile, reader)
+	if err == nil {
+		err = tmpFile.Sync()
+	}
+	if closeErr := tmpFile.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmpPath, fullPath)
 	}
-	err = targetFile.Close()
 	if err != nil {
+		os.Remove(tmpPath)
 		return "", err
 	}
 
 	for _, s := range d.subscriptions {
 		s <- FileEvent{
-			Path: targetFile.Name(),
+			Path: fullPath,
 			Op:   OpCreate,
 		}
 	}
-	return targetFile.Name(), nil
+	return fullPath, nil
+}
+
+// tmpPathFor returns a unique path to write a file to before it's renamed.
+func tmpPathFor(path string) string {
+	return path + "." + ksuid.New().String() + ".tmp"
 }
 
 // Read accepts both relative and absolute paths or URIs.
@@ -93,7 +109,7 @@ func (d *LocalDirectory) Remove(paths ...string) error {
 			if errors.As(err, &pathErr) {
 				// Ignore path errors to match how S3 doesn't error if a file
 				// doesn't exist.
-				return nil
+				continue
 			}
 			return fmt.Errorf("removing file %s: %w", fullPath, err)
 		}
@@ -169,11 +185,18 @@ func (d *LocalDirectory) Copy(sourceURI string, destination string) error {
 		panic(err)
 	}
 
-	// Then do a copy
-	cmd := exec.Command("cp", sourceURI, destinationPath)
+	// Then do a copy, to a temporary file first so that an incomplete file never
+	// appears at the destination.
+	tmpPath := tmpPathFor(destinationPath)
+	cmd := exec.Command("cp", sourceURI, tmpPath)
 	if out, err := cmd.CombinedOutput(); err != nil {
+		os.Remove(tmpPath)
 		return fmt.Errorf("cp command %s: %w", out, err)
 	}
+	if err := os.Rename(tmpPath, destinationPath); err != nil {
+		os.Remove(tmpPath)
+		return err
+	}
 	return nil
 }
 
-- 
2.43.0


From f932546a24048e055f5daad1e9dda6de7f236bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 47/62] fix: savepoints contain the files of their own
 checkpoint, not of the latest one listed

---
 dkv/recovery/list_files.go              | 40 +++++++++++++++++++++----
 storage/snapshots/savepoint_artifact.go |  4 +--
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/dkv/recovery/list_files.go b/dkv/recovery/list_files.go
index e07b3f9..a53dbdb 100644
--- a/dkv/recovery/list_files.go
+++ b/dkv/recovery/list_files.go
@@ -2,24 +2,54 @@ package recovery
 
 import (
 	"encoding/json"
+	"errors"
+	"fmt"
 	"io"
 )
 
+// ListFiles returns the files referenced by the latest checkpoint in a
+// checkpoints file.
 func ListFiles(reader io.Reader) ([]string, error) {
+	listDoc, err := readCheckpointList(reader)
+	if err != nil {
+		return nil, err
+	}
+	if len(listDoc.Checkpoints) == 0 {
+		return nil, errors.New("checkpoints file has no checkpoints")
+	}
+	return listCheckpointFiles(listDoc.Checkpoints[len(listDoc.Checkpoints)-1])
+}
+
+// ListFilesForID returns the files referenced by the given checkpoint in a
+// checkpoints file. There may be newer checkpoints in progress.
+func ListFilesForID(reader io.Reader, id uint64) ([]string, error) {
+	listDoc, err := readCheckpointList(reader)
+	if err != nil {
+		return nil, err
+	}
+	for _, ckpt := range listDoc.Checkpoints {
+		if ckpt.ID == id {
+			return listCheckpointFiles(ckpt)
+		}
+	}
+	return nil, fmt.Errorf("checkpoints file doesn't include checkpoint %d", id)
+}
+
+func readCheckpointList(reader io.Reader) (*checkpointListDocument, error) {
 	// Decode reader data into checkpoint list JSON document
 	data, err := io.ReadAll(reader)
 	if err != nil {
 		return nil, err
 	}
 
-	listDoc := checkpointListDocument{}
-	if err := json.Unmarshal(data, &listDoc); err != nil {
+	listDoc := &checkpointListDocument{}
+	if err := json.Unmarshal(data, listDoc); err != nil {
 		return nil, err
 	}
+	return listDoc, nil
+}
 
-	// Always use the latest checkpoint
-	ckpt := listDoc.Checkpoints[len(listDoc.Checkpoints)-1]
-
+func listCheckpointFiles(ckpt checkpointDocument) ([]string, error) {
 	fileNames := []string{}
 
 	// Add WAL file names to output
diff --git a/storage/snapshots/savepoint_artifact.go b/storage/snapshots/savepoint_artifact.go
index e03c8fe..7ebdf04 100644
--- a/storage/snapshots/savepoint_artifact.go
+++ b/storage/snapshots/savepoint_artifact.go
@@ -26,7 +26,7 @@ func CreateSavepointArtifact(fs locations.StorageLocation, savepointsPath string
 		}
 
 		// Get a list of URIs that the checkpoint references.
-		files, err := recovery.ListFiles(bytes.NewBuffer(checkpointsData))
+		files, err := recovery.ListFilesForID(bytes.NewBuffer(checkpointsData), opCkpt.CheckpointId)
 		if err != nil {
 			return "", err
 		}
@@ -73,7 +73,7 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 		}
 
 		// Get a list of referenced files to copy into place
-		files, err := recovery.ListFiles(bytes.NewBuffer(cpData))
+		files, err := recovery.ListFilesForID(bytes.NewBuffer(cpData), opCkpt.CheckpointId)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 1d5f345ae7f91326469cb953dcfc3d5c8e28b4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 48/62] fix: savepoints in S3 can be restored

---
 storage/snapshots/savepoint_artifact.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/storage/snapshots/savepoint_artifact.go b/storage/snapshots/savepoint_artifact.go
index 7ebdf04..b437f94 100644
--- a/storage/snapshots/savepoint_artifact.go
+++ b/storage/snapshots/savepoint_artifact.go
@@ -57,7 +57,8 @@ func CreateSavepointArtifact(fs locations.StorageLocation, savepointsPath string
 
 // Copy files from a savepoint into place to be read as checkpoints.
 func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepointURI string, jobCheckpoint *snapshotpb.JobCheckpoint) error {
-	spDir := filepath.Dir(savepointURI)
+	// Keep the scheme of URIs, which cleaning them as paths would break
+	spDir := strings.TrimSuffix(savepointURI, path.Base(savepointURI))
 
 	for _, opCkpt := range jobCheckpoint.GetOperatorCheckpoints() {
 		opID, baseFileName, err := parseDKVURI(opCkpt.DkvFileUri)
@@ -66,7 +67,7 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 		}
 
 		// Read the checkpoints data
-		checkpointsPath := filepath.Join(spDir, "dkv", opID, baseFileName)
+		checkpointsPath := spDir + filepath.Join("dkv", opID, baseFileName)
 		cpData, err := fs.Read(checkpointsPath)
 		if err != nil {
 			return fmt.Errorf("reading checkpoints file (%s): %v", checkpointsPath, err)
@@ -86,7 +87,7 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 			}
 
 			// Source is a file referenced by a DKV checkpoint that's been copied to the savepoint directory
-			src := filepath.Join(spDir, "dkv", opPrefix, baseFileName)
+			src := spDir + filepath.Join("dkv", opPrefix, baseFileName)
 			if err := fs.Copy(src, file); err != nil {
 				return err
 			}
-- 
2.43.0


From ee9120b5fbbfbef106fe85958de760f59806535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 49/62] fix: starting from a savepoint leaves newer checkpoints
 restorable

---
 storage/snapshots/savepoint_artifact.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/storage/snapshots/savepoint_artifact.go b/storage/snapshots/savepoint_artifact.go
index b437f94..8701c93 100644
--- a/storage/snapshots/savepoint_artifact.go
+++ b/storage/snapshots/savepoint_artifact.go
@@ -78,7 +78,14 @@ func RestoreCheckpointFromSavepointArtifact(fs locations.StorageLocation, savepo
 		if err != nil {
 			return err
 		}
-		files = append(files, opCkpt.DkvFileUri) // Include DKV checkpoints file
+
+		// Don't replace a DKV checkpoints file which describes newer checkpoints by now
+		if existing, err := fs.Read(opCkpt.DkvFileUri); err == nil && !bytes.Equal(existing, cpData) {
+			opCkpt.DkvFileUri += "-" + pathSegment(jobCheckpoint.Id)
+		}
+		if err := fs.Copy(checkpointsPath, opCkpt.DkvFileUri); err != nil {
+			return err
+		}
 
 		for _, file := range files {
 			opPrefix, baseFileName, err := parseDKVURI(file)
-- 
2.43.0


From b5f33d7cf9424eb2909f1ef1b0663c1312d10039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 50/62] fix: a node lost while the job starts doesn't block it

Deploying to the nodes of an assembly and assigning splits to them ended
only when they responded, so a node that was lost while the job started
kept it from ever starting again. Splits were assigned in the task queue,
where a lost node also blocked all changes of the cluster. A failed
assignment was only logged and its splits were never read.
---
 jobs/assembly.go | 27 +++++++++++++++++++++------
 jobs/job.go      | 27 ++++++++++++++++++---------
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/jobs/assembly.go b/jobs/assembly.go
index 6d5c5fe..12b95cb 100644
--- a/jobs/assembly.go
+++ b/jobs/assembly.go
@@ -21,7 +21,7 @@ type Assembly struct {
 	sourceRunners []proto.SourceRunner
 	operators     []proto.Operator
 
-	ctx           context.Context // Done when the assembly is retired
+	ctx           context.Context // Done when the assembly is stopped
 	cancel        context.CancelFunc
 	checkpointing sync.RWMutex // Read locked while starting a checkpoint
 }
@@ -39,6 +39,17 @@ func NewAssembly(
 	}
 }
 
+// Stop ends what is in progress with the nodes of the assembly, which may not
+// respond anymore.
+func (a *Assembly) Stop() {
+	a.cancel()
+}
+
+// Stopped returns an error if the assembly has been stopped.
+func (a *Assembly) Stopped() error {
+	return a.ctx.Err()
+}
+
 // Retire ends the use of the assembly. When it returns, none of its source runners
 // is being told to start a checkpoint, which a later assembly with some of the same
 // source runners wouldn't know about.
@@ -51,6 +62,10 @@ func (a *Assembly) Retire() {
 // Healthy checks whether all nodes in the assembly are still active
 // Returns true if healthy, or false with a reason if unhealthy
 func (a *Assembly) Healthy(registry NodeRegistry) (bool, string) {
+	if a.Stopped() != nil {
+		return false, "stopped"
+	}
+
 	for _, sr := range a.sourceRunners {
 		if !registry.HasSourceRunner(sr) {
 			return false, fmt.Sprintf("missing source runner: %s", sr.ID())
@@ -82,7 +97,7 @@ func (a *Assembly) Deploy(cfg *config.Config, ckpt *snapshotpb.JobCheckpoint) er
 		opIdentities[i] = &jobpb.NodeIdentity{Id: op.ID(), Host: op.Host()}
 	}
 
-	eg, gctx := errgroup.WithContext(context.Background())
+	eg, gctx := errgroup.WithContext(a.ctx)
 	for _, sr := range a.sourceRunners {
 		eg.Go(func() error {
 			return sr.Deploy(gctx, &workerpb.DeploySourceRunnerRequest{
@@ -108,7 +123,7 @@ func (a *Assembly) Deploy(cfg *config.Config, ckpt *snapshotpb.JobCheckpoint) er
 		ckptRanges[i] = partitioning.KeyGroupRangeFromProto(opCkpt.KeyGroupRange)
 	}
 
-	eg, gctx = errgroup.WithContext(context.Background())
+	eg, gctx = errgroup.WithContext(a.ctx)
 	opCkptAssignments := partitioning.AssignRanges(cfg.KeySpace().KeyGroupRanges(), ckptRanges)
 	for i, op := range a.operators {
 		eg.Go(func() error {
@@ -129,7 +144,7 @@ func (a *Assembly) Deploy(cfg *config.Config, ckpt *snapshotpb.JobCheckpoint) er
 }
 
 func (a *Assembly) AssignSplits(splits map[string][]*workerpb.SourceSplit) error {
-	g, gctx := errgroup.WithContext(context.Background())
+	g, gctx := errgroup.WithContext(a.ctx)
 	for _, sr := range a.sourceRunners {
 		g.Go(func() error {
 			return sr.AssignSplits(gctx, splits[sr.ID()])
@@ -157,8 +172,8 @@ func (a *Assembly) StartCheckpoint(ctx context.Context, id uint64) error {
 	return g.Wait()
 }
 
-func (a *Assembly) UpdateRetainedCheckpoints(ctx context.Context, ids []uint64) error {
-	g, gctx := errgroup.WithContext(ctx)
+func (a *Assembly) UpdateRetainedCheckpoints(ids []uint64) error {
+	g, gctx := errgroup.WithContext(a.ctx)
 	for _, op := range a.operators {
 		g.Go(func() error {
 			return op.UpdateRetainedCheckpoints(gctx, ids)
diff --git a/jobs/job.go b/jobs/job.go
index 299185b..05b5042 100644
--- a/jobs/job.go
+++ b/jobs/job.go
@@ -122,13 +122,11 @@ func New(params *NewParams) (*Job, error) {
 		errChan:             params.ErrChan,
 	}
 
-	ctx := context.TODO()
-
 	go job.processTaskQueue()
 
 	go func() {
 		for retained := range retainedCheckpointsUpdatedChan {
-			job.currentAssembly().UpdateRetainedCheckpoints(ctx, retained)
+			job.currentAssembly().UpdateRetainedCheckpoints(retained)
 		}
 	}()
 
@@ -272,6 +270,7 @@ func (j *Job) pause() {
 	j.runMu.Lock()
 	defer j.runMu.Unlock()
 	j.status.Set(StatusPaused)
+	j.assembly.Stop()
 	if j.checkpointTicker != nil {
 		j.checkpointTicker.Stop()
 	}
@@ -317,6 +316,13 @@ func (j *Job) evaluateClusterStatus() {
 			j.pause()
 		}
 
+	case StatusAssemblyStarting:
+		// End a start which may be waiting for a lost node
+		if ok, reason := j.assembly.Healthy(j.registry); !ok {
+			j.log.Info("assembly not healthy while starting", "reason", reason)
+			j.assembly.Stop()
+		}
+
 	case StatusInit, StatusPaused:
 		// Try to create a new assembly if there are enough nodes
 		assembly, err := j.registry.NewAssembly()
@@ -365,12 +371,12 @@ func (j *Job) start(assembly *Assembly) error {
 	// Create the source splitter
 	splitter := j.config.Sources[0].NewSourceSplitter(assembly.SourceRunnerIDs(), connectors.SourceSplitterHooks{
 		AssignSplits: func(assignments map[string][]*workerpb.SourceSplit) {
-			j.taskQueue <- func() error {
-				// Splits of a previous assembly are assigned by a new splitter
-				if j.currentAssembly() != assembly {
-					return nil
-				}
-				return assembly.AssignSplits(assignments)
+			// Not in the task queue, where it would block changes of the cluster. It fails
+			// once the assembly is stopped, whose splits are assigned by a new splitter.
+			if err := assembly.AssignSplits(assignments); err != nil {
+				// Nothing else would read the splits
+				j.log.Error("failed to assign splits", "err", err)
+				assembly.Stop()
 			}
 		},
 	}, j.errChan)
@@ -394,6 +400,9 @@ func (j *Job) start(assembly *Assembly) error {
 	if err := splitter.Start(sourceCkpt); err != nil {
 		return fmt.Errorf("starting source splitter: %v", err)
 	}
+	if err := assembly.Stopped(); err != nil {
+		return fmt.Errorf("assembly was stopped while starting: %v", err)
+	}
 
 	j.taskQueue <- func() error {
 		j.log.Info("running")
-- 
2.43.0


From f210f670dd1cf1ab5360bfa28601dfe60b8720b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 51/62] fix: a lost sender doesn't lose the events of others in
 the same batch

Processing a batch ended with an error when the source runner whose event
filled it went away. Events of other source runners in the batch were then
lost while theirs that follow were processed, until the job noticed the
failure.
---
 workers/operator/operator.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index deb2880..33085eb 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -349,14 +349,16 @@ func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *worker
 
 	o.Logger.Debug("handling", "sender", senderID, "event", req.Event)
 
+	// The events of a batch come from several senders, so that processing it must not
+	// end when one of them gives up.
 	var handle func() error
 	switch typedEvent := req.Event.(type) {
 	case *workerpb.Event_KeyedEvent:
-		handle = func() error { return o.handleUserEvent(ctx, typedEvent.KeyedEvent) }
+		handle = func() error { return o.handleUserEvent(dep.ctx, typedEvent.KeyedEvent) }
 	case *workerpb.Event_Watermark:
-		handle = func() error { return o.handleWatermark(ctx, senderID, typedEvent.Watermark) }
+		handle = func() error { return o.handleWatermark(dep.ctx, senderID, typedEvent.Watermark) }
 	case *workerpb.Event_CheckpointBarrier:
-		handle = func() error { return o.handleCheckpointBarrier(ctx, senderID, typedEvent.CheckpointBarrier) }
+		handle = func() error { return o.handleCheckpointBarrier(dep.ctx, senderID, typedEvent.CheckpointBarrier) }
 	case *workerpb.Event_SourceComplete:
 		handle = func() error { return o.handleSourceComplete(senderID) }
 	default:
@@ -381,7 +383,13 @@ func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *worker
 			respErr <- errDeploymentEnded()
 			return
 		}
-		respErr <- handle()
+		err := handle()
+		if err != nil && dep.ctx.Err() == nil {
+			// Nothing may follow the events which were not processed
+			dep.end()
+			err = connect.NewError(connect.CodeInternal, err)
+		}
+		respErr <- err
 	}
 	select {
 	case o.events <- queuedEvent:
-- 
2.43.0


From 79263be4958e0d012df0cf1834e6672731ddc3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 52/62] fix: a checkpoint that only some source runners started
 doesn't end checkpointing

The pending checkpoint was kept and the operators waited for the missing
barriers, for instance when the client that requested a savepoint went away
while it was started.
---
 jobs/assembly.go | 20 ++++++++++++--------
 jobs/job.go      |  4 ++--
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/jobs/assembly.go b/jobs/assembly.go
index 12b95cb..c9378b7 100644
--- a/jobs/assembly.go
+++ b/jobs/assembly.go
@@ -153,23 +153,27 @@ func (a *Assembly) AssignSplits(splits map[string][]*workerpb.SourceSplit) error
 	return g.Wait()
 }
 
-func (a *Assembly) StartCheckpoint(ctx context.Context, id uint64) error {
+// StartCheckpoint tells all source runners to start a checkpoint. If only some of
+// them did, the operators would wait for the others forever, so that a failure
+// stops the assembly.
+func (a *Assembly) StartCheckpoint(id uint64) error {
 	a.checkpointing.RLock()
 	defer a.checkpointing.RUnlock()
-	if err := a.ctx.Err(); err != nil {
-		return fmt.Errorf("assembly is retired: %w", err)
+	if err := a.Stopped(); err != nil {
+		return fmt.Errorf("assembly is stopped: %w", err)
 	}
-	ctx, cancel := context.WithCancel(ctx)
-	defer cancel()
-	defer context.AfterFunc(a.ctx, cancel)()
 
-	g, gctx := errgroup.WithContext(ctx)
+	g, gctx := errgroup.WithContext(a.ctx)
 	for _, sr := range a.sourceRunners {
 		g.Go(func() error {
 			return sr.StartCheckpoint(gctx, id)
 		})
 	}
-	return g.Wait()
+	if err := g.Wait(); err != nil {
+		a.Stop()
+		return err
+	}
+	return nil
 }
 
 func (a *Assembly) UpdateRetainedCheckpoints(ids []uint64) error {
diff --git a/jobs/job.go b/jobs/job.go
index 05b5042..53f7252 100644
--- a/jobs/job.go
+++ b/jobs/job.go
@@ -180,7 +180,7 @@ func (j *Job) HandleCreateSavepoint(ctx context.Context) (uint64, error) {
 
 	// Only start the checkpoint if it's new. Otherwise the checkpoint was already in-flight.
 	if created {
-		if err := assembly.StartCheckpoint(ctx, checkpointID); err != nil {
+		if err := assembly.StartCheckpoint(checkpointID); err != nil {
 			return 0, fmt.Errorf("failed starting snapshot: %w", err)
 		}
 	}
@@ -416,7 +416,7 @@ func (j *Job) start(assembly *Assembly) error {
 				j.log.Warn("failed to create checkpoint", "err", err)
 				return
 			}
-			if err := assembly.StartCheckpoint(context.Background(), cpID); err != nil {
+			if err := assembly.StartCheckpoint(cpID); err != nil {
 				j.log.Error("failed to start checkpoint", "err", err)
 			}
 		}, "checkpointing")
-- 
2.43.0


From d28a8339d7a7721c9c101bde371fe064aa3790f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 53/62] fix: a fetch that ends with its deployment doesn't end
 the source runner

---
 batching/reorder_fetcher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/batching/reorder_fetcher.go b/batching/reorder_fetcher.go
index 29d809d..6e855e7 100644
--- a/batching/reorder_fetcher.go
+++ b/batching/reorder_fetcher.go
@@ -91,6 +91,9 @@ func (d *ReorderFetcher[T, R]) flush(ctx context.Context, token BatchToken) {
 		if err != nil {
 			// Leave the gap in the buffer so that later results can't be taken for
 			// the failed ones.
+			if ctx.Err() != nil {
+				return // The error is a consequence of ending
+			}
 			select {
 			case d.errChan <- err:
 			case <-ctx.Done():
-- 
2.43.0


From 8ca6807290b57af407b533f571842983478b61ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 54/62] fix: an event that an operator can't process because
 it's deployed again doesn't end its sender

---
 workers/operator/operator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index 33085eb..d7fb05e 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -384,7 +384,9 @@ func (o *Operator) HandleEvent(ctx context.Context, senderID string, req *worker
 			return
 		}
 		err := handle()
-		if err != nil && dep.ctx.Err() == nil {
+		if err != nil && dep.ctx.Err() != nil {
+			err = errDeploymentEnded() // Not the fault of the sender
+		} else if err != nil {
 			// Nothing may follow the events which were not processed
 			dep.end()
 			err = connect.NewError(connect.CodeInternal, err)
-- 
2.43.0


From c49cd37650e95cf4f3c6fa5c07875171f95d84c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 55/62] fix: restoring the kinesis splitter's shards doesn't
 panic

---
 connectors/kinesis/source_splitter_shard.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/connectors/kinesis/source_splitter_shard.go b/connectors/kinesis/source_splitter_shard.go
index f4e5d67..b8c4f6f 100644
--- a/connectors/kinesis/source_splitter_shard.go
+++ b/connectors/kinesis/source_splitter_shard.go
@@ -41,9 +41,8 @@ func newSourceSplitterShardFromKinesis(shard kinesistypes.Shard) SourceSplitterS
 }
 
 func newSourceSplitterShardFromProto(shard *kinesispb.SourceSplitterShard) SourceSplitterShard {
-	var start, end *big.Int
-	start.SetBytes(shard.HashKeyRange.Start)
-	end.SetBytes(shard.HashKeyRange.End)
+	start := new(big.Int).SetBytes(shard.HashKeyRange.Start)
+	end := new(big.Int).SetBytes(shard.HashKeyRange.End)
 
 	return SourceSplitterShard{
 		ShardID:      shard.ShardId,
-- 
2.43.0


From 4674962a4545da19611823925b5e7d08054cfede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:41 +0000
Subject: [PATCH 56/62] fix: a restored kinesis splitter assigns each
 unfinished shard once and only those

The splitter's checkpoint keeps the shards that wait for their parents and the cursors of
assignments. Discovery continues after the newest shard that was ever known instead of
the last assigned one, which may be older than shards that were already finished.
---
 connectors/kinesis/kinesispb/kinesis.proto  |  4 +-
 connectors/kinesis/source_splitter.go       | 70 +++++++++++----------
 connectors/kinesis/source_splitter_shard.go |  3 +
 connectors/kinesis/split_tracker.go         | 47 +++++++++++---
 4 files changed, 81 insertions(+), 43 deletions(-)

diff --git a/connectors/kinesis/kinesispb/kinesis.proto b/connectors/kinesis/kinesispb/kinesis.proto
index 925031a..d594e7d 100644
--- a/connectors/kinesis/kinesispb/kinesis.proto
+++ b/connectors/kinesis/kinesispb/kinesis.proto
@@ -4,14 +4,16 @@ package connectors.kinesis.proto.v1;
 option go_package = "connectors/kinesispb";
 
 message SplitterState {
-  string last_assigned_shard_id = 1;
+  string last_assigned_shard_id = 1; // Newer shards are yet to be discovered
   repeated SourceSplitterShard assigned_shards = 2;
+  repeated SourceSplitterShard unassigned_shards = 3;
 }
 
 message SourceSplitterShard {
   string shard_id = 1;
   HashKeyRange hash_key_range = 2;
   repeated string parent_shard_ids = 3;
+  string cursor = 4;
 }
 
 message Shard {
diff --git a/connectors/kinesis/source_splitter.go b/connectors/kinesis/source_splitter.go
index 298d65d..b73d9f8 100644
--- a/connectors/kinesis/source_splitter.go
+++ b/connectors/kinesis/source_splitter.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"math/big"
+	"slices"
 	"time"
 
 	awskinesis "github.com/aws/aws-sdk-go-v2/service/kinesis"
@@ -12,6 +13,7 @@ import (
 	"reduction.dev/reduction/connectors/kinesis/kinesispb"
 	"reduction.dev/reduction/proto/snapshotpb"
 	"reduction.dev/reduction/proto/workerpb"
+	"reduction.dev/reduction/util/sliceu"
 )
 
 var (
@@ -22,7 +24,6 @@ var (
 type SourceSplitter struct {
 	client                 *awskinesis.Client
 	streamARN              string
-	cursors                map[string]string
 	sourceRunnerIDs        []string
 	errChan                chan<- error
 	hooks                  connectors.SourceSplitterHooks
@@ -51,7 +52,6 @@ func NewSourceSplitter(config SourceConfig, sourceRunnerIDs []string, hooks conn
 	return &SourceSplitter{
 		client:                 config.NewKinesisClient(),
 		streamARN:              config.StreamARN,
-		cursors:                make(map[string]string),
 		errChan:                errChan,
 		hooks:                  hooks,
 		sourceRunnerIDs:        sourceRunnerIDs,
@@ -68,39 +68,41 @@ func (s *SourceSplitter) Start(ckpt *snapshotpb.SourceCheckpoint) error {
 	s.ctx = ctx
 	s.cancel = cancel
 
-	var pendingShards []SourceSplitterShard
-
 	// Load the splitter state
 	var splitterState kinesispb.SplitterState
 	if err := proto.Unmarshal(ckpt.GetSplitterState(), &splitterState); err != nil {
 		return fmt.Errorf("kinesis.SourceSplitter failed to unmarshal splitter state: %w", err)
 	}
 
-	// Build a list of shards that need to be assigned
-	pendingShards = make([]SourceSplitterShard, len(splitterState.AssignedShards))
-	for i, shard := range splitterState.GetAssignedShards() {
-		pendingShards[i] = newSourceSplitterShardFromProto(shard)
-	}
-	s.splitTracker.LoadSplits(pendingShards, splitterState.LastAssignedShardId)
-
 	// Load the split states to get the cursors
+	cursors := make(map[string]string, len(ckpt.GetSplitStates()))
 	for _, splitState := range ckpt.GetSplitStates() {
 		var split kinesispb.Shard
 		if err := proto.Unmarshal(splitState, &split); err != nil {
 			return fmt.Errorf("kinesis.SourceSplitter failed to unmarshal split state: %w", err)
 		}
-		s.cursors[split.ShardId] = split.Cursor
+		cursors[split.ShardId] = split.Cursor
 	}
 
-	// Include newly discovered shards for assignment
-	err := s.discoverShards(ctx, s.splitTracker.LastAssignedSplitID)
+	// Track the checkpoint's shards and the ones that were added since then
+	var shards []SourceSplitterShard
+	for _, shard := range slices.Concat(splitterState.GetAssignedShards(), splitterState.GetUnassignedShards()) {
+		shards = append(shards, newSourceSplitterShardFromProto(shard))
+	}
+	discovered, err := s.listAllShards(ctx, splitterState.GetLastAssignedShardId())
 	if err != nil {
 		return fmt.Errorf("kinesis.SourceSplitter failed to discover shards: %w", err)
 	}
-	pendingShards = append(pendingShards, s.splitTracker.AvailableSplits()...)
+	shards = append(shards, discovered...)
+	for i, shard := range shards {
+		if cursor, ok := cursors[shard.ShardID]; ok {
+			shards[i].Cursor = cursor
+		}
+	}
+	s.splitTracker.LoadSplits(shards, splitterState.LastAssignedShardId)
 
-	// Do the initial split assignment
-	s.assignShards(ctx, pendingShards)
+	// Do the initial split assignment, all shards are unassigned so far
+	s.assignShards(s.splitTracker.AvailableSplits())
 
 	// Setup background shard assignment
 	s.shardDiscoveryTicker = time.NewTicker(s.shardDiscoveryInterval)
@@ -116,17 +118,20 @@ func (s *SourceSplitter) processShardAssignment(ctx context.Context) {
 			return
 		case <-s.shardDiscoveryTicker.C:
 			// periodically discover shards and assign them to source runners
-			err := s.discoverShards(s.ctx, s.splitTracker.LastAssignedSplitID)
+			err := s.discoverShards(ctx)
+			if ctx.Err() != nil {
+				return
+			}
 			if err != nil {
 				s.errChan <- fmt.Errorf("kinesis.SourceSplitter failed to discover shards: %w", err)
 				return
 			}
 			pending := s.splitTracker.AvailableSplits()
-			s.assignShards(s.ctx, pending)
+			s.assignShards(pending)
 		case <-s.splitsDidFinish:
 			// When splits finish, their child splits may become available
 			pending := s.splitTracker.AvailableSplits()
-			s.assignShards(s.ctx, pending)
+			s.assignShards(pending)
 		}
 	}
 }
@@ -153,15 +158,11 @@ func (s *SourceSplitter) Close() error {
 
 // Checkpoint returns a snapshot of the splitter's state for checkpointing.
 func (s *SourceSplitter) Checkpoint() []byte {
-	splits := s.splitTracker.AssignedSplits()
-	pbShards := make([]*kinesispb.SourceSplitterShard, len(splits))
-	for i, shard := range splits {
-		pbShards[i] = shard.toProto()
-	}
-
+	assigned, unassigned, lastKnownID := s.splitTracker.State()
 	bs, err := proto.Marshal(&kinesispb.SplitterState{
-		AssignedShards:      pbShards,
-		LastAssignedShardId: s.splitTracker.LastAssignedSplitID,
+		AssignedShards:      sliceu.Map(assigned, SourceSplitterShard.toProto),
+		UnassignedShards:    sliceu.Map(unassigned, SourceSplitterShard.toProto),
+		LastAssignedShardId: lastKnownID,
 	})
 	if err != nil {
 		panic(err)
@@ -195,9 +196,9 @@ func (s *SourceSplitter) listAllShards(ctx context.Context, exclusiveStartShardI
 	return shards, nil
 }
 
-// discoverShards fetches new shards and returns any shards ready for assignment.
-func (s *SourceSplitter) discoverShards(ctx context.Context, lastAssignedShardID string) error {
-	shards, err := s.listAllShards(ctx, lastAssignedShardID)
+// discoverShards fetches and tracks new shards.
+func (s *SourceSplitter) discoverShards(ctx context.Context) error {
+	shards, err := s.listAllShards(ctx, s.splitTracker.LastKnownSplitID())
 	if err != nil {
 		return fmt.Errorf("kinesis.SourceSplitter failed to list shards: %w", err)
 	}
@@ -207,7 +208,7 @@ func (s *SourceSplitter) discoverShards(ctx context.Context, lastAssignedShardID
 
 // assignShards assings the list of shards to the source runners. It tracks the
 // assignmets in internal state.
-func (s *SourceSplitter) assignShards(ctx context.Context, shards []SourceSplitterShard) {
+func (s *SourceSplitter) assignShards(shards []SourceSplitterShard) {
 	if len(shards) == 0 {
 		return
 	}
@@ -220,12 +221,13 @@ func (s *SourceSplitter) assignShards(ctx context.Context, shards []SourceSplitt
 		assignments[runnerID] = append(assignments[runnerID], &workerpb.SourceSplit{
 			SourceId: "tbd",
 			SplitId:  shard.ShardID,
-			Cursor:   []byte(s.cursors[shard.ShardID]),
+			Cursor:   []byte(shard.Cursor),
 		})
 	}
 
-	s.hooks.AssignSplits(assignments)
+	// The source runners may finish shards as soon as they are assigned
 	s.splitTracker.TrackAssigned(shards)
+	s.hooks.AssignSplits(assignments)
 }
 
 var _ connectors.SourceSplitter = (*SourceSplitter)(nil)
diff --git a/connectors/kinesis/source_splitter_shard.go b/connectors/kinesis/source_splitter_shard.go
index b8c4f6f..1a650b8 100644
--- a/connectors/kinesis/source_splitter_shard.go
+++ b/connectors/kinesis/source_splitter_shard.go
@@ -11,6 +11,7 @@ type SourceSplitterShard struct {
 	ShardID      string
 	HashKeyRange HashKeyRange
 	ParentIDs    []string
+	Cursor       string // The sequence number after which reading the shard starts
 }
 
 type HashKeyRange struct {
@@ -48,6 +49,7 @@ func newSourceSplitterShardFromProto(shard *kinesispb.SourceSplitterShard) Sourc
 		ShardID:      shard.ShardId,
 		HashKeyRange: HashKeyRange{Start: start, End: end},
 		ParentIDs:    shard.ParentShardIds,
+		Cursor:       shard.Cursor,
 	}
 }
 
@@ -59,5 +61,6 @@ func (s SourceSplitterShard) toProto() *kinesispb.SourceSplitterShard {
 			End:   s.HashKeyRange.End.Bytes(),
 		},
 		ParentShardIds: s.ParentIDs,
+		Cursor:         s.Cursor,
 	}
 }
diff --git a/connectors/kinesis/split_tracker.go b/connectors/kinesis/split_tracker.go
index 1d4a460..61f1163 100644
--- a/connectors/kinesis/split_tracker.go
+++ b/connectors/kinesis/split_tracker.go
@@ -1,7 +1,6 @@
 package kinesis
 
 import (
-	"maps"
 	"slices"
 	"sync"
 
@@ -12,7 +11,12 @@ type SplitTracker struct {
 	knownSplits         *ds.SortedMap[string, SourceSplitterShard]
 	assignedSplits      map[string]struct{}
 	LastAssignedSplitID string // The last split ID that was marked assigned.
-	mu                  sync.Mutex
+
+	// The highest split ID that was ever tracked. Splits up to it must not be
+	// added again because they may be finished.
+	lastKnownSplitID string
+
+	mu sync.Mutex
 }
 
 func NewSplitTracker() *SplitTracker {
@@ -30,9 +34,11 @@ func (st *SplitTracker) LoadSplits(shards []SourceSplitterShard, lastAssignedSpl
 	// Load the splits into the tracker
 	for _, shard := range shards {
 		st.knownSplits.Set(shard.ShardID, shard)
+		st.lastKnownSplitID = max(st.lastKnownSplitID, shard.ShardID)
 	}
 
 	st.LastAssignedSplitID = lastAssignedSplitID
+	st.lastKnownSplitID = max(st.lastKnownSplitID, lastAssignedSplitID)
 }
 
 // AddSplits starts tracking the given kinesis shards.
@@ -42,9 +48,17 @@ func (st *SplitTracker) AddSplits(shards []SourceSplitterShard) {
 
 	for _, shard := range shards {
 		st.knownSplits.Set(shard.ShardID, shard)
+		st.lastKnownSplitID = max(st.lastKnownSplitID, shard.ShardID)
 	}
 }
 
+// LastKnownSplitID is the highest split ID that was ever tracked.
+func (st *SplitTracker) LastKnownSplitID() string {
+	st.mu.Lock()
+	defer st.mu.Unlock()
+	return st.lastKnownSplitID
+}
+
 // TrackAssigned marks the given splits as assigned.
 func (st *SplitTracker) TrackAssigned(shards []SourceSplitterShard) {
 	st.mu.Lock()
@@ -105,15 +119,32 @@ func (st *SplitTracker) AvailableSplits() []SourceSplitterShard {
 	return available
 }
 
+// AssignedSplits are being read.
 func (st *SplitTracker) AssignedSplits() []SourceSplitterShard {
 	st.mu.Lock()
 	defer st.mu.Unlock()
 
-	assigned := make([]SourceSplitterShard, 0, len(st.assignedSplits))
-	for _, shardID := range slices.Sorted(maps.Keys(st.assignedSplits)) {
-		knownShard, _ := st.knownSplits.Get(shardID)
-		assigned = append(assigned, knownShard)
-	}
-
+	assigned, _ := st.splits()
 	return assigned
 }
+
+// State returns what a checkpoint needs to restore the tracker.
+func (st *SplitTracker) State() (assigned, unassigned []SourceSplitterShard, lastKnownSplitID string) {
+	st.mu.Lock()
+	defer st.mu.Unlock()
+
+	assigned, unassigned = st.splits()
+	return assigned, unassigned, st.lastKnownSplitID
+}
+
+func (st *SplitTracker) splits() (assigned, unassigned []SourceSplitterShard) {
+	assigned = make([]SourceSplitterShard, 0, len(st.assignedSplits))
+	for _, split := range st.knownSplits.All() {
+		if _, ok := st.assignedSplits[split.ShardID]; ok {
+			assigned = append(assigned, split)
+		} else {
+			unassigned = append(unassigned, split)
+		}
+	}
+	return assigned, unassigned
+}
-- 
2.43.0


From af132c051c0788fffe173707d2f8b6265551a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 57/62] fix: a checkpoint's splitter state matches its source
 runners' split states

Splits that finish or are assigned while a checkpoint is in progress were finished and
assigned in the splitter's state, whether the source runner had passed its barrier or not.
Restoring lost the rest of a split that was finished after the barrier.
---
 connectors/kinesis/source_splitter.go |  1 +
 jobs/job.go                           |  9 +++++----
 proto/snapshotpb/snapshot.proto       |  3 +++
 storage/snapshots/snapshot.go         | 19 +++++++++++++++----
 storage/snapshots/store.go            | 22 +++++++++++++++++++---
 5 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/connectors/kinesis/source_splitter.go b/connectors/kinesis/source_splitter.go
index b73d9f8..9dc724a 100644
--- a/connectors/kinesis/source_splitter.go
+++ b/connectors/kinesis/source_splitter.go
@@ -100,6 +100,7 @@ func (s *SourceSplitter) Start(ckpt *snapshotpb.SourceCheckpoint) error {
 		}
 	}
 	s.splitTracker.LoadSplits(shards, splitterState.LastAssignedShardId)
+	s.splitTracker.RemoveSplits(ckpt.GetFinishedSplitIds())
 
 	// Do the initial split assignment, all shards are unassigned so far
 	s.assignShards(s.splitTracker.AvailableSplits())
diff --git a/jobs/job.go b/jobs/job.go
index 53f7252..2556d3c 100644
--- a/jobs/job.go
+++ b/jobs/job.go
@@ -247,10 +247,11 @@ func (j *Job) HandleNotifySplitsFinished(sourceRunnerID string, splitIDs []strin
 	if splitter == nil {
 		return connect.NewError(connect.CodeNotFound, fmt.Errorf("sourceSplitter not initialized"))
 	}
-	j.taskQueue <- func() error {
-		splitter.NotifySplitsFinished(sourceRunnerID, splitIDs)
-		return nil
-	}
+
+	// Not in the task queue because the source runner's next checkpoint follows, and in
+	// this order so that a checkpoint created meanwhile doesn't miss both.
+	splitter.NotifySplitsFinished(sourceRunnerID, splitIDs)
+	j.snapshotStore.AddFinishedSplits(sourceRunnerID, splitIDs)
 	return nil
 }
 
diff --git a/proto/snapshotpb/snapshot.proto b/proto/snapshotpb/snapshot.proto
index 633c8ca..2841914 100644
--- a/proto/snapshotpb/snapshot.proto
+++ b/proto/snapshotpb/snapshot.proto
@@ -33,4 +33,7 @@ message SourceCheckpoint {
   // State specific to each splitter source type that will likely contain a
   // cursor for the discovered splits.
   bytes splitterState = 4;
+
+  // Splits that source runners finished after the splitterState was taken
+  repeated string finished_split_ids = 5;
 }
diff --git a/storage/snapshots/snapshot.go b/storage/snapshots/snapshot.go
index b1a4c0f..a63eed4 100644
--- a/storage/snapshots/snapshot.go
+++ b/storage/snapshots/snapshot.go
@@ -32,6 +32,10 @@ type jobSnapshot struct {
 	// The sourceSplitter checkpoint data
 	splitterState []byte
 
+	// IDs of splits that were finished after the splitterState and before the source
+	// runner's checkpoint
+	finishedSplitIDs []string
+
 	// A flag to indicate the checkpoint should be converted to a savepoint
 	isSavepoint bool
 }
@@ -87,6 +91,12 @@ func (s *jobSnapshot) addSourceRunnerSnapshot(ckpt *jobpb.SourceRunnerCheckpoint
 	return nil
 }
 
+func (s *jobSnapshot) addFinishedSplits(sourceRunnerID string, splitIDs []string) {
+	if complete, ok := s.sourceRunnerIDsComplete[sourceRunnerID]; ok && !complete {
+		s.finishedSplitIDs = append(s.finishedSplitIDs, splitIDs...)
+	}
+}
+
 func (s *jobSnapshot) isComplete() bool {
 	return iteru.Every(maps.Values(s.sourceRunnerIDsComplete)) &&
 		iteru.Every(maps.Values(s.operatorIDsComplete))
@@ -97,10 +107,11 @@ func (s *jobSnapshot) toProto() *snapshotpb.JobCheckpoint {
 		Id: s.id,
 		// We only add once source checkpoint for now since jobs only support one source
 		SourceCheckpoints: []*snapshotpb.SourceCheckpoint{{
-			CheckpointId:  s.id,
-			SplitStates:   s.splitStates,
-			SourceId:      "tbd",
-			SplitterState: s.splitterState,
+			CheckpointId:     s.id,
+			SplitStates:      s.splitStates,
+			SourceId:         "tbd",
+			SplitterState:    s.splitterState,
+			FinishedSplitIds: s.finishedSplitIDs,
 		}},
 		OperatorCheckpoints: s.operatorCheckpoints,
 	}
diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index c19161a..39629e3 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -95,6 +95,7 @@ func (s *Store) CreateCheckpoint(operatorIDs, sourceRunnerIDs []string) (uint64,
 	}
 	s.state.checkpointID++
 	s.state.pendingSnapshot = newJobSnapshot(s.state.checkpointID, operatorIDs, sourceRunnerIDs)
+	s.state.pendingSnapshot.splitterState = s.splitterState()
 
 	return s.state.checkpointID, nil
 }
@@ -115,6 +116,7 @@ func (s *Store) CreateSavepoint(operatorIDs, sourceRunnerIDs []string) (cpID uin
 	// Otherwise start a new checkpoint, marking it as a savepoint
 	s.state.checkpointID++
 	s.state.pendingSnapshot = newJobSnapshot(s.state.checkpointID, operatorIDs, sourceRunnerIDs)
+	s.state.pendingSnapshot.splitterState = s.splitterState()
 	s.state.pendingSnapshot.isSavepoint = true
 
 	return s.state.checkpointID, true, nil
@@ -165,6 +167,16 @@ func (s *Store) AddSourceSnapshot(ckpt *jobpb.SourceRunnerCheckpointCompleteRequ
 	return nil
 }
 
+// AddFinishedSplits adds splits which a source runner finished to the pending snapshot,
+// unless the source runner's part of it is from before that.
+func (s *Store) AddFinishedSplits(sourceRunnerID string, splitIDs []string) {
+	s.stateMu.Lock()
+	defer s.stateMu.Unlock()
+	if s.state.pendingSnapshot != nil {
+		s.state.pendingSnapshot.addFinishedSplits(sourceRunnerID, splitIDs)
+	}
+}
+
 // RegisterSourceSplitter sets the source splitter whose state is included in
 // snapshots. The splitter of a previous deployment is replaced.
 func (s *Store) RegisterSourceSplitter(splitter connectors.SourceSplitter) {
@@ -195,13 +207,17 @@ func (s *Store) AwaitPublication() {
 	}
 }
 
-func (s *Store) finishSnapshot(snap *jobSnapshot) {
-	// Get the source splitter checkpoints
+// splitterState gets the source splitter's checkpoint. A snapshot has the one from when
+// it's created because splits that are finished or assigned after the source runners'
+// checkpoints aren't part of it.
+func (s *Store) splitterState() []byte {
 	if len(s.sourceSplitters) != 1 {
 		panic("only one source splitter is suppported")
 	}
-	snap.splitterState = s.sourceSplitters[0].Checkpoint()
+	return s.sourceSplitters[0].Checkpoint()
+}
 
+func (s *Store) finishSnapshot(snap *jobSnapshot) {
 	// Snapshots are published one after another in the order of their IDs, so that
 	// a publication delayed by storage doesn't make a newer snapshot obsolete.
 	previous := s.publication
-- 
2.43.0


From d063df2b0b0a5a19614f183edb834f4d13f7d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 58/62] fix: the embedded source resumes its splits after a
 restore

After a recovery its splitter is started with the checkpoint that the job
restores and panicked.
---
 connectors/embedded/source_splitter.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/connectors/embedded/source_splitter.go b/connectors/embedded/source_splitter.go
index 67b7177..38d2dfa 100644
--- a/connectors/embedded/source_splitter.go
+++ b/connectors/embedded/source_splitter.go
@@ -1,6 +1,9 @@
 package embedded
 
 import (
+	"encoding/binary"
+	"encoding/json"
+	"fmt"
 	"strconv"
 
 	"reduction.dev/reduction/connectors"
@@ -25,19 +28,24 @@ type SourceSplitter struct {
 }
 
 func (s *SourceSplitter) Start(ckpt *snapshotpb.SourceCheckpoint) error {
-	// Embedded SourceSplitter does not checkpoint
-	if ckpt != nil {
-		panic("embedded source splitter does not support checkpointing")
+	// Load the split states to get the cursors
+	cursors := make(map[string][]byte, len(ckpt.GetSplitStates()))
+	for _, splitState := range ckpt.GetSplitStates() {
+		var state split
+		if err := json.Unmarshal(splitState, &state); err != nil {
+			return fmt.Errorf("embedded.SourceSplitter failed to unmarshal split state: %w", err)
+		}
+		cursors[state.SplitID] = binary.BigEndian.AppendUint64(nil, uint64(state.Cursor))
 	}
 
-	// Create splits all with nil cursors
+	// Create splits, those without a split state have nil cursors
 	sourceSplits := make([]*workerpb.SourceSplit, s.splitCount)
 	for splitIndex := range iteru.Times(s.splitCount) {
 		splitID := strconv.Itoa(splitIndex)
 		sourceSplits[splitIndex] = &workerpb.SourceSplit{
 			SplitId:  splitID,
 			SourceId: "TBD",
-			Cursor:   nil,
+			Cursor:   cursors[splitID],
 		}
 	}
 
-- 
2.43.0


From 1836abeb08f288c32420931349650f7c0bb2e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 59/62] fix: a source runner's former deployment doesn't finish
 splits of the next one

Its last read may end after the redeployment, whose splitter has to hand out
the finished shard's children only once it was read again.
---
 workers/sourcerunner/source_runner.go | 46 +++++++++++++++++----------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/workers/sourcerunner/source_runner.go b/workers/sourcerunner/source_runner.go
index 038c061..bab718d 100644
--- a/workers/sourcerunner/source_runner.go
+++ b/workers/sourcerunner/source_runner.go
@@ -57,6 +57,7 @@ type deployment struct {
 	ctx             context.Context
 	stopLoop        context.CancelFunc // Signal to stop the event loop
 	senders         sync.WaitGroup     // Goroutines sending to operators
+	notifyMu        sync.Mutex         // Held while notifying the job of finished splits
 	sourceReader    connectors.SourceReader
 	sourceChannel   *connectors.ReadSourceChannel // The channel to read events from the source
 	operators       *operatorCluster
@@ -104,20 +105,6 @@ func New(params NewParams) *SourceRunner {
 		initDone:            make(chan struct{}),
 	}
 
-	if sr.sourceReaderFactory == nil {
-		sr.sourceReaderFactory = func(source *jobconfigpb.Source) connectors.SourceReader {
-			sourceConfig, err := config.SourceFromProto(source)
-			if err != nil {
-				panic(fmt.Sprintf("invalid source config: %v", err))
-			}
-			return sourceConfig.NewSourceReader(connectors.SourceReaderHooks{
-				NotifySplitsFinished: func(splitIDs []string) {
-					sr.job.NotifySplitsFinished(sr.runnerCtx, sr.ID, splitIDs)
-				},
-			})
-		}
-	}
-
 	return sr
 }
 
@@ -216,13 +203,17 @@ func (r *SourceRunner) HandleDeploy(ctx context.Context, msg *workerpb.DeploySou
 		SourceRunner:       r,
 		ctx:                deploymentCtx,
 		stopLoop:           cancel,
-		sourceReader:       r.sourceReaderFactory(msg.Sources[0]),
 		watermarker:        &wmark.Watermarker{},
 		watermarkTicker:    time.NewTicker(watermarkInterval),
 		outputStream:       make(chan *workerpb.Event, 1_000),
 		checkpointBarrier:  make(chan *workerpb.CheckpointBarrier, 1),
 		splitsWereAssigned: make(chan []*workerpb.SourceSplit, 1),
 	}
+	if r.sourceReaderFactory != nil {
+		d.sourceReader = r.sourceReaderFactory(msg.Sources[0])
+	} else {
+		d.sourceReader = d.newSourceReader(msg.Sources[0])
+	}
 	d.sourceChannel = connectors.NewReadSourceChannel(d.sourceReader)
 	d.keyEventChannel = batching.NewReorderFetcher(d.ctx, batching.NewReorderFetcherParams[[]byte, []*handlerpb.KeyedEvent]{
 		Batcher: batching.NewEventBatcher[[]byte](d.ctx, r.batchingParams),
@@ -257,8 +248,29 @@ func (r *SourceRunner) HandleDeploy(ctx context.Context, msg *workerpb.DeploySou
 	return nil
 }
 
+func (r *deployment) newSourceReader(source *jobconfigpb.Source) connectors.SourceReader {
+	sourceConfig, err := config.SourceFromProto(source)
+	if err != nil {
+		panic(fmt.Sprintf("invalid source config: %v", err))
+	}
+	return sourceConfig.NewSourceReader(connectors.SourceReaderHooks{
+		NotifySplitsFinished: r.notifySplitsFinished,
+	})
+}
+
+// notifySplitsFinished notifies the job unless the deployment is stopped. The next
+// deployment may have to read the splits again.
+func (r *deployment) notifySplitsFinished(splitIDs []string) {
+	r.notifyMu.Lock()
+	defer r.notifyMu.Unlock()
+	if r.ctx.Err() != nil {
+		return
+	}
+	r.job.NotifySplitsFinished(r.ctx, r.ID, splitIDs)
+}
+
 // stop ends the deployment. When it returns no more events are being sent to
-// operators.
+// operators and the job isn't being notified of finished splits.
 func (r *deployment) stop() {
 	if r == nil {
 		return
@@ -266,6 +278,8 @@ func (r *deployment) stop() {
 	r.stopLoop()
 	r.watermarkTicker.Stop()
 	r.senders.Wait()
+	r.notifyMu.Lock()
+	r.notifyMu.Unlock()
 }
 
 // sendOutputStream sends the output stream's events to the operators.
-- 
2.43.0


From f798b3208b6be765122753a7504fe8f6409b79df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 60/62] fix: a job started from a checkpoint knows its finished
 splits

---
 storage/snapshots/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/storage/snapshots/store.go b/storage/snapshots/store.go
index 39629e3..079eabd 100644
--- a/storage/snapshots/store.go
+++ b/storage/snapshots/store.go
@@ -391,6 +391,7 @@ func (s *Store) LoadCheckpoint() error {
 		operatorCheckpoints: loadedCheckpoint.OperatorCheckpoints,
 		splitStates:         loadedCheckpoint.SourceCheckpoints[0].SplitStates,
 		splitterState:       loadedCheckpoint.SourceCheckpoints[0].SplitterState,
+		finishedSplitIDs:    loadedCheckpoint.SourceCheckpoints[0].FinishedSplitIds,
 	}
 	s.state.completedSnapshots = []*jobSnapshot{jSnapshot}
 
-- 
2.43.0


From 47c3592f012e3dbffa45bd62740ad38ec3c59487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 61/62] fix: splits are only finished by source runners of the
 current assembly

A source runner that isn't part of the assembly after a recovery continues to
read the splits of the previous one, and made their children available.
---
 jobs/job.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jobs/job.go b/jobs/job.go
index 2556d3c..73083de 100644
--- a/jobs/job.go
+++ b/jobs/job.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"os"
+	"slices"
 	"sync"
 	"time"
 
@@ -242,11 +243,16 @@ func (j *Job) HandleSourceRunnerCheckpointComplete(ctx context.Context, req *job
 
 func (j *Job) HandleNotifySplitsFinished(sourceRunnerID string, splitIDs []string) error {
 	j.runMu.Lock()
-	splitter := j.sourceSplitter
+	assembly, splitter := j.assembly, j.sourceSplitter
 	j.runMu.Unlock()
 	if splitter == nil {
 		return connect.NewError(connect.CodeNotFound, fmt.Errorf("sourceSplitter not initialized"))
 	}
+	if !slices.Contains(assembly.SourceRunnerIDs(), sourceRunnerID) {
+		// It still reads for a previous assembly
+		j.log.Warn("ignoring finished splits", "sourceRunnerID", sourceRunnerID, "splitIDs", splitIDs)
+		return nil
+	}
 
 	// Not in the task queue because the source runner's next checkpoint follows, and in
 	// this order so that a checkpoint created meanwhile doesn't miss both.
-- 
2.43.0


From 26867bc462fa93ba70dbc2416e7be377033cd754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:59 +0000
Subject: [PATCH 62/62] fix: an operator without key groups trusts late
 retention to complete its deployment

It doesn't know the checkpoint from before its deployment that the others restored, so that a
late announcement of it looked like one of a checkpoint of the deployment itself. It then
denied needing tables although the others may be about to restore them.
---
 workers/operator/operator.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/workers/operator/operator.go b/workers/operator/operator.go
index d7fb05e..4209104 100644
--- a/workers/operator/operator.go
+++ b/workers/operator/operator.go
@@ -300,15 +300,22 @@ func (d *deployment) end() {
 
 func (o *Operator) HandleRemoveCheckpoints(ctx context.Context, req *workerpb.UpdateRetainedCheckpointsRequest) error {
 	o.mu.Lock()
-	db := o.db
-	if o.deployment != nil && slices.ContainsFunc(req.CheckpointIds, func(id uint64) bool { return id > o.deployment.restoredID }) {
-		o.deployment.complete = true // All operators took part in the checkpoint
-	}
+	db, dep := o.db, o.deployment
 	o.mu.Unlock()
 	if db == nil {
 		return connect.NewError(connect.CodeFailedPrecondition, fmt.Errorf("operator has no database (status: %s)", o.status))
 	}
-	return db.UpdateRetainedCheckpoints(req.CheckpointIds)
+	if err := db.UpdateRetainedCheckpoints(req.CheckpointIds); err != nil {
+		// An operator without key groups doesn't know a checkpoint from before its deployment
+		return err
+	}
+
+	o.mu.Lock()
+	defer o.mu.Unlock()
+	if dep != nil && slices.ContainsFunc(req.CheckpointIds, func(id uint64) bool { return id > dep.restoredID }) {
+		dep.complete = true // All operators took part in the checkpoint
+	}
+	return nil
 }
 
 func (o *Operator) HandleNeedsTable(senderID string, fileURI string) bool {
-- 
2.43.0

