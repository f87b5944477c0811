From 4694d1a6d0fabcbeef14516c480e0e634c91f503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 01/29] fix: MultiGet panicked on every non-empty key list

---
 store/multiget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/multiget.go b/store/multiget.go
index 635bcd4..b2ad0a3 100644
--- a/store/multiget.go
+++ b/store/multiget.go
@@ -18,7 +18,7 @@ package store
 // KVReader, and might be used by KVStore implementations that don't
 // have a native multi-get facility.
 func MultiGet(kvreader KVReader, keys [][]byte) ([][]byte, error) {
-	vals := make([][]byte, 0, len(keys))
+	vals := make([][]byte, len(keys))
 
 	for i, key := range keys {
 		val, err := kvreader.Get(key)
-- 
2.43.0


From e0ffa062a489f4648157f917e83d357acc12d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 02/29] fix: batch merges kept a reference to the caller's
 operand buffer

---
 store/batch.go | 4 ----
 store/merge.go | 2 ++
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/store/batch.go b/store/batch.go
index 7110526..cb74e7c 100644
--- a/store/batch.go
+++ b/store/batch.go
@@ -46,10 +46,6 @@ func (b *EmulatedBatch) Delete(key []byte) {
 }
 
 func (b *EmulatedBatch) Merge(key, val []byte) {
-	ck := make([]byte, len(key))
-	copy(ck, key)
-	cv := make([]byte, len(val))
-	copy(cv, val)
 	b.Merger.Merge(key, val)
 }
 
diff --git a/store/merge.go b/store/merge.go
index ca2561b..61c4adf 100644
--- a/store/merge.go
+++ b/store/merge.go
@@ -46,6 +46,8 @@ func NewEmulatedMerge(mo MergeOperator) *EmulatedMerge {
 }
 
 func (m *EmulatedMerge) Merge(key, val []byte) {
+	// the caller may reuse val as soon as this call returns
+	val = append([]byte{}, val...)
 	ops, ok := m.Merges[string(key)]
 	if ok && len(ops) > 0 {
 		last := ops[len(ops)-1]
-- 
2.43.0


From f4089c519089fa64ac5556dfaed5496a42290c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 03/29] fix: resetting an emulated batch kept its pending
 merges

---
 store/batch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store/batch.go b/store/batch.go
index cb74e7c..e726379 100644
--- a/store/batch.go
+++ b/store/batch.go
@@ -51,6 +51,7 @@ func (b *EmulatedBatch) Merge(key, val []byte) {
 
 func (b *EmulatedBatch) Reset() {
 	b.Ops = b.Ops[:0]
+	b.Merger = NewEmulatedMerge(b.Merger.mo)
 }
 
 func (b *EmulatedBatch) Close() error {
-- 
2.43.0


From cb003133b0d3f7555fa859eb10c7444eb7591bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:09 +0000
Subject: [PATCH 04/29] fix: badger committed failed batches partially and hid
 commit errors

---
 store/badger/writer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/store/badger/writer.go b/store/badger/writer.go
index 8a36173..56360f7 100644
--- a/store/badger/writer.go
+++ b/store/badger/writer.go
@@ -31,8 +31,13 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 
 	txn := w.s.db.NewTransaction(true)
 
+	// commit only if nothing went wrong, and report a failed commit
 	defer (func() {
-		txn.Commit()
+		if err == nil {
+			err = txn.Commit()
+		} else {
+			txn.Discard()
+		}
 	})()
 
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
-- 
2.43.0


From 1c04022bab8c69c01abbf5a0851fa0e067bacc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:09 +0000
Subject: [PATCH 05/29] fix: badger merges did not tell an absent key from an
 empty value

---
 store/badger/writer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/store/badger/writer.go b/store/badger/writer.go
index 56360f7..fd823f7 100644
--- a/store/badger/writer.go
+++ b/store/badger/writer.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/akhenakh/oureadb/store"
+	"github.com/dgraph-io/badger"
 )
 
 // Writer bleve.search/store/Writer implementation
@@ -42,10 +43,15 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
+		var existingVal []byte
 		item, err := txn.Get(kb)
-		existingVal := []byte{}
 		if err == nil {
-			existingVal, _ = item.ValueCopy(nil)
+			existingVal, err = item.ValueCopy([]byte{})
+		} else if err == badger.ErrKeyNotFound {
+			err = nil
+		}
+		if err != nil {
+			return err
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
-- 
2.43.0


From 42280b77d6fd6b2728ec160d22b2269dad4e55c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:10 +0000
Subject: [PATCH 06/29] fix: badger returned nil for a key with an empty value

---
 store/badger/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/store/badger/reader.go b/store/badger/reader.go
index e90fd76..a59e8b2 100644
--- a/store/badger/reader.go
+++ b/store/badger/reader.go
@@ -18,7 +18,8 @@ func (r *Reader) Get(k []byte) ([]byte, error) {
 	if err != nil {
 		return nil, nil
 	}
-	return item.ValueCopy(nil)
+	// a key with an empty value is not an absent key: never return nil
+	return item.ValueCopy([]byte{})
 }
 
 // MultiGet returns multiple values for the specified keys
-- 
2.43.0


From 36e1cd47554dcba5709f491ba5d09f413ec4fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 07/29] fix: gtreap stayed locked and partially updated after a
 failed merge

---
 store/gtreap/writer.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/store/gtreap/writer.go b/store/gtreap/writer.go
index 022fec5..f3eeb35 100644
--- a/store/gtreap/writer.go
+++ b/store/gtreap/writer.go
@@ -44,28 +44,32 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 	}
 
 	w.s.m.Lock()
+	defer w.s.m.Unlock()
+
+	// work on a copy, only published once the whole batch is applied
+	t := w.s.t
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
 		var existingVal []byte
-		existingItem := w.s.t.Get(&Item{k: kb})
+		existingItem := t.Get(&Item{k: kb})
 		if existingItem != nil {
-			existingVal = w.s.t.Get(&Item{k: kb}).(*Item).v
+			existingVal = t.Get(&Item{k: kb}).(*Item).v
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
 			return fmt.Errorf("merge operator returned failure")
 		}
-		w.s.t = w.s.t.Upsert(&Item{k: kb, v: mergedVal}, rand.Int())
+		t = t.Upsert(&Item{k: kb, v: mergedVal}, rand.Int())
 	}
 
 	for _, op := range emulatedBatch.Ops {
 		if op.V != nil {
-			w.s.t = w.s.t.Upsert(&Item{k: op.K, v: op.V}, rand.Int())
+			t = t.Upsert(&Item{k: op.K, v: op.V}, rand.Int())
 		} else {
-			w.s.t = w.s.t.Delete(&Item{k: op.K})
+			t = t.Delete(&Item{k: op.K})
 		}
 	}
-	w.s.m.Unlock()
+	w.s.t = t
 
 	return nil
 }
-- 
2.43.0


From 36217e2ad1cd457a4498d8451ef231d3b23f93bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 08/29] fix: goleveldb handed out a reader without snapshot on
 a closed store

---
 store/goleveldb/store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index f971b97..9ad2dfe 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -77,7 +77,10 @@ func (ldbs *Store) Close() error {
 }
 
 func (ldbs *Store) Reader() (store.KVReader, error) {
-	snapshot, _ := ldbs.db.GetSnapshot()
+	snapshot, err := ldbs.db.GetSnapshot()
+	if err != nil {
+		return nil, err
+	}
 	return &Reader{
 		store:    ldbs,
 		snapshot: snapshot,
-- 
2.43.0


From d5db6e84c754b290bcb0a530f1089221fc635b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 09/29] fix: goleveldb lost merge operands of concurrent
 batches

---
 store/goleveldb/store.go  | 4 ++++
 store/goleveldb/writer.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index 9ad2dfe..ac821b9 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"fmt"
 	"os"
+	"sync"
 
 	"github.com/akhenakh/oureadb/store"
 	"github.com/syndtr/goleveldb/leveldb"
@@ -36,6 +37,9 @@ type Store struct {
 	db   *leveldb.DB
 	mo   store.MergeOperator
 
+	// serializes batches, merges are a read followed by a write
+	wm sync.Mutex
+
 	defaultWriteOptions *opt.WriteOptions
 	defaultReadOptions  *opt.ReadOptions
 }
diff --git a/store/goleveldb/writer.go b/store/goleveldb/writer.go
index 701f86b..086f1d8 100644
--- a/store/goleveldb/writer.go
+++ b/store/goleveldb/writer.go
@@ -44,6 +44,9 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 		return fmt.Errorf("wrong type of batch")
 	}
 
+	w.store.wm.Lock()
+	defer w.store.wm.Unlock()
+
 	// first process merges
 	for k, mergeOps := range batch.merge.Merges {
 		kb := []byte(k)
-- 
2.43.0


From e7a2347b0a0e45a9a1057eed32a365c57b149b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 10/29] fix: point index scans missed the last leaf of every
 queried cell

The end of a range iterator is excluded, so the points whose leaf cell is
the last one of the cell were skipped, and looking up a leaf cell never
returned anything.
---
 index/s2pointidx.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 6ebac0b..1a0fd6b 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -87,7 +87,7 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	start = append(start, itob(uint64(c.RangeMin()))...)
 	stop := make([]byte, len(idx.prefix))
 	copy(stop, idx.prefix)
-	stop = append(stop, itob(uint64(c.RangeMax()))...)
+	stop = append(stop, itob(uint64(c.RangeMax())+1)...)
 
 	var res []GeoID
 
@@ -162,7 +162,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 		start = append(start, itob(uint64(coverCell.RangeMin()))...)
 		stop := make([]byte, len(idx.prefix))
 		copy(stop, idx.prefix)
-		stop = append(stop, itob(uint64(coverCell.RangeMax()))...)
+		stop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)
 
 		// iterate entries with cell's prefix
 		iter := kv.RangeIterator(start, stop)
@@ -214,7 +214,7 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 		start = append(start, itob(uint64(coverCell.RangeMin()))...)
 		stop := make([]byte, len(idx.prefix))
 		copy(stop, idx.prefix)
-		stop = append(stop, itob(uint64(coverCell.RangeMax()))...)
+		stop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)
 
 		// iterate entries with cell's prefix
 		iter := kv.RangeIterator(start, stop)
-- 
2.43.0


From 791f7bb18848b4c99a8b60dadf836e4501e12931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 11/29] fix: index queries returned ids aliasing the iterator
 key

On goleveldb all ids of a cell came back as the last one, on boltdb they
pointed into the memory map after the transaction was closed.
---
 index/s2idx.go      | 3 ++-
 index/s2pointidx.go | 3 ++-
 index/s2timeidx.go  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index 5ccc696..7f378a5 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -155,6 +155,7 @@ func (idx *S2FlatIdx) keyToValues(k []byte) (c s2.CellID, id GeoID, err error) {
 		return c, id, errors.Wrap(err, "read back cell key failed")
 	}
 
-	id = k[len(idx.prefix)+8:]
+	// the bytes of an iterator key are only valid until its next move
+	id = append(GeoID(nil), k[len(idx.prefix)+8:]...)
 	return
 }
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 1a0fd6b..d528312 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -254,6 +254,7 @@ func (idx *S2PointIdx) keyToValues(k []byte) (c s2.CellID, id GeoID, err error)
 		return c, id, errors.Wrap(err, "read back cell key failed")
 	}
 
-	id = k[len(idx.prefix)+8:]
+	// the bytes of an iterator key are only valid until its next move
+	id = append(GeoID(nil), k[len(idx.prefix)+8:]...)
 	return
 }
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 512b1b3..9a85770 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -189,6 +189,7 @@ func (idx *S2FlatTimeIdx) keyToValues(k []byte) (c s2.CellID, t time.Time, id Ge
 	// reverse ts back to ts
 	t = time.Unix(0, math.MaxInt64-ts)
 
-	id = k[len(idx.prefix)+8+8:]
+	// the bytes of an iterator key are only valid until its next move
+	id = append(GeoID(nil), k[len(idx.prefix)+8+8:]...)
 	return
 }
-- 
2.43.0


From 60c4b8649279529f4c533fbcd32db2fc41df274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 12/29] fix: index queries leaked readers and iterators

A leaked boltdb read transaction blocks the next batch that has to grow the
file, for ever. A failing Reader() call crashed on the nil reader.
---
 index/s2idx.go      | 2 +-
 index/s2pointidx.go | 7 +++++--
 index/s2timeidx.go  | 2 ++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index 7f378a5..d90fce3 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -79,10 +79,10 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	var res []GeoID
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.PrefixIterator(k)
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index d528312..c6cdf70 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -95,6 +95,7 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(start, stop)
@@ -148,10 +149,10 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 	cu := coverer.Covering(cap)
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	var res []GeoID
 
@@ -177,6 +178,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 
 			c, id, err := idx.keyToValues(kid)
 			if err != nil {
+				iter.Close()
 				return nil, errors.Wrap(err, "read back failed key from db")
 			}
 
@@ -202,10 +204,10 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 	var res []GeoID
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// we range over cover to lookup for points (cell l30) and filter them in place
 	for _, coverCell := range cu {
@@ -227,6 +229,7 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 
 			c, id, err := idx.keyToValues(kid)
 			if err != nil {
+				iter.Close()
 				return nil, errors.Wrap(err, "read back failed key from db")
 			}
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 9a85770..a19a26b 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -128,9 +128,11 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(startKey, stopKey)
+	defer iter.Close()
 	for {
 		kid, _, ok := iter.Current()
 		if !ok {
-- 
2.43.0


From a36f70a7fc5cd11a1eb1519775dfe6b0ebe87226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 13/29] fix: indexing under an empty id made all later queries
 of the cell fail

---
 index/s2idx.go      | 5 +++++
 index/s2pointidx.go | 5 +++++
 index/s2timeidx.go  | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/index/s2idx.go b/index/s2idx.go
index d90fce3..e9849b4 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -34,6 +34,11 @@ func NewS2FlatIdx(s store.KVStore, prefix []byte, level int) *S2FlatIdx {
 // it's not storing GeoData itself but only the geo index of the cover
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2FlatIdx) GeoIndex(gd *geodata.GeoData, id GeoID) error {
+	// an entry without id can't be read back
+	if len(id) == 0 {
+		return errors.New("geo object can't be indexed, empty id")
+	}
+
 	cu, err := idx.Covering(gd)
 	if err != nil {
 		return errors.Wrap(err, "generating cover failed")
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index c6cdf70..f9eb39a 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -30,6 +30,11 @@ func NewS2PointIdx(s store.KVStore, prefix []byte) *S2PointIdx {
 // it's not storing GeoData itself but only the geo cell l30 of the point
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2PointIdx) PointIndex(lat, lng float64, id GeoID) ([]byte, error) {
+	// an entry without id can't be read back
+	if len(id) == 0 {
+		return nil, errors.New("point can't be indexed, empty id")
+	}
+
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
 		return nil, err
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index a19a26b..50bc968 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -39,6 +39,11 @@ func NewS2FlatTimeIdx(s store.KVStore, prefix []byte, level int) *S2FlatTimeIdx
 // could be a user position or an effect zone
 // t is the time when the event end (can be in the future)
 func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoID) error {
+	// an entry without id can't be read back
+	if len(id) == 0 {
+		return errors.New("geo object can't be indexed, empty id")
+	}
+
 	cu, err := idx.Covering(gd)
 	if err != nil {
 		return errors.Wrap(err, "generating cover failed")
-- 
2.43.0


From e151ba13b916e01fc31b494c0c25fa20e2a7947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 14/29] fix: the time index silently dropped objects with an
 empty cover

---
 index/s2timeidx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 50bc968..9a72aab 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -49,6 +49,11 @@ func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoI
 		return errors.Wrap(err, "generating cover failed")
 	}
 
+	// no cover for this geo object this is probably an error
+	if len(cu) == 0 {
+		return errors.New("geo object can't be indexed, empty cover")
+	}
+
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
 		return err
-- 
2.43.0


From c737b3b3d72b5ed2d4ec72ba0d47ed2a090a01a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 15/29] fix: rect queries wider than 180 degrees searched the
 wrong side of the globe

Adding the upper right corner to the bottom left one extends the rect the
shortest way round, a query over the whole world returned nothing.
---
 index/s2pointidx.go |  3 +--
 index/s2timeidx.go  |  3 +--
 index/tools.go      | 14 ++++++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index f9eb39a..5ea69be 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -201,8 +201,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 
 // GeoIdsRectQuery query over rect ur upper right bl bottom left
 func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]GeoID, error) {
-	rect := s2.RectFromLatLng(s2.LatLngFromDegrees(bllat, bllng))
-	rect = rect.AddPoint(s2.LatLngFromDegrees(urlat, urlng))
+	rect := rectFromCorners(urlat, urlng, bllat, bllng)
 	coverer := &s2.RegionCoverer{MaxLevel: 14, MaxCells: 8}
 	cu := coverer.Covering(rect)
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 9a72aab..bc326cf 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -92,8 +92,7 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsRadiusQuery(from time.Time, to time.Time, la
 // GeoTimeIdsRectQuery query over rect ur upper right bl bottom left
 // scan from future to past
 func (idx *S2FlatTimeIdx) GeoTimeIdsRectQuery(from time.Time, to time.Time, urlat, urlng, bllat, bllng float64) ([]GeoID, error) {
-	rect := s2.RectFromLatLng(s2.LatLngFromDegrees(bllat, bllng))
-	rect = rect.AddPoint(s2.LatLngFromDegrees(urlat, urlng))
+	rect := rectFromCorners(urlat, urlng, bllat, bllng)
 	coverer := &s2.RegionCoverer{MinLevel: idx.level, MaxLevel: idx.level}
 	cu := coverer.Covering(rect)
 	return idx.GeoTimeIdsAtCells(cu, from, to)
diff --git a/index/tools.go b/index/tools.go
index a47c087..6e9fd43 100644
--- a/index/tools.go
+++ b/index/tools.go
@@ -4,6 +4,10 @@ import (
 	"encoding/binary"
 	"math"
 	"time"
+
+	"github.com/golang/geo/r1"
+	"github.com/golang/geo/s1"
+	"github.com/golang/geo/s2"
 )
 
 const earthCircumferenceMeter = 40075017
@@ -35,3 +39,13 @@ func s2RadialAreaMeters(radius float64) float64 {
 	r := (radius / earthCircumferenceMeter) * math.Pi * 2
 	return math.Pi * r * r
 }
+
+// rectFromCorners returns the rect running east from the bottom left to the upper right corner
+func rectFromCorners(urlat, urlng, bllat, bllng float64) s2.Rect {
+	ur := s2.LatLngFromDegrees(urlat, urlng).Normalized()
+	bl := s2.LatLngFromDegrees(bllat, bllng).Normalized()
+	return s2.Rect{
+		Lat: r1.IntervalFromPoint(bl.Lat.Radians()).AddPoint(ur.Lat.Radians()),
+		Lng: s1.IntervalFromEndpoints(bl.Lng.Radians(), ur.Lng.Radians()),
+	}
+}
-- 
2.43.0


From 0cbf1a4877abc3c17d804ce4d1a04af980e0f5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 16/29] fix: line covers contained cells above the minimum
 level

Four sibling cells were merged into their parent, which made the line
unreachable in these cells from an index at this level.
---
 index/geodata/tools.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 3af1031..0913874 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -174,9 +174,9 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 
 		var cupl s2.CellUnion
 		if interior {
-			cupl = coverer.InteriorCellUnion(&pl)
+			cupl = coverer.InteriorCovering(&pl)
 		} else {
-			cupl = coverer.CellUnion(&pl)
+			cupl = coverer.Covering(&pl)
 		}
 		cu = append(cu, cupl...)
 
-- 
2.43.0


From c35c294f522a74219ba70181b27b2aac52e78261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 17/29] fix: polygons with a reflex second vertex were covered
 inside out

The winding was guessed from the first three points only, and the attempt to
repair it reversed the coordinates of the caller, swapping longitudes and
latitudes.
---
 index/geodata/loop.go  | 12 ++++--------
 index/geodata/tools.go |  9 ---------
 2 files changed, 4 insertions(+), 17 deletions(-)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index 5806590..fb85379 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -19,19 +19,15 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 		points[i/2] = s2.PointFromLatLng(s2.LatLngFromDegrees(c[i+1], c[i]))
 	}
 
-	if checkCCW && s2.RobustSign(points[0], points[1], points[2]) != s2.CounterClockwise {
-		// reversing the slice
-		for i := len(points)/2 - 1; i >= 0; i-- {
-			opp := len(points) - 1 - i
-			points[i], points[opp] = points[opp], points[i]
-		}
-	}
-
 	if points[0] == points[len(points)-1] {
 		// remove last item if same as 1st
 		points = append(points[:len(points)-1], points[len(points)-1+1:]...)
 	}
 
 	loop := s2.LoopFromPoints(points)
+	if checkCCW {
+		// keep the smaller side of the boundary
+		loop.Normalize()
+	}
 	return loop
 }
diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 0913874..265ffe6 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -217,15 +217,6 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 		return nil, errors.New("invalid polygons")
 	}
 
-	// super hacky try reverse if ContainsOrigin
-	if l.ContainsOrigin() {
-		// reversing the slice
-		for i := len(c)/2 - 1; i >= 0; i-- {
-			opp := len(c) - 1 - i
-			c[i], c[opp] = c[opp], c[i]
-		}
-	}
-
 	if interior {
 		return coverer.InteriorCovering(l), nil
 	}
-- 
2.43.0


From dafa2d90f69b323f444b9b6e4f5fcd549df2e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 18/29] fix: malformed geometries crashed covering, bounding
 and indexing

Points without 2 coordinates, missing geometries, rings with less than 3
vertices and empty lines panicked or were accepted, return an error instead.
---
 index/geodata/loop.go  |  3 +++
 index/geodata/tools.go | 21 +++++++++++++++------
 index/s2pointidx.go    | 23 +++++++++++++++++++----
 3 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index fb85379..4ca14bd 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -23,6 +23,9 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 		// remove last item if same as 1st
 		points = append(points[:len(points)-1], points[len(points)-1+1:]...)
 	}
+	if len(points) < 3 {
+		return nil
+	}
 
 	loop := s2.LoopFromPoints(points)
 	if checkCCW {
diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 265ffe6..4071a8c 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -98,7 +98,7 @@ func PropertiesToGeoData(f *geojson.Feature, gd *GeoData) error {
 // GeoDataToRect generate a RectBound for GeoData gd
 // only works with Polygons & LineString
 func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
-	if gd.Geometry == nil {
+	if gd.GetGeometry() == nil {
 		return s2.Rect{}, errors.New("invalid geometry")
 	}
 	switch gd.Geometry.Type {
@@ -107,7 +107,7 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 
 	case Geometry_POLYGON:
 		l := LoopFromCoordinates(gd.Geometry.Coordinates)
-		if l.IsEmpty() || l.IsFull() || l.ContainsOrigin() {
+		if l == nil || l.IsEmpty() || l.IsFull() || l.ContainsOrigin() {
 			return s2.Rect{}, errors.New("invalid polygon")
 		}
 		return l.RectBound(), nil
@@ -116,7 +116,7 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 		return s2.Rect{}, errors.New("multipolygon not supported")
 
 	case Geometry_LINESTRING:
-		if len(gd.Geometry.Coordinates)%2 != 0 {
+		if len(gd.Geometry.Coordinates) == 0 || len(gd.Geometry.Coordinates)%2 != 0 {
 			return s2.Rect{}, errors.New("invalid coordinates count for line")
 		}
 
@@ -135,12 +135,15 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 
 // geoDataToCoverCellUnion generate an s2 cover normalized for GeoData gd
 func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool) (s2.CellUnion, error) {
-	if gd.Geometry == nil {
+	if gd.GetGeometry() == nil {
 		return nil, errors.New("invalid geometry")
 	}
 	var cu s2.CellUnion
 	switch gd.Geometry.Type {
 	case Geometry_POINT:
+		if len(gd.Geometry.Coordinates) != 2 {
+			return nil, errors.New("invalid coordinates count for point")
+		}
 		c := s2.CellIDFromLatLng(s2.LatLngFromDegrees(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0]))
 		cu = append(cu, c.Parent(coverer.MinLevel))
 
@@ -152,7 +155,13 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 		cu = append(cu, cup...)
 
 	case Geometry_MULTIPOLYGON:
+		if len(gd.Geometry.Geometries) == 0 {
+			return nil, errors.New("invalid multipolygon without polygons")
+		}
 		for _, g := range gd.Geometry.Geometries {
+			if g == nil {
+				return nil, errors.New("invalid geometry in multipolygon")
+			}
 			cup, err := coverPolygon(g.Coordinates, coverer, interior)
 			if err != nil {
 				return nil, errors.Wrap(err, "can't cover multipolygon")
@@ -162,7 +171,7 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 		}
 
 	case Geometry_LINESTRING:
-		if len(gd.Geometry.Coordinates)%2 != 0 {
+		if len(gd.Geometry.Coordinates) == 0 || len(gd.Geometry.Coordinates)%2 != 0 {
 			return nil, errors.New("invalid coordinates count for line")
 		}
 
@@ -213,7 +222,7 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 	}
 
 	l := LoopFromCoordinatesAndCCW(c, true)
-	if l.IsEmpty() || l.IsFull() {
+	if l == nil || l.IsEmpty() || l.IsFull() {
 		return nil, errors.New("invalid polygons")
 	}
 
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 5ea69be..b6616fd 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -66,19 +66,34 @@ func (idx *S2PointIdx) PointKey(lat, lng float64, id GeoID) []byte {
 
 // GeoPointKey is returning the key generated for a geopoint + id
 func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error) {
-	if gd.Geometry.Type != geodata.Geometry_POINT {
-		return nil, errors.New("only points are supported")
+	if err := checkPoint(gd); err != nil {
+		return nil, err
 	}
 
 	return idx.PointKey(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0], id), nil
 }
 
+// checkPoint returns an error if gd is not a point with its 2 coordinates
+func checkPoint(gd *geodata.GeoData) error {
+	g := gd.GetGeometry()
+	if g == nil {
+		return errors.New("invalid geometry")
+	}
+	if g.Type != geodata.Geometry_POINT {
+		return errors.New("only points are supported")
+	}
+	if len(g.Coordinates) != 2 {
+		return errors.New("invalid coordinates count for point")
+	}
+	return nil
+}
+
 // GeoPointIndex is geo indexing the geo data point
 // it's not storing GeoData itself but only the geo cell l30 of the point
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2PointIdx) GeoPointIndex(gd *geodata.GeoData, id GeoID) ([]byte, error) {
-	if gd.Geometry.Type != geodata.Geometry_POINT {
-		return nil, errors.New("only points are supported")
+	if err := checkPoint(gd); err != nil {
+		return nil, err
 	}
 
 	return idx.PointIndex(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0], id)
-- 
2.43.0


From 5d36f13e31b3f7df5df3e5406b505d33cbc89797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 19/29] fix: polygons near the north pole had no bounding
 rectangle

Containing the S2 origin point does not make a polygon inside out, covering
more than half of the sphere does.
---
 index/geodata/tools.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 4071a8c..bdaad21 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -107,7 +107,7 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 
 	case Geometry_POLYGON:
 		l := LoopFromCoordinates(gd.Geometry.Coordinates)
-		if l == nil || l.IsEmpty() || l.IsFull() || l.ContainsOrigin() {
+		if l == nil || l.IsEmpty() || l.IsFull() || !l.IsNormalized() {
 			return s2.Rect{}, errors.New("invalid polygon")
 		}
 		return l.RectBound(), nil
-- 
2.43.0


From 2f1c3ec15ef1f6e7d42c9aa7f0d2156d19e036a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 20/29] fix: altitudes and polygon holes were stored as
 vertices

Coordinates are stored as lng,lat pairs of the outer ring.
---
 index/geodata/tools.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index bdaad21..df11b22 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -16,7 +16,7 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 
 	switch g := g.(type) {
 	case *geom.Point:
-		geo.Coordinates = g.Coords()
+		geo.Coordinates = flatXY(g.FlatCoords(), g.Stride())
 		geo.Type = Geometry_POINT
 		//case *geom.MultiPolygon:
 		//	geo.Type = geodata.Geometry_MULTIPOLYGON
@@ -24,11 +24,14 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 	case *geom.Polygon:
 		// only supports outer ring
 		geo.Type = Geometry_POLYGON
-		geo.Coordinates = g.FlatCoords()
+		if g.NumLinearRings() == 0 {
+			return errors.New("polygon without rings")
+		}
+		geo.Coordinates = flatXY(g.FlatCoords()[:g.Ends()[0]], g.Stride())
 
 	case *geom.LineString:
 		geo.Type = Geometry_LINESTRING
-		geo.Coordinates = g.FlatCoords()
+		geo.Coordinates = flatXY(g.FlatCoords(), g.Stride())
 
 	default:
 		return errors.Errorf("unsupported geo type %T", g)
@@ -38,6 +41,18 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 	return nil
 }
 
+// flatXY returns a copy of flat coordinates, keeping only the first 2 dimensions
+func flatXY(flat []float64, stride int) []float64 {
+	if stride < 2 {
+		return nil
+	}
+	res := make([]float64, 0, len(flat)/stride*2)
+	for i := 0; i+1 < len(flat); i += stride {
+		res = append(res, flat[i], flat[i+1])
+	}
+	return res
+}
+
 // GeoDataToGeom converts GeoData to a geom.T representation
 func GeoDataToGeom(gd *GeoData) (geom.T, error) {
 	switch gd.Geometry.Type {
-- 
2.43.0


From da0d512584088e9e05916fa599ff379c3849c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 21/29] fix: the GeoJSON handler crashed on null features and
 levels above 30

---
 index/geodata/tools.go | 4 ++++
 s2tools/handlers.go    | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index df11b22..6c32185 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -69,6 +69,10 @@ func GeoDataToGeom(gd *GeoData) (geom.T, error) {
 
 // GeoJSONFeatureToGeoData fill gd with the GeoJSON data f
 func GeoJSONFeatureToGeoData(f *geojson.Feature, gd *GeoData) error {
+	if f == nil {
+		return errors.New("invalid feature")
+	}
+
 	err := PropertiesToGeoData(f, gd)
 	if err != nil {
 		return errors.Wrap(err, "while converting feature properties to GeoData")
diff --git a/s2tools/handlers.go b/s2tools/handlers.go
index fb033e8..2469cc5 100644
--- a/s2tools/handlers.go
+++ b/s2tools/handlers.go
@@ -13,6 +13,9 @@ import (
 	"github.com/twpayne/go-geom/encoding/geojson"
 )
 
+// s2MaxLevel is the level of the leaf cells
+const s2MaxLevel = 30
+
 // S2CellQueryHandler returns a GeoJSON containing the cells passed in the query
 // ?cells=TokenID,...
 func S2CellQueryHandler(w http.ResponseWriter, r *http.Request) {
@@ -70,6 +73,11 @@ func GeoJSONToCellHandler(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if vals[0] > s2MaxLevel || vals[1] > s2MaxLevel {
+		http.Error(w, "invalid level", 400)
+		return
+	}
+
 	err = dec.Decode(&fc)
 	if err != nil {
 		http.Error(w, err.Error()+" can't unmasrhal JSON", 400)
-- 
2.43.0


From 3f31c7511664ca61374484a254dbb809ad6ee745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 22/29] fix: ParseCellID returned invalid cells

More than 30 digits after the face, and numbers that are not a cell.
---
 s2tools/parse.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/s2tools/parse.go b/s2tools/parse.go
index d3c14a5..bce2f25 100644
--- a/s2tools/parse.go
+++ b/s2tools/parse.go
@@ -14,6 +14,10 @@ func ParseCellID(cs string) *s2.CellID {
 		if err != nil || face < 0 || face > 5 {
 			return nil
 		}
+		// at most one digit per level
+		if len(cs) > 2+30 {
+			return nil
+		}
 		c := s2.CellIDFromFace(face)
 		for _, b := range cs[2:] {
 			child, err := strconv.Atoi(string(b))
@@ -27,7 +31,7 @@ func ParseCellID(cs string) *s2.CellID {
 	}
 
 	c := s2.CellIDFromToken(cs)
-	if c != s2.CellID(0) {
+	if c.IsValid() {
 		return &c
 	}
 
@@ -36,5 +40,8 @@ func ParseCellID(cs string) *s2.CellID {
 		return nil
 	}
 	c = s2.CellID(id)
+	if !c.IsValid() {
+		return nil
+	}
 	return &c
 }
-- 
2.43.0


From 60226c760e4e61f14414cc811533dc60ec7984a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 23/29] fix: boltdb kept the file locked or crashed without its
 bucket

---
 store/boltdb/store.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/store/boltdb/store.go b/store/boltdb/store.go
index 87cd9d8..9521d64 100644
--- a/store/boltdb/store.go
+++ b/store/boltdb/store.go
@@ -86,6 +86,7 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 			return err
 		})
 		if err != nil {
+			_ = db.Close()
 			return nil, err
 		}
 	}
@@ -110,10 +111,16 @@ func (bs *Store) Reader() (store.KVReader, error) {
 	if err != nil {
 		return nil, err
 	}
+	bucket := tx.Bucket([]byte(bs.bucket))
+	if bucket == nil {
+		// opened read only on a file without this bucket
+		_ = tx.Rollback()
+		return nil, bolt.ErrBucketNotFound
+	}
 	return &Reader{
 		store:  bs,
 		tx:     tx,
-		bucket: tx.Bucket([]byte(bs.bucket)),
+		bucket: bucket,
 	}, nil
 }
 
-- 
2.43.0


From d156ab5ac522da459431bff30e316b154624e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 24/29] fix: goleveldb merges saw a deleted key as an empty
 value

---
 store/goleveldb/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/store/goleveldb/writer.go b/store/goleveldb/writer.go
index 086f1d8..1ad4e06 100644
--- a/store/goleveldb/writer.go
+++ b/store/goleveldb/writer.go
@@ -51,7 +51,11 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 	for k, mergeOps := range batch.merge.Merges {
 		kb := []byte(k)
 		existingVal, err := w.store.db.Get(kb, w.store.defaultReadOptions)
-		if err != nil && err != leveldb.ErrNotFound {
+		if err == leveldb.ErrNotFound {
+			// a recently deleted key comes back as an empty value
+			existingVal, err = nil, nil
+		}
+		if err != nil {
 			return err
 		}
 		mergedVal, fullMergeOk := w.store.mo.FullMerge(kb, existingVal, mergeOps)
-- 
2.43.0


From 3bfc1113e39f7109c1075523b967a839e69634df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 25/29] fix: goleveldb reads went back to older values after a
 large batch or a compaction

---
 store/goleveldb/store.go | 63 +++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index ac821b9..0f374da 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -59,6 +59,11 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 		return nil, err
 	}
 
+	// goleveldb writes batches larger than the write buffer in a transaction,
+	// which does not wait for the flush of a full memdb: until that ends, reads
+	// find the values of the memdb before those of the later transaction
+	opts.DisableLargeBatchTransaction = true
+
 	db, err := leveldb.OpenFile(path, opts)
 	if err != nil {
 		return nil, err
@@ -97,45 +102,43 @@ func (ldbs *Store) Writer() (store.KVWriter, error) {
 	}, nil
 }
 
+// removeZeroCounts deletes up to batchSize DictionaryTerm entries with a count of zero
+// and returns how many it found, no other batch is executed meanwhile.
+func (ldbs *Store) removeZeroCounts(batch *leveldb.Batch, batchSize int) (int, error) {
+	ldbs.wm.Lock()
+	defer ldbs.wm.Unlock()
+
+	iter := ldbs.db.NewIterator(util.BytesPrefix([]byte("d")), ldbs.defaultReadOptions)
+	for iter.Next() {
+		if bytes.Equal(iter.Value(), []byte{0}) {
+			k := append([]byte{}, iter.Key()...)
+			batch.Delete(k)
+		}
+		if batch.Len() == batchSize {
+			break
+		}
+	}
+	iter.Release()
+	if err := iter.Error(); err != nil {
+		return 0, err
+	}
+	if batch.Len() == 0 {
+		return 0, nil
+	}
+	return batch.Len(), ldbs.db.Write(batch, ldbs.defaultWriteOptions)
+}
+
 // CompactWithBatchSize removes DictionaryTerm entries with a count of zero (in batchSize batches), then
 // compacts the underlying goleveldb store.  Removing entries is a workaround for github issue #374.
 func (ldbs *Store) CompactWithBatchSize(batchSize int) error {
 	// workaround for github issue #374 - remove DictionaryTerm keys with count=0
 	batch := &leveldb.Batch{}
 	for {
-		t, err := ldbs.db.OpenTransaction()
+		n, err := ldbs.removeZeroCounts(batch, batchSize)
 		if err != nil {
 			return err
 		}
-		iter := t.NewIterator(util.BytesPrefix([]byte("d")), ldbs.defaultReadOptions)
-
-		for iter.Next() {
-			if bytes.Equal(iter.Value(), []byte{0}) {
-				k := append([]byte{}, iter.Key()...)
-				batch.Delete(k)
-			}
-			if batch.Len() == batchSize {
-				break
-			}
-		}
-		iter.Release()
-		if iter.Error() != nil {
-			t.Discard()
-			return iter.Error()
-		}
-
-		if batch.Len() > 0 {
-			err := t.Write(batch, ldbs.defaultWriteOptions)
-			if err != nil {
-				t.Discard()
-				return err
-			}
-			err = t.Commit()
-			if err != nil {
-				return err
-			}
-		} else {
-			t.Discard()
+		if n == 0 {
 			break
 		}
 		batch.Reset()
-- 
2.43.0


From 70560b8ead341fc24ab2387d4f03f857a02005fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:23 +0000
Subject: [PATCH 26/29] fix: goleveldb panicked on range iterators whose start
 is after their end

---
 store/goleveldb/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/store/goleveldb/reader.go b/store/goleveldb/reader.go
index 4265bb2..ed33a65 100644
--- a/store/goleveldb/reader.go
+++ b/store/goleveldb/reader.go
@@ -15,6 +15,8 @@
 package goleveldb
 
 import (
+	"bytes"
+
 	"github.com/akhenakh/oureadb/store"
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/util"
@@ -49,6 +51,10 @@ func (r *Reader) PrefixIterator(prefix []byte) store.KVIterator {
 }
 
 func (r *Reader) RangeIterator(start, end []byte) store.KVIterator {
+	if end != nil && bytes.Compare(start, end) > 0 {
+		// goleveldb may panic on an inverted range
+		start = end
+	}
 	byteRange := &util.Range{
 		Start: start,
 		Limit: end,
-- 
2.43.0


From a053438790923c119d0a763a411d6b94022fba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:52 +0000
Subject: [PATCH 27/29] fix: indexes kept a reference to the caller's prefix

---
 index/s2idx.go      | 2 +-
 index/s2pointidx.go | 2 +-
 index/s2timeidx.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index e9849b4..4a4f959 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -25,7 +25,7 @@ type S2FlatIdx struct {
 func NewS2FlatIdx(s store.KVStore, prefix []byte, level int) *S2FlatIdx {
 	return &S2FlatIdx{
 		KVStore: s,
-		prefix:  prefix,
+		prefix:  append([]byte(nil), prefix...),
 		level:   level,
 	}
 }
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index b6616fd..2b2b52b 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -22,7 +22,7 @@ type S2PointIdx struct {
 func NewS2PointIdx(s store.KVStore, prefix []byte) *S2PointIdx {
 	return &S2PointIdx{
 		KVStore: s,
-		prefix:  prefix,
+		prefix:  append([]byte(nil), prefix...),
 	}
 }
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index bc326cf..623a969 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -27,7 +27,7 @@ type S2FlatTimeIdx struct {
 func NewS2FlatTimeIdx(s store.KVStore, prefix []byte, level int) *S2FlatTimeIdx {
 	return &S2FlatTimeIdx{
 		KVStore: s,
-		prefix:  prefix,
+		prefix:  append([]byte(nil), prefix...),
 		level:   level,
 	}
 }
-- 
2.43.0


From 56eb0268a2865d574a5495546059f5284bfde484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:48 +0000
Subject: [PATCH 28/29] fix: rectangle queries missed points below a cell edge
 running west

---
 index/tools.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/index/tools.go b/index/tools.go
index 6e9fd43..5bc2f5b 100644
--- a/index/tools.go
+++ b/index/tools.go
@@ -40,12 +40,29 @@ func s2RadialAreaMeters(radius float64) float64 {
 	return math.Pi * r * r
 }
 
+// rect is an s2.Rect that finds all the cells it intersects
+type rect struct {
+	s2.Rect
+}
+
 // rectFromCorners returns the rect running east from the bottom left to the upper right corner
-func rectFromCorners(urlat, urlng, bllat, bllng float64) s2.Rect {
+func rectFromCorners(urlat, urlng, bllat, bllng float64) rect {
 	ur := s2.LatLngFromDegrees(urlat, urlng).Normalized()
 	bl := s2.LatLngFromDegrees(bllat, bllng).Normalized()
-	return s2.Rect{
+	return rect{s2.Rect{
 		Lat: r1.IntervalFromPoint(bl.Lat.Radians()).AddPoint(ur.Lat.Radians()),
 		Lng: s1.IntervalFromEndpoints(bl.Lng.Radians(), ur.Lng.Radians()),
+	}}
+}
+
+// IntersectsCell reports whether the rect and the cell intersect,
+// s2.Rect ignores crossings of the cell edges running west: these run east upside down.
+func (r rect) IntersectsCell(c s2.Cell) bool {
+	if r.Rect.IntersectsCell(c) {
+		return true
 	}
+	p := c.Center()
+	p.Z = -p.Z
+	m := s2.Rect{Lat: r1.Interval{Lo: -r.Lat.Hi, Hi: -r.Lat.Lo}, Lng: r.Lng}
+	return m.IntersectsCell(s2.CellFromCellID(s2.CellFromPoint(p).ID().Parent(c.Level())))
 }
-- 
2.43.0


From a4a78b635301aa25fc0ffc28c831a376ffee543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:39 +0000
Subject: [PATCH 29/29] fix: goleveldb stores could not be opened after losing
 power

goleveldb points CURRENT at a new manifest without syncing it.
---
 store/goleveldb/storage.go | 44 ++++++++++++++++++++++++++++++++++++++
 store/goleveldb/store.go   | 16 ++++++++++++--
 2 files changed, 58 insertions(+), 2 deletions(-)
 create mode 100644 store/goleveldb/storage.go

diff --git a/store/goleveldb/storage.go b/store/goleveldb/storage.go
new file mode 100644
index 0000000..453c1db
--- /dev/null
+++ b/store/goleveldb/storage.go
@@ -0,0 +1,44 @@
+package goleveldb
+
+import (
+	"sync"
+
+	"github.com/syndtr/goleveldb/leveldb/storage"
+)
+
+// syncedStorage syncs a manifest before it becomes the current one. goleveldb
+// does not, so that losing power soon after opening a store left it with a
+// current manifest without contents, and the store could not be opened again.
+type syncedStorage struct {
+	storage.Storage
+
+	m          sync.Mutex
+	manifestFd storage.FileDesc
+	manifest   storage.Writer
+}
+
+func (s *syncedStorage) Create(fd storage.FileDesc) (storage.Writer, error) {
+	w, err := s.Storage.Create(fd)
+	if err == nil && fd.Type == storage.TypeManifest {
+		s.m.Lock()
+		s.manifestFd, s.manifest = fd, w
+		s.m.Unlock()
+	}
+	return w, err
+}
+
+func (s *syncedStorage) SetMeta(fd storage.FileDesc) error {
+	s.m.Lock()
+	w := s.manifest
+	if fd != s.manifestFd {
+		w = nil
+	}
+	s.m.Unlock()
+
+	if w != nil {
+		if err := w.Sync(); err != nil {
+			return err
+		}
+	}
+	return s.Storage.SetMeta(fd)
+}
diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index 0f374da..e6790f5 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -23,6 +23,7 @@ import (
 	"github.com/akhenakh/oureadb/store"
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/opt"
+	"github.com/syndtr/goleveldb/leveldb/storage"
 	"github.com/syndtr/goleveldb/leveldb/util"
 )
 
@@ -34,6 +35,7 @@ const (
 type Store struct {
 	path string
 	opts *opt.Options
+	stor storage.Storage
 	db   *leveldb.DB
 	mo   store.MergeOperator
 
@@ -64,14 +66,20 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 	// find the values of the memdb before those of the later transaction
 	opts.DisableLargeBatchTransaction = true
 
-	db, err := leveldb.OpenFile(path, opts)
+	stor, err := storage.OpenFile(path, opts.GetReadOnly())
 	if err != nil {
 		return nil, err
 	}
+	db, err := leveldb.Open(&syncedStorage{Storage: stor}, opts)
+	if err != nil {
+		_ = stor.Close()
+		return nil, err
+	}
 
 	rv := Store{
 		path:                path,
 		opts:                opts,
+		stor:                stor,
 		db:                  db,
 		mo:                  mo,
 		defaultReadOptions:  &opt.ReadOptions{},
@@ -82,7 +90,11 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 }
 
 func (ldbs *Store) Close() error {
-	return ldbs.db.Close()
+	err := ldbs.db.Close()
+	if serr := ldbs.stor.Close(); err == nil {
+		err = serr
+	}
+	return err
 }
 
 func (ldbs *Store) Reader() (store.KVReader, error) {
-- 
2.43.0

