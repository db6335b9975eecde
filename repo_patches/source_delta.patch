From 322c367eb6c3fe9667ea17a444dfae5900bf5977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 01/39] fix: index lookups return the newest version not above
 the generation

find() returned the first version at or after the requested generation and
ignored an older one, and it compared unrelated keys by order only, so that a
lookup of a missing item could return another item.
---
 pkg/btrfs/index/index_store.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index c87f6bb..1e7fa5f 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -287,17 +287,23 @@ func lowerBound(c *bbolt.Cursor, owner uint64, k btrfs.Key, gen uint64,
 	}
 }
 
+// find looks up the version of an item with the highest generation smaller
+// than or equal to the given generation. If all versions of the item are newer,
+// it finds the earliest one.
 func find(c *bbolt.Cursor, owner uint64, k btrfs.Key, generation uint64) (
 	keyV2, btrfs.Item) {
 	search := newIndexKey(owner, k, generation)
-	var found keyV2
 	found, v := c.Seek(search)
-	if bytes.Compare(found[:keyV2Generation],
-		search[:keyV2Generation]) <= 0 {
+	if bytes.Equal(found, search) {
 		return found, v
 	}
-	if found, v = c.Prev(); len(found) > 0 && bytes.Equal(
-		found[:keyV2Generation], search[:keyV2Generation]) {
+	// The cursor is at the first newer version or at the next item, so the
+	// version to look for comes right before.
+	prefix := search[:keyV2Generation]
+	if prev, pv := c.Prev(); bytes.HasPrefix(prev, prefix) {
+		return prev, pv
+	}
+	if bytes.HasPrefix(found, prefix) {
 		return found, v
 	}
 	return nil, nil
-- 
2.43.0


From a42fcf112844b7e843d11c6c6edb8fb8c67298ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 02/39] fix: index ranges yield every item at the index
 generation

A range ended at the first item whose generation differs from that of the item
before it, did not start unless the first object id existed, ignored the first
offset and never ended at an item with the highest generation.
---
 pkg/btrfs/index/index_store.go | 69 ++++++++++++----------------------
 1 file changed, 23 insertions(+), 46 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 1e7fa5f..32de0f5 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -259,34 +259,6 @@ func (ix *Index) RawTx(fn func(db *bbolt.DB, tx *bbolt.Tx,
 	return ix.Commit()
 }
 
-// lowerBound finds an FS key under a given owner and only up to a prefix
-// length. It find the key with the highest generation number smaller than or
-// equal to the index generation.
-// For example, to search for (256 DIR_INDEX ?) owned by the FS tree object:
-//   lowerBound(FSTreeObjectID, KF(DIR_INDEX, 256), keyV2Offset)
-func lowerBound(c *bbolt.Cursor, owner uint64, k btrfs.Key, gen uint64,
-	prefix int) btrfs.Key {
-	var cur, next keyV2
-	search := newIndexKey(owner, k, 0)[:prefix]
-	cur, _ = c.Seek(search)
-	if cur == nil || !bytes.Equal(cur[:prefix], search) {
-		return KL()
-	}
-
-	for {
-		curKeyPrefix := cur[:keyV2Generation]
-		next, _ = c.Next()
-		if next != nil && bytes.Equal(next[:keyV2Generation], curKeyPrefix) {
-			if next.Generation() > gen {
-				return cur.Key()
-			}
-			cur = next
-			continue
-		}
-		return cur.Key()
-	}
-}
-
 // find looks up the version of an item with the highest generation smaller
 // than or equal to the given generation. If all versions of the item are newer,
 // it finds the earliest one.
@@ -309,19 +281,19 @@ func find(c *bbolt.Cursor, owner uint64, k btrfs.Key, generation uint64) (
 	return nil, nil
 }
 
-func findNext(c *bbolt.Cursor, ik, end keyV2) (keyV2, btrfs.Item) {
-	search := newIndexKey(ik.Owner(), ik.Key(), ^uint64(0))
+// findNext finds the item that follows all versions of the item with the given
+// index key.
+func findNext(c *bbolt.Cursor, ik keyV2, generation uint64) (keyV2,
+	btrfs.Item) {
 	var found keyV2
-	if found, _ = c.Seek(search); found != nil {
-		search = newIndexKey(ik.Owner(), found.Key(), ik.Generation())
-		var v btrfs.Item
-		if found, v = c.Seek(search); bytes.Compare(found, search) <= 0 {
-			return found, v
-		} else if end != nil && bytes.Compare(found, end) <= 0 {
-			return found, v
-		}
+	found, _ = c.Seek(newIndexKey(ik.Owner(), ik.Key(), ^uint64(0)))
+	if bytes.HasPrefix(found, ik[:keyV2Generation]) {
+		found, _ = c.Next()
 	}
-	return nil, nil
+	if found == nil {
+		return nil, nil
+	}
+	return find(c, found.Owner(), found.Key(), generation)
 }
 
 // Range encapsulates a generic index range. Internally, it holds a cursor of
@@ -338,11 +310,14 @@ type Range struct {
 func (r *Range) Index() *Index { return r.ix }
 
 func (r *Range) HasNext() bool {
-	return r.key != nil && bytes.Compare(r.key, r.end) <= 0
+	// The generation selects the version of an item, it is not part of the range
+	return r.key != nil && bytes.Compare(r.key[:keyV2Generation],
+		r.end[:keyV2Generation]) <= 0
 }
 
 func (r *Range) Next() []byte {
-	if r.key, r.value = findNext(r.cursor, r.key, nil); r.key != nil {
+	if r.key, r.value = findNext(r.cursor, r.key,
+		r.ix.Generation); r.HasNext() {
 		return r.value.Data()
 	}
 	return nil
@@ -353,17 +328,19 @@ func (r *Range) Key() btrfs.Key     { return r.key.Key() }
 func (r *Range) Generation() uint64 { return r.key.Generation() }
 func (r *Range) Item() btrfs.Item   { return r.value }
 
-// Range returns an index range [first, last) for the given keys.
+// Range returns an index range [first, last] for the given keys.
 func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
 		cursor: ix.bucket.Cursor(),
 		end:    newIndexKey(owner, last, ix.Generation),
 	}
-	lowerFirst := lowerBound(r.cursor, owner, first, ix.Generation,
-		keyV2Offset)
-	r.key, r.value = find(r.cursor, owner, lowerFirst, ix.Generation)
-	if r.key != nil {
+	var lower keyV2
+	if lower, _ = r.cursor.Seek(newIndexKey(owner, first, 0)); lower == nil {
+		return r, nil
+	}
+	r.key, r.value = find(r.cursor, lower.Owner(), lower.Key(), ix.Generation)
+	if r.HasNext() {
 		return r, r.value.Data()
 	}
 	return r, nil
-- 
2.43.0


From bd321f02d46c7c27fad7bef085a52bcaae6c61ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 03/39] fix: full index range contains items only

dump-index listed the metadata record as if it was an item and crashed if there
were no items.
---
 pkg/btrfs/index/index_store.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 32de0f5..47234df 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -356,8 +356,18 @@ type FullRange struct {
 }
 
 func (r *FullRange) Next() []byte {
-	if r.key, r.value = r.cursor.Next(); r.key != nil && !bytes.Equal(r.key,
-		r.end) {
+	r.key, r.value = r.cursor.Next()
+	return r.skipMetadata()
+}
+
+func (r *FullRange) HasNext() bool { return r.key != nil }
+
+// skipMetadata makes sure that the range does not contain the index metadata.
+func (r *FullRange) skipMetadata() []byte {
+	if bytes.Equal(r.key, metadataKey) {
+		r.key, r.value = r.cursor.Next()
+	}
+	if r.key != nil {
 		return r.value.Data()
 	}
 	return nil
@@ -369,11 +379,9 @@ func (ix *Index) FullRange() (FullRange, []byte) {
 	r := FullRange{Range{
 		ix:     ix,
 		cursor: ix.bucket.Cursor(),
-		end:    newIndexKey(^uint64(0), KL(), ix.Generation),
 	}}
-	// No check, since openIndex should fail if there's no data
 	r.key, r.value = r.cursor.First()
-	return r, r.value.Data()
+	return r, r.skipMetadata()
 }
 
 // Subvolumes returns an index range containing all of the subvolumes. Note that
-- 
2.43.0


From 8a2d6b52649da5c6390ba4b615f0dd8e093ae06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 04/39] fix: index can be queried after a commit

Commit() ends the transaction, also when InsertItem() calls it for a full
batch. All queries crashed from then on until the next insert.
---
 pkg/btrfs/index/index_store.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 47234df..790219c 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -176,7 +176,7 @@ func (ix *Index) checkUpdateMetadata(o *Options) error {
 }
 
 func (ix *Index) Metadata() indexMetadata {
-	return indexMetadata(ix.bucket.Get(metadataKey))
+	return indexMetadata(ix.queryBucket().Get(metadataKey))
 }
 
 // Close closes the index and its underlying bbolt database.
@@ -207,6 +207,17 @@ func (ix *Index) ensureTx(writable bool) error {
 	return err
 }
 
+// queryBucket returns the bucket to run queries on. After a commit, this begins
+// a new transaction.
+func (ix *Index) queryBucket() *bbolt.Bucket {
+	if ix.tx == nil {
+		if err := ix.ensureTx(!ix.db.IsReadOnly()); err != nil {
+			panic(err) // Index was closed
+		}
+	}
+	return ix.bucket
+}
+
 // InsertItem inserts a filesystem item into the index, referenceable by its
 // BTRFS key. Also stores the item's owner and generation number, as well as
 // its inline data.
@@ -332,7 +343,7 @@ func (r *Range) Item() btrfs.Item   { return r.value }
 func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
-		cursor: ix.bucket.Cursor(),
+		cursor: ix.queryBucket().Cursor(),
 		end:    newIndexKey(owner, last, ix.Generation),
 	}
 	var lower keyV2
@@ -378,7 +389,7 @@ func (r *FullRange) skipMetadata() []byte {
 func (ix *Index) FullRange() (FullRange, []byte) {
 	r := FullRange{Range{
 		ix:     ix,
-		cursor: ix.bucket.Cursor(),
+		cursor: ix.queryBucket().Cursor(),
 	}}
 	r.key, r.value = r.cursor.First()
 	return r, r.skipMetadata()
@@ -423,7 +434,7 @@ func (ix *Index) DevItems() (Range, btrfs.DevItem) {
 // to the current index generation. If the index generation is smaller than
 // any existing generation, the data at the earliest generatation is returned.
 func (ix *Index) FindItem(owner uint64, k btrfs.Key) btrfs.Item {
-	_, i := find(ix.bucket.Cursor(), owner, k, ix.Generation)
+	_, i := find(ix.queryBucket().Cursor(), owner, k, ix.Generation)
 	return i
 }
 
-- 
2.43.0


From b81918ec562adc175e33444269f2bcaa2b2febd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 05/39] fix: close the database when opening an index fails

The file stayed locked, so that any later open in the same process blocked.
---
 pkg/btrfs/index/index_store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 790219c..cbdd9b9 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -115,9 +115,11 @@ func openIndex(path string, m os.FileMode, o *Options) (*Index, error) {
 		return nil, err
 	}
 	if err = ix.checkUpdateMetadata(o); err != nil {
+		ix.db.Close()
 		return nil, err
 	}
 	if err = ix.ensureTx(!o.ReadOnly); err != nil {
+		ix.db.Close()
 		return nil, err
 	}
 	return ix, nil
-- 
2.43.0


From f26eb261d0017250305a00cc7bb96db20edc9d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 06/39] fix: sample offsets stay on the device and are exact in
 number

Do not sample positions past the end of the device, sample the blocks of all
superblock copies, and never ask for more samples than there are blocks. Reject
block sizes that cannot hold an item.
---
 internal/identify/identify.go | 26 ++++++++++++--------------
 pkg/btrfs/util.go             |  4 +++-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/internal/identify/identify.go b/internal/identify/identify.go
index c89d88b..c945ef3 100644
--- a/internal/identify/identify.go
+++ b/internal/identify/identify.go
@@ -29,23 +29,21 @@ func (a Uint64Array) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
 func (a Uint64Array) Sort()              { sort.Sort(a) }
 
 func MakeSampleOffsets(devSize, blockSize, numSamples uint64) []uint64 {
-	sampleSet := make(map[uint64]bool)
-	for i := 0; i < 100; i++ {
-		sampleSet[btrfs.SuperInfoOffset+uint64(i)*blockSize] = true
-		sampleSet[btrfs.SuperInfoOffset2+uint64(i+100)*blockSize] = true
+	numBlocks := int64(devSize / blockSize)
+	// There cannot be more samples than blocks on the device
+	if numSamples > uint64(numBlocks) {
+		numSamples = uint64(numBlocks)
 	}
-	if devSize >= btrfs.SuperInfoOffset3 {
-		for i := 0; i < 100; i++ {
-			sampleSet[btrfs.SuperInfoOffset3+uint64(i+200)*blockSize] = true
-		}
-		if devSize >= btrfs.SuperInfoOffset4 {
-			// For completeness, handle huge devices
-			for i := 0; i < 100; i++ {
-				sampleSet[btrfs.SuperInfoOffset3+uint64(i+300)*blockSize] = true
-			}
+	sampleSet := make(map[uint64]bool)
+	// For completeness, handle huge devices
+	for _, o := range []uint64{btrfs.SuperInfoOffset, btrfs.SuperInfoOffset2,
+		btrfs.SuperInfoOffset3, btrfs.SuperInfoOffset4} {
+		for i := 0; i < 100 && o+blockSize <= devSize &&
+			uint64(len(sampleSet)) < numSamples; i++ {
+			sampleSet[o] = true
+			o += blockSize
 		}
 	}
-	numBlocks := int64(devSize / blockSize)
 	for uint64(len(sampleSet)) < numSamples {
 		sampleSet[uint64(rand.Int63n(numBlocks))*blockSize] = true
 	}
diff --git a/pkg/btrfs/util.go b/pkg/btrfs/util.go
index 7a30acb..8f285e8 100644
--- a/pkg/btrfs/util.go
+++ b/pkg/btrfs/util.go
@@ -13,7 +13,9 @@ import (
 func CheckDeviceSize(rs io.ReadSeeker, blockSize uint64) (uint64, error) {
 	size, err := rs.Seek(0, io.SeekEnd)
 	if err == nil {
-		if uint64(size) < blockSize {
+		if blockSize < HeaderLen+ItemLen {
+			err = fmt.Errorf("block size too small: %d", blockSize)
+		} else if uint64(size) < blockSize {
 			err = fmt.Errorf("device smaller than block size: %d < %d", size,
 				blockSize)
 		} else if uint64(size) < SuperInfoOffset2+blockSize*100 {
-- 
2.43.0


From fec5a36726275f2d65119f3fb8ccd9d2443fffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 07/39] fix: ReadBlockAt delivers the whole block or an error

---
 pkg/ioutil/ioutil.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ioutil/ioutil.go b/pkg/ioutil/ioutil.go
index 4be2863..e30f2a9 100644
--- a/pkg/ioutil/ioutil.go
+++ b/pkg/ioutil/ioutil.go
@@ -13,10 +13,10 @@ import (
 //
 // It always either reads a full block or reports an error.
 func ReadBlockAt(r io.ReaderAt, block []byte, offset uint64) error {
-	if read, err := r.ReadAt(block, int64(offset)); err != nil {
-		return err
-	} else if read == len(block) {
+	if read, err := r.ReadAt(block, int64(offset)); read == len(block) {
 		return nil // Never return EOF if read succeeded
+	} else if err != nil {
+		return err
 	}
-	return nil
+	return io.ErrUnexpectedEOF
 }
-- 
2.43.0


From 078b5c30b15efcf0f8f6f53a645272747a51a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 08/39] fix: entropy does not depend on map iteration order

---
 pkg/coding/entropy.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/coding/entropy.go b/pkg/coding/entropy.go
index 2b9a262..00bc453 100644
--- a/pkg/coding/entropy.go
+++ b/pkg/coding/entropy.go
@@ -7,6 +7,7 @@ package coding
 
 import (
 	"math"
+	"sort"
 )
 
 func ShannonEntropy(b []byte) float64 {
@@ -14,14 +15,16 @@ func ShannonEntropy(b []byte) float64 {
 	for _, v := range b {
 		hist[v]++
 	}
-	p := make(map[byte]float64)
+	// Sum up in a fixed order, rounding depends on it
+	p := make([]float64, 0, len(hist))
 	l := float64(len(b))
-	for v, c := range hist {
-		p[v] = float64(c) / l
+	for _, c := range hist {
+		p = append(p, float64(c)/l)
 	}
+	sort.Float64s(p)
 	e := float64(0)
 	for _, v := range p {
-		e += v * math.Log2(v)
+		e -= v * math.Log2(v)
 	}
-	return -e
+	return e
 }
-- 
2.43.0


From d55249a35eb19d8527fd7392db12e544ce41960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 09/39] fix: dump-index prints the first owner whatever it is

---
 cmd/dump_index.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/dump_index.go b/cmd/dump_index.go
index 34deb00..a44fd03 100644
--- a/cmd/dump_index.go
+++ b/cmd/dump_index.go
@@ -36,11 +36,11 @@ func doDumpIndex(metadata string) {
 	cliutil.ReportError(err)
 	defer ix.Close()
 
-	last := ^uint64(0)
+	first, last := true, uint64(0)
 	for r, v := ix.FullRange(); r.HasNext(); v = r.Next() {
-		if o := r.Owner(); o != last {
+		if o := r.Owner(); first || o != last {
 			fmt.Printf("owner %d\n", o)
-			last = o
+			first, last = false, o
 		}
 		k := r.Key()
 		fmt.Printf("%s @ %d\n", k, r.Generation())
-- 
2.43.0


From 270a173cf899d78e897c3dc016f00dd5becffbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 10/39] fix: entries with equal name hashes are all found

Directory entries and extended attributes whose names have the same hash share
one item, of which only the first entry was read.
---
 cmd/ls.go                      |  4 +---
 cmd/recover.go                 |  7 +------
 internal/rescuefs/nodefs.go    |  6 +++---
 pkg/btrfs/btrfs.go             | 15 +++++++++++++++
 pkg/btrfs/index/index_store.go | 29 ++++++++++++++++++++++++-----
 5 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index 81c0f58..cd1983a 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -97,9 +97,7 @@ func (a dirItemSlice) Sort()         { sort.Sort(a) }
 func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 	recursive, showInode bool) {
 	dis := dirItemSlice{}
-	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
-		dis = append(dis, v)
-	}
+	dis = append(dis, ix.DirEntries(owner, dirID)...)
 	sort.Sort(dis)
 	todo := dirItemSlice{}
 	for _, di := range dis {
diff --git a/cmd/recover.go b/cmd/recover.go
index 25bdd46..d82ed75 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -95,12 +95,7 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 		return err
 	}
 
-	dis := []btrfs.DirItem{}
-	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
-		dis = append(dis, v)
-	}
-
-	for _, di := range dis {
+	for _, di := range ix.DirEntries(owner, dirID) {
 		name := di.Name()
 		if name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
 			continue
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 892283d..210197b 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -134,7 +134,7 @@ func (n *rescueNode) ensureDirItems() {
 	if len(n.dirItems) > 0 {
 		return
 	}
-	for r, d := n.ix.DirItems(n.owner, n.ixInode); r.HasNext(); d = r.Next() {
+	for _, d := range n.ix.DirEntries(n.owner, n.ixInode) {
 		n.dirItems[d.Name()] = d
 	}
 }
@@ -194,7 +194,7 @@ func (n *rescueNode) Open(flags uint32, context *fuse.Context) (
 func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
 	data []byte, code fuse.Status) {
 	// TODO(cblichmann): This should use btrfs.NameHash() for lookup
-	for r, x := n.ix.XAttrItems(n.owner, n.ixInode); r.HasNext(); x = r.Next() {
+	for _, x := range n.ix.XAttrEntries(n.owner, n.ixInode) {
 		if x.Name() == attribute {
 			return []byte(x.Data()), fuse.OK
 		}
@@ -204,7 +204,7 @@ func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
 
 func (n *rescueNode) ListXAttr(context *fuse.Context) ([]string, fuse.Status) {
 	attrs := []string{}
-	for r, x := n.ix.XAttrItems(n.owner, n.ixInode); r.HasNext(); x = r.Next() {
+	for _, x := range n.ix.XAttrEntries(n.owner, n.ixInode) {
 		attrs = append(attrs, x.Name())
 	}
 	return attrs, fuse.OK
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index b08d79f..1bb9b7a 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -565,6 +565,21 @@ func (d DirItem) Data() string {
 	return string(d[o : o+d.DataLen()])
 }
 
+// Entries splits an item into its entries. Entries whose names have the same
+// hash are stored one after the other in a single item.
+func (d DirItem) Entries() []DirItem {
+	var entries []DirItem
+	for len(d) >= dirItemName {
+		l := dirItemName + int(d.NameLen()) + int(d.DataLen())
+		if l > len(d) {
+			break // Damaged entry
+		}
+		entries = append(entries, d[:l:l])
+		d = d[l:]
+	}
+	return entries
+}
+
 func (d DirItem) IsDir() bool       { return d.Type() == FtDir }
 func (d DirItem) IsSubvolume() bool { return d.Location().Type == RootItemKey }
 
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index cbdd9b9..9303630 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -415,6 +415,24 @@ func (ix *Index) XAttrItems(owner, id uint64) (Range, btrfs.DirItem) {
 	return ix.RangeAll(owner, btrfs.XAttrItemKey, id)
 }
 
+func entries(r Range, d btrfs.DirItem) []btrfs.DirItem {
+	var result []btrfs.DirItem
+	for ; r.HasNext(); d = r.Next() {
+		result = append(result, d.Entries()...)
+	}
+	return result
+}
+
+// DirEntries returns all entries of a directory.
+func (ix *Index) DirEntries(owner, id uint64) []btrfs.DirItem {
+	return entries(ix.DirItems(owner, id))
+}
+
+// XAttrEntries returns all extended attributes of an inode.
+func (ix *Index) XAttrEntries(owner, id uint64) []btrfs.DirItem {
+	return entries(ix.XAttrItems(owner, id))
+}
+
 func (ix *Index) FileExtentItems(owner, id uint64) (Range,
 	btrfs.FileExtentItem) {
 	return ix.RangeAll(owner, btrfs.ExtentDataKey, id)
@@ -513,15 +531,16 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 		// (dirID, BTRFS_DIR_ITEM, CRC32(comp))
 		if v := ix.FindItem(owner, KF(btrfs.DirItemKey, dirID,
 			uint64(NameHash(comp)))); v != nil {
-			d = v.Data()
-			if found = d.Name() == comp; found {
-				result = d
+			for _, d = range btrfs.DirItem(v.Data()).Entries() {
+				if found = d.Name() == comp; found {
+					result = d
+					break
+				}
 			}
 		}
 		if !found {
 			// Slow path: Lookup items in directory (dirID, BTRFS_DIR_INDEX, ?)
-			var r Range
-			for r, d = ix.DirItems(owner, dirID); r.HasNext(); d = r.Next() {
+			for _, d = range ix.DirEntries(owner, dirID) {
 				if found = d.Name() == comp && (d.IsDir() || last); found {
 					result = d
 					break
-- 
2.43.0


From 3a28480e4007b9537206959b9e31897b576f99f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 11/39] fix: damaged leaves and items do not crash commands

Clamp the number of items, their offsets and lengths to the block, and ignore
items that are too short for their type.
---
 cmd/recover.go                 |  4 +++-
 pkg/btrfs/btrfs.go             | 23 +++++++++++++++++------
 pkg/btrfs/index/index_store.go | 14 ++++++++++----
 pkg/btrfs/leaf.go              | 23 +++++++++++++++++------
 4 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index d82ed75..e1a7f22 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -159,7 +159,9 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 	for ; r.HasNext(); e = r.Next() {
 		fileOffset := r.Key().Offset
 
-		if e.IsInline() {
+		if !e.IsValid() {
+			cliutil.Warnf("skipping damaged extent of file %s\n", targetPath)
+		} else if e.IsInline() {
 			inlineData := []byte(e.Data())
 			limit := len(inlineData)
 			if ii != nil && int64(fileOffset)+int64(limit) > int64(fileSize) {
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 1bb9b7a..4e36d85 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -444,6 +444,11 @@ func (c Chunk) NumStripes() uint16 { return SliceUint16LE(c[chunkNumStripes:]) }
 // Sub stripes only matter for raid10
 func (c Chunk) SubStripes() uint16 { return SliceUint16LE(c[chunkSubStripes:]) }
 
+// IsValid returns whether the chunk has at least one complete stripe.
+func (c Chunk) IsValid() bool {
+	return len(c) >= chunkStripes+stripeEnd && c.NumStripes() > 0
+}
+
 // Stripe returns the ith stripe of this chunk.
 func (c Chunk) Stripe(i uint16) Stripe {
 	return Stripe(c[chunkStripes+i*stripeEnd:])
@@ -561,8 +566,8 @@ func (d DirItem) Name() string {
 }
 
 func (d DirItem) Data() string {
-	o := dirItemName + d.NameLen()
-	return string(d[o : o+d.DataLen()])
+	o := dirItemName + int(d.NameLen())
+	return string(d[o : o+int(d.DataLen())])
 }
 
 // Entries splits an item into its entries. Entries whose names have the same
@@ -679,11 +684,17 @@ func (i FileExtentItem) IsInline() bool { return i.Type() == FileExtentInline }
 
 // The data returned is only valid if Type == FileExtentInline:
 func (i FileExtentItem) Data() string {
-	l := int(i.RAMBytes())
-	if l > DefaultBlockSize {
-		l = DefaultBlockSize
+	data := i[fileExtentItemDiskByteNr:]
+	if l := i.RAMBytes(); l < uint64(len(data)) {
+		data = data[:l]
 	}
-	return string(i[fileExtentItemDiskByteNr : fileExtentItemDiskByteNr+l])
+	return string(data)
+}
+
+// IsValid returns whether the item is long enough for its type.
+func (i FileExtentItem) IsValid() bool {
+	return len(i) > fileExtentItemType &&
+		(i.IsInline() || len(i) >= FileExtentItemEnd)
 }
 
 type CSumItem []byte
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 9303630..c096c5a 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -459,14 +459,16 @@ func (ix *Index) FindItem(owner uint64, k btrfs.Key) btrfs.Item {
 }
 
 func (ix *Index) FindInodeItem(owner uint64, inode uint64) btrfs.InodeItem {
-	if i := ix.FindItem(owner, KF(btrfs.InodeItemKey, inode)); i != nil {
+	if i := ix.FindItem(owner, KF(btrfs.InodeItemKey, inode)); i != nil &&
+		len(i.Data()) >= btrfs.InodeItemLen {
 		return i.Data()
 	}
 	return nil
 }
 
 func (ix *Index) FindFileExtentItem(owner uint64, id uint64) btrfs.FileExtentItem {
-	if i := ix.FindItem(owner, KF(btrfs.ExtentDataKey, id)); i != nil {
+	if i := ix.FindItem(owner, KF(btrfs.ExtentDataKey, id)); i != nil &&
+		btrfs.FileExtentItem(i.Data()).IsValid() {
 		return i.Data()
 	}
 	return nil
@@ -482,12 +484,13 @@ func (ix *Index) FindExtentItem(diskByteNr, diskNumBytes uint64) btrfs.ExtentIte
 
 // Physical maps a filesystem logical address to a physical, on-disk address.
 // Note: No attempt is made to deal with "holes", missing chunk entries, or
-// logical addresses not mapping to any chunk.
+// logical addresses not mapping to any chunk. If there are no chunks at all, the
+// device id is 0, which is never used in a BTRFS.
 func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 	if ix.stripeMap == nil {
 		ix.stripeMap = make([]stripeMapEntry, 0, 5 /* Initial capacity */)
 		for r, c := ix.Chunks(); r.HasNext(); c = r.Next() {
-			if c.NumStripes() == 0 {
+			if !c.IsValid() {
 				// Invalid chunk, should always have at least one stripe
 				continue
 			}
@@ -501,6 +504,9 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 	}
 
 	stripeMapLen := len(ix.stripeMap)
+	if stripeMapLen == 0 {
+		return 0, 0
+	}
 	// Index structure entries are sorted
 	i := sort.Search(stripeMapLen, func(i int) bool {
 		return ix.stripeMap[i].logical >= logical
diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index 42e0752..8a64782 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -60,7 +60,15 @@ const (
 func (i Item) Key() Key       { return SliceKey(i[itemKey:]) }
 func (i Item) Offset() uint32 { return SliceUint32LE(i[itemOffset:]) }
 func (i Item) Size() uint32   { return SliceUint32LE(i[itemSize:]) }
-func (i Item) Data() []byte   { return i[ItemLen : ItemLen+i.Size()] }
+
+func (i Item) Data() []byte {
+	data := i[ItemLen:]
+	// Guard against invalid Item lengths.
+	if l := i.Size(); uint64(l) < uint64(len(data)) {
+		data = data[:l]
+	}
+	return data
+}
 
 type Leaf []byte
 
@@ -69,7 +77,7 @@ func (l Leaf) Header() Header { return Header(l) }
 // Len returns the number of items in this leaf.
 func (l Leaf) Len() int {
 	// Clamp maximum number of items to avoid OOM in case NrItems is corrupted.
-	maxItems := cap(l) / ItemLen
+	maxItems := (len(l) - HeaderLen) / ItemLen
 	numItems := l.Header().NrItems()
 	if numItems > uint32(maxItems) {
 		numItems = uint32(maxItems)
@@ -96,10 +104,13 @@ func (l Leaf) Key(i int) Key {
 
 func (l Leaf) Data(i int) []byte {
 	item := l.Item(i)
-	o := HeaderLen + item.Offset()
-	// Guard against invalid Item lengths.
-	leafLen := uint32(len(l))
-	e := o + item.Size()
+	o := HeaderLen + uint64(item.Offset())
+	// Guard against invalid Item offsets and lengths.
+	leafLen := uint64(len(l))
+	e := o + uint64(item.Size())
+	if o > leafLen {
+		o = leafLen
+	}
 	if e > leafLen {
 		e = leafLen
 	}
-- 
2.43.0


From af5ed54f60f2c7dcef69ce3ca17352fbd093d5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 12/39] fix: items cannot overwrite the index metadata

---
 pkg/btrfs/index/index_store.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index c096c5a..c5beec9 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -228,12 +228,15 @@ func (ix *Index) InsertItem(k btrfs.Key, h btrfs.Header, item,
 	if err := ix.ensureTx(true); err != nil {
 		return err
 	}
+	ik := newIndexKey(h.Owner(), k, h.Generation())
+	if bytes.Equal(ik, metadataKey) {
+		return nil // Damaged, do not overwrite the index metadata
+	}
 	l := btrfs.ItemLen + len(data)
 	tc := make([]byte, l)
 	copy(tc, item)
 	copy(tc[btrfs.ItemLen:], data)
-	if err := ix.bucket.Put(newIndexKey(h.Owner(), k, h.Generation()),
-		tc); err != nil {
+	if err := ix.bucket.Put(ik, tc); err != nil {
 		return err
 	}
 	ix.txNum++
-- 
2.43.0


From 98a31d25e35c6b7672ad846f73d3ba20584d1181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 13/39] fix: recover does not follow links out of the
 destination

---
 cmd/recover.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index e1a7f22..d4e4942 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -58,6 +58,10 @@ func doRecoverFiles(imagePath, destDir, metadata string, options recoverFilesOpt
 		cliutil.Fatalf("failed to create destination directory: %v\n", err)
 	}
 
+	if destDir, err = filepath.EvalSymlinks(destDir); err != nil {
+		cliutil.Fatalf("failed to access destination directory: %v\n", err)
+	}
+
 	visited := make(map[[2]uint64]bool)
 
 	// Start recovering from the main FS Tree root directory
@@ -94,10 +98,16 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	if err := os.MkdirAll(currentDest, 0755); err != nil {
 		return err
 	}
+	// Stay within the destination
+	if fi, err := os.Lstat(currentDest); err != nil {
+		return err
+	} else if !fi.IsDir() {
+		return fmt.Errorf("%s is not a directory", currentDest)
+	}
 
 	for _, di := range ix.DirEntries(owner, dirID) {
 		name := di.Name()
-		if name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
+		if name == "" || name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
 			continue
 		}
 
@@ -129,9 +139,13 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 }
 
 func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
-	if _, err := os.Stat(targetPath); err == nil && !options.clobber {
-		cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
-		return nil
+	if _, err := os.Lstat(targetPath); err == nil {
+		if !options.clobber {
+			cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
+			return nil
+		}
+		// Do not write through links
+		_ = os.Remove(targetPath)
 	}
 
 	ii := ix.FindInodeItem(owner, inode)
@@ -140,7 +154,7 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		fileSize = ii.Size()
 	}
 
-	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_WRONLY|os.O_EXCL, 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b31ba8445ab293c4e1babd3ceb50bb9f61907c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 14/39] fix: recover holes and preallocated space as zeros,
 without buffers

---
 cmd/recover.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index d4e4942..2bff586 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -188,12 +188,11 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 			}
 		} else {
 			numBytes := e.NumBytes()
-			if e.DiskByteNr() == 0 {
-				zeros := make([]byte, numBytes)
-				if _, err := f.WriteAt(zeros, int64(fileOffset)); err != nil {
-					return fmt.Errorf("write zeros failed: %w", err)
-				}
-			} else {
+			if ii == nil && fileOffset+numBytes > fileSize {
+				fileSize = fileOffset + numBytes
+			}
+			// Holes and preallocated space read as zeros, leave those sparse
+			if e.DiskByteNr() != 0 && e.Type() != btrfs.FileExtentPreAlloc {
 				_, physOffset := ix.Physical(e.DiskByteNr())
 				srcOffset := physOffset + e.Offset()
 
@@ -225,7 +224,7 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		}
 	}
 
-	if ii != nil {
+	if ii != nil || fileSize > 0 {
 		if err := f.Truncate(int64(fileSize)); err != nil {
 			return fmt.Errorf("truncate failed: %w", err)
 		}
-- 
2.43.0


From 3ccea1427b02bc8a0605be169684fd34e6671d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 15/39] fix: a damaged extent does not keep recover from
 restoring the rest of a file

---
 cmd/recover.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 2bff586..18c0366 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -6,8 +6,8 @@
 package cmd
 
 import (
+	"errors"
 	"fmt"
-	"io"
 	"os"
 	"path/filepath"
 	"strings"
@@ -20,6 +20,9 @@ import (
 	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
 )
 
+// Longest possible target of a symlink
+const maxSymlinkLen = 4096
+
 type recoverFilesOptions struct {
 	clobber bool
 }
@@ -170,11 +173,13 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		return nil
 	}
 
+	// Damage to one extent does not affect the others
+	var failed error
 	for ; r.HasNext(); e = r.Next() {
 		fileOffset := r.Key().Offset
 
 		if !e.IsValid() {
-			cliutil.Warnf("skipping damaged extent of file %s\n", targetPath)
+			failed = errors.New("damaged extent item")
 		} else if e.IsInline() {
 			inlineData := []byte(e.Data())
 			limit := len(inlineData)
@@ -183,7 +188,7 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 			}
 			if limit > 0 {
 				if _, err := f.WriteAt(inlineData[:limit], int64(fileOffset)); err != nil {
-					return fmt.Errorf("write inline data failed: %w", err)
+					failed = fmt.Errorf("write inline data failed: %w", err)
 				}
 			}
 		} else {
@@ -193,7 +198,11 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 			}
 			// Holes and preallocated space read as zeros, leave those sparse
 			if e.DiskByteNr() != 0 && e.Type() != btrfs.FileExtentPreAlloc {
-				_, physOffset := ix.Physical(e.DiskByteNr())
+				devID, physOffset := ix.Physical(e.DiskByteNr())
+				if devID == 0 {
+					failed = fmt.Errorf("no chunk for logical address %d", e.DiskByteNr())
+					continue
+				}
 				srcOffset := physOffset + e.Offset()
 
 				const chunkSize = 1024 * 1024
@@ -209,13 +218,14 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 					n, err := devFile.ReadAt(buf[:toCopy], int64(srcOffset+bytesCopied))
 					if n > 0 {
 						if _, wErr := f.WriteAt(buf[:n], int64(fileOffset+bytesCopied)); wErr != nil {
-							return fmt.Errorf("write file data failed: %w", wErr)
+							failed = fmt.Errorf("write file data failed: %w", wErr)
+							break
 						}
 						bytesCopied += uint64(n)
 					}
 					if err != nil {
-						if err == io.EOF && bytesCopied < numBytes {
-							return fmt.Errorf("unexpected EOF reading device/image: %w", err)
+						if bytesCopied < numBytes {
+							failed = fmt.Errorf("reading device/image failed: %w", err)
 						}
 						break
 					}
@@ -229,7 +239,7 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 			return fmt.Errorf("truncate failed: %w", err)
 		}
 	}
-	return nil
+	return failed
 }
 
 func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
@@ -251,7 +261,10 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 		target = e.Data()
 	} else {
 		if e.DiskByteNr() > 0 && devFile != nil {
-			_, physOffset := ix.Physical(e.DiskByteNr())
+			devID, physOffset := ix.Physical(e.DiskByteNr())
+			if devID == 0 || e.NumBytes() > maxSymlinkLen {
+				return fmt.Errorf("symlink target is damaged")
+			}
 			srcOffset := physOffset + e.Offset()
 			buf := make([]byte, e.NumBytes())
 			if _, err := devFile.ReadAt(buf, int64(srcOffset)); err == nil {
-- 
2.43.0


From 0d02150f1fcb432ee4555f63ce3bbded75c78253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 16/39] fix: holes after a damaged extent read as zeros

---
 cmd/recover.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 18c0366..f6309c0 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -196,8 +196,13 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 			if ii == nil && fileOffset+numBytes > fileSize {
 				fileSize = fileOffset + numBytes
 			}
-			// Holes and preallocated space read as zeros, leave those sparse
-			if e.DiskByteNr() != 0 && e.Type() != btrfs.FileExtentPreAlloc {
+			if e.DiskByteNr() == 0 || e.Type() == btrfs.FileExtentPreAlloc {
+				// Reads as zeros. Leave it sparse, but drop what a damaged
+				// extent before it may have left there
+				if err := f.Truncate(int64(fileOffset)); err != nil {
+					failed = fmt.Errorf("truncate failed: %w", err)
+				}
+			} else {
 				devID, physOffset := ix.Physical(e.DiskByteNr())
 				if devID == 0 {
 					failed = fmt.Errorf("no chunk for logical address %d", e.DiskByteNr())
-- 
2.43.0


From bacdc4d590bb1eb1bc993742541ff26980cce812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 17/39] fix: ls looks up inodes and directories in the right
 subvolume

---
 cmd/ls.go                      | 19 ++++++++++++++-----
 pkg/btrfs/index/index_store.go | 14 +++++++++++---
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index cd1983a..461fb61 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -61,9 +61,17 @@ func shortTime(t time.Time) string {
 	return t.Format("Jan _2 15:04")
 }
 
+// inodeOf returns owner and id of the inode a directory entry leads to.
+func inodeOf(owner uint64, di btrfs.DirItem) (uint64, uint64) {
+	if di.IsSubvolume() {
+		return di.Location().ObjectID, btrfs.FirstFreeObjectID
+	}
+	return owner, di.Location().ObjectID
+}
+
 func listDirItem(w io.Writer, ix *index.Index, owner uint64, di btrfs.DirItem,
 	showInode bool) {
-	inode := di.Location().ObjectID
+	owner, inode := inodeOf(owner, di)
 	if showInode {
 		fmt.Fprintf(w, "%d\t", di.Location().ObjectID)
 	}
@@ -102,15 +110,15 @@ func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 	todo := dirItemSlice{}
 	for _, di := range dis {
 		listDirItem(w, ix, owner, di, showInode)
-		// TODO(cblichmann): Subvolumes/Snapshots, add owner
 		if recursive && di.IsDir() {
 			todo = append(todo, di)
 		}
 	}
 
 	for _, di := range todo {
+		owner, dirID := inodeOf(owner, di)
 		fmt.Fprintf(w, "%s:\n", di.Name())
-		listDirectory(w, ix, owner, di.Location().ObjectID, true, showInode)
+		listDirectory(w, ix, owner, dirID, true, showInode)
 	}
 }
 
@@ -164,14 +172,15 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 			continue
 		}
 
-		if di := ix.FindDirItemForPath(owner, p); di == nil {
+		if di, owner := ix.FindDirItemAndOwnerForPath(owner, p); di == nil {
 			cliutil.Warnf("cannot lookup '%s': No such file or directory\n", p)
 			continue
 		} else if !di.IsDir() {
 			listDirItem(w, ix, owner, di, options.Inode)
 			continue
 		} else {
-			todo = append(todo, Todo{owner, di.Location().ObjectID})
+			owner, dirID := inodeOf(owner, di)
+			todo = append(todo, Todo{owner, dirID})
 		}
 	}
 	w.Flush()
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index c5beec9..cdc32d1 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -529,7 +529,14 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 // FindDirItemForPath finds the DirItem for a given FS path. It assumes that
 // the path is clean, as returned by path.Clean().
 func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
-	result := btrfs.DirItem(nil)
+	result, _ := ix.FindDirItemAndOwnerForPath(owner, path)
+	return result
+}
+
+// FindDirItemAndOwnerForPath is like FindDirItemForPath and also returns the
+// owner of the DirItem, which differs from the given one inside of subvolumes.
+func (ix *Index) FindDirItemAndOwnerForPath(owner uint64, path string) (btrfs.DirItem, uint64) {
+	result, resultOwner := btrfs.DirItem(nil), owner
 	dirID := uint64(btrfs.FirstFreeObjectID)
 	pathComps := strings.Split(strings.TrimLeft(path, "/"), "/")
 	for i, comp := range pathComps {
@@ -558,8 +565,9 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 		}
 
 		if !found {
-			return nil
+			return nil, owner
 		}
+		resultOwner = owner
 		if !d.IsSubvolume() {
 			dirID = d.Location().ObjectID
 		} else {
@@ -567,7 +575,7 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 			dirID = btrfs.FirstFreeObjectID
 		}
 	}
-	return result
+	return result, resultOwner
 }
 
 func keyFirst(k *btrfs.Key, args []uint64) {
-- 
2.43.0


From dbce77f098a75f13187ee087e904e3293f1ad1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 18/39] fix: recursive ls ends on directory loops

---
 cmd/ls.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index 461fb61..68b882d 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -103,7 +103,8 @@ func (a dirItemSlice) Swap(i, j int) { a[i], a[j] = a[j], a[i] }
 func (a dirItemSlice) Sort()         { sort.Sort(a) }
 
 func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
-	recursive, showInode bool) {
+	recursive, showInode bool, visited map[[2]uint64]bool) {
+	visited[[2]uint64{owner, dirID}] = true
 	dis := dirItemSlice{}
 	dis = append(dis, ix.DirEntries(owner, dirID)...)
 	sort.Sort(dis)
@@ -117,8 +118,11 @@ func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 
 	for _, di := range todo {
 		owner, dirID := inodeOf(owner, di)
+		if visited[[2]uint64{owner, dirID}] {
+			continue
+		}
 		fmt.Fprintf(w, "%s:\n", di.Name())
-		listDirectory(w, ix, owner, dirID, true, showInode)
+		listDirectory(w, ix, owner, dirID, true, showInode, visited)
 	}
 }
 
@@ -187,7 +191,8 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 
 	w = tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
 	for _, t := range todo {
-		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode)
+		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode,
+			make(map[[2]uint64]bool))
 	}
 	w.Flush()
 }
-- 
2.43.0


From 329aefaf5db25fdbc7adaa1b82c902d478ec3286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:06 +0000
Subject: [PATCH 19/39] fix: directories of the mounted view list entries with
 their kind

---
 internal/rescuefs/nodefs.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 210197b..02835fc 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -159,6 +159,14 @@ func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 	return ch, node.GetAttr(out, nil, context)
 }
 
+var specialFileModes = map[uint8]uint32{
+	btrfs.FtChrdev:  syscall.S_IFCHR,
+	btrfs.FtBlkdev:  syscall.S_IFBLK,
+	btrfs.FtFifo:    syscall.S_IFIFO,
+	btrfs.FtSock:    syscall.S_IFSOCK,
+	btrfs.FtSymlink: syscall.S_IFLNK,
+}
+
 func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 	fuse.Status) {
 	n.ensureDirItems()
@@ -167,6 +175,8 @@ func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 		entry := fuse.DirEntry{Name: di.Name(), Mode: fuse.S_IFREG}
 		if di.IsDir() {
 			entry.Mode = fuse.S_IFDIR
+		} else if mode, ok := specialFileModes[di.Type()]; ok {
+			entry.Mode = mode
 		}
 		s = append(s, entry)
 	}
-- 
2.43.0


From 98582e10dac630e92f2e179be6d64ba8b19c8e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 20/39] fix: without a device, data on disk reads as zeros in
 the mounted view

---
 cmd/mount.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/mount.go b/cmd/mount.go
index 29b496f..6181e01 100644
--- a/cmd/mount.go
+++ b/cmd/mount.go
@@ -8,6 +8,7 @@
 package cmd
 
 import (
+	"io"
 	"os"
 	"os/signal"
 	"syscall"
@@ -56,7 +57,11 @@ func doMountRescueFS(args []string, metadata string) {
 			"visible\n")
 	}
 
-	fs := rescuefs.New(app.Global.Metadata, ix, dev)
+	var reader io.ReaderAt // Stays nil without a device
+	if dev != nil {
+		reader = dev
+	}
+	fs := rescuefs.New(app.Global.Metadata, ix, reader)
 	cliutil.ReportError(fs.Mount(mountPoint))
 	cliutil.Verbosef("mounted rescue FS on %s\n", mountPoint)
 	go fs.Serve()
-- 
2.43.0


From e3a58c9ae7ac2287e173bf1354115f04ecd8c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 21/39] fix: reads through the mounted view are complete and
 correct

---
 internal/rescuefs/files.go  | 46 +++++++++++++++++++++++++++++--------
 internal/rescuefs/nodefs.go | 10 --------
 2 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index fc6f0d2..e5867f1 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -21,6 +21,7 @@ type extentMapEntry struct {
 	physOffset uint64
 	diskByteNr uint64
 	devID      uint64
+	inline     []byte
 }
 
 type extentFile struct {
@@ -28,12 +29,14 @@ type extentFile struct {
 	fs        *rescueFS
 	owner     uint64
 	inode     uint64
+	size      uint64
 	extentMap []extentMapEntry
 }
 
 func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 	r, e := fs.ix.FileExtentItems(owner, id)
-	if !r.HasNext() {
+	ii := fs.ix.FindInodeItem(owner, id)
+	if ii == nil && !r.HasNext() {
 		return nil
 	}
 	f := &extentFile{
@@ -44,6 +47,18 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 		extentMap: make([]extentMapEntry, 0, 1),
 	}
 	for ; r.HasNext(); e = r.Next() {
+		if !e.IsValid() {
+			continue // Damaged, reads as a hole
+		}
+		if e.IsInline() {
+			data := []byte(e.Data())
+			f.extentMap = append(f.extentMap, extentMapEntry{
+				fileOffset: r.Key().Offset,
+				length:     uint64(len(data)),
+				inline:     data,
+			})
+			continue
+		}
 		var phys uint64
 		var dev uint64
 		if e.DiskByteNr() > 0 {
@@ -57,6 +72,12 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 			devID:      dev,
 		})
 	}
+	if ii != nil {
+		f.size = ii.Size()
+	} else if len(f.extentMap) > 0 {
+		last := f.extentMap[len(f.extentMap)-1]
+		f.size = last.fileOffset + last.length
+	}
 	return f
 }
 
@@ -97,14 +118,23 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 		return nil, fuse.EINVAL
 	}
 
-	bytesRead := 0
+	if uint64(off) >= f.size {
+		return fuse.ReadResultData(nil), fuse.OK
+	}
+	if left := f.size - uint64(off); uint64(len(buf)) > left {
+		buf = buf[:left]
+	}
+	// What no extent covers reads as zeros
+	for i := range buf {
+		buf[i] = 0
+	}
 	bufLen := len(buf)
 
 	for _, entry := range f.extentMap {
 		if off >= int64(entry.fileOffset+entry.length) {
 			continue
 		}
-		if off+int64(bufLen-bytesRead) <= int64(entry.fileOffset) {
+		if off+int64(bufLen) <= int64(entry.fileOffset) {
 			break
 		}
 
@@ -117,7 +147,7 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 			readStart = extentStart
 		}
 
-		readEnd := off + int64(bufLen-bytesRead)
+		readEnd := off + int64(bufLen)
 		if readEnd > extentEnd {
 			readEnd = extentEnd
 		}
@@ -129,7 +159,9 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 		chunkSize := readEnd - readStart
 		destOffset := readStart - off
 
-		if entry.diskByteNr == 0 {
+		if entry.inline != nil {
+			copy(buf[destOffset:destOffset+chunkSize], entry.inline[readStart-extentStart:])
+		} else if entry.diskByteNr == 0 {
 			// Sparse hole: fill with zeros
 			for i := int64(0); i < chunkSize; i++ {
 				buf[destOffset+i] = 0
@@ -149,11 +181,7 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 				}
 			}
 		}
-		bytesRead += int(chunkSize)
 	}
 
-	if bytesRead < bufLen {
-		return fuse.ReadResultData(buf[:bytesRead]), fuse.OK
-	}
 	return fuse.ReadResultData(buf), fuse.OK
 }
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 02835fc..0dd6694 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -185,16 +185,6 @@ func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 
 func (n *rescueNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
-	// TODO(cblichmann): HACK HACK HACK!
-	r, e := n.ix.FileExtentItems(n.owner, n.ixInode)
-	if !r.HasNext() {
-		return nil, fuse.ENOENT
-	}
-	if e.IsInline() {
-		return nodefs.NewReadOnlyFile(nodefs.NewDataFile(
-			[]byte(e.Data()))), fuse.OK
-	}
-
 	if f := newExtentFile(n.fs, n.owner, n.ixInode); f != nil {
 		return f, fuse.OK
 	}
-- 
2.43.0


From f632b32021af5213a2b66a856ad3036998ba6e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 22/39] fix: preallocated space reads as zeros in the mounted
 view

---
 internal/rescuefs/files.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index e5867f1..96a328f 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -11,6 +11,7 @@ import (
 	"io"
 
 	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
+	"blichmann.eu/code/btrfscue/pkg/btrfs"
 	"github.com/hanwen/go-fuse/v2/fuse"
 	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
 )
@@ -59,6 +60,10 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 			})
 			continue
 		}
+		diskByteNr := e.DiskByteNr()
+		if e.Type() == btrfs.FileExtentPreAlloc {
+			diskByteNr = 0 // Not written yet, reads as zeros
+		}
 		var phys uint64
 		var dev uint64
 		if e.DiskByteNr() > 0 {
@@ -68,7 +73,7 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 			fileOffset: r.Key().Offset,
 			length:     e.NumBytes(),
 			physOffset: phys + e.Offset(),
-			diskByteNr: e.DiskByteNr(),
+			diskByteNr: diskByteNr,
 			devID:      dev,
 		})
 	}
-- 
2.43.0


From 4342d72f7539b8b7d565707e190543ac2c405a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 23/39] fix: concurrent requests to the mounted view do not
 race

[C22] Nodes cache attributes and directory entries and the index caches the
stripe map. go-fuse serves requests concurrently, so guard these caches.
---
 internal/rescuefs/nodefs.go    | 6 ++++++
 pkg/btrfs/index/index_store.go | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 0dd6694..fde3880 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -9,6 +9,7 @@ package rescuefs
 
 import (
 	"os"
+	"sync"
 	"syscall"
 	"time"
 
@@ -88,6 +89,7 @@ type rescueNode struct {
 	ix       *index.Index
 	owner    uint64
 	ixInode  uint64
+	mu       sync.Mutex // Guards the cached values below
 	attr     *fuse.Attr // Cached attributes
 	dirItems map[string]btrfs.DirItem
 }
@@ -105,6 +107,8 @@ func newRescueNode(fs *rescueFS, owner, inode uint64) *rescueNode {
 
 func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	context *fuse.Context) (code fuse.Status) {
+	n.mu.Lock()
+	defer n.mu.Unlock()
 	if n.attr == nil {
 		ii := n.ix.FindInodeItem(n.owner, n.ixInode)
 		if ii == nil {
@@ -131,6 +135,8 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 }
 
 func (n *rescueNode) ensureDirItems() {
+	n.mu.Lock()
+	defer n.mu.Unlock()
 	if len(n.dirItems) > 0 {
 		return
 	}
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index cdc32d1..eb1752b 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"sort"
 	"strings"
+	"sync"
 
 	"fmt"
 
@@ -53,7 +54,8 @@ type Index struct {
 	txNum      int
 	Generation uint64
 
-	stripeMap []stripeMapEntry
+	stripeMapMu sync.Mutex // Guards creation of stripeMap
+	stripeMap   []stripeMapEntry
 }
 
 // Options sets options for opening a metadata index.
@@ -490,6 +492,7 @@ func (ix *Index) FindExtentItem(diskByteNr, diskNumBytes uint64) btrfs.ExtentIte
 // logical addresses not mapping to any chunk. If there are no chunks at all, the
 // device id is 0, which is never used in a BTRFS.
 func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
+	ix.stripeMapMu.Lock()
 	if ix.stripeMap == nil {
 		ix.stripeMap = make([]stripeMapEntry, 0, 5 /* Initial capacity */)
 		for r, c := ix.Chunks(); r.HasNext(); c = r.Next() {
@@ -505,6 +508,7 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 			fmt.Printf("stripe: %d => %d @ %d\n", r.Key().Offset, s.Offset(), r.Generation())
 		}
 	}
+	ix.stripeMapMu.Unlock()
 
 	stripeMapLen := len(ix.stripeMap)
 	if stripeMapLen == 0 {
-- 
2.43.0


From 980d3fc51ef0ac49c99f98733c2a6f6733aaf237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 24/39] fix: recover reports empty and sparse files it could
 not size

---
 cmd/recover.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index f6309c0..9338624 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -168,7 +168,9 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 	r, e := ix.FileExtentItems(owner, inode)
 	if !r.HasNext() {
 		if ii != nil {
-			_ = f.Truncate(int64(fileSize))
+			if err := f.Truncate(int64(fileSize)); err != nil {
+				return fmt.Errorf("truncate failed: %w", err)
+			}
 		}
 		return nil
 	}
-- 
2.43.0


From fd3b83e9caad9cf85f151442b04d8dbe9e3365aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 25/39] fix: reads beyond the end of the image fail in the
 mounted view

---
 internal/rescuefs/files.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index 96a328f..e1a5d98 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -8,10 +8,9 @@
 package rescuefs
 
 import (
-	"io"
-
 	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
 	"blichmann.eu/code/btrfscue/pkg/btrfs"
+	"blichmann.eu/code/btrfscue/pkg/ioutil"
 	"github.com/hanwen/go-fuse/v2/fuse"
 	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
 )
@@ -180,7 +179,7 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 					buf[destOffset+i] = 0
 				}
 			} else {
-				if _, err := f.fs.dev.ReadAt(buf[destOffset:destOffset+chunkSize], physReadOffset); err != nil && err != io.EOF {
+				if err := ioutil.ReadBlockAt(f.fs.dev, buf[destOffset:destOffset+chunkSize], uint64(physReadOffset)); err != nil {
 					cliutil.Warnf("read error at physical offset %d: %v\n", physReadOffset, err)
 					return nil, fuse.EIO
 				}
-- 
2.43.0


From 8bf46a01797f3e77ca2312c927ff4ddda300dcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 26/39] fix: recon does not take superblock copies for leaves

---
 cmd/recon.go       | 4 ++++
 pkg/btrfs/btrfs.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/cmd/recon.go b/cmd/recon.go
index bd4585d..375c595 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -96,6 +96,10 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 		if h.FSID() != options.id || h.NrItems() == 0 {
 			continue
 		}
+		// Superblock copies have their magic within the chunk tree UUID field
+		if btrfs.SliceUint64LE(h[btrfs.SuperMagicOffset:]) == btrfs.Magic {
+			continue
+		}
 		// Also skip all non-leaves (= nodes)
 		if !h.IsLeaf() {
 			//cliutil.Warnf("non-leaf %d at offset %d, level %d\n", h.ByteNr(),
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 4e36d85..cdeb595 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -15,6 +15,9 @@ const (
 	// Magic spells "_BHRfS_M" in little-endian
 	Magic = 0x4d5f53665248425f
 
+	// SuperMagicOffset is the offset of the magic number in a superblock
+	SuperMagicOffset = 64
+
 	// X86RegularPageSize is the size of a regular memory page on X86.
 	X86RegularPageSize = 1 << 12
 
-- 
2.43.0


From ddb90fd4aa3c057712647d6770a79cd672dc2c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 27/39] fix: device numbers are converted for the mounted view

Inode items hold the kernel's internal dev_t, while FUSE expects the encoding
used by stat. Device nodes with a major number, or a minor above 255, showed
up as different devices.
---
 internal/rescuefs/files.go  |  2 +-
 internal/rescuefs/nodefs.go | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index e1a5d98..34ee9ed 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -102,7 +102,7 @@ func (f *extentFile) GetAttr(out *fuse.Attr) fuse.Status {
 		out.Ctimensec = uint32(ii.Ctime().Nanosecond())
 		out.Nlink = ii.Nlink()
 		out.Owner = fuse.Owner{Uid: ii.UID(), Gid: ii.GID()}
-		out.Rdev = uint32(ii.Rdev())
+		out.Rdev = encodeRdev(ii.Rdev())
 		return fuse.OK
 	}
 
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index fde3880..a14843f 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -105,6 +105,14 @@ func newRescueNode(fs *rescueFS, owner, inode uint64) *rescueNode {
 	}
 }
 
+// encodeRdev converts a device number from the kernel-internal format found in
+// inode items (20 bits minor below 12 bits major) to the one FUSE uses, where
+// the major sits between the lower 8 and the upper 12 bits of the minor.
+func encodeRdev(rdev uint64) uint32 {
+	major, minor := uint32(rdev)>>20, uint32(rdev)&0xFFFFF
+	return minor&0xFF | major<<8 | minor&^0xFF<<12
+}
+
 func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	context *fuse.Context) (code fuse.Status) {
 	n.mu.Lock()
@@ -127,7 +135,7 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 			Mode:      ii.Mode(),
 			Nlink:     ii.Nlink(),
 			Owner:     fuse.Owner{Uid: ii.UID(), Gid: ii.GID()},
-			Rdev:      uint32(ii.Rdev()),
+			Rdev:      encodeRdev(ii.Rdev()),
 		}
 	}
 	*fi = *n.attr
-- 
2.43.0


From 7024cbc68e9a8f3029bf859f41a2958fb602dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 28/39] fix: encoded extents are reported instead of taken for
 file contents

---
 cmd/recover.go              |  5 +++++
 internal/rescuefs/files.go  | 17 ++++++++++++++++-
 internal/rescuefs/nodefs.go |  2 +-
 pkg/btrfs/btrfs.go          |  7 +++++++
 4 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 9338624..ccdc74d 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -182,6 +182,8 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 
 		if !e.IsValid() {
 			failed = errors.New("damaged extent item")
+		} else if e.IsEncoded() {
+			failed = errors.New("compressed or encrypted extents are not supported")
 		} else if e.IsInline() {
 			inlineData := []byte(e.Data())
 			limit := len(inlineData)
@@ -262,6 +264,9 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 	if e == nil {
 		return fmt.Errorf("symlink extent not found")
 	}
+	if e.IsEncoded() {
+		return fmt.Errorf("compressed or encrypted symlinks are not supported")
+	}
 
 	var target string
 	if e.IsInline() {
diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index 34ee9ed..fe9edaf 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -22,6 +22,7 @@ type extentMapEntry struct {
 	diskByteNr uint64
 	devID      uint64
 	inline     []byte
+	encoded    bool // Cannot be read
 }
 
 type extentFile struct {
@@ -50,6 +51,18 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 		if !e.IsValid() {
 			continue // Damaged, reads as a hole
 		}
+		if e.IsEncoded() {
+			length := e.RAMBytes()
+			if !e.IsInline() {
+				length = e.NumBytes()
+			}
+			f.extentMap = append(f.extentMap, extentMapEntry{
+				fileOffset: r.Key().Offset,
+				length:     length,
+				encoded:    true,
+			})
+			continue
+		}
 		if e.IsInline() {
 			data := []byte(e.Data())
 			f.extentMap = append(f.extentMap, extentMapEntry{
@@ -163,7 +176,9 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 		chunkSize := readEnd - readStart
 		destOffset := readStart - off
 
-		if entry.inline != nil {
+		if entry.encoded {
+			return nil, fuse.EIO
+		} else if entry.inline != nil {
 			copy(buf[destOffset:destOffset+chunkSize], entry.inline[readStart-extentStart:])
 		} else if entry.diskByteNr == 0 {
 			// Sparse hole: fill with zeros
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index a14843f..00e507d 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -227,7 +227,7 @@ func (n *rescueNode) ListXAttr(context *fuse.Context) ([]string, fuse.Status) {
 func (n *rescueNode) Readlink(c *fuse.Context) ([]byte, fuse.Status) {
 	// Link data is stored in inline extent.
 	if e := n.ix.FindFileExtentItem(n.owner, n.ixInode); e != nil &&
-		e.IsInline() {
+		e.IsInline() && !e.IsEncoded() {
 		return []byte(e.Data()), fuse.OK
 	}
 	return nil, fuse.ENODATA
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index cdeb595..201896d 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -683,6 +683,13 @@ func (i FileExtentItem) Offset() uint64 { return SliceUint64LE(i[fileExtentItemO
 // reflects the size uncompressed and without encoding.
 func (i FileExtentItem) NumBytes() uint64 { return SliceUint64LE(i[fileExtentItemNumBytes:]) }
 
+// IsEncoded returns whether the extent has data that is compressed, encrypted or
+// encoded in another way.
+func (i FileExtentItem) IsEncoded() bool {
+	return (i.IsInline() || i.DiskByteNr() != 0) && (i.Compression() != 0 ||
+		i.Encryption() != 0 || i.OtherEncoding() != 0)
+}
+
 func (i FileExtentItem) IsInline() bool { return i.Type() == FileExtentInline }
 
 // The data returned is only valid if Type == FileExtentInline:
-- 
2.43.0


From 41dfd022d8d1a33583aec3d6a814789a4b0ce863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 29/39] fix: where extents of a file overlap, the newest one
 counts

---
 cmd/recover.go                 | 20 ++++----
 internal/rescuefs/files.go     | 26 +++++-----
 pkg/btrfs/index/index_store.go | 88 ++++++++++++++++++++++++++++++++++
 3 files changed, 107 insertions(+), 27 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index ccdc74d..f1aa876 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -165,8 +165,8 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 
 	cliutil.Verbosef("recovering file: %s (size: %d)\n", targetPath, fileSize)
 
-	r, e := ix.FileExtentItems(owner, inode)
-	if !r.HasNext() {
+	extents := ix.FileExtents(owner, inode)
+	if len(extents) == 0 {
 		if ii != nil {
 			if err := f.Truncate(int64(fileSize)); err != nil {
 				return fmt.Errorf("truncate failed: %w", err)
@@ -177,15 +177,15 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 
 	// Damage to one extent does not affect the others
 	var failed error
-	for ; r.HasNext(); e = r.Next() {
-		fileOffset := r.Key().Offset
+	for _, e := range extents {
+		fileOffset := e.Start
 
 		if !e.IsValid() {
 			failed = errors.New("damaged extent item")
 		} else if e.IsEncoded() {
 			failed = errors.New("compressed or encrypted extents are not supported")
 		} else if e.IsInline() {
-			inlineData := []byte(e.Data())
+			inlineData := []byte(e.Data())[e.Skip : e.Skip+e.Len]
 			limit := len(inlineData)
 			if ii != nil && int64(fileOffset)+int64(limit) > int64(fileSize) {
 				limit = int(fileSize - fileOffset)
@@ -196,23 +196,19 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 				}
 			}
 		} else {
-			numBytes := e.NumBytes()
+			numBytes := e.Len
 			if ii == nil && fileOffset+numBytes > fileSize {
 				fileSize = fileOffset + numBytes
 			}
 			if e.DiskByteNr() == 0 || e.Type() == btrfs.FileExtentPreAlloc {
-				// Reads as zeros. Leave it sparse, but drop what a damaged
-				// extent before it may have left there
-				if err := f.Truncate(int64(fileOffset)); err != nil {
-					failed = fmt.Errorf("truncate failed: %w", err)
-				}
+				// Sparse hole: reads as zeros
 			} else {
 				devID, physOffset := ix.Physical(e.DiskByteNr())
 				if devID == 0 {
 					failed = fmt.Errorf("no chunk for logical address %d", e.DiskByteNr())
 					continue
 				}
-				srcOffset := physOffset + e.Offset()
+				srcOffset := physOffset + e.Offset() + e.Skip
 
 				const chunkSize = 1024 * 1024
 				buf := make([]byte, chunkSize)
diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index fe9edaf..a00970b 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -35,9 +35,9 @@ type extentFile struct {
 }
 
 func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
-	r, e := fs.ix.FileExtentItems(owner, id)
+	extents := fs.ix.FileExtents(owner, id)
 	ii := fs.ix.FindInodeItem(owner, id)
-	if ii == nil && !r.HasNext() {
+	if ii == nil && len(extents) == 0 {
 		return nil
 	}
 	f := &extentFile{
@@ -47,18 +47,14 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 		inode:     id,
 		extentMap: make([]extentMapEntry, 0, 1),
 	}
-	for ; r.HasNext(); e = r.Next() {
+	for _, e := range extents {
 		if !e.IsValid() {
 			continue // Damaged, reads as a hole
 		}
 		if e.IsEncoded() {
-			length := e.RAMBytes()
-			if !e.IsInline() {
-				length = e.NumBytes()
-			}
 			f.extentMap = append(f.extentMap, extentMapEntry{
-				fileOffset: r.Key().Offset,
-				length:     length,
+				fileOffset: e.Start,
+				length:     e.Len,
 				encoded:    true,
 			})
 			continue
@@ -66,9 +62,9 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 		if e.IsInline() {
 			data := []byte(e.Data())
 			f.extentMap = append(f.extentMap, extentMapEntry{
-				fileOffset: r.Key().Offset,
-				length:     uint64(len(data)),
-				inline:     data,
+				fileOffset: e.Start,
+				length:     e.Len,
+				inline:     data[e.Skip : e.Skip+e.Len],
 			})
 			continue
 		}
@@ -82,9 +78,9 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 			dev, phys = fs.ix.Physical(e.DiskByteNr())
 		}
 		f.extentMap = append(f.extentMap, extentMapEntry{
-			fileOffset: r.Key().Offset,
-			length:     e.NumBytes(),
-			physOffset: phys + e.Offset(),
+			fileOffset: e.Start,
+			length:     e.Len,
+			physOffset: phys + e.Offset() + e.Skip,
 			diskByteNr: diskByteNr,
 			devID:      dev,
 		})
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index eb1752b..20882c5 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -443,6 +443,94 @@ func (ix *Index) FileExtentItems(owner, id uint64) (Range,
 	return ix.RangeAll(owner, btrfs.ExtentDataKey, id)
 }
 
+// FileExtent is a range of a file and the extent item that describes it.
+type FileExtent struct {
+	btrfs.FileExtentItem
+	Start uint64 // Offset of the range within the file
+	Skip  uint64 // Offset of the range within the extent
+	Len   uint64
+}
+
+// FileExtents returns the extents of a file, ordered by their file offset. Items
+// of earlier states of the file may still be there under other offsets. Where
+// extents overlap, the one with the highest generation counts, so a single item
+// may be returned several times or not at all. Damaged items come first, with
+// a length of zero.
+func (ix *Index) FileExtents(owner, id uint64) []FileExtent {
+	var all, result []FileExtent
+	var gens, bounds []uint64
+	r, e := ix.FileExtentItems(owner, id)
+	for ; r.HasNext(); e = r.Next() {
+		x := FileExtent{FileExtentItem: e, Start: r.Key().Offset}
+		switch {
+		case !e.IsValid():
+			result = append(result, x)
+			continue
+		case !e.IsInline():
+			x.Len = e.NumBytes()
+		case e.IsEncoded():
+			x.Len = e.RAMBytes()
+		default:
+			x.Len = uint64(len(e.Data()))
+		}
+		if x.Len > ^x.Start {
+			x.Len = ^x.Start
+		}
+		all = append(all, x)
+		gens = append(gens, r.Generation())
+		bounds = append(bounds, x.Start, x.Start+x.Len)
+	}
+	sort.Slice(bounds, func(i, j int) bool { return bounds[i] < bounds[j] })
+
+	// From the newest to the oldest, extents get those of the sections between
+	// the bounds that are still free.
+	order := make([]int, len(all))
+	for i := range order {
+		order[i] = len(all) - 1 - i
+	}
+	sort.SliceStable(order, func(i, j int) bool {
+		return gens[order[i]] > gens[order[j]]
+	})
+	section := func(off uint64) int {
+		return sort.Search(len(bounds), func(i int) bool { return bounds[i] >= off })
+	}
+	free := make([]int, len(bounds)+1) // A section that is not before the next free one
+	owners := make([]int, len(bounds))
+	for i := range free {
+		free[i] = i
+	}
+	next := func(i int) int {
+		for free[i] != i {
+			free[i] = free[free[i]]
+			i = free[i]
+		}
+		return i
+	}
+	for _, o := range order {
+		end := section(all[o].Start + all[o].Len)
+		for i := next(section(all[o].Start)); i < end; i = next(i) {
+			owners[i] = o + 1
+			free[i] = i + 1
+		}
+	}
+	last := 0
+	for i, o := range owners {
+		if o == 0 || i+1 == len(bounds) || bounds[i] == bounds[i+1] {
+			continue
+		}
+		if n := len(result); o == last && result[n-1].Start+result[n-1].Len == bounds[i] {
+			result[n-1].Len += bounds[i+1] - bounds[i]
+			continue
+		}
+		x := all[o-1]
+		x.Skip = bounds[i] - x.Start
+		x.Start, x.Len = bounds[i], bounds[i+1]-bounds[i]
+		result = append(result, x)
+		last = o
+	}
+	return result
+}
+
 // Chunks returns an index range containing all of the chunk items.
 func (ix *Index) Chunks() (Range, btrfs.Chunk) {
 	return ix.RangeAll(btrfs.ChunkTreeObjectID, btrfs.ChunkItemKey,
-- 
2.43.0


From dc185e34134a4a3ef32206e492fc4b41fb808227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:02 +0000
Subject: [PATCH 30/39] fix: recon: a damaged copy of a leaf does not replace
 the items of an intact one

---
 cmd/recon.go                   |  6 ++++++
 pkg/btrfs/index/index_store.go |  6 ++++++
 pkg/btrfs/leaf.go              | 12 ++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/cmd/recon.go b/cmd/recon.go
index 375c595..73abe20 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -108,7 +108,13 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 		}
 		// The free space of a leaf is between offsets
 		// [ btrfs.HeaderSize, l.Items(l.Len() - 1).Offset() ).
+		// Metadata is usually stored twice, a damaged copy must not replace what
+		// the other one holds.
+		intact := l.IsIntact()
 		for i := 0; i < l.Len(); i++ {
+			if !intact && ix.HasItem(l.Key(i), h) {
+				continue
+			}
 			cliutil.ReportError(ix.InsertItem(l.Key(i), h, l.Item(i),
 				l.Data(i)))
 		}
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 20882c5..f4774bd 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -248,6 +248,12 @@ func (ix *Index) InsertItem(k btrfs.Key, h btrfs.Header, item,
 	return nil
 }
 
+// HasItem returns whether an item with the same key is there already, from a
+// leaf of the same generation.
+func (ix *Index) HasItem(k btrfs.Key, h btrfs.Header) bool {
+	return ix.queryBucket().Get(newIndexKey(h.Owner(), k, h.Generation())) != nil
+}
+
 // Commit commits any pending transaction.
 func (ix *Index) Commit() error {
 	if ix.tx == nil {
diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index 8a64782..f44e7e8 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -6,6 +6,8 @@
 package btrfs
 
 import (
+	"hash/crc32"
+
 	"blichmann.eu/code/btrfscue/pkg/uuid"
 )
 
@@ -74,6 +76,16 @@ type Leaf []byte
 
 func (l Leaf) Header() Header { return Header(l) }
 
+var castagnoliTable = crc32.MakeTable(crc32.Castagnoli)
+
+// IsIntact returns whether the contents of this leaf match its CRC32C checksum.
+// Leaves of filesystems with another checksum algorithm are never known to be
+// intact.
+func (l Leaf) IsIntact() bool {
+	return SliceUint32LE(l[headerCSum:]) == crc32.Checksum(l[CSumSize:],
+		castagnoliTable)
+}
+
 // Len returns the number of items in this leaf.
 func (l Leaf) Len() int {
 	// Clamp maximum number of items to avoid OOM in case NrItems is corrupted.
-- 
2.43.0


From 815c773b2ce684e681b7991ed381736831505e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:33 +0000
Subject: [PATCH 31/39] fix: where chunks overlap, the newest one counts

---
 pkg/btrfs/index/index_store.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index f4774bd..537805e 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -37,9 +37,11 @@ const (
 )
 
 type stripeMapEntry struct {
-	logical uint64
-	devID   uint64
-	offset  uint64
+	logical    uint64
+	length     uint64
+	generation uint64
+	devID      uint64
+	offset     uint64
 }
 
 // Index encapsulates metadata of a BTRFS to be recovered/analyzed. It uses
@@ -596,9 +598,11 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 			}
 			s := c.Stripe(0)
 			ix.stripeMap = append(ix.stripeMap, stripeMapEntry{
-				logical: r.Key().Offset,
-				devID:   s.DevID(),
-				offset:  s.Offset()})
+				logical:    r.Key().Offset,
+				length:     c.Length(),
+				generation: r.Generation(),
+				devID:      s.DevID(),
+				offset:     s.Offset()})
 			fmt.Printf("stripe: %d => %d @ %d\n", r.Key().Offset, s.Offset(), r.Generation())
 		}
 	}
@@ -619,6 +623,14 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 		i--
 	}
 	s := ix.stripeMap[i]
+	// The addresses of removed chunks are used again, so older chunks may overlap
+	// with newer ones.
+	for _, o := range ix.stripeMap[:i] {
+		if logical-o.logical < o.length && (logical-s.logical >= s.length ||
+			o.generation > s.generation) {
+			s = o
+		}
+	}
 	// TODO(cblichmann): We can check for the failure case if we store the
 	//                   stripe length in the cache and do a range check here.
 	return s.devID, s.offset + logical - s.logical
-- 
2.43.0


From 670adc2a80e6e578ed489edba62db391540ddec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:34 +0000
Subject: [PATCH 32/39] fix: addresses that are not part of any chunk have no
 place on the device

---
 internal/rescuefs/files.go     |  2 ++
 pkg/btrfs/index/index_store.go | 10 +++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index a00970b..cc290e1 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -189,6 +189,8 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 				for i := int64(0); i < chunkSize; i++ {
 					buf[destOffset+i] = 0
 				}
+			} else if entry.devID == 0 {
+				return nil, fuse.EIO // No chunk for the logical address
 			} else {
 				if err := ioutil.ReadBlockAt(f.fs.dev, buf[destOffset:destOffset+chunkSize], uint64(physReadOffset)); err != nil {
 					cliutil.Warnf("read error at physical offset %d: %v\n", physReadOffset, err)
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 537805e..1894d1e 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -584,9 +584,8 @@ func (ix *Index) FindExtentItem(diskByteNr, diskNumBytes uint64) btrfs.ExtentIte
 }
 
 // Physical maps a filesystem logical address to a physical, on-disk address.
-// Note: No attempt is made to deal with "holes", missing chunk entries, or
-// logical addresses not mapping to any chunk. If there are no chunks at all, the
-// device id is 0, which is never used in a BTRFS.
+// If the address is not part of any chunk, the device id is 0, which is never
+// used in a BTRFS.
 func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 	ix.stripeMapMu.Lock()
 	if ix.stripeMap == nil {
@@ -631,8 +630,9 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 			s = o
 		}
 	}
-	// TODO(cblichmann): We can check for the failure case if we store the
-	//                   stripe length in the cache and do a range check here.
+	if logical-s.logical >= s.length {
+		return 0, 0 // Not part of any chunk
+	}
 	return s.devID, s.offset + logical - s.logical
 }
 
-- 
2.43.0


From c7e1f96f9db9bc797dc9703d4c269c49da0c976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:03 +0000
Subject: [PATCH 33/39] fix: mount: entries whose inode is lost are still there

If the inode item of a directory was not found, neither the directory nor
anything in it could be reached in the mounted view, although recover
restores both. Without the inode of the root directory, this was so for all
of the files. Report what is still known, the type of the file and the size
of its extents.
---
 internal/rescuefs/nodefs.go | 45 ++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 00e507d..2f76ed0 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -34,8 +34,9 @@ func (r *rescueFS) newNode() *basicNode {
 
 func (r *rescueFS) OnMount(c *nodefs.FileSystemConnector) {
 	i := r.root.Inode()
-	i.NewChild("rescue", true, newRescueNode(r, btrfs.FSTreeObjectID,
-		btrfs.FirstFreeObjectID))
+	n := newRescueNode(r, btrfs.FSTreeObjectID, btrfs.FirstFreeObjectID)
+	n.fileType = fuse.S_IFDIR
+	i.NewChild("rescue", true, n)
 	i.NewChild("metadata", false, newMetadataNode(r))
 }
 
@@ -89,6 +90,7 @@ type rescueNode struct {
 	ix       *index.Index
 	owner    uint64
 	ixInode  uint64
+	fileType uint32     // As in the directory entry
 	mu       sync.Mutex // Guards the cached values below
 	attr     *fuse.Attr // Cached attributes
 	dirItems map[string]btrfs.DirItem
@@ -120,8 +122,7 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	if n.attr == nil {
 		ii := n.ix.FindInodeItem(n.owner, n.ixInode)
 		if ii == nil {
-			fmt.Println("No data for", n.owner, n.ixInode) //DBG!!!
-			return fuse.ENOATTR
+			return n.lostAttr(fi)
 		}
 		n.attr = &fuse.Attr{
 			Ino:       n.ixInode,
@@ -142,6 +143,22 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	return fuse.OK
 }
 
+// lostAttr returns what is still known if the inode item was not found.
+func (n *rescueNode) lostAttr(fi *fuse.Attr) fuse.Status {
+	*fi = fuse.Attr{Ino: n.ixInode, Mode: n.fileType | 0644, Nlink: 1}
+	switch n.fileType {
+	case fuse.S_IFDIR:
+		fi.Mode |= 0755
+	case fuse.S_IFREG:
+		f := newExtentFile(n.fs, n.owner, n.ixInode)
+		if f == nil {
+			return fuse.ENOATTR // Nothing is left of the file
+		}
+		return f.GetAttr(fi)
+	}
+	return fuse.OK
+}
+
 func (n *rescueNode) ensureDirItems() {
 	n.mu.Lock()
 	defer n.mu.Unlock()
@@ -169,6 +186,7 @@ func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 		inode = btrfs.FirstFreeObjectID
 	}
 	node := newRescueNode(n.fs, owner, inode)
+	node.fileType = fileType(d)
 	ch := n.Inode().NewChild(name, d.IsDir(), node)
 	return ch, node.GetAttr(out, nil, context)
 }
@@ -181,18 +199,23 @@ var specialFileModes = map[uint8]uint32{
 	btrfs.FtSymlink: syscall.S_IFLNK,
 }
 
+// fileType returns the type of the file a directory entry leads to, in the
+// format of inode modes.
+func fileType(d btrfs.DirItem) uint32 {
+	if d.IsDir() {
+		return fuse.S_IFDIR
+	} else if mode, ok := specialFileModes[d.Type()]; ok {
+		return mode
+	}
+	return fuse.S_IFREG
+}
+
 func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 	fuse.Status) {
 	n.ensureDirItems()
 	var s []fuse.DirEntry
 	for _, di := range n.dirItems {
-		entry := fuse.DirEntry{Name: di.Name(), Mode: fuse.S_IFREG}
-		if di.IsDir() {
-			entry.Mode = fuse.S_IFDIR
-		} else if mode, ok := specialFileModes[di.Type()]; ok {
-			entry.Mode = mode
-		}
-		s = append(s, entry)
+		s = append(s, fuse.DirEntry{Name: di.Name(), Mode: fileType(di)})
 	}
 	return s, fuse.OK
 }
-- 
2.43.0


From 65ef8b1633cb876ad745c63eceb19554737ca5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:18 +0000
Subject: [PATCH 34/39] fix: mount: files of different subvolumes have
 different inode numbers

---
 internal/rescuefs/nodefs.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 2f76ed0..ac5f13e 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -8,6 +8,7 @@
 package rescuefs
 
 import (
+	"math/bits"
 	"os"
 	"sync"
 	"syscall"
@@ -115,6 +116,12 @@ func encodeRdev(rdev uint64) uint32 {
 	return minor&0xFF | major<<8 | minor&^0xFF<<12
 }
 
+// ino returns the inode number of the node in the view. The ids of inodes are
+// only unique within a subvolume.
+func (n *rescueNode) ino() uint64 {
+	return n.ixInode ^ bits.Reverse64(n.owner-btrfs.FSTreeObjectID)
+}
+
 func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	context *fuse.Context) (code fuse.Status) {
 	n.mu.Lock()
@@ -125,7 +132,7 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 			return n.lostAttr(fi)
 		}
 		n.attr = &fuse.Attr{
-			Ino:       n.ixInode,
+			Ino:       n.ino(),
 			Size:      ii.Size(),
 			Atime:     uint64(ii.Atime().Unix()),
 			Mtime:     uint64(ii.Mtime().Unix()),
@@ -145,7 +152,7 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 
 // lostAttr returns what is still known if the inode item was not found.
 func (n *rescueNode) lostAttr(fi *fuse.Attr) fuse.Status {
-	*fi = fuse.Attr{Ino: n.ixInode, Mode: n.fileType | 0644, Nlink: 1}
+	*fi = fuse.Attr{Ino: n.ino(), Mode: n.fileType | 0644, Nlink: 1}
 	switch n.fileType {
 	case fuse.S_IFDIR:
 		fi.Mode |= 0755
-- 
2.43.0


From 0e69e013301a29e4fca91ccd3fc7dcabab839bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:42 +0000
Subject: [PATCH 35/39] fix: mount: files with data have blocks

---
 internal/rescuefs/files.go  |  1 +
 internal/rescuefs/nodefs.go | 11 +++++++++++
 pkg/btrfs/btrfs.go          |  1 +
 3 files changed, 13 insertions(+)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index cc290e1..3113e69 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -123,6 +123,7 @@ func (f *extentFile) GetAttr(out *fuse.Attr) fuse.Status {
 		size = last.fileOffset + last.length
 	}
 	out.Size = size
+	out.Blocks = blocks(size)
 	return fuse.OK
 }
 
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index ac5f13e..92a7c3e 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -122,6 +122,16 @@ func (n *rescueNode) ino() uint64 {
 	return n.ixInode ^ bits.Reverse64(n.owner-btrfs.FSTreeObjectID)
 }
 
+// blocks returns the number of 512 byte blocks that data takes up on disk, in
+// whole pages. Programs take files without any blocks to be empty.
+func blocks(numBytes uint64) uint64 {
+	pages := numBytes / btrfs.X86RegularPageSize
+	if numBytes%btrfs.X86RegularPageSize > 0 {
+		pages++
+	}
+	return pages * (btrfs.X86RegularPageSize / 512)
+}
+
 func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	context *fuse.Context) (code fuse.Status) {
 	n.mu.Lock()
@@ -134,6 +144,7 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 		n.attr = &fuse.Attr{
 			Ino:       n.ino(),
 			Size:      ii.Size(),
+			Blocks:    blocks(ii.NBytes()),
 			Atime:     uint64(ii.Atime().Unix()),
 			Mtime:     uint64(ii.Mtime().Unix()),
 			Ctime:     uint64(ii.Ctime().Unix()),
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 201896d..00b6730 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -489,6 +489,7 @@ const (
 func (i InodeItem) Generation() uint64 { return SliceUint64LE(i[inodeItemGeneration:]) }
 func (i InodeItem) TransID() uint64    { return SliceUint64LE(i[inodeItemTransID:]) }
 func (i InodeItem) Size() uint64       { return SliceUint64LE(i[inodeItemSize:]) }
+func (i InodeItem) NBytes() uint64     { return SliceUint64LE(i[inodeItemNbytes:]) }
 func (i InodeItem) BlockGroup() uint64 { return SliceUint64LE(i[inodeItemBlockGroup:]) }
 func (i InodeItem) Nlink() uint32      { return SliceUint32LE(i[inodeItemNlink:]) }
 func (i InodeItem) UID() uint32        { return SliceUint32LE(i[inodeItemUID:]) }
-- 
2.43.0


From 286132408198aa465d2840e05303c5551219dff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:56 +0000
Subject: [PATCH 36/39] fix: recover --clobber: keep the image and the metadata

---
 cmd/recover.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/cmd/recover.go b/cmd/recover.go
index f1aa876..5bdd532 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -25,6 +25,22 @@ const maxSymlinkLen = 4096
 
 type recoverFilesOptions struct {
 	clobber bool
+	inputs  []os.FileInfo // Image and metadata
+}
+
+var errInput = errors.New("not overwriting the image or metadata in use")
+
+func (o recoverFilesOptions) isInput(path string) bool {
+	fi, err := os.Lstat(path)
+	if err != nil {
+		return false
+	}
+	for _, in := range o.inputs {
+		if os.SameFile(fi, in) {
+			return true
+		}
+	}
+	return false
 }
 
 func init() {
@@ -57,6 +73,12 @@ func doRecoverFiles(imagePath, destDir, metadata string, options recoverFilesOpt
 	cliutil.ReportError(err)
 	defer f.Close()
 
+	for _, name := range []string{imagePath, metadata} {
+		fi, err := os.Stat(name)
+		cliutil.ReportError(err)
+		options.inputs = append(options.inputs, fi)
+	}
+
 	if err := os.MkdirAll(destDir, 0755); err != nil {
 		cliutil.Fatalf("failed to create destination directory: %v\n", err)
 	}
@@ -147,6 +169,9 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 			cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
 			return nil
 		}
+		if options.isInput(targetPath) {
+			return errInput
+		}
 		// Do not write through links
 		_ = os.Remove(targetPath)
 	}
@@ -253,6 +278,9 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 			cliutil.Verbosef("symlink %s already exists, skipping (--clobber not specified)\n", targetPath)
 			return nil
 		}
+		if options.isInput(targetPath) {
+			return errInput
+		}
 		_ = os.Remove(targetPath)
 	}
 
-- 
2.43.0


From 382018b0db6b992f2dcdca01b5a0a0dc5cc8748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:43 +0000
Subject: [PATCH 37/39] fix: mount: statfs works on everything in the view

---
 internal/rescuefs/nodefs.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 92a7c3e..e14f78d 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -59,7 +59,16 @@ func (n *basicNode) OnMount(c *nodefs.FileSystemConnector) {
 
 func (n *basicNode) Deletable() bool { return false }
 
-func (n *basicNode) StatFs() *fuse.StatfsOut { return &fuse.StatfsOut{} }
+// statFs describes the view as a whole. Its size is not known.
+func statFs() *fuse.StatfsOut {
+	return &fuse.StatfsOut{
+		Bsize:   btrfs.X86RegularPageSize,
+		Frsize:  btrfs.X86RegularPageSize,
+		NameLen: 255,
+	}
+}
+
+func (n *basicNode) StatFs() *fuse.StatfsOut { return statFs() }
 
 type metadataNode struct {
 	basicNode
@@ -132,6 +141,8 @@ func blocks(numBytes uint64) uint64 {
 	return pages * (btrfs.X86RegularPageSize / 512)
 }
 
+func (n *rescueNode) StatFs() *fuse.StatfsOut { return statFs() }
+
 func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	context *fuse.Context) (code fuse.Status) {
 	n.mu.Lock()
-- 
2.43.0


From 7506e9c63bd220aa858867c60e4f993f5e4f7e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:06 +0000
Subject: [PATCH 38/39] fix: recover --clobber: an entry only gives way to a
 symlink that can be created

---
 cmd/recover.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 5bdd532..514a908 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -281,7 +281,6 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 		if options.isInput(targetPath) {
 			return errInput
 		}
-		_ = os.Remove(targetPath)
 	}
 
 	e := ix.FindFileExtentItem(owner, inode)
@@ -314,5 +313,10 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 	}
 
 	cliutil.Verbosef("recovering symlink: %s -> %s\n", targetPath, target)
-	return os.Symlink(target, targetPath)
+	err := os.Symlink(target, targetPath)
+	if os.IsExist(err) { // Only gives way to a link that can be created
+		_ = os.Remove(targetPath)
+		err = os.Symlink(target, targetPath)
+	}
+	return err
 }
-- 
2.43.0


From a84e81a24a2bc10340aed4a847e3c6a0cfb95e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:11 +0000
Subject: [PATCH 39/39] fix: mount ends when unmounted by other means

---
 cmd/mount.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/mount.go b/cmd/mount.go
index 6181e01..1e81b7e 100644
--- a/cmd/mount.go
+++ b/cmd/mount.go
@@ -64,12 +64,20 @@ func doMountRescueFS(args []string, metadata string) {
 	fs := rescuefs.New(app.Global.Metadata, ix, reader)
 	cliutil.ReportError(fs.Mount(mountPoint))
 	cliutil.Verbosef("mounted rescue FS on %s\n", mountPoint)
-	go fs.Serve()
+	served := make(chan struct{})
+	go func() {
+		fs.Serve()
+		close(served)
+	}()
 
 	// Break and unmount on CTRL+C or TERM signal
 	ch := make(chan os.Signal, 1)
 	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
-	<-ch
+	select {
+	case <-ch:
+	case <-served:
+		return // Unmounted by other means, like fusermount -u
+	}
 	cliutil.Warnf("got signal, unmounting...\n")
 	cliutil.ReportError(fs.Unmount())
 }
-- 
2.43.0

