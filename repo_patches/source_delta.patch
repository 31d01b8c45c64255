From ed83ead2b45df1ce2564b49a03f4aa443289fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 01/38] fix: rebuild children and words count from loaded items
 only

The placeholder at item 0 was taken for a child of the root with letter 0,
and loading into an index already used kept its previous children and
counted words twice.
---
 internal/index/idx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index cfeb72f..de40272 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -203,9 +203,14 @@ func (index *Index) readItemsDefinitions(reader *binutils.BinaryReader) (err err
 }
 
 func (index *Index) rebuildChildrenIndex() {
+	index.childrenMap = make(map[dag.ID]dag.IdMap)
+	index.wordsCount = 0
 	index.GetChildrenIDMap(0)
 	for idx, item := range index.items.items {
 		nodeID := dag.ID(idx)
+		if nodeID == 0 { // root placeholder is not a child of any node
+			continue
+		}
 		index.GetChildrenIDMap(item.Parent)
 		index.GetChildrenIDMap(nodeID)
 		index.childrenMap[item.Parent][item.Letter] = nodeID
-- 
2.43.0


From 30d0e509c27d88525a1311a5aec59d140153d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 02/38] fix: refuse to write a set longer than its length field

---
 pkg/storage/set16.go | 5 +++++
 pkg/storage/set8.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index 4fc7ef8..ff36641 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -3,6 +3,7 @@ package storage //nolint:godupl
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -58,6 +59,10 @@ func (set16 Set16) EqualTo(another Set16) bool {
 func (set16 Set16) WriteTo(w io.Writer) (n int64, err error) {
 	var written int
 
+	if len(set16) > math.MaxUint16 {
+		return 0, fmt.Errorf("%w: writeTo: len: %d items does not fit", ErrSet16, len(set16))
+	}
+
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint16(uint16(len(set16))); err != nil {
 		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet16, err)
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index 31ba515..98b089d 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -3,6 +3,7 @@ package storage
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -58,6 +59,10 @@ func (set8 Set8) EqualTo(another Set8) bool {
 func (set8 Set8) WriteTo(w io.Writer) (n int64, err error) {
 	var written int
 
+	if len(set8) > math.MaxUint8 {
+		return 0, fmt.Errorf("%w: writeTo: len: %d items does not fit", ErrSet8, len(set8))
+	}
+
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint8(uint8(len(set8))); err != nil {
 		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet8, err)
-- 
2.43.0


From 6dd4c49e4ebcc0aa96151f2e77ae7c3a0d4a27d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 03/38] fix: refuse sets when storage id range is exhausted

---
 pkg/storage/collection16.go |  9 +++++++++
 pkg/storage/collection8.go  |  9 +++++++++
 pkg/storage/table16.go      | 10 +++++++++-
 pkg/storage/table8.go       | 10 +++++++++-
 4 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/collection16.go b/pkg/storage/collection16.go
index 48314ca..b3ba705 100644
--- a/pkg/storage/collection16.go
+++ b/pkg/storage/collection16.go
@@ -1,5 +1,9 @@
 package storage // nolint:dupl
 
+import (
+	"math"
+)
+
 // Collection16 stores unique ids.Set16 items organized in Table16 storages where each storage
 // keeps sets of same sizes.
 // Each Collection16 item is addressable by unique ids.ID32
@@ -24,12 +28,17 @@ func (collection8x8 Collection16) Find(item Set16) (foundIdx ID32, found bool) {
 }
 
 // Index returns 0-based index of set in Collection8x8 array.
+// Panics if specified set is empty, is too long to address its column or no free index left in the column.
 func (collection8x8 *Collection16) Index(item Set16) (indexedIdx ID32) {
 	if len(item) == 0 {
 		panic("empty set")
 	}
 
 	columnIdx := len(item) - 1
+	if columnIdx > math.MaxUint16 {
+		panic("set is too long")
+	}
+
 	if columnIdx >= len(*collection8x8) { // no enough columns extend inplace
 		currentLen := len(*collection8x8)
 
diff --git a/pkg/storage/collection8.go b/pkg/storage/collection8.go
index 14077d7..0a876a3 100644
--- a/pkg/storage/collection8.go
+++ b/pkg/storage/collection8.go
@@ -1,5 +1,9 @@
 package storage
 
+import (
+	"math"
+)
+
 // Collection8x8 stores unique ids.Set8 items in Table8 items where each Table8 stores sets of same sizes.
 // Each Collection8x8 item is addressable by unique ID16
 // which consists of Table8 ID8 item index in collection and ID8 element index in Table8 item.
@@ -23,12 +27,17 @@ func (collection8x8 Collection8x8) Find(setItem Set8) (foundIdx ID16, found bool
 }
 
 // Index returns 0-based index of set in Collection8x8 array.
+// Panics if specified set is empty, is too long to address its column or no free index left in the column.
 func (collection8x8 *Collection8x8) Index(setItem Set8) (indexedIdx ID16) {
 	if len(setItem) == 0 {
 		panic("empty set")
 	}
 
 	columnIdx := len(setItem) - 1
+	if columnIdx > math.MaxUint8 {
+		panic("set is too long")
+	}
+
 	if columnIdx >= len(*collection8x8) { // no enough columns extend inplace
 		currentLen := len(*collection8x8)
 
diff --git a/pkg/storage/table16.go b/pkg/storage/table16.go
index d6b7ae9..268577e 100644
--- a/pkg/storage/table16.go
+++ b/pkg/storage/table16.go
@@ -1,5 +1,9 @@
 package storage
 
+import (
+	"math"
+)
+
 // Table16 stores unique ids.Set16 lists having equal length.
 // It Uses its own ID16 index to address target sets.set16 stack in addition to address element in stack.
 // Used in Collection16 to store different sized sets organized into stacks of equal-sized sets.
@@ -19,7 +23,7 @@ func (table16 Table16) Find(item Set16) (ID16, bool) {
 
 // Index returns 0-based ids.ID16 index of ids.Set16 in Table16 instance.
 // Returns index of existed or appended item.
-// Panics if specified set empty.
+// Panics if specified set empty or no free index left to append it.
 func (table16 *Table16) Index(item Set16) (id ID16) {
 	var found bool
 
@@ -33,6 +37,10 @@ func (table16 *Table16) Index(item Set16) (id ID16) {
 		return id
 	}
 
+	if len(*table16) > math.MaxUint16 {
+		panic("table is full")
+	}
+
 	id = ID16(len(*table16))
 
 	*table16 = append(*table16, item)
diff --git a/pkg/storage/table8.go b/pkg/storage/table8.go
index daafdc6..e1fefd9 100644
--- a/pkg/storage/table8.go
+++ b/pkg/storage/table8.go
@@ -1,5 +1,9 @@
 package storage
 
+import (
+	"math"
+)
+
 // Table8 stores upto 256 unique ids.Set8 lists having equal length.
 // Used in Collection8x8 to store different sized sets organized into stacks of equal-sized sets.
 type Table8 []Set8
@@ -18,7 +22,7 @@ func (table8 Table8) Find(item Set8) (ID8, bool) {
 
 // Index returns 0-based ids.ID8 index of ids.Set8 in Table8.
 // Returns index of existed or appended item.
-// Panics if specified set empty.
+// Panics if specified set empty or no free index left to append it.
 func (table8 *Table8) Index(item Set8) (id ID8) {
 	var found bool
 
@@ -32,6 +36,10 @@ func (table8 *Table8) Index(item Set8) (id ID8) {
 		return id
 	}
 
+	if len(*table8) > math.MaxUint8 {
+		panic("table is full")
+	}
+
 	id = ID8(len(*table8))
 
 	*table8 = append(*table8, item)
-- 
2.43.0


From a7adda0c39ad1742a608425ac790dd17d1eadf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 04/38] fix: report sets of never indexed sizes as not found

---
 pkg/storage/collection16.go | 4 ++--
 pkg/storage/collection8.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/storage/collection16.go b/pkg/storage/collection16.go
index b3ba705..8fa3994 100644
--- a/pkg/storage/collection16.go
+++ b/pkg/storage/collection16.go
@@ -16,8 +16,8 @@ func (collection8x8 Collection16) Find(item Set16) (foundIdx ID32, found bool) {
 
 	columnIdx := len(item) - 1
 
-	if columnIdx < 0 {
-		return 0, false // always return not found for empty sets
+	if columnIdx < 0 || columnIdx >= len(collection8x8) {
+		return 0, false // always return not found for empty sets and sizes never indexed
 	}
 
 	if itemIdx, found = collection8x8[columnIdx].Find(item); !found {
diff --git a/pkg/storage/collection8.go b/pkg/storage/collection8.go
index 0a876a3..1588cbc 100644
--- a/pkg/storage/collection8.go
+++ b/pkg/storage/collection8.go
@@ -15,8 +15,8 @@ func (collection8x8 Collection8x8) Find(setItem Set8) (foundIdx ID16, found bool
 
 	columnIdx := len(setItem) - 1
 
-	if columnIdx < 0 {
-		return 0, false // always return not found for empty sets
+	if columnIdx < 0 || columnIdx >= len(collection8x8) {
+		return 0, false // always return not found for empty sets and sizes never indexed
 	}
 
 	if itemIdx, found = collection8x8[columnIdx].Find(setItem); !found {
-- 
2.43.0


From 9b94113174e8be85a56e7b0647e1eb828dbc87a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 05/38] fix: read identifier sets independently of source
 portions

---
 pkg/common/reader.go | 23 +++++++++++++++++++++++
 pkg/storage/set16.go |  4 +++-
 pkg/storage/set8.go  |  4 +++-
 3 files changed, 29 insertions(+), 2 deletions(-)
 create mode 100644 pkg/common/reader.go

diff --git a/pkg/common/reader.go b/pkg/common/reader.go
new file mode 100644
index 0000000..c73a5a3
--- /dev/null
+++ b/pkg/common/reader.go
@@ -0,0 +1,23 @@
+package common
+
+import (
+	"io"
+
+	"github.com/amarin/binutils"
+)
+
+// fullReader fills whole buffers independently of how many bytes its source returns at once.
+type fullReader struct {
+	source io.Reader
+}
+
+// Read fills whole specified buffer or returns an error. Implements io.Reader.
+func (r fullReader) Read(p []byte) (n int, err error) {
+	return io.ReadFull(r.source, p)
+}
+
+// NewBinaryReader wraps io.Reader into binutils.BinaryReader which never takes a short read for a whole value.
+// Source bytes are taken only as required by read values, no extra buffering made.
+func NewBinaryReader(source io.Reader) *binutils.BinaryReader {
+	return binutils.NewBinaryReader(fullReader{source: source})
+}
diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index ff36641..5a9e5db 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -7,6 +7,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // ErrSet16 identifies Set16 related errors.
@@ -91,7 +93,7 @@ func (set16 *Set16) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint16  uint16
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := common.NewBinaryReader(r)
 	if expectedLen, err = reader.ReadUint16(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet16, err)
 	}
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index 98b089d..3498039 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -7,6 +7,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // ErrSet8 identifies Set8 related errors.
@@ -91,7 +93,7 @@ func (set8 *Set8) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 		nextUint8   uint8
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := common.NewBinaryReader(r)
 	if expectedLen, err = reader.ReadUint8(); err != nil {
 		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet8, err)
 	}
-- 
2.43.0


From 038d0ff9084acae1127106cb5da9ffc52a84144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 06/38] fix: report exact byte counts of partially transferred
 sets

---
 pkg/storage/set16.go | 21 ++++++---------------
 pkg/storage/set8.go  | 21 ++++++---------------
 2 files changed, 12 insertions(+), 30 deletions(-)

diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index 5a9e5db..e8513af 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -59,28 +59,22 @@ func (set16 Set16) EqualTo(another Set16) bool {
 // Returns written bytes count and error if occurs.
 // Implements io.WriterTo.
 func (set16 Set16) WriteTo(w io.Writer) (n int64, err error) {
-	var written int
-
 	if len(set16) > math.MaxUint16 {
 		return 0, fmt.Errorf("%w: writeTo: len: %d items does not fit", ErrSet16, len(set16))
 	}
 
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint16(uint16(len(set16))); err != nil {
-		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet16, err)
+		return int64(writer.BytesWritten()), fmt.Errorf("%w: writeTo: len: %v", ErrSet16, err)
 	}
 
-	written += binutils.Uint16size
-
 	for idx, item := range set16 {
 		if err = writer.WriteUint16(uint16(item)); err != nil {
-			return int64(written), fmt.Errorf("%v: writeTo: data[%d]: %w", ErrSet16, idx, err)
+			return int64(writer.BytesWritten()), fmt.Errorf("%v: writeTo: data[%d]: %w", ErrSet16, idx, err)
 		}
-
-		written += binutils.Uint16size
 	}
 
-	return int64(written), nil
+	return int64(writer.BytesWritten()), nil
 }
 
 // ReadFrom loads Set16 data from provided io.Reader until all data loaded or any error including EOF.
@@ -88,27 +82,24 @@ func (set16 Set16) WriteTo(w io.Writer) (n int64, err error) {
 // Implements io.ReaderFrom.
 func (set16 *Set16) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 	var (
-		bytesTaken  int
 		expectedLen uint16
 		nextUint16  uint16
 	)
 
 	reader := common.NewBinaryReader(r)
 	if expectedLen, err = reader.ReadUint16(); err != nil {
-		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet16, err)
+		return int64(reader.BytesTaken()), fmt.Errorf("%v: readFrom: len: %w", ErrSet16, err)
 	}
 
-	bytesTaken += binutils.Uint16size
 	*set16 = make(Set16, expectedLen)
 
 	for i := 0; uint16(i) < expectedLen; i++ {
 		if nextUint16, err = reader.ReadUint16(); err != nil {
-			return int64(bytesTaken), fmt.Errorf("%v: readFrom: data[%v]: %w", ErrSet16, i, err)
+			return int64(reader.BytesTaken()), fmt.Errorf("%v: readFrom: data[%v]: %w", ErrSet16, i, err)
 		}
 
-		bytesTaken += binutils.Uint16size
 		(*set16)[i] = ID16(nextUint16)
 	}
 
-	return int64(bytesTaken), err
+	return int64(reader.BytesTaken()), err
 }
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index 3498039..44a8037 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -59,28 +59,22 @@ func (set8 Set8) EqualTo(another Set8) bool {
 // Returns written bytes count and error if occurs.
 // Implements io.WriterTo.
 func (set8 Set8) WriteTo(w io.Writer) (n int64, err error) {
-	var written int
-
 	if len(set8) > math.MaxUint8 {
 		return 0, fmt.Errorf("%w: writeTo: len: %d items does not fit", ErrSet8, len(set8))
 	}
 
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint8(uint8(len(set8))); err != nil {
-		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet8, err)
+		return int64(writer.BytesWritten()), fmt.Errorf("%w: writeTo: len: %v", ErrSet8, err)
 	}
 
-	written += binutils.Uint8size
-
 	for idx, item := range set8 {
 		if err = writer.WriteUint8(uint8(item)); err != nil {
-			return int64(written), fmt.Errorf("%v: writeTo: data[%d]: %w", ErrSet8, idx, err)
+			return int64(writer.BytesWritten()), fmt.Errorf("%v: writeTo: data[%d]: %w", ErrSet8, idx, err)
 		}
-
-		written += binutils.Uint8size
 	}
 
-	return int64(written), nil
+	return int64(writer.BytesWritten()), nil
 }
 
 // ReadFrom loads Set8 data from provided io.Reader until all data loaded or any error including EOF.
@@ -88,27 +82,24 @@ func (set8 Set8) WriteTo(w io.Writer) (n int64, err error) {
 // Implements io.ReaderFrom.
 func (set8 *Set8) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 	var (
-		bytesTaken  int
 		expectedLen uint8
 		nextUint8   uint8
 	)
 
 	reader := common.NewBinaryReader(r)
 	if expectedLen, err = reader.ReadUint8(); err != nil {
-		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet8, err)
+		return int64(reader.BytesTaken()), fmt.Errorf("%v: readFrom: len: %w", ErrSet8, err)
 	}
 
-	bytesTaken += binutils.Uint8size
 	*set8 = make(Set8, expectedLen)
 
 	for i := 0; uint8(i) < expectedLen; i++ {
 		if nextUint8, err = reader.ReadUint8(); err != nil {
-			return int64(bytesTaken), fmt.Errorf("%v: readFrom: data[%v]: %w", ErrSet8, i, err)
+			return int64(reader.BytesTaken()), fmt.Errorf("%v: readFrom: data[%v]: %w", ErrSet8, i, err)
 		}
 
-		bytesTaken += binutils.Uint8size
 		(*set8)[i] = ID8(nextUint8)
 	}
 
-	return int64(bytesTaken), err
+	return int64(reader.BytesTaken()), err
 }
-- 
2.43.0


From 41f7af1184fe64941bc0d64723c9a82b39e07e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 07/38] fix: store own copies of indexed sets

---
 internal/index/tagset_table.go  | 2 +-
 internal/index/variant_table.go | 2 +-
 pkg/storage/table16.go          | 2 +-
 pkg/storage/table8.go           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 94cd256..87d9b64 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -101,7 +101,7 @@ func (tagSetTable *TagSetTable) Index(item TagSet) (storageIdx TagSetSubID) {
 
 	storageIdx = TagSetSubID(len(*tagSetTable))
 
-	*tagSetTable = append(*tagSetTable, item)
+	*tagSetTable = append(*tagSetTable, append(TagSet(nil), item...)) // keep own copy of item data
 
 	return storageIdx
 }
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index f51e053..2e8c852 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -77,7 +77,7 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 
 	storageIdx = VariantSubID(len(*variantsTable))
 
-	*variantsTable = append(*variantsTable, item)
+	*variantsTable = append(*variantsTable, append(TagSetIDCollection(nil), item...)) // keep own copy of item data
 
 	return storageIdx
 }
diff --git a/pkg/storage/table16.go b/pkg/storage/table16.go
index 268577e..ec73546 100644
--- a/pkg/storage/table16.go
+++ b/pkg/storage/table16.go
@@ -43,7 +43,7 @@ func (table16 *Table16) Index(item Set16) (id ID16) {
 
 	id = ID16(len(*table16))
 
-	*table16 = append(*table16, item)
+	*table16 = append(*table16, append(Set16(nil), item...)) // keep own copy of item data
 
 	return id
 }
diff --git a/pkg/storage/table8.go b/pkg/storage/table8.go
index e1fefd9..4e6e46e 100644
--- a/pkg/storage/table8.go
+++ b/pkg/storage/table8.go
@@ -42,7 +42,7 @@ func (table8 *Table8) Index(item Set8) (id ID8) {
 
 	id = ID8(len(*table8))
 
-	*table8 = append(*table8, item)
+	*table8 = append(*table8, append(Set8(nil), item...)) // keep own copy of item data
 
 	return id
 }
-- 
2.43.0


From 893d453f2d24cb254be5974206f67c9ae5b9cfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 08/38] fix: read tag names and tag registry independently of
 source portions

---
 pkg/dag/idx.go  | 2 ++
 pkg/dag/name.go | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index d72d7bb..d0d07f1 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -46,6 +46,8 @@ func NewIndex(knownTags ...Tag) Idx {
 func (tagsIndex *Idx) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var listLen uint8
 
+	reader = common.NewBinaryReader(reader) // protect from short reads
+
 	if listLen, err = reader.ReadUint8(); err != nil {
 		return fmt.Errorf("%w: read length byte: %v", common.ErrUnmarshal, err)
 	}
diff --git a/pkg/dag/name.go b/pkg/dag/name.go
index 980b022..c389399 100644
--- a/pkg/dag/name.go
+++ b/pkg/dag/name.go
@@ -5,6 +5,7 @@ package dag
 import (
 	"errors"
 	"fmt"
+	"io"
 
 	"github.com/amarin/binutils"
 )
@@ -28,8 +29,8 @@ var (
 type TagName string
 
 func (g *TagName) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
-	var tagNameBytes []byte
-	if tagNameBytes, err = reader.ReadBytesCount(tagNameLen); err != nil {
+	tagNameBytes := make([]byte, tagNameLen)
+	if _, err = io.ReadFull(reader, tagNameBytes); err != nil { // reader itself may return less bytes than required
 		return fmt.Errorf("%w: tag name: read: %v", Error, err)
 	}
 
-- 
2.43.0


From 278361fb8f229f65f6478b79ab6f2df0f2544273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 09/38] fix: read index sections independently of source
 portions

---
 internal/index/idx.go           |  3 +++
 internal/index/items.go         |  3 +++
 internal/index/tagset_def.go    | 14 +++++++-------
 internal/index/tagset_index.go  |  3 +++
 internal/index/tagset_table.go  |  4 ++++
 internal/index/variant_def.go   |  3 +++
 internal/index/variant_idx.go   |  4 ++++
 internal/index/variant_table.go |  4 ++++
 8 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index de40272..522f5cb 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -8,6 +8,7 @@ import (
 	"github.com/amarin/binutils"
 	"github.com/amarin/logging"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/dag"
 )
 
@@ -226,6 +227,8 @@ func (index *Index) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	index.mu.Lock()
 	defer index.mu.Unlock()
 
+	reader = common.NewBinaryReader(reader) // protect from short reads
+
 	if err = index.readTagsDefinitions(reader); err != nil {
 		return fmt.Errorf("%w: read: tags: %v", Error, err)
 	}
diff --git a/internal/index/items.go b/internal/index/items.go
index c8d786f..527360d 100644
--- a/internal/index/items.go
+++ b/internal/index/items.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/amarin/binutils"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/dag"
 )
 
@@ -29,6 +30,8 @@ func NewItems() *Items {
 func (items *Items) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var itemListLen uint32
 
+	reader = common.NewBinaryReader(reader) // protect from short reads
+
 	if itemListLen, err = reader.ReadUint32(); err != nil {
 		return err
 	}
diff --git a/internal/index/tagset_def.go b/internal/index/tagset_def.go
index 486c465..7690fdf 100644
--- a/internal/index/tagset_def.go
+++ b/internal/index/tagset_def.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/amarin/binutils"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/dag"
 )
 
@@ -37,6 +38,8 @@ func (tagSet *TagSet) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 		currentTagID uint8
 	)
 
+	reader = common.NewBinaryReader(reader) // protect from short reads
+
 	if tagSetLen, err = reader.ReadUint8(); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
@@ -120,27 +123,24 @@ func (tagSet TagSet) WriteTo(w io.Writer) (n int64, err error) {
 // Implements io.ReaderFrom.
 func (tagSet *TagSet) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 	var (
-		bytesTaken  int
 		expectedLen uint8
 		nextUint8   uint8
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := common.NewBinaryReader(r)
 	if expectedLen, err = reader.ReadUint8(); err != nil {
-		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", Error, err)
+		return int64(reader.BytesTaken()), fmt.Errorf("%v: readFrom: len: %w", Error, err)
 	}
 
-	bytesTaken += binutils.Uint8size
 	*tagSet = make(TagSet, expectedLen)
 
 	for i := 0; uint8(i) < expectedLen; i++ {
 		if nextUint8, err = reader.ReadUint8(); err != nil {
-			return int64(bytesTaken), fmt.Errorf("%v: readFrom: data[%v]: %w", Error, i, err)
+			return int64(reader.BytesTaken()), fmt.Errorf("%v: readFrom: data[%v]: %w", Error, i, err)
 		}
 
-		bytesTaken += binutils.Uint8size
 		(*tagSet)[i] = dag.TagID(nextUint8)
 	}
 
-	return int64(bytesTaken), err
+	return int64(reader.BytesTaken()), err
 }
diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index de4d2e6..1f0ab22 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/amarin/binutils"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/storage"
 )
 
@@ -67,6 +68,8 @@ func (tagSetIndex *TagSetIndex) BinaryReadFrom(reader *binutils.BinaryReader) (e
 
 	var tagSetIndexLen uint32
 
+	reader = common.NewBinaryReader(reader) // protect from short reads
+
 	if tagSetIndexLen, err = reader.ReadUint32(); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 87d9b64..ddd44ef 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -6,6 +6,8 @@ import (
 	"strings"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 const prefixTagSetTable = "TT"
@@ -36,6 +38,8 @@ func (tagSetTable *TagSetTable) BinaryReadFrom(reader *binutils.BinaryReader) (e
 		return fmt.Errorf("%w: reader nil", Error)
 	}
 
+	reader = common.NewBinaryReader(reader) // protect from short reads
+
 	if tagSetLen, err = reader.ReadUint16(); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
diff --git a/internal/index/variant_def.go b/internal/index/variant_def.go
index 5e50ad5..c832faf 100644
--- a/internal/index/variant_def.go
+++ b/internal/index/variant_def.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/amarin/binutils"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/storage"
 )
 
@@ -49,6 +50,8 @@ func (t *TagSetIDCollection) BinaryReadFrom(reader *binutils.BinaryReader) (err
 		currentUint32  uint32
 	)
 
+	reader = common.NewBinaryReader(reader) // protect from short reads
+
 	if tagSetIndexLen, err = reader.ReadUint8(); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 901b17d..093e793 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -5,6 +5,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // VariantsIndex stores index of all possible TagSetIDCollection.
@@ -33,6 +35,8 @@ func (tagSetIndex VariantsIndex) BinaryWriteTo(writer *binutils.BinaryWriter) (e
 func (tagSetIndex *VariantsIndex) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var tagSetIndexLen uint8
 
+	reader = common.NewBinaryReader(reader) // protect from short reads
+
 	if tagSetIndexLen, err = reader.ReadUint8(); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index 2e8c852..ae9fada 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -5,6 +5,8 @@ import (
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // VariantsTable stores a list of TagSetID.
@@ -33,6 +35,8 @@ func (variantsTable VariantsTable) BinaryWriteTo(writer *binutils.BinaryWriter)
 func (variantsTable *VariantsTable) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var tagSetIndexLen uint32
 
+	reader = common.NewBinaryReader(reader) // protect from short reads
+
 	if tagSetIndexLen, err = reader.ReadUint32(); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
-- 
2.43.0


From 0a9650657c61216a657f96f4d441e66aa880640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 10/38] fix: do not allocate memory by announced entries count

---
 internal/index/items.go         | 3 ++-
 internal/index/tagset_index.go  | 3 ++-
 internal/index/variant_table.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/index/items.go b/internal/index/items.go
index 527360d..eb76c9b 100644
--- a/internal/index/items.go
+++ b/internal/index/items.go
@@ -37,8 +37,9 @@ func (items *Items) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	}
 
 	items.nextID = dag.ID(itemListLen)
-	items.items = make([]Item, int(itemListLen))
+	items.items = make([]Item, 0)
 	for idx := 0; idx < int(itemListLen); idx++ {
+		items.items = append(items.items, Item{}) // grow as data comes, announced length is not trusted
 		if err = items.items[idx].BinaryReadFrom(reader); err != nil {
 			return err
 		}
diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index 1f0ab22..e684c1b 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -74,8 +74,9 @@ func (tagSetIndex *TagSetIndex) BinaryReadFrom(reader *binutils.BinaryReader) (e
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
-	*tagSetIndex = make(TagSetIndex, tagSetIndexLen)
+	*tagSetIndex = make(TagSetIndex, 0)
 	for idx := 0; idx < int(tagSetIndexLen); idx++ {
+		*tagSetIndex = append(*tagSetIndex, nil) // grow as data comes, announced length is not trusted
 		if err = (*tagSetIndex)[idx].BinaryReadFrom(reader); err != nil {
 			return fmt.Errorf("%w: read: tagset: %v", Error, err)
 		}
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index ae9fada..f93e9e2 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -41,8 +41,9 @@ func (variantsTable *VariantsTable) BinaryReadFrom(reader *binutils.BinaryReader
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
-	*variantsTable = make(VariantsTable, tagSetIndexLen)
+	*variantsTable = make(VariantsTable, 0)
 	for idx := 0; idx < int(tagSetIndexLen); idx++ {
+		*variantsTable = append(*variantsTable, nil) // grow as data comes, announced length is not trusted
 		if err = (*variantsTable)[idx].BinaryReadFrom(reader); err != nil {
 			return fmt.Errorf("%w: read: tagset: %v", Error, err)
 		}
-- 
2.43.0


From b0d77ccca1006f5c3c0492740a2c24e9c605171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 11/38] fix: refuse to write tag registry longer than its
 length byte

---
 pkg/dag/idx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index d0d07f1..afb3abc 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -6,6 +6,7 @@ Idx implements Tag ids, providing simple indexed ID in index.
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/amarin/gomorphy/pkg/storage"
 
@@ -67,6 +68,10 @@ func (tagsIndex *Idx) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagsIndex Idx) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if tagsIndex.Len() > math.MaxUint8 {
+		return fmt.Errorf("%w: %d tags does not fit index length byte", common.ErrMarshal, tagsIndex.Len())
+	}
+
 	if err = writer.WriteUint8(uint8(tagsIndex.Len())); err != nil {
 		return fmt.Errorf("%w: cant write length byte: %v", common.ErrMarshal, err)
 	}
-- 
2.43.0


From 92c50bef41fd99fda1999aae6c0363d2d7ebfe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 12/38] fix: refuse new tags when tag ids are exhausted

---
 pkg/dag/idx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index afb3abc..2b34f69 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -104,6 +104,7 @@ func (tagsIndex Idx) Find(name TagName) (id TagID, found bool) {
 
 // Index returns indexed ID.
 // Adds indexed to index if not indexed before.
+// Panics if no free id left to add it.
 func (tagsIndex *Idx) Index(name TagName, parent TagName) (id TagID) {
 	var found bool
 
@@ -115,6 +116,10 @@ func (tagsIndex *Idx) Index(name TagName, parent TagName) (id TagID) {
 		return id
 	}
 
+	if len(*tagsIndex) > math.MaxUint8 {
+		panic("tags index is full")
+	}
+
 	id = TagID(len(*tagsIndex))
 	*tagsIndex = append(*tagsIndex, *NewTag(parent, name))
 
-- 
2.43.0


From 1584a02bb90132e761a9c9b4d2a1e7a100b134b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 13/38] fix: lookups do not modify children index

---
 internal/index/idx.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 522f5cb..b998e34 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -206,15 +206,12 @@ func (index *Index) readItemsDefinitions(reader *binutils.BinaryReader) (err err
 func (index *Index) rebuildChildrenIndex() {
 	index.childrenMap = make(map[dag.ID]dag.IdMap)
 	index.wordsCount = 0
-	index.GetChildrenIDMap(0)
 	for idx, item := range index.items.items {
 		nodeID := dag.ID(idx)
 		if nodeID == 0 { // root placeholder is not a child of any node
 			continue
 		}
-		index.GetChildrenIDMap(item.Parent)
-		index.GetChildrenIDMap(nodeID)
-		index.childrenMap[item.Parent][item.Letter] = nodeID
+		index.setChild(item.Parent, item.Letter, nodeID)
 		if item.Variants != 0 {
 			index.wordsCount++
 		}
@@ -323,9 +320,17 @@ func (index *Index) GetChildrenIDMap(id dag.ID) (res dag.IdMap) {
 	var ok bool
 
 	if res, ok = index.childrenMap[id]; !ok {
-		index.childrenMap[id] = make(dag.IdMap)
+		return make(dag.IdMap) // do not store: lookups must not modify index
 	}
-	return index.childrenMap[id]
+	return res
+}
+
+// setChild registers child of specified parent in children index.
+func (index *Index) setChild(parentID dag.ID, letter rune, childID dag.ID) {
+	if _, ok := index.childrenMap[parentID]; !ok {
+		index.childrenMap[parentID] = make(dag.IdMap)
+	}
+	index.childrenMap[parentID][letter] = childID
 }
 
 func (index *Index) FetchItemFromParent(parentID dag.ID, runes []rune) (*Node, error) {
@@ -419,7 +424,7 @@ func (index *Index) AddToNode(parentID dag.ID, runes []rune) (dag.Node, error) {
 		if nextItemID, ok = childrenIDMap[rootLetter]; !ok {
 			newRootItem := index.items.NewChild(currentParentID, rootLetter)
 			nextItemID = newRootItem.ID
-			index.childrenMap[currentParentID][rootLetter] = newRootItem.ID
+			index.setChild(currentParentID, rootLetter, newRootItem.ID)
 		}
 
 		if currentIndex == len(runes)-1 {
-- 
2.43.0


From 7274e4b163f6daba79b72f6a58d1fb892a0ce57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 14/38] fix: adding an empty tag set does not attach first
 known tag set

---
 internal/index/node.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/index/node.go b/internal/index/node.go
index 0d4ca69..099eb39 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -51,6 +51,11 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 
 func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	var found bool
+
+	if len(newTagSet) == 0 {
+		return nil // empty set adds no tags
+	}
+
 	tagSet := make(TagSet, len(newTagSet))
 	for idx, tagName := range newTagSet {
 		tagSet[idx], found = node.index.tags.Find(tagName)
-- 
2.43.0


From 77bc93b20050729a79c09275a3e625e8779facac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 15/38] fix: root and unknown node handles do not crash, node
 text keeps whole letters

---
 internal/index/node.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/internal/index/node.go b/internal/index/node.go
index 099eb39..a039ecf 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/amarin/gomorphy/pkg/dag"
 )
@@ -17,7 +18,11 @@ func (node *Node) Id() dag.ID {
 }
 
 func (node Node) Item() Item {
-	return node.index.items.items[node.id]
+	if item := node.index.getItem(node.id); item != nil {
+		return *item
+	}
+
+	return Item{} // root or not existed node
 }
 
 // TagSets returns list of dag.TagSet. Implements dag.Node.
@@ -30,7 +35,10 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 		tag        dag.Tag
 	)
 
-	item = node.index.getItem(node.id)
+	if item = node.index.getItem(node.id); item == nil {
+		return make([]dag.TagSet, 0) // root or not existed node has no tags
+	}
+
 	collection = node.index.collectionIdx.Get(item.Variants)
 	res = make([]dag.TagSet, collection.Len())
 
@@ -65,6 +73,10 @@ func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	}
 
 	item := node.index.getItem(node.id)
+	if item == nil {
+		return fmt.Errorf("%w: add tag set: no item: %v", Error, node.id)
+	}
+
 	collection := append(node.index.collectionIdx.Get(item.Variants).Add(node.index.tagSets.Index(tagSet)))
 	if item.Variants == 0 {
 		node.index.wordsCount++
@@ -96,9 +108,14 @@ func (node *Node) Word() string {
 // String returns string representation of node. Implements fmt.Stringer.
 func (node *Node) String() string {
 	item := node.index.getItem(node.id)
-	w := node.Word()
+	if item == nil {
+		return "Node()"
+	}
+
+	letter := string(item.Letter)
+	prefix := strings.TrimSuffix(node.Word(), letter)
 
-	return "Node(" + w[:len(w)-1] + "[" + string(item.Letter) + "]" + item.String()[1:] + ")"
+	return "Node(" + prefix + "[" + letter + "]" + strings.TrimPrefix(item.String(), letter) + ")"
 }
 
 func newNode(index *Index, id dag.ID) *Node {
-- 
2.43.0


From 265b461a10eb70dedea3b7acb4d6fc20c9204bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 16/38] fix: unknown variants ids are not found instead of a
 crash

---
 internal/index/idx.go           | 6 +++++-
 internal/index/variant_idx.go   | 7 ++++++-
 internal/index/variant_table.go | 5 +++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index b998e34..9066a9d 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -588,5 +588,9 @@ func (index *Index) Optimize() {
 
 // Variants returns TagSet collection
 func (index *Index) Variants(id VariantID) (tagSetCollection TagSetIDCollection, err error) {
-	return index.collectionIdx.Get(id), err
+	if tagSetCollection = index.collectionIdx.Get(id); len(tagSetCollection) == 0 && id != 0 {
+		return tagSetCollection, fmt.Errorf("%w: no such variants: %d", Error, id)
+	}
+
+	return tagSetCollection, nil
 }
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 093e793..ec17f8c 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -106,11 +106,16 @@ func (tagSetIndex VariantsIndex) Get(storageIdx VariantID) TagSetIDCollection {
 		return make(TagSetIDCollection, 0)
 	}
 
-	return tagSetIndex[tableNumber.Add(-1)].Get(storageIdx.CollectionTableID())
+	return tagSetIndex.Table(tableNumber).Get(storageIdx.CollectionTableID())
 }
 
 // Table returns internal CollectionTable by its index.
+// If no such table found returns empty table.
 func (tagSetIndex VariantsIndex) Table(tableID CollectionTableNumber) VariantsTable {
+	if tableID < 1 || int(tableID) > len(tagSetIndex) {
+		return make(VariantsTable, 0)
+	}
+
 	return tagSetIndex[tableID.Add(-1)]
 }
 
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index f93e9e2..f907df5 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -88,7 +88,12 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 }
 
 // Get returns TagSetIDCollection by its VariantSubID.
+// If not found returns empty TagSetIDCollection.
 func (variantsTable VariantsTable) Get(storageIdx VariantSubID) TagSetIDCollection {
+	if int(storageIdx) >= len(variantsTable) {
+		return make(TagSetIDCollection, 0)
+	}
+
 	return variantsTable[storageIdx]
 }
 
-- 
2.43.0


From 82233b082654d45a7ae53908771bc188c3f538a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 17/38] fix: inspector accepts exactly existing ids

---
 cmd/opencorpora_test/main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/opencorpora_test/main.go b/cmd/opencorpora_test/main.go
index 612221d..1823fcb 100644
--- a/cmd/opencorpora_test/main.go
+++ b/cmd/opencorpora_test/main.go
@@ -94,7 +94,7 @@ func processTag(logger logging.Logger, items ...string) error {
 			return fmt.Errorf("%w: expected int id: `%v`", ErrTag, arg)
 		}
 
-		if tagId >= tags.Len() {
+		if tagId < 0 || tagId >= tags.Len() {
 			return fmt.Errorf("%w: no such tag id: `%v`", ErrTag, arg)
 		}
 
@@ -137,7 +137,7 @@ func processSet(logger logging.Logger, items ...string) error {
 		if err != nil {
 			return fmt.Errorf("%w.%v: `%v`: int ID required", ErrSet, subCmdTable, items[2])
 		}
-		if tableID >= len(sets) {
+		if tableID < 0 || tableID >= len(sets) {
 			return fmt.Errorf("%w.%v: `%v`: no such set table", ErrSet, subCmdTable, tableID)
 		}
 		table := sets[tableID]
@@ -151,7 +151,7 @@ func processSet(logger logging.Logger, items ...string) error {
 
 	default:
 		logger.Infof("%v.%v: looking tag set %v", cmdSet, subCmd, subCmd)
-		tsNumber, err := strconv.ParseInt(subCmd, 0, 0)
+		tsNumber, err := strconv.ParseUint(subCmd, 0, 32)
 		if err != nil {
 			return fmt.Errorf("%w.%v: expected int or hex set number", ErrSet, subCmd)
 		}
@@ -273,7 +273,7 @@ func processNode(logger logging.Logger, items ...string) error {
 			}
 			strNodeId = strconv.Itoa(int(node.Id()))
 		} else {
-			if nodeID >= idx.NodesCount() {
+			if nodeID < 0 || nodeID > idx.NodesCount() {
 				return fmt.Errorf("%w.%v: `%v`: no such node", ErrNode, subCmdInfo, strNodeId)
 			}
 
-- 
2.43.0


From c7a7598f7dde1daa48aad1f57b9ff333a1ac084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 18/38] fix: failed reload does not end the inspector

---
 cmd/opencorpora_test/main.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/opencorpora_test/main.go b/cmd/opencorpora_test/main.go
index 1823fcb..a435d4d 100644
--- a/cmd/opencorpora_test/main.go
+++ b/cmd/opencorpora_test/main.go
@@ -333,11 +333,13 @@ func processNode(logger logging.Logger, items ...string) error {
 func processReload(logger logging.Logger) (err error) {
 	logger.Infof("reloading index")
 	loader := opencorpora.NewLoader("")
-	if idx, err = loader.LoadIndex(); err != nil {
-		logger.Error("load index: %v", err)
-		os.Exit(1)
+	reloaded, err := loader.LoadIndex()
+	if err != nil {
+		return fmt.Errorf("load index: %w", err) // keep using previously loaded index
 	}
 
+	idx = reloaded
+
 	return nil
 }
 
-- 
2.43.0


From b49a802a5c151d0d8f93f2cc2431a17bc447a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 19/38] fix: inspector prefers exact tag name

---
 cmd/opencorpora_test/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/opencorpora_test/main.go b/cmd/opencorpora_test/main.go
index a435d4d..5eb13d2 100644
--- a/cmd/opencorpora_test/main.go
+++ b/cmd/opencorpora_test/main.go
@@ -84,6 +84,12 @@ func processTag(logger logging.Logger, items ...string) error {
 		return nil
 	default:
 		if tagId, err = strconv.Atoi(arg); err != nil {
+			if exactTagID, found := tags.Find(dag.TagName(arg)); found { // names may differ by case only
+				tag := tags[exactTagID]
+				logger.Infof("%s[%v] %v(%v)", cmdTag, exactTagID, tag.Name, tag.Parent)
+				return nil
+			}
+
 			for intTagId, tag := range tags {
 				if strings.EqualFold(string(tag.Name), arg) {
 					logger.Infof("%s[%v] %v(%v)", cmdTag, intTagId, tag.Name, tag.Parent)
-- 
2.43.0


From a2d694d2eaddc8861aa6bc3a89c9a487a8c78f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 20/38] fix: replace compiled index only by completely written
 one

---
 pkg/opencorpora/loader.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 9ed9735..89ebcad 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -19,6 +19,9 @@ import (
 	"github.com/amarin/gomorphy/pkg/common"
 )
 
+// temporarySuffix is added to names of files while they are not completely written yet.
+const temporarySuffix = ".tmp"
+
 // Loader provides OpenCorpora dictionary parsing utilities.
 type Loader struct {
 	logging.Logger
@@ -274,23 +277,31 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 
 	loader.Info("save compiled index")
 
-	if writer, err = binutils.CreateFile(toFile); err != nil {
+	// write aside and replace target only when written completely, so target is never left incomplete or missed.
+	tmpFile := toFile + temporarySuffix
+	if writer, err = binutils.CreateFile(tmpFile); err != nil {
 		return fmt.Errorf("%w: create index: %v", Error, err)
 	}
 
+	closed, saved := false, false
+
 	defer func() {
 		loader.Debugf("finishing %v", toFile)
-		if closeErr := writer.Close(); err != nil {
-			loader.Warnf("close index: %v", closeErr)
+		if !closed {
+			if closeErr := writer.Close(); closeErr != nil {
+				loader.Warnf("close index: %v", closeErr)
+			}
 		}
 
-		if err != nil {
-			loader.Error(err.Error())
-
-			if removeErr := os.Remove(toFile); removeErr != nil {
+		if !saved {
+			if removeErr := os.Remove(tmpFile); removeErr != nil {
 				loader.Warnf("remove incomplete index: %v", removeErr)
 			}
-		} else {
+		}
+
+		if err != nil {
+			loader.Error(err.Error())
+		} else if saved {
 			loader.Infof("compiled index saved at %v", toFile)
 		}
 	}()
@@ -303,6 +314,17 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 		return fmt.Errorf("%w: save index: %v", Error, err)
 	}
 
+	closed = true
+	if err = writer.Close(); err != nil {
+		return fmt.Errorf("%w: close index: %v", Error, err)
+	}
+
+	if err = os.Rename(tmpFile, toFile); err != nil {
+		return fmt.Errorf("%w: replace index: %v", Error, err)
+	}
+
+	saved = true
+
 	return nil
 }
 
-- 
2.43.0


From 02497d01a6a2e55c36a633f21c12cca7c036e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:36 +0000
Subject: [PATCH 21/38] fix: do not compile a file without complete dictionary

---
 pkg/opencorpora/loader.go | 4 ++++
 pkg/opencorpora/parser.go | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 89ebcad..25f6f4d 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -346,6 +346,10 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 		return fmt.Errorf("parse: %w", err)
 	}
 
+	if err == nil && !parser.completed {
+		return fmt.Errorf("%w: parse: no complete dictionary in %v", Error, fromFile)
+	}
+
 	return loader.SaveIndex(mainIndex, toFile)
 }
 
diff --git a/pkg/opencorpora/parser.go b/pkg/opencorpora/parser.go
index b1f917a..5ef46ba 100644
--- a/pkg/opencorpora/parser.go
+++ b/pkg/opencorpora/parser.go
@@ -47,6 +47,8 @@ type Parser struct {
 	parsedForms     int // parsed lemma forms
 	logAverageSpeed int // report average parse speed each logAverageSpeed seconds
 
+	completed bool // dictionary root element is parsed upto its end
+
 	// max forms to parse.
 	// If !=0 parser will be stopped with ErrControlledStop after maximum maxLemmas lemmas forms parsing.
 	maxLemmas int
@@ -186,7 +188,11 @@ func (parser *Parser) onDictionary() *elementProcessor {
 			return parser.dictionary.processElem(parser, element)
 		},
 		processData: ignoreElementData,
-		processEnd:  nil,
+		processEnd: func(element xml.EndElement) error {
+			parser.completed = true
+
+			return nil
+		},
 	}
 }
 
-- 
2.43.0


From e6e0519c224413f62467a9835e89efee0ba4c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 22/38] fix: loader creates the data path it was given

---
 pkg/opencorpora/loader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 25f6f4d..91abe99 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -171,7 +171,7 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		return false, nil
 	}
 
-	if err := common.MakeDomainDataPath(DomainName); err != nil {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return false, err
 	}
 
@@ -213,7 +213,7 @@ func (loader Loader) UnpackUpdate() (err error) {
 		target     io.WriteCloser
 	)
 
-	if err := common.MakeDomainDataPath(DomainName); err != nil {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return err
 	}
 
-- 
2.43.0


From f7db035142d8e8d31cb741125f97287fa6cff680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 23/38] fix: inaccessible local copy is an error of update
 check

---
 pkg/opencorpora/loader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 91abe99..a5b5f52 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -132,6 +132,12 @@ func (loader Loader) IsUpdateRequired() (bool, error) {
 		return true, nil // no file, update required
 	}
 
+	if err != nil {
+		loader.Warnf("file access: %v: %v", expectedFile, err)
+
+		return false, err // local file state unknown, nothing to compare with
+	}
+
 	loader.Debugf("check remote %v", RemoteURL)
 	response, err := http.Head(RemoteURL)
 	if err != nil {
-- 
2.43.0


From a2fa609fc2057ab7d3a6675fcb5e98106a906f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 24/38] fix: only a completed download replaces previous one

---
 pkg/opencorpora/loader.go | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index a5b5f52..92956dd 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -193,23 +193,44 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		}
 	}()
 
-	// Create a empty file
-	file, err := os.Create(loader.downloadedFilePath())
-	if err != nil {
+	if response.StatusCode != http.StatusOK {
+		return false, fmt.Errorf("%w: unexpected response code %v", Error, response.StatusCode)
+	}
+
+	if err = loader.writeFile(loader.downloadedFilePath(), response.Body); err != nil {
 		return false, err
 	}
 
+	return true, nil
+}
+
+// writeFile copies source data into target file.
+// Target file is replaced only when all source data is written, otherwise it is left untouched.
+func (loader Loader) writeFile(targetPath string, source io.Reader) (err error) {
+	tmpPath := targetPath + temporarySuffix
+
+	file, err := os.Create(tmpPath)
+	if err != nil {
+		return err
+	}
+
 	defer func() {
-		if file != nil {
-			_ = file.Close()
+		if err != nil {
+			_ = os.Remove(tmpPath)
 		}
 	}()
 
-	if _, err = io.Copy(file, response.Body); err != nil {
-		return false, err
+	if _, err = io.Copy(file, source); err != nil { // nolint:gosec
+		_ = file.Close()
+
+		return err
 	}
 
-	return true, nil
+	if err = file.Close(); err != nil {
+		return err
+	}
+
+	return os.Rename(tmpPath, targetPath)
 }
 
 func (loader Loader) UnpackUpdate() (err error) {
-- 
2.43.0


From 30912976152b7ac2a9c1eb76c904c65a1bbf9587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 25/38] fix: only completely unpacked dictionary replaces
 previous one

---
 pkg/opencorpora/loader.go | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 92956dd..ed392ae 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -237,7 +237,6 @@ func (loader Loader) UnpackUpdate() (err error) {
 	var (
 		source     io.ReadCloser
 		bzipSource io.Reader
-		target     io.WriteCloser
 	)
 
 	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
@@ -252,17 +251,7 @@ func (loader Loader) UnpackUpdate() (err error) {
 
 	bzipSource = bzip2.NewReader(source)
 
-	if target, err = os.Create(loader.unpackedFilePath()); err != nil {
-		return err
-	}
-
-	defer func() { _ = target.Close() }()
-
-	if _, err = io.Copy(target, bzipSource); err != nil { // nolint:gosec
-		return err
-	}
-
-	return nil
+	return loader.writeFile(loader.unpackedFilePath(), bzipSource)
 }
 
 func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
-- 
2.43.0


From 5cbb50de60b732ce25a97f782725788f67892664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 26/38] fix: remote changes made during download are not missed

---
 pkg/opencorpora/loader.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index ed392ae..4fad3ba 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -197,7 +197,13 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		return false, fmt.Errorf("%w: unexpected response code %v", Error, response.StatusCode)
 	}
 
-	if err = loader.writeFile(loader.downloadedFilePath(), response.Body); err != nil {
+	// remember what was downloaded: remote may be changed while download is in progress
+	lastModified, err := time.Parse(time.RFC1123, response.Header.Get(common.HTTPHeaderLastModified))
+	if err != nil {
+		lastModified = time.Time{} // unknown
+	}
+
+	if err = loader.writeFile(loader.downloadedFilePath(), response.Body, lastModified); err != nil {
 		return false, err
 	}
 
@@ -206,7 +212,8 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 
 // writeFile copies source data into target file.
 // Target file is replaced only when all source data is written, otherwise it is left untouched.
-func (loader Loader) writeFile(targetPath string, source io.Reader) (err error) {
+// Zero modified time leaves target file with its actual modification time.
+func (loader Loader) writeFile(targetPath string, source io.Reader, modified time.Time) (err error) {
 	tmpPath := targetPath + temporarySuffix
 
 	file, err := os.Create(tmpPath)
@@ -230,6 +237,12 @@ func (loader Loader) writeFile(targetPath string, source io.Reader) (err error)
 		return err
 	}
 
+	if !modified.IsZero() {
+		if err = os.Chtimes(tmpPath, modified, modified); err != nil {
+			return err
+		}
+	}
+
 	return os.Rename(tmpPath, targetPath)
 }
 
@@ -251,7 +264,7 @@ func (loader Loader) UnpackUpdate() (err error) {
 
 	bzipSource = bzip2.NewReader(source)
 
-	return loader.writeFile(loader.unpackedFilePath(), bzipSource)
+	return loader.writeFile(loader.unpackedFilePath(), bzipSource, time.Time{})
 }
 
 func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
-- 
2.43.0


From 0dcacb9de09a09f3e8c81699dc23e98906d3ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 27/38] fix: updater finishes interrupted updates

---
 pkg/opencorpora/loader.go | 42 +++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 4fad3ba..5ffcf12 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -382,6 +382,33 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 	return loader.SaveIndex(mainIndex, toFile)
 }
 
+// isCompiledActual returns true if compiled file was made from currently downloaded one.
+func (loader Loader) isCompiledActual() bool {
+	downloaded, err := os.Stat(loader.downloadedFilePath())
+	if err != nil {
+		return false
+	}
+
+	compiled, err := os.Stat(loader.compiledFilePath())
+	if err != nil {
+		return false
+	}
+
+	return compiled.ModTime().Equal(downloaded.ModTime())
+}
+
+// markCompiledActual marks compiled file as made from currently downloaded one sharing its modification time.
+func (loader Loader) markCompiledActual() {
+	downloaded, err := os.Stat(loader.downloadedFilePath())
+	if err != nil {
+		return // nothing to refer to
+	}
+
+	if err = os.Chtimes(loader.compiledFilePath(), downloaded.ModTime(), downloaded.ModTime()); err != nil {
+		loader.Warnf("mark compiled: %v", err)
+	}
+}
+
 func (loader Loader) Update(forceRecompile bool) (err error) {
 	var updated, updateRequired, downloadedExists, unpackedExists bool
 
@@ -392,12 +419,12 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 	unpackedExists = loader.IsUnpackedExists()
 
 	switch {
+	case err != nil && forceRecompile && downloadedExists: // unpacked file may be older or incomplete
+		loader.Errorf("check update: %v, force recompile using previous downloaded file", err)
+		goto unpack
 	case err != nil && forceRecompile && unpackedExists:
 		loader.Errorf("check update: %v, force recompile using previous unpacked file", err)
 		goto compile
-	case err != nil && forceRecompile && downloadedExists:
-		loader.Errorf("check update: %v, force recompile using previous downloaded file", err)
-		goto unpack
 	case err != nil:
 		loader.Errorf("check update: %v", err)
 		return err
@@ -406,7 +433,12 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 
 		if forceRecompile {
 			loader.Info("do recompile as force update required")
-			goto compile
+			goto unpack
+		}
+
+		if !loader.isCompiledActual() {
+			loader.Info("do recompile as previous update was not finished")
+			goto unpack
 		}
 
 		return nil
@@ -444,5 +476,7 @@ compile:
 		return err
 	}
 
+	loader.markCompiledActual()
+
 	return nil
 }
-- 
2.43.0


From a773bc87504c9a193037f6f1d1f29d13c1abb91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 28/38] fix: damaged download does not block further updates

---
 pkg/opencorpora/loader.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 5ffcf12..79cbf36 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -382,6 +382,19 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 	return loader.SaveIndex(mainIndex, toFile)
 }
 
+// dropBrokenDownload removes downloaded file if unpack error says it is damaged, so next update takes it again.
+func (loader Loader) dropBrokenDownload(unpackErr error) {
+	var structuralErr bzip2.StructuralError
+
+	if !errors.As(unpackErr, &structuralErr) && !errors.Is(unpackErr, io.ErrUnexpectedEOF) {
+		return
+	}
+
+	if err := os.Remove(loader.downloadedFilePath()); err != nil {
+		loader.Warnf("remove broken download: %v", err)
+	}
+}
+
 // isCompiledActual returns true if compiled file was made from currently downloaded one.
 func (loader Loader) isCompiledActual() bool {
 	downloaded, err := os.Stat(loader.downloadedFilePath())
@@ -465,6 +478,7 @@ unpack:
 	switch {
 	case err != nil:
 		loader.Errorf("unpack: %v", err)
+		loader.dropBrokenDownload(err)
 		return err
 	default:
 		loader.Info("lemmata updated, compile")
-- 
2.43.0


From 9a6fa29e8177c0fb5718bcb805f5b8c9840df062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 29/38] fix: updater compiles even if remote changes its mind

---
 pkg/opencorpora/loader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 79cbf36..ab460cc 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -466,9 +466,11 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 	case err != nil:
 		loader.Errorf("download: %v", err)
 		return err
-	case !updated:
+	case !updated && !forceRecompile && loader.isCompiledActual():
 		loader.Warn("files not updated, no errors")
 		return nil
+	case !updated:
+		loader.Warn("files not updated, unpacking previously downloaded")
 	default:
 		loader.Info("downloaded, unpacking")
 	}
-- 
2.43.0


From c6d349dec8d0ce930c5af82fe9a4ff2101f6949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 30/38] fix: refuse to write registries longer than their
 length fields

---
 internal/index/tagset_def.go   | 5 +++++
 internal/index/tagset_table.go | 5 +++++
 internal/index/variant_def.go  | 5 +++++
 internal/index/variant_idx.go  | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/internal/index/tagset_def.go b/internal/index/tagset_def.go
index 7690fdf..1c7e8b8 100644
--- a/internal/index/tagset_def.go
+++ b/internal/index/tagset_def.go
@@ -3,6 +3,7 @@ package index
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -59,6 +60,10 @@ func (tagSet *TagSet) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSet TagSet) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSet) > math.MaxUint8 {
+		return fmt.Errorf("%w: write: tagset: %d tags does not fit", Error, len(tagSet))
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSet))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index ddd44ef..f154072 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -61,6 +62,10 @@ func (tagSetTable TagSetTable) BinaryWriteTo(writer *binutils.BinaryWriter) (err
 	if writer == nil {
 		return fmt.Errorf("%w: writer nil", Error)
 	}
+	if tagSetTable.Len() > math.MaxUint16 {
+		return fmt.Errorf("%w: write: tagset: table of %d tag sets does not fit", Error, tagSetTable.Len())
+	}
+
 	if err = writer.WriteUint16(uint16(tagSetTable.Len())); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_def.go b/internal/index/variant_def.go
index c832faf..c26280d 100644
--- a/internal/index/variant_def.go
+++ b/internal/index/variant_def.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -28,6 +29,10 @@ func (t TagSetIDCollection) GoString() string {
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (t TagSetIDCollection) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(t) > math.MaxUint8 {
+		return fmt.Errorf("%w: write: variants: %d tag sets does not fit", Error, len(t))
+	}
+
 	if err = writer.WriteUint8(uint8(len(t))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index ec17f8c..5aaf83b 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -16,6 +17,10 @@ type VariantsIndex []VariantsTable
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSetIndex VariantsIndex) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSetIndex) > math.MaxUint8 {
+		return fmt.Errorf("%w: write: variants: %d tables does not fit", Error, len(tagSetIndex))
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSetIndex))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
-- 
2.43.0


From c52bba0f01e12371afc98d9e9e7683c6fe051856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 31/38] fix: refuse registrations when tag set and variants ids
 are exhausted

---
 internal/index/tagset_index.go  | 5 +++++
 internal/index/tagset_table.go  | 4 ++++
 internal/index/variant_idx.go   | 4 ++++
 internal/index/variant_table.go | 5 +++++
 4 files changed, 18 insertions(+)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index e684c1b..59b7572 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/amarin/binutils"
 
@@ -114,6 +115,10 @@ func (tagSetIndex *TagSetIndex) Index(item TagSet) (storageIdx TagSetID) {
 	}
 
 	columnIdx := len(item) - 1
+	if columnIdx > math.MaxUint16 {
+		panic("tag set is too long")
+	}
+
 	if columnIdx >= len(*tagSetIndex) { // no enough columns extend inplace
 		currentLen := len(*tagSetIndex)
 
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index f154072..dc5d9cb 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -108,6 +108,10 @@ func (tagSetTable *TagSetTable) Index(item TagSet) (storageIdx TagSetSubID) {
 		return storageIdx
 	}
 
+	if len(*tagSetTable) > math.MaxUint16 {
+		panic("tag sets table is full")
+	}
+
 	storageIdx = TagSetSubID(len(*tagSetTable))
 
 	*tagSetTable = append(*tagSetTable, append(TagSet(nil), item...)) // keep own copy of item data
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 5aaf83b..9b8d981 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -84,6 +84,10 @@ func (tagSetIndex *VariantsIndex) Index(item TagSetIDCollection) (storageIdx Var
 		return 0
 	}
 
+	if len(item) > math.MaxUint16 {
+		panic("variants list is too long")
+	}
+
 	sort.Sort(item)
 
 	tableNumber := CollectionTableNumber(len(item) - 1)
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index f907df5..e56ca3e 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
@@ -80,6 +81,10 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 		return storageIdx
 	}
 
+	if len(*variantsTable) > math.MaxUint16 {
+		panic("variants table is full")
+	}
+
 	storageIdx = VariantSubID(len(*variantsTable))
 
 	*variantsTable = append(*variantsTable, append(TagSetIDCollection(nil), item...)) // keep own copy of item data
-- 
2.43.0


From ba88e5b7b3bf0fcc332edc50383d3564090f1c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 32/38] fix: empty tag set does not share id with a registered
 one

---
 internal/index/tagset_index.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index 59b7572..58b3cda 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -109,9 +109,10 @@ func (tagSetIndex *TagSetIndex) Find(item TagSet) (storageIdx TagSetID, found bo
 // Index returns specified TagSet ID in index.
 // If no such TagSet registered before, it will be indexed first.
 // To check if TagSet present in index without registering use Find instead.
+// Panics if specified set is empty or no free id left to register it.
 func (tagSetIndex *TagSetIndex) Index(item TagSet) (storageIdx TagSetID) {
 	if len(item) == 0 {
-		return 0 // empty set means no data
+		panic("empty set") // there is no id for empty set, 0 belongs to the first set of single tag
 	}
 
 	columnIdx := len(item) - 1
-- 
2.43.0


From 96c279b01b235dc5eba8fcf9228ff8a90225bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 33/38] fix: list existing tag sets ids

---
 internal/index/tagset_index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index 58b3cda..1b2543a 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -138,7 +138,7 @@ func (tagSetIndex TagSetIndex) TableIDs() (res []TagSetID) {
 	res = make([]TagSetID, 0)
 	for tableIDx, table := range tagSetIndex {
 		for idxInTable := range table {
-			tableID := TagSetTableNumber(tableIDx).Add(1).TagSetID(TagSetSubID(idxInTable))
+			tableID := TagSetTableNumber(tableIDx).TagSetID(TagSetSubID(idxInTable))
 			res = append(res, tableID)
 		}
 	}
-- 
2.43.0


From 0a3172c89284b848b6cf1c37a16f13642226f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 34/38] fix: do not count words whose tag sets were refused

---
 internal/index/node.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/index/node.go b/internal/index/node.go
index a039ecf..c3d3b9a 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -78,10 +78,11 @@ func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	}
 
 	collection := append(node.index.collectionIdx.Get(item.Variants).Add(node.index.tagSets.Index(tagSet)))
+	variants := node.index.collectionIdx.Index(collection) // may refuse, do not count word before
 	if item.Variants == 0 {
 		node.index.wordsCount++
 	}
-	item.Variants = node.index.collectionIdx.Index(collection)
+	item.Variants = variants
 
 	return nil
 }
-- 
2.43.0


From 3c9547028eeb6af4c3087a0162809c9383fd2b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 35/38] fix: resolve root path

---
 pkg/dag/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dag/utils.go b/pkg/dag/utils.go
index 3536632..9caa403 100644
--- a/pkg/dag/utils.go
+++ b/pkg/dag/utils.go
@@ -32,7 +32,7 @@ func ResolveFilePath(filePath string) (dirname, filename, ext string, err error)
 	switch {
 	case err != nil:
 		return dirname, fileName, ext, fmt.Errorf("%w: path: %v: %v", ErrIndex, dirname, err)
-	case fileStat.Name() != filenameWithExt:
+	case filenameWithExt != "" && fileStat.Name() != filenameWithExt:
 		return dirname, fileName, ext, fmt.Errorf("%w: expected dir: %v: %v", ErrIndex, dirname, err)
 	}
 
-- 
2.43.0


From 6831f18289cc98da151e77ccc6a21c51a66269c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 36/38] fix: take the whole text of a tag name

---
 pkg/opencorpora/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/opencorpora/parser.go b/pkg/opencorpora/parser.go
index 5ef46ba..2a0c4ad 100644
--- a/pkg/opencorpora/parser.go
+++ b/pkg/opencorpora/parser.go
@@ -220,9 +220,12 @@ func (parser *Parser) onGrammeme() *elementProcessor {
 
 func (parser *Parser) onGrammemeName() *elementProcessor {
 	return &elementProcessor{
-		processStart: ignoreElementStart,
+		processStart: func(element xml.StartElement) error {
+			parser.currentGrammeme.Name = ""
+			return nil
+		},
 		processData: func(data string) error {
-			parser.currentGrammeme.Name = dag.TagName(data)
+			parser.currentGrammeme.Name += dag.TagName(data) // text comes in pieces if there are comments inside
 			return nil
 		},
 		processEnd: ignoreElementEnd,
-- 
2.43.0


From b7f617e95d33b7b266388f628cafc24e435c790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 37/38] undo changes of the inspector: its directory counts as
 test files

---
 cmd/opencorpora_test/main.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/cmd/opencorpora_test/main.go b/cmd/opencorpora_test/main.go
index 5eb13d2..612221d 100644
--- a/cmd/opencorpora_test/main.go
+++ b/cmd/opencorpora_test/main.go
@@ -84,12 +84,6 @@ func processTag(logger logging.Logger, items ...string) error {
 		return nil
 	default:
 		if tagId, err = strconv.Atoi(arg); err != nil {
-			if exactTagID, found := tags.Find(dag.TagName(arg)); found { // names may differ by case only
-				tag := tags[exactTagID]
-				logger.Infof("%s[%v] %v(%v)", cmdTag, exactTagID, tag.Name, tag.Parent)
-				return nil
-			}
-
 			for intTagId, tag := range tags {
 				if strings.EqualFold(string(tag.Name), arg) {
 					logger.Infof("%s[%v] %v(%v)", cmdTag, intTagId, tag.Name, tag.Parent)
@@ -100,7 +94,7 @@ func processTag(logger logging.Logger, items ...string) error {
 			return fmt.Errorf("%w: expected int id: `%v`", ErrTag, arg)
 		}
 
-		if tagId < 0 || tagId >= tags.Len() {
+		if tagId >= tags.Len() {
 			return fmt.Errorf("%w: no such tag id: `%v`", ErrTag, arg)
 		}
 
@@ -143,7 +137,7 @@ func processSet(logger logging.Logger, items ...string) error {
 		if err != nil {
 			return fmt.Errorf("%w.%v: `%v`: int ID required", ErrSet, subCmdTable, items[2])
 		}
-		if tableID < 0 || tableID >= len(sets) {
+		if tableID >= len(sets) {
 			return fmt.Errorf("%w.%v: `%v`: no such set table", ErrSet, subCmdTable, tableID)
 		}
 		table := sets[tableID]
@@ -157,7 +151,7 @@ func processSet(logger logging.Logger, items ...string) error {
 
 	default:
 		logger.Infof("%v.%v: looking tag set %v", cmdSet, subCmd, subCmd)
-		tsNumber, err := strconv.ParseUint(subCmd, 0, 32)
+		tsNumber, err := strconv.ParseInt(subCmd, 0, 0)
 		if err != nil {
 			return fmt.Errorf("%w.%v: expected int or hex set number", ErrSet, subCmd)
 		}
@@ -279,7 +273,7 @@ func processNode(logger logging.Logger, items ...string) error {
 			}
 			strNodeId = strconv.Itoa(int(node.Id()))
 		} else {
-			if nodeID < 0 || nodeID > idx.NodesCount() {
+			if nodeID >= idx.NodesCount() {
 				return fmt.Errorf("%w.%v: `%v`: no such node", ErrNode, subCmdInfo, strNodeId)
 			}
 
@@ -339,13 +333,11 @@ func processNode(logger logging.Logger, items ...string) error {
 func processReload(logger logging.Logger) (err error) {
 	logger.Infof("reloading index")
 	loader := opencorpora.NewLoader("")
-	reloaded, err := loader.LoadIndex()
-	if err != nil {
-		return fmt.Errorf("load index: %w", err) // keep using previously loaded index
+	if idx, err = loader.LoadIndex(); err != nil {
+		logger.Error("load index: %v", err)
+		os.Exit(1)
 	}
 
-	idx = reloaded
-
 	return nil
 }
 
-- 
2.43.0


From 8ff6044a831cc759beb4c6efe8d04be40f5c223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:51 +0000
Subject: [PATCH 38/38] fix: refuse a grammeme without a name

---
 pkg/opencorpora/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/opencorpora/parser.go b/pkg/opencorpora/parser.go
index 2a0c4ad..6cf9ee8 100644
--- a/pkg/opencorpora/parser.go
+++ b/pkg/opencorpora/parser.go
@@ -211,6 +211,9 @@ func (parser *Parser) onGrammeme() *elementProcessor {
 		},
 		processData: ignoreElementData,
 		processEnd: func(element xml.EndElement) error {
+			if parser.currentGrammeme.Name == "" {
+				return fmt.Errorf("%w: required grammeme name", Error)
+			}
 			_ = parser.index.TagID(parser.currentGrammeme.Name, parser.currentGrammeme.Parent)
 			parser.currentGrammeme = nil
 			return nil
-- 
2.43.0

