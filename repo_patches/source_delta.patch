From f0337454f25a7b285f10808e6958ea85b2f4e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 01/24] fix: property reader dropped the high bytes of 16-, 32-
 and 64-bit integers

---
 flatgeobuf/prop_reader.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 1b3188b..34bcbcd 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -64,7 +64,7 @@ func (r *PropReader) ReadShort() (int16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return int16(b[0]) | int16(b[1]<<8), nil
+	return int16(b[0]) | int16(b[1])<<8, nil
 }
 
 func (r *PropReader) ReadUShort() (uint16, error) {
@@ -73,7 +73,7 @@ func (r *PropReader) ReadUShort() (uint16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint16(b[0]) | uint16(b[1]<<8), nil
+	return uint16(b[0]) | uint16(b[1])<<8, nil
 }
 
 func (r *PropReader) ReadInt() (int32, error) {
@@ -91,7 +91,7 @@ func (r *PropReader) ReadUInt() (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint32(b[0]) | uint32(b[1]<<8) | uint32(b[2]<<16) | uint32(b[3]<<24), nil
+	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24, nil
 }
 
 func (r *PropReader) ReadLong() (int64, error) {
@@ -100,8 +100,8 @@ func (r *PropReader) ReadLong() (int64, error) {
 	if err != nil {
 		return 0, err
 	}
-	v := int64(b[0]<<000) | int64(b[1]<<010) | int64(b[2]<<020) | int64(b[3]<<030) |
-		int64(b[4]<<040) | int64(b[5]<<050) | int64(b[6]<<060) | int64(b[7]<<070)
+	v := int64(b[0])<<000 | int64(b[1])<<010 | int64(b[2])<<020 | int64(b[3])<<030 |
+		int64(b[4])<<040 | int64(b[5])<<050 | int64(b[6])<<060 | int64(b[7])<<070
 	return v, nil
 }
 
@@ -111,8 +111,8 @@ func (r *PropReader) ReadULong() (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	v := uint64(b[0]<<000) | uint64(b[1]<<010) | uint64(b[2]<<020) | uint64(b[3]<<030) |
-		uint64(b[4]<<040) | uint64(b[5]<<050) | uint64(b[6]<<060) | uint64(b[7]<<070)
+	v := uint64(b[0])<<000 | uint64(b[1])<<010 | uint64(b[2])<<020 | uint64(b[3])<<030 |
+		uint64(b[4])<<040 | uint64(b[5])<<050 | uint64(b[6])<<060 | uint64(b[7])<<070
 	return v, nil
 }
 
-- 
2.43.0


From 4412cf4ede9d34d9a09483e8cce5c1f4c75b4acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 02/24] fix: ReadSchema reported truncated property values as
 success and panicked on unknown column types

---
 flatgeobuf/prop_reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 34bcbcd..170fbeb 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -218,7 +218,13 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		case flat.ColumnTypeJson, flat.ColumnTypeBinary:
 			val.Value, err = r.ReadBinary()
 		default:
-			fmtPanic("unknown column type: %s", val.Type)
+			return nil, fmtErr("column %d has unknown type: %s", i, val.Type)
+		}
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF // The list ends inside a key/value pair.
+		}
+		if err != nil {
+			return nil, wrapErr("error reading value of column %d", err, i)
 		}
 		vals = append(vals, val)
 	}
-- 
2.43.0


From 15c5911091f77e78d98bbeae7b137e51ebae500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 03/24] fix: packedrtree did not compile on big-endian
 architectures and mips64le

---
 packedrtree/native_bigendian.go    | 3 +++
 packedrtree/native_littleendian.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/packedrtree/native_bigendian.go b/packedrtree/native_bigendian.go
index 2b75a76..ac45791 100644
--- a/packedrtree/native_bigendian.go
+++ b/packedrtree/native_bigendian.go
@@ -6,6 +6,8 @@
 
 package packedrtree
 
+import "io"
+
 func fixLittleEndianOctets(b []byte) {
 	for i := 0; i < len(b); i += 8 {
 		b[i+0], b[i+7] = b[i+7], b[i+0]
@@ -34,6 +36,7 @@ func writeLittleEndianOctets(w io.Writer, p []byte) (n int, err error) {
 			buf[i+6] = p[n+i+1]
 			buf[i+7] = p[n+i+0]
 		}
+		var m int
 		m, err = w.Write(buf)
 		n += m
 		if err != nil {
diff --git a/packedrtree/native_littleendian.go b/packedrtree/native_littleendian.go
index 3b92e6a..08b2139 100644
--- a/packedrtree/native_littleendian.go
+++ b/packedrtree/native_littleendian.go
@@ -2,7 +2,7 @@
 // Use of this source code is governed by an MIT-style
 // license that can be found in the LICENSE file.
 
-//go:build 386 || amd64 || amd64p32 || arm || arm64 || loong64 || mipsle || mis64le || mips64p32le || ppc64le || riscv || riscv64 || wasm
+//go:build 386 || amd64 || amd64p32 || arm || arm64 || loong64 || mipsle || mips64le || mips64p32le || ppc64le || riscv || riscv64 || wasm
 
 package packedrtree
 
-- 
2.43.0


From 8b6b3b65624c1318445fb3292d2277c42804bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 04/24] fix: FileWriter rejected every valid size-prefixed root
 header and feature

---
 flatgeobuf/flatbuffers.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/flatgeobuf/flatbuffers.go b/flatgeobuf/flatbuffers.go
index fa07851..4192d31 100644
--- a/flatgeobuf/flatbuffers.go
+++ b/flatgeobuf/flatbuffers.go
@@ -38,19 +38,25 @@ func writeSizePrefixedTable(w io.Writer, t flatbuffers.Table) (n int, err error)
 	var size uint32
 	if size, err = tableSize(t); err != nil {
 		return
-	} else if uint64(size) > uint64(len(t.Bytes)) {
-		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
-		return
 	} else {
 		n, err = w.Write(t.Bytes[0 : flatbuffers.SizeUint32+size])
 		return
 	}
 }
 
+// tableSize returns the value of the size prefix of a size-prefixed root
+// FlatBuffers table which is positioned at offset zero of its buffer. The
+// size does not include the length of the size prefix itself.
 func tableSize(t flatbuffers.Table) (size uint32, err error) {
-	if t.Pos != flatbuffers.SizeUint32 {
+	const prefixLen = flatbuffers.SizeUint32 + flatbuffers.SizeUOffsetT
+	if len(t.Bytes) < prefixLen ||
+		uint64(t.Pos) != flatbuffers.SizeUint32+uint64(flatbuffers.GetUOffsetT(t.Bytes[flatbuffers.SizeUint32:])) {
 		err = fmtErr("not a size-prefixed root FlatBuffers table at offset 0 (Len=%d, Pos=%d)", len(t.Bytes), t.Pos)
+		return
 	}
 	size = flatbuffers.GetUint32(t.Bytes)
+	if flatbuffers.SizeUint32+uint64(size) > uint64(len(t.Bytes)) {
+		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
+	}
 	return
 }
-- 
2.43.0


From 10a740853d1987abc182a732d0488de29d262440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 05/24] fix: IndexData ignored the coordinates of multi-part
 geometries when computing bounds

---
 flatgeobuf/file_writer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 239d634..c891332 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -315,10 +315,7 @@ func featureBounds(b *packedrtree.Box, f *flat.Feature) error {
 	return safeFlatBuffersInteraction(func() error {
 		var g flat.Geometry
 		if f.Geometry(&g) != nil {
-			n := g.XyLength()
-			for i := 0; i < n; i += 2 {
-				b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
-			}
+			geomBounds(&g, b)
 		}
 		return nil
 	})
-- 
2.43.0


From 8161b629ed61399e85a9f18d33ffe731eca9ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 06/24] fix: IndexData wrote an index whose offsets and leaf
 order disagreed with the data section

---
 flatgeobuf/file_writer.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index c891332..21a8739 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -11,6 +11,7 @@ import (
 	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
 
 	"github.com/gogama/flatgeobuf/packedrtree"
+	flatbuffers "github.com/google/flatbuffers/go"
 )
 
 // FileWriter writes a FlatGeobuf file to an underlying stream.
@@ -173,14 +174,22 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 		return
 	}
 
-	// Create index.
+	if len(data) == 0 {
+		err = textErr("no features to index")
+		return
+	}
+
+	// Create index. The data section has to be in the same order as the
+	// leaves of the index, so the features are Hilbert sorted before
+	// their data section offsets can be known. Until then, the offset
+	// field identifies the feature.
 	refs := make([]packedrtree.Ref, len(data))
+	sizes := make([]int64, len(data))
 	bounds := packedrtree.EmptyBox
 	var i int
 	err = safeFlatBuffersInteraction(func() error {
-		var offset int64
 		for i = range data {
-			refs[i].Offset = offset
+			refs[i].Offset = int64(i)
 			var size uint32
 			if size, err = tableSize(data[i].Table()); err != nil {
 				return wrapErr("feature %d", err, i)
@@ -190,7 +199,7 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 				return wrapErr("feature %d", err, i)
 			}
 			bounds.Expand(&refs[i].Box)
-			offset += int64(size)
+			sizes[i] = flatbuffers.SizeUint32 + int64(size)
 		}
 		return nil
 	})
@@ -199,6 +208,14 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 		return
 	}
 	packedrtree.HilbertSort(refs, bounds)
+	sorted := make([]*flat.Feature, len(data))
+	var offset int64
+	for i = range refs {
+		j := refs[i].Offset
+		sorted[i] = data[j]
+		refs[i].Offset = offset
+		offset += sizes[j]
+	}
 	var index *packedrtree.PackedRTree
 	if index, err = packedrtree.New(refs, w.nodeSize); err != nil {
 		return
@@ -210,9 +227,9 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 	}
 
 	// Write the data.
-	for i = range data {
+	for i = range sorted {
 		var o int
-		o, err = w.Data(data[i])
+		o, err = w.Data(sorted[i])
 		n += o
 		if err != nil {
 			return
-- 
2.43.0


From eb88e5c7d2ce444a0a3b883f7537b762a476411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 07/24] fix: FileReader panicked when used after a corrupt
 header table was reported

---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 12ed755..8e2ea5a 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -113,7 +113,7 @@ func (r *FileReader) Header() (*flat.Header, error) {
 		nodeSize = hdr.IndexNodeSize()
 		return nil
 	}); err != nil {
-		return nil, err
+		return nil, r.toErr(wrapErr("corrupt header table", err))
 	}
 
 	// Avoid overflow on feature count, because we interact with it
-- 
2.43.0


From d35e95ed0011f7a66b621f6d026a0f3b98cae931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:18 +0000
Subject: [PATCH 08/24] fix: FileReader panicked on files with an index node
 size but no feature count

---
 flatgeobuf/file_reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 8e2ea5a..967575c 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -131,6 +131,12 @@ func (r *FileReader) Header() (*flat.Header, error) {
 		return hdr, r.toErr(textErr("header index node size 1 not allowed"))
 	}
 
+	// A file whose feature count is zero or unknown cannot have an index,
+	// whatever its index node size (which has a non-zero default) says.
+	if numFeatures == 0 {
+		nodeSize = 0
+	}
+
 	// Store feature count and node size.
 	r.numFeatures = int(numFeatures)
 	r.nodeSize = nodeSize
-- 
2.43.0


From dca8ab26329e479c5a803c2d7de9e80362556077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 09/24] fix: FileReader read from the start of the file after
 Index() and Rewind()

---
 flatgeobuf/file_reader.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 967575c..dc98ad4 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -208,6 +208,13 @@ func (r *FileReader) Index() (*packedrtree.PackedRTree, error) {
 		return nil, r.toErr(wrapErr("failed to read index", err))
 	}
 
+	// Since we know that the reader's position is at the start of the data
+	// section, we save this for future reference in case the user does a
+	// Rewind().
+	if err = r.saveDataOffset(s); err != nil {
+		return nil, err
+	}
+
 	// Cache the index for use after future Rewind().
 	r.cachedIndex = prt
 
-- 
2.43.0


From 2bccbff94002a4200cc7e693ec89d4593a1bb46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 10/24] fix: IndexSearch always panicked on a stream that is
 not an io.Seeker

---
 flatgeobuf/file_reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index dc98ad4..1783629 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -272,8 +272,9 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 		}
 	} else if r.cachedIndex == nil {
 		// Force caching the index.
-		if _, err := r.Index(); err != nil {
-			return nil, err
+		var err error
+		if r.cachedIndex, err = packedrtree.Unmarshal(r.r, r.numFeatures, r.nodeSize); err != nil {
+			return nil, r.toErr(wrapErr("failed to read index", err))
 		}
 		sr = r.cachedIndex.Search(b)
 	} else {
-- 
2.43.0


From 7682b1d1fef89b44d4fbbbfb164a60fb45a247bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 11/24] fix: IndexSearch returned the wrong features when index
 leaves were not in file order

---
 flatgeobuf/file_reader.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 1783629..9444bb3 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -281,11 +281,9 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 		textPanic("logic error: index should not be cached")
 	}
 
-	// If the search results did not come from streaming search, sort
-	// them so their offsets are in file order.
-	if r.cachedIndex != nil {
-		sort.Sort(sr)
-	}
+	// Sort the search results so their offsets are in file order, which
+	// is not necessarily the order of the index leaves.
+	sort.Sort(sr)
 
 	// The reader's read cursor is now past the index and at the
 	// start of the data section.
@@ -318,7 +316,9 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 	// in the search results.
 	fs := make([]flat.Feature, len(sr))
 	for i := range sr {
-		if sr[i].Offset > r.featureOffset {
+		if sr[i].Offset < r.featureOffset {
+			return nil, r.toErr(fmtErr("corrupt index: feature %d (data offset %d) overlaps previous search result", sr[i].RefIndex, sr[i].Offset))
+		} else if sr[i].Offset > r.featureOffset {
 			if err := skip(sr[i].Offset - r.featureOffset); err != nil {
 				return nil, r.toErr(wrapErr("failed to skip to feature %d (data offset %d) for search result %d", err, sr[i].RefIndex, sr[i].Offset, i))
 			}
-- 
2.43.0


From f0da2e8748bd8119dbeaaae65b75f69dcf259e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 12/24] fix: Data with an empty slice discarded all features of
 unknown-count files

---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 9444bb3..c58248e 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -390,7 +390,7 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 			return i, err
 		}
 	}
-	if n == rem {
+	if r.numFeatures > 0 && n == rem {
 		if err := r.toState(inData, eof); err != nil {
 			return n, err
 		}
-- 
2.43.0


From 47bb1f12b34450049c4281e2d9df134958b468c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 13/24] fix: DataRem panicked after IndexSearch, on truncated
 files, and on huge feature counts

---
 flatgeobuf/file_reader.go | 48 ++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index c58248e..f38af28 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -401,36 +401,28 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 
 // TODO: Write docs.
 func (r *FileReader) DataRem() ([]flat.Feature, error) {
-	if r.numFeatures > 0 {
-		rem := r.numFeatures - r.featureIndex
-		p := make([]flat.Feature, rem)
-		n, err := r.Data(p)
-		p = p[0:n]
-		if err != nil && err != io.EOF {
-			return p, err
-		}
-		if n != rem {
-			fmtPanic("expected %d features but read %d", rem, n)
-		}
-		return p, nil
-	} else {
-		p := make([]flat.Feature, 1024)
-		n, err := r.Data(p)
+	// Read in batches, because the feature count from the header, if it
+	// is known at all, isn't trustworthy enough to allocate memory for.
+	batch := 1024
+	if rem := r.numFeatures - r.featureIndex; r.numFeatures > 0 && rem < batch {
+		batch = rem
+	}
+	p := make([]flat.Feature, batch)
+	n, err := r.Data(p)
+	if err != nil && err != io.EOF {
+		return p[0:n], err
+	} else if err == io.EOF {
+		return p[0:n], nil
+	}
+	q := make([]flat.Feature, 0, 2*len(p))
+	q = append(q, p[0:n]...)
+	for {
+		n, err = r.Data(p)
+		q = append(q, p[0:n]...)
 		if err != nil && err != io.EOF {
-			return p[0:n], err
+			return q, err
 		} else if err == io.EOF {
-			return p[0:n], nil
-		}
-		q := make([]flat.Feature, 0, 2*len(p))
-		q = append(q, p[0:n]...)
-		for {
-			n, err = r.Data(p)
-			q = append(q, p[0:n]...)
-			if err != nil && err != io.EOF {
-				return q, err
-			} else if err == io.EOF {
-				return q, nil
-			}
+			return q, nil
 		}
 	}
 }
-- 
2.43.0


From 0b990f9632bdd31b5d2718bb8e309a211c5efc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 14/24] fix: a file truncated inside its index was reported as
 a normal end of data

---
 flatgeobuf/file_reader.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index f38af28..b74201e 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -589,15 +589,18 @@ func discard(r io.Reader, buf []byte, n int64) error {
 	for n > 0 {
 		var a int
 		var err error
-		if int(n) < len(buf) {
+		if n < int64(len(buf)) {
 			a, err = r.Read(buf[0:n])
 		} else {
 			a, err = r.Read(buf)
 		}
-		if err != nil {
+		n -= int64(a)
+		if err != nil && n > 0 {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
 			return err
 		}
-		n -= int64(a)
 	}
 	return nil
 }
-- 
2.43.0


From 60cb791a98b831032de9eb8133c1c1752836be9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:01 +0000
Subject: [PATCH 15/24] fix: Rewind failed on seekable files without an index

---
 flatgeobuf/file_reader.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index b74201e..6e3f910 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -162,6 +162,9 @@ func (r *FileReader) Index() (*packedrtree.PackedRTree, error) {
 	// If the node size is zero, there is no index and the reader is
 	// already pointing at the data section.
 	if r.nodeSize == 0 {
+		if err := r.seekUnindexedData(); err != nil {
+			return nil, err
+		}
 		return nil, r.toState(beforeIndex, afterIndex)
 	}
 
@@ -237,6 +240,9 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 	} else if err != nil {
 		return nil, err
 	} else if r.nodeSize == 0 {
+		if err := r.seekUnindexedData(); err != nil {
+			return nil, err
+		}
 		r.state = afterIndex
 		return nil, ErrNoIndex
 	}
@@ -438,7 +444,7 @@ func (r *FileReader) Rewind() error {
 	r.sanityCheckState()
 	if r.state < afterHeader {
 		return textErr(errHeaderNotCalled)
-	} else if r.indexOffset == 0 {
+	} else if r.indexOffset == 0 && r.dataOffset == 0 {
 		return textErr("can't rewind: reader is not an io.Seeker")
 	}
 
@@ -510,12 +516,28 @@ func (r *FileReader) skipIndex() error {
 				return r.toErr(err)
 			}
 		}
+	} else if err := r.seekUnindexedData(); err != nil {
+		return err
 	}
 
 	// We're now in the correct position.
 	return r.toState(beforeIndex, afterIndex)
 }
 
+// seekUnindexedData ensures the reader is positioned at the data section
+// of a file without an index. The reader is already there, unless this is
+// after a Rewind(), in which case the data offset is known.
+func (r *FileReader) seekUnindexedData() error {
+	if r.dataOffset > 0 {
+		s := r.r.(io.Seeker)
+		if _, err := s.Seek(r.dataOffset, io.SeekStart); err != nil {
+			return r.toErr(wrapErr("failed to seek to data section", err))
+		}
+		return nil
+	}
+	return r.saveDataOffset(nil)
+}
+
 func (r *FileReader) saveIndexOffset(s io.Seeker) error {
 	return r.saveGenericOffset(s, &r.indexOffset, "index")
 }
-- 
2.43.0


From 90b38e6cdafe82cf13bd24bf19e4309b9214c99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 16/24] fix: corrupt lengths caused panics and multi-gigabyte
 allocations when reading features and properties

---
 flatgeobuf/file_reader.go | 28 +++++++++++++++++++++++++---
 flatgeobuf/prop_reader.go |  8 ++------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 6e3f910..f1897e7 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -578,9 +578,8 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 	}
 
 	// Read the feature table bytes.
-	tbl := make([]byte, flatbuffers.SizeUint32+featureLen)
-	copy(tbl, b)
-	if _, err = io.ReadFull(r.r, tbl[flatbuffers.SizeUint32:]); err != nil {
+	var tbl []byte
+	if tbl, err = readAppend(r.r, b, uint64(featureLen)); err != nil {
 		return r.toErr(wrapErr("failed to read feature[%d] (offset %d, len=%d)", err, r.featureIndex, r.featureOffset, featureLen))
 	}
 
@@ -600,6 +599,29 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 	return nil
 }
 
+// readAppend reads exactly n bytes and appends them to b. The memory it
+// allocates is proportional to the number of bytes actually available, so
+// that a corrupt length can't cause a huge allocation. If the reader ends
+// too soon, the error is io.ErrUnexpectedEOF.
+func readAppend(r io.Reader, b []byte, n uint64) ([]byte, error) {
+	const maxChunk = 1 << 20
+	for n > 0 {
+		chunk := n
+		if chunk > maxChunk {
+			chunk = maxChunk
+		}
+		i := len(b)
+		b = append(b, make([]byte, int(chunk))...)
+		if _, err := io.ReadFull(r, b[i:]); err == io.EOF {
+			return nil, io.ErrUnexpectedEOF
+		} else if err != nil {
+			return nil, err
+		}
+		n -= chunk
+	}
+	return b, nil
+}
+
 // discardBufferSize is the suggested buffer size to use with the
 // discard function.
 const discardBufferSize = 8096
diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 170fbeb..4bb5c7e 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -154,11 +154,7 @@ func (r *PropReader) ReadBinary() ([]byte, error) {
 	if int64(n) > math.MaxInt {
 		return nil, fmtErr("property length %d overflows int", n)
 	}
-	b := make([]byte, int(n))
-	if _, err = io.ReadFull(r.r, b); err != nil {
-		return nil, err
-	}
-	return b, nil
+	return readAppend(r.r, []byte{}, uint64(n))
 }
 
 type PropValue struct {
@@ -170,7 +166,7 @@ type PropValue struct {
 
 func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 	n := schema.ColumnsLength()
-	vals := make([]PropValue, 0, n)
+	vals := make([]PropValue, 0)
 
 	for {
 		col, err := r.ReadUShort()
-- 
2.43.0


From 23f9f6420d9632a13b74d23cabfb2e354526d14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 17/24] fix: FeatureString overflowed the stack on corrupt
 geometries which contain themselves

---
 flatgeobuf/stringers.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/stringers.go b/flatgeobuf/stringers.go
index 362fc0d..0a2eeab 100644
--- a/flatgeobuf/stringers.go
+++ b/flatgeobuf/stringers.go
@@ -214,8 +214,23 @@ func stringProps(f *flat.Feature, b *strings.Builder, s []Schema) error {
 	})
 }
 
+// geomBounds expands b to contain all coordinates of g and its parts. It
+// panics, in the manner of FlatBuffers, on a corrupt geometry whose parts
+// do not form a finite tree, e.g. because a geometry is a part of itself.
 func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
+	budget := len(g.Table().Bytes)
+	geomPartBounds(g, b, &budget, 0)
+}
+
+// maxGeomDepth is the maximum depth of nested geometry parts.
+const maxGeomDepth = 1000
+
+func geomPartBounds(g *flat.Geometry, b *packedrtree.Box, budget *int, depth int) {
 	n := g.XyLength()
+	// Every coordinate and every part takes up at least one byte.
+	if *budget -= 1 + n; *budget < 0 || depth > maxGeomDepth {
+		textPanic("corrupt geometry")
+	}
 	for i := 0; i < n; i += 2 {
 		b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
 	}
@@ -223,7 +238,7 @@ func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
 	for i := 0; i < n; i++ {
 		var h flat.Geometry
 		if g.Parts(&h, i) {
-			geomBounds(&h, b)
+			geomPartBounds(&h, b, budget, depth+1)
 		}
 	}
 }
-- 
2.43.0


From a9acf8ff6d714407795540338c5924982a1d547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 18/24] fix: searching a corrupt index panicked

---
 packedrtree/packedrtree.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index 641d607..4b1f7f5 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -350,6 +350,8 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 				continue
 			} else if isLeafLevel {
 				r = append(r, Result{Offset: n.Offset, RefIndex: pos - prt.levels[0].start})
+			} else if !prt.isChildIndex(n.Offset, t.level) {
+				return nil, fmtErr("corrupt index: node %d has invalid child node %d", pos, n.Offset)
 			} else {
 				prt.push(&q, ticket{nodeIndex: int(n.Offset), level: t.level - 1})
 			}
@@ -361,6 +363,13 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 	}
 }
 
+// isChildIndex tests whether a value is a possible node index for the
+// first child of a non-leaf node at the given level.
+func (prt *packedRTree) isChildIndex(i int64, level int) bool {
+	children := prt.levels[level-1]
+	return int64(children.start) <= i && i < int64(children.end)
+}
+
 // PackedRTree is a packed Hilbert R-Tree.
 type PackedRTree struct {
 	packedRTree
@@ -505,6 +514,15 @@ func Unmarshal(r io.Reader, numRefs int, nodeSize uint16) (*PackedRTree, error)
 	// the native byte ordering of the host CPU architecture.
 	fixLittleEndianOctets(dst)
 
+	// Ensure searching the tree can't go outside of it.
+	for level := len(prt.levels) - 1; level > 0; level-- {
+		for i := prt.levels[level].start; i < prt.levels[level].end; i++ {
+			if !prt.isChildIndex(prt.nodes[i].Offset, level) {
+				return nil, fmtErr("corrupt index: node %d has invalid child node %d", i, prt.nodes[i].Offset)
+			}
+		}
+	}
+
 	// Wrap in the public data structure and return.
 	return &PackedRTree{packedRTree: prt}, nil
 }
-- 
2.43.0


From 2c124d17c454584a410be1af65d86e74fb5b3151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 19/24] fix: Unmarshal and Seek panicked or exhausted memory on
 corrupt feature counts

---
 packedrtree/packedrtree.go | 76 ++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 28 deletions(-)

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index 4b1f7f5..2db3cc9 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -170,9 +170,9 @@ func levelify(numRefs, nodeSize uint) []levelRange {
 }
 
 // A fetchFunc is used to fetch the nodes from the closed/open index
-// range [i, j) into the target node array. It is used by packedRTree
-// for streaming index searches.
-type fetchFunc func(i, j int, nodes []node) error
+// range [i, j). It is used by packedRTree for streaming index searches.
+// The fetched nodes are only valid until the next fetch.
+type fetchFunc func(i, j int) ([]node, error)
 
 // A ticket is a pending work item to be executed during a packedRTree
 // search loop.
@@ -242,7 +242,8 @@ type packedRTree struct {
 	// at levelRange 0 and the root node is at len(levels)-1.
 	levels []levelRange
 	// nodes is the complete list of nodes in the tree, including
-	// internal and leaf nodes.
+	// internal and leaf nodes. It is nil for streaming index search use
+	// cases.
 	nodes []node
 	// push is the function used to push a work ticket into a ticketBag
 	// when executing a tree search. It may not be nil.
@@ -250,13 +251,13 @@ type packedRTree struct {
 	// pop is the function used to pop the next work ticket from a
 	// ticketBag when executing a tree search. It may not be nil.
 	pop popFunc
-	// fetch is the function used to fetch missing nodes into the nodes
-	// slice for streaming index search use cases. If all nodes are
-	// present from the beginning, fetch is nil.
+	// fetch is the function used to fetch nodes for streaming index
+	// search use cases. If all nodes are present from the beginning,
+	// fetch is nil.
 	fetch fetchFunc
 }
 
-// noo constructs a new packedRTree.
+// noo constructs a new packedRTree, whose nodes have yet to be created.
 //
 // This function MUST NOT be called until Size has been called, since
 // noo depends on Size for parameter validation.
@@ -269,7 +270,6 @@ func noo(numRefs int, nodeSize uint16, push pushFunc, pop popFunc, fetch fetchFu
 		numRefs:  numRefs,
 		nodeSize: int(nodeSize),
 		levels:   levels,
-		nodes:    make([]node, levels[0].end),
 		push:     push,
 		pop:      pop,
 		fetch:    fetch,
@@ -337,15 +337,18 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 		}
 		isLeafLevel := t.nodeIndex >= prt.levels[0].start
 		// Fetch the nodes to be searched if they aren't yet available.
+		var nodes []node
 		if prt.fetch != nil {
-			err := prt.fetch(t.nodeIndex, end, prt.nodes)
-			if err != nil {
+			var err error
+			if nodes, err = prt.fetch(t.nodeIndex, end); err != nil {
 				return nil, err
 			}
+		} else {
+			nodes = prt.nodes[t.nodeIndex:end]
 		}
 		// Search the nodes.
 		for pos := t.nodeIndex; pos < end; pos++ {
-			n := &prt.nodes[pos]
+			n := &nodes[pos-t.nodeIndex]
 			if !b.intersects(&n.Box) {
 				continue
 			} else if isLeafLevel {
@@ -389,6 +392,7 @@ func New(refs []Ref, nodeSize uint16) (*PackedRTree, error) {
 	}
 	// Create the private, non-exported data structure.
 	prt := noo(len(refs), nodeSize, stackPush, stackPop, nil)
+	prt.nodes = make([]node, prt.levels[0].end)
 	// Save copies of the leaf nodes.
 	i := prt.levels[0].start
 	for j := range refs {
@@ -504,16 +508,24 @@ func Unmarshal(r io.Reader, numRefs int, nodeSize uint16) (*PackedRTree, error)
 	// Read the raw nodes directly into the private data structure's
 	// nodes slice. If this is a big-endian system, the byte order of
 	// all the numbers will be backward.
-	ptr := (*byte)(unsafe.Pointer(&prt.nodes[0]))
-	dst := unsafe.Slice(ptr, numNodeBytes*len(prt.nodes))
-	if _, err := io.ReadFull(r, dst); err != nil {
-		return nil, wrapErr("failed to read index bytes", err)
+	//
+	// Don't allocate memory for much more than the data which is really
+	// there, since the number of refs may come from a corrupt file.
+	const maxChunk = 1 << 15
+	for i, n := 0, prt.levels[0].end; i < n; i = len(prt.nodes) {
+		chunk := n - i
+		if chunk > maxChunk {
+			chunk = maxChunk
+		}
+		prt.nodes = append(prt.nodes, make([]node, chunk)...)
+		if err := readLittleEndianNodes(r, prt.nodes[i:]); err != nil {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			return nil, wrapErr("failed to read index bytes", err)
+		}
 	}
 
-	// Convert the little-endian octets read from the source data into
-	// the native byte ordering of the host CPU architecture.
-	fixLittleEndianOctets(dst)
-
 	// Ensure searching the tree can't go outside of it.
 	for level := len(prt.levels) - 1; level > 0; level-- {
 		for i := prt.levels[level].start; i < prt.levels[level].end; i++ {
@@ -565,27 +577,32 @@ func Seek(rs io.ReadSeeker, numRefs int, nodeSize uint16, b Box) (Results, error
 	offset := startOffset
 
 	// Define the fetch function for the search.
-	fetch := func(i, j int, nodes []node) error {
+	var buf []node
+	fetch := func(i, j int) ([]node, error) {
 		// Seek to the start of the position to read.
 		rel := startOffset + int64(i)*int64(numNodeBytes) - offset
 		if rel != 0 {
 			offset, err = rs.Seek(rel, io.SeekCurrent)
 			if err != nil {
-				return wrapErr("failed to seek to node %d, rel. offset %d", err, i, rel)
+				return nil, wrapErr("failed to seek to node %d, rel. offset %d", err, i, rel)
 			}
 		}
 
 		// Read the data.
-		err = readLittleEndianNodes(rs, i, j, nodes)
+		if len(buf) < j-i {
+			buf = make([]node, j-i)
+		}
+		nodes := buf[:j-i]
+		err = readLittleEndianNodes(rs, nodes)
 		if err != nil {
-			return wrapErr("failed to read nodes [%d..%d), rel. offset %d", err, i, j, rel)
+			return nil, wrapErr("failed to read nodes [%d..%d), rel. offset %d", err, i, j, rel)
 		}
 
 		// Update current offset to the end of the range.
 		offset += int64(j-i) * int64(numNodeBytes)
 
 		// Successful fetch.
-		return nil
+		return nodes, nil
 	}
 
 	// Construct the private data structure using a min-heap for the
@@ -612,9 +629,12 @@ func Seek(rs io.ReadSeeker, numRefs int, nodeSize uint16, b Box) (Results, error
 	return sr, nil
 }
 
-func readLittleEndianNodes(r io.Reader, i, j int, nodes []node) error {
-	ptr := (*byte)(unsafe.Pointer(&nodes[i]))
-	b := unsafe.Slice(ptr, (j-i)*numNodeBytes)
+// readLittleEndianNodes reads a non-empty slice of nodes, converting the
+// little-endian octets read from the source data into the native byte
+// ordering of the host CPU architecture.
+func readLittleEndianNodes(r io.Reader, nodes []node) error {
+	ptr := (*byte)(unsafe.Pointer(&nodes[0]))
+	b := unsafe.Slice(ptr, len(nodes)*numNodeBytes)
 	if _, err := io.ReadFull(r, b); err != nil {
 		return err
 	}
-- 
2.43.0


From 65093fd26da6822002e21e484e1efd6e8d3f762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 20/24] fix: Seek documentation promised an order its results
 do not have

---
 packedrtree/packedrtree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index 2db3cc9..7424500 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -545,7 +545,8 @@ func Unmarshal(r io.Reader, numRefs int, nodeSize uint16) (*PackedRTree, error)
 //
 // Seek returns all qualified matches whose bounding boxes intersect the
 // query box. Results are guaranteed to be in ascending order of
-// Result.Offset.
+// Result.RefIndex. This is also ascending order of Result.Offset if, as in
+// a FlatGeobuf file, the offsets of the indexed Refs are ascending.
 //
 // The seekable reader should be positioned ready to read the first byte
 // of the FlatGeobuf index section. If this function returns without
-- 
2.43.0


From 37b5b871f166a90a1293c484dd23069ea0e97da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:24 +0000
Subject: [PATCH 21/24] fix: FileWriter.Header wrote a magic number for headers
 it then refused

It also reported problems with the header table, rather than that it is
closed or failed, once the writer was in an error state.
---
 flatgeobuf/file_writer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 21a8739..1762b44 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -53,6 +53,12 @@ func (w *FileWriter) Header(hdr *flat.Header) (n int, err error) {
 		textPanic("nil header")
 	}
 
+	// Always fail if the writer's already in the error state.
+	if w.err != nil {
+		err = w.err
+		return
+	}
+
 	// Cache feature count and check for overflow.
 	var numFeatures uint64
 	err = safeFlatBuffersInteraction(func() error {
@@ -83,6 +89,12 @@ func (w *FileWriter) Header(hdr *flat.Header) (n int, err error) {
 		return
 	}
 
+	// Check that the table can be written, before writing anything.
+	if _, err = tableSize(hdr.Table()); err != nil {
+		err = wrapErr("failed to write header", err)
+		return
+	}
+
 	// Transition into state for writing magic number.
 	if err = w.toState(uninitialized, beforeMagic); err == errUnexpectedState {
 		err = textErr(errHeaderAlreadyCalled)
-- 
2.43.0


From eb1a0071ed729fdd6c0acd85a91afc2a76e52c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:46 +0000
Subject: [PATCH 22/24] fix: searching a corrupt index could take memory and
 time quadratic in the data read

Only the node index of its own first child is accepted as a node's child.
---
 packedrtree/packedrtree.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index 7424500..d545e47 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -353,7 +353,7 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 				continue
 			} else if isLeafLevel {
 				r = append(r, Result{Offset: n.Offset, RefIndex: pos - prt.levels[0].start})
-			} else if !prt.isChildIndex(n.Offset, t.level) {
+			} else if !prt.isFirstChild(n.Offset, pos, t.level) {
 				return nil, fmtErr("corrupt index: node %d has invalid child node %d", pos, n.Offset)
 			} else {
 				prt.push(&q, ticket{nodeIndex: int(n.Offset), level: t.level - 1})
@@ -366,11 +366,11 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 	}
 }
 
-// isChildIndex tests whether a value is a possible node index for the
-// first child of a non-leaf node at the given level.
-func (prt *packedRTree) isChildIndex(i int64, level int) bool {
-	children := prt.levels[level-1]
-	return int64(children.start) <= i && i < int64(children.end)
+// isFirstChild tests whether a value is the node index of the first child
+// of the non-leaf node which has the index pos and is at the given level.
+func (prt *packedRTree) isFirstChild(i int64, pos, level int) bool {
+	first := prt.levels[level-1].start + (pos-prt.levels[level].start)*prt.nodeSize
+	return i == int64(first)
 }
 
 // PackedRTree is a packed Hilbert R-Tree.
@@ -529,7 +529,7 @@ func Unmarshal(r io.Reader, numRefs int, nodeSize uint16) (*PackedRTree, error)
 	// Ensure searching the tree can't go outside of it.
 	for level := len(prt.levels) - 1; level > 0; level-- {
 		for i := prt.levels[level].start; i < prt.levels[level].end; i++ {
-			if !prt.isChildIndex(prt.nodes[i].Offset, level) {
+			if !prt.isFirstChild(prt.nodes[i].Offset, i, level) {
 				return nil, fmtErr("corrupt index: node %d has invalid child node %d", i, prt.nodes[i].Offset)
 			}
 		}
-- 
2.43.0


From c18e0c1b41b228c89693996c1a54b56f9c6b523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 23/24] fix: wrap the I/O error when ReadSchema fails to read a
 column index

---
 flatgeobuf/prop_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 4bb5c7e..3d15558 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -173,7 +173,7 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		if err == io.EOF {
 			return vals, nil
 		} else if err != nil {
-			return nil, fmtErr("error reading column index")
+			return nil, wrapErr("error reading column index", err)
 		}
 		i := int(col)
 		if i >= n {
-- 
2.43.0


From a5f47dc7d0c937bcfb2792111e308e4a7179cccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 24/24] fix: a failed seek past the index is not the end of the
 data

Data and DataRem returned the seeker's error as it was, so a seeker which
fails with io.EOF made them report a regular end of the data.
---
 flatgeobuf/file_reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index f1897e7..a3dbd27 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -489,7 +489,7 @@ func (r *FileReader) skipIndex() error {
 		if r.dataOffset > 0 { // If we already know the data offset, seek to it.
 			s := r.r.(io.Seeker)
 			if _, err := s.Seek(r.dataOffset, io.SeekStart); err != nil {
-				return r.toErr(err)
+				return r.toErr(wrapErr("failed to seek past index", err))
 			}
 		} else if s, ok := r.r.(io.Seeker); ok { // If we can seek past the index, do so.
 			if err := r.saveIndexOffset(s); err != nil {
@@ -501,7 +501,7 @@ func (r *FileReader) skipIndex() error {
 			}
 			r.dataOffset = r.indexOffset + int64(indexSize)
 			if _, err = s.Seek(r.dataOffset, io.SeekStart); err != nil {
-				return r.toErr(err)
+				return r.toErr(wrapErr("failed to seek past index", err))
 			}
 		} else { // Our only choice is to read past the index.
 			indexSize, err := packedrtree.Size(r.numFeatures, r.nodeSize)
-- 
2.43.0

