From 59b6e5624cfc8372c8292c1b645832b9e125c666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 01/20] fix: refuse a node range of exactly 2^24 nodes, which
 does not fit the count field

---
 internal/nodeindex/count_offset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/nodeindex/count_offset.go b/internal/nodeindex/count_offset.go
index 2413480..eb488bc 100644
--- a/internal/nodeindex/count_offset.go
+++ b/internal/nodeindex/count_offset.go
@@ -22,7 +22,7 @@ func NewCountOffset(count, offset uint64) CountOffset {
 	if offset >= OffsetMax {
 		panic("offset out of range")
 	}
-	if count > CountMax {
+	if count >= CountMax {
 		panic("too many items")
 	}
 	return CountOffset((offset << CountBits) | count)
-- 
2.43.0


From a05f0573780c5d956ba57749196f8ce0186ec3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 02/20] fix: refuse way ids of 2^31 and way offsets of 2^33,
 which do not fit their index fields

---
 internal/wayindex/indexdata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/wayindex/indexdata.go b/internal/wayindex/indexdata.go
index e151500..81efca5 100644
--- a/internal/wayindex/indexdata.go
+++ b/internal/wayindex/indexdata.go
@@ -16,10 +16,10 @@ func (id WayIndexData) Offset() int64 {
 }
 
 func MakeIndexData(wayID int64, offset int64) WayIndexData {
-	if wayID > (1 << 31) {
+	if wayID >= (1 << 31) {
 		panic("wayID too large")
 	}
-	if offset > (1 << 33) {
+	if offset >= (1 << 33) {
 		panic(fmt.Sprintf("offset too large: %d\n", offset))
 	}
 	return WayIndexData(wayID<<33 | offset)
-- 
2.43.0


From 4e740964050b388e8e47c66052b015e3d4d8f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 03/20] fix: refuse a field whose length exceeds the rest of
 its message

---
 internal/pb/buffer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/pb/buffer.go b/internal/pb/buffer.go
index 318835a..e7cd521 100644
--- a/internal/pb/buffer.go
+++ b/internal/pb/buffer.go
@@ -5,7 +5,7 @@ func DecodeBytes(buf []byte, next *int) []byte {
 }
 
 func ReadBytes(buf []byte, next *int) []byte {
-	byteLength := int(DecodeVarInt(buf, next))
+	byteLength := decodeLength(buf, next)
 	outputBuffer := buf[*next : *next+byteLength]
 	*next += byteLength
 	return outputBuffer
@@ -22,10 +22,19 @@ func EncodeBuffer(bufOutput []byte, bufInput []byte) []byte {
 }
 
 func SkipBytes(buf []byte, next *int) {
-	byteLength := int(DecodeVarInt(buf, next))
+	byteLength := decodeLength(buf, next)
 	*next += byteLength
 }
 
+// decodeLength decodes the length of a field, which must fit in what remains of buf.
+func decodeLength(buf []byte, next *int) int {
+	byteLength := DecodeVarInt(buf, next)
+	if byteLength > uint64(len(buf)-*next) {
+		panic("field length exceeds remaining data")
+	}
+	return int(byteLength)
+}
+
 func EncodeIdBuffer(bufOutput []byte, id uint64, bufInput []byte) []byte {
 	bufOutput = EncodeVarInt(bufOutput, MakeIdType(id, PbFixedBytes))
 	bufOutput = EncodeBuffer(bufOutput, bufInput)
-- 
2.43.0


From 1c6afd293eb3cdd3d43b416e0518b4bff19ed64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 04/20] fix: keep the empty string at index 0 of the string
 table when it is also added

---
 internal/t/string_table_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/t/string_table_builder.go b/internal/t/string_table_builder.go
index 2547a79..314597a 100644
--- a/internal/t/string_table_builder.go
+++ b/internal/t/string_table_builder.go
@@ -27,6 +27,9 @@ func (stb *stringTableBuilder) AddMap(m map[string]string) {
 }
 
 func (stb *stringTableBuilder) AddString(s string) {
+	if s == "" {
+		return // always present, and counting it would overflow the frequency which keeps it first
+	}
 	if _, ok := stb.stringFrequency[s]; !ok {
 		stb.stringFrequency[s] = 1
 		stb.stringList = append(stb.stringList, s)
-- 
2.43.0


From 11cdedbf1ae0c5f7d0befa61e82396143aadceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 05/20] fix: write the raw data of a blob even if it is empty

---
 internal/t/blob.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/t/blob.go b/internal/t/blob.go
index be938e4..6f2483e 100644
--- a/internal/t/blob.go
+++ b/internal/t/blob.go
@@ -44,7 +44,7 @@ func (b *Blob) Write(buf []byte) []byte {
 	// If RawFunc is provided, invoke it, otherwise use Raw
 	if b.RawFunc != nil {
 		buf = pb.Embed268435456(blobRaw, b.RawFunc, buf)
-	} else if len(b.Raw) > 0 {
+	} else if b.Raw != nil {
 		buf = pb.EncodeIdBuffer(buf, blobRaw, b.Raw)
 	}
 	if b.RawSize != nil {
-- 
2.43.0


From a70106bfd8df16621971c91bef937ff524cbbe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 06/20] fix: show percent signs literally, and all of the text
 highlighted when progress is complete

---
 internal/ui/format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/ui/format.go b/internal/ui/format.go
index 728663f..6162305 100644
--- a/internal/ui/format.go
+++ b/internal/ui/format.go
@@ -6,7 +6,7 @@ import (
 
 func MarkupAsProgress(s string, w int, pct float64) string {
 	if w == 0 {
-		return s
+		return EscapePercent(s)
 	}
 
 	if pct < 0 {
@@ -21,9 +21,9 @@ func MarkupAsProgress(s string, w int, pct float64) string {
 	}
 	pre := int(float64(w) * pct)
 	if pre < 0 {
-		return s
-	} else if pre >= len(s) {
-		return s
+		return EscapePercent(s)
+	} else if pre > len(s) {
+		pre = len(s)
 	}
 	return "%S" + EscapePercent(s[:pre]) + "%N" + EscapePercent(s[pre:])
 }
-- 
2.43.0


From 251a3e240e43a0b001da9d20141f786322e3361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 07/20] fix: index a node with id 0 or 1 at the start of a
 block

The first id of a block was compared to the initial 'not assigned' value plus
one or two, which wraps around to 0 and 1: such a node extended a range that
did not exist, so its range was never written, and its location shifted the
locations of all later ranges.
---
 cmd/nodeindex/indexer/nodeindexer_worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_worker.go b/cmd/nodeindex/indexer/nodeindexer_worker.go
index 4e08c2d..43b5447 100644
--- a/cmd/nodeindex/indexer/nodeindexer_worker.go
+++ b/cmd/nodeindex/indexer/nodeindexer_worker.go
@@ -57,9 +57,9 @@ func (ni *NodeIndexer) Worker(ctx context.Context, chIn <-chan pbf.Block, chOut
 			}
 			for idx, id := range pg.Dense.Id {
 				uid := uint64(id)
-				if uid == lastId+1 { // extend current block
+				if firstId != notAssigned && uid == lastId+1 { // extend current block
 					lastId = uid
-				} else if uid == lastId+2 {
+				} else if firstId != notAssigned && uid == lastId+2 {
 					outputLoc = append(outputLoc, 0)
 					lastId = uid
 				} else {
-- 
2.43.0


From 4c1d7cb6c4002c7a0c77ebec18f1b1a5b5117605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 08/20] fix: cover every element of an index by its passes

A pass ended at a multiple of a rounded down slice size, so the last pass did
not reach the end of the index unless the number of passes divided the number
of locations. A pass whose share held no element start used the elements from
the beginning or failed with an index out of range, and so did any pass over
an empty index.
---
 internal/nodeindex/nodeindex.go | 16 ++++++++++------
 internal/wayindex/wayindex.go   | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/internal/nodeindex/nodeindex.go b/internal/nodeindex/nodeindex.go
index 7d15a5e..8fc23bd 100644
--- a/internal/nodeindex/nodeindex.go
+++ b/internal/nodeindex/nodeindex.go
@@ -68,12 +68,13 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		&subIds,
 	)
 
-	sliceSize := uint64(len(idx.locations)) / countPass
-	startTarget := sliceSize * curPass
-	endTarget := startTarget + sliceSize
+	// The last pass must end at the last location, so the targets are calculated
+	// from the total and not from a (rounded) slice size.
+	startTarget := uint64(len(idx.locations)) * curPass / countPass
+	endTarget := uint64(len(idx.locations)) * (curPass + 1) / countPass
 
 	runningTotal := uint64(0)
-	startIndex := uint64(0)
+	startIndex := uint64(len(subIds))
 	endIndex := uint64(len(subIds))
 	for i := uint64(0); i < uint64(len(subIds)); i++ {
 		if runningTotal >= startTarget {
@@ -91,12 +92,15 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		runningTotal += subIds[i].Count()
 	}
 
-	return &NodeSubIndex{
+	si := &NodeSubIndex{
 		parent:    idx,
 		element:   subIds[startIndex:endIndex],
 		locations: idx.locations,
-		Top:       subIds[endIndex-1].LastID(),
 	}
+	if startIndex < endIndex { // A pass may have no elements, in which case it finds nothing
+		si.Top = subIds[endIndex-1].LastID()
+	}
+	return si
 }
 
 const cpuFreq = 3_300_000_000
diff --git a/internal/wayindex/wayindex.go b/internal/wayindex/wayindex.go
index c1a435f..1dbeb21 100644
--- a/internal/wayindex/wayindex.go
+++ b/internal/wayindex/wayindex.go
@@ -66,11 +66,12 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 	subIds := idx.Ids
 
 	// These targets are likely to be mid way, but that's fine
-	startTarget := int64((len(idx.Loc) / countPass) * curPass)
-	endTarget := int64((len(idx.Loc) / countPass) * (curPass + 1))
-
-	startIndex := 0
+	// The last pass must end at the last location, so the targets are calculated
+	// from the total and not from a (rounded) slice size.
+	startTarget := int64(len(idx.Loc) * curPass / countPass)
+	endTarget := int64(len(idx.Loc) * (curPass + 1) / countPass)
 
+	startIndex := len(subIds)
 	endIndex := len(subIds)
 	for i := 0; i < len(subIds); i++ {
 		if subIds[i].Offset()<<idx.AlignmentShift >= startTarget {
@@ -86,12 +87,15 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 		}
 	}
 
-	return &SubWayIndex{
+	si := &SubWayIndex{
 		parent: idx,
 		Ids:    subIds[startIndex:endIndex],
 		Loc:    idx.Loc,
-		Top:    int64(subIds[endIndex-1].WayID()),
 	}
+	if startIndex < endIndex { // A pass may have no ways, in which case it finds nothing
+		si.Top = subIds[endIndex-1].WayID()
+	}
+	return si
 }
 
 func (idx *WayIndex) PrintStats() {
-- 
2.43.0


From a6435b26eec94d81f0f61ed17aac513b782a79b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 09/20] fix: build the relation index of a file without
 relations

The intermediate file is empty then, and an empty file can not be mapped.
---
 cmd/relindex/relindex.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/relindex/relindex.go b/cmd/relindex/relindex.go
index 945b618..0e48557 100644
--- a/cmd/relindex/relindex.go
+++ b/cmd/relindex/relindex.go
@@ -3,6 +3,7 @@ package main
 import (
 	"context"
 	"fmt"
+	"io"
 	"os"
 	"time"
 
@@ -33,8 +34,12 @@ func rewrite(outputFile, inputFile string, wi *wayindex.WayIndex, pass, count in
 	fIn := iio.OsOpen(inputFile)
 	fOut := iio.OsCreate(outputFile)
 
-	m := iio.MMapMap(fIn)
-	u := iunsafe.ByteSliceAsInt64Slice(m)
+	var u []int64
+	if iio.FSeek(fIn, 0, io.SeekEnd) > 0 { // An empty file (no relations) can't be mapped
+		m := iio.MMapMap(fIn)
+		defer iio.MMapUnmap(m)
+		u = iunsafe.ByteSliceAsInt64Slice(m)
+	}
 
 	outputData := make([]int64, 0, 1048576)
 
@@ -87,7 +92,6 @@ func rewrite(outputFile, inputFile string, wi *wayindex.WayIndex, pass, count in
 		iio.FWriteSliceI64(fOut, outputData)
 	}
 
-	iio.MMapUnmap(m)
 	iio.FClose(fOut)
 	iio.FClose(fIn)
 }
-- 
2.43.0


From a7672fb1f7bc16f5849f4e961ff4c04a6641e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 10/20] fix: list relation members with way ids of zero or less

The intermediate files marked a way that is not resolved yet by its negated id,
so a member with id 0 or a negative id was taken as a resolved one and the rest
of the file was misread.
---
 cmd/relindex/relindex.go                         | 15 ++++++++-------
 cmd/relindex/relindexerinit/relindexer.go        |  4 ++++
 cmd/relindex/relindexerinit/relindexer_worker.go |  2 +-
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/cmd/relindex/relindex.go b/cmd/relindex/relindex.go
index 0e48557..218f00b 100644
--- a/cmd/relindex/relindex.go
+++ b/cmd/relindex/relindex.go
@@ -56,25 +56,26 @@ func rewrite(outputFile, inputFile string, wi *wayindex.WayIndex, pass, count in
 			wayId := u[i]
 			i++
 
-			if wayId < 0 {
-				locations, _, ok := swi.FindLocations(-wayId, 0)
+			locCount := int(u[i])
+			i++
+
+			if locCount < 0 { // Not found yet
+				locations, _, ok := swi.FindLocations(wayId, 0)
 				if !ok {
 					if pass+1 < count {
-						outputData = append(outputData, wayId)
+						outputData = append(outputData, wayId, relindexerinit.LocationsNotFound)
 					} else {
 						// if we're in the last pass, and we can't find a way,
 						// keep the way but output a 0 length.
-						outputData = append(outputData, -wayId, 0)
+						outputData = append(outputData, wayId, 0)
 					}
 				} else {
-					outputData = append(outputData, -wayId)
+					outputData = append(outputData, wayId)
 					outputData = append(outputData, int64(len(locations)))
 					outputData = append(outputData, locations...)
 				}
 			} else {
 				outputData = append(outputData, wayId)
-				locCount := int(u[i])
-				i++
 				outputData = append(outputData, int64(locCount))
 				outputData = append(outputData, u[i:i+locCount]...)
 				i += locCount
diff --git a/cmd/relindex/relindexerinit/relindexer.go b/cmd/relindex/relindexerinit/relindexer.go
index ed9b146..16feb32 100644
--- a/cmd/relindex/relindexerinit/relindexer.go
+++ b/cmd/relindex/relindexerinit/relindexer.go
@@ -5,6 +5,10 @@ import (
 	"github.com/squizzling/osmindex/internal/tracker"
 )
 
+// LocationsNotFound takes the place of the number of locations of a way in the intermediate
+// files, as long as the way has not been found.
+const LocationsNotFound = -1
+
 type RelIndexerInitializer struct {
 	tracker.WorkerTracker
 
diff --git a/cmd/relindex/relindexerinit/relindexer_worker.go b/cmd/relindex/relindexerinit/relindexer_worker.go
index 6751e4d..fefd6a7 100644
--- a/cmd/relindex/relindexerinit/relindexer_worker.go
+++ b/cmd/relindex/relindexerinit/relindexer_worker.go
@@ -58,7 +58,7 @@ func (ri *RelIndexerInitializer) Worker() func(ctx context.Context, chIn <-chan
 							continue
 						}
 
-						outputData = append(outputData, -wayId)
+						outputData = append(outputData, wayId, LocationsNotFound)
 					}
 				}
 			}
-- 
2.43.0


From 4d8b7651adc1743249e77c099781053b1d604731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 11/20] fix: dump only the ways of the selected sub-index

---
 cmd/dumpwayindex/dumpwayindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/dumpwayindex/dumpwayindex.go b/cmd/dumpwayindex/dumpwayindex.go
index 36a6805..b6f53da 100644
--- a/cmd/dumpwayindex/dumpwayindex.go
+++ b/cmd/dumpwayindex/dumpwayindex.go
@@ -24,7 +24,7 @@ func main() {
 		si = ix.SubIndexWithScaledPass(0, 1)
 	}
 
-	for _, data := range ix.Ids {
+	for _, data := range si.Ids {
 		if opts.PrintLocations {
 			printBytes := ix.Loc[data.Offset()<<ix.AlignmentShift:]
 			printLocs := pb.DecodeS64PackedDeltaZero(printBytes)
-- 
2.43.0


From 67803ee4c4b69fc83e4ebdb22b3fa8a0d0d4a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:20 +0000
Subject: [PATCH 12/20] fix: notice locations which are missing from the end of
 an index file

The last pass used to end where the locations of the file end, so the
nodes and ways of an index file that was cut short were silently treated as
not being in the index.
---
 internal/nodeindex/nodeindex.go | 4 +++-
 internal/wayindex/wayindex.go   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/nodeindex/nodeindex.go b/internal/nodeindex/nodeindex.go
index 8fc23bd..bc844bf 100644
--- a/internal/nodeindex/nodeindex.go
+++ b/internal/nodeindex/nodeindex.go
@@ -84,7 +84,9 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		runningTotal += subIds[i].Count()
 	}
 
-	for i := startIndex; i < uint64(len(subIds)); i++ {
+	// The last pass has everything that is left, even if the file ends early, so
+	// that the missing locations are noticed when they are looked up.
+	for i := startIndex; i < uint64(len(subIds)) && curPass+1 < countPass; i++ {
 		if runningTotal >= endTarget {
 			endIndex = i
 			break
diff --git a/internal/wayindex/wayindex.go b/internal/wayindex/wayindex.go
index 1dbeb21..c0f47a3 100644
--- a/internal/wayindex/wayindex.go
+++ b/internal/wayindex/wayindex.go
@@ -80,7 +80,9 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 		}
 	}
 
-	for i := startIndex; i < len(subIds); i++ {
+	// The last pass has everything that is left, even if the file ends early, so
+	// that the missing locations are noticed when they are looked up.
+	for i := startIndex; i < len(subIds) && curPass+1 < countPass; i++ {
 		if subIds[i].Offset()<<idx.AlignmentShift >= endTarget {
 			endIndex = i
 			break
-- 
2.43.0


From 37ffb7d3ce092e8c88262a26cf8a838789327791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:20 +0000
Subject: [PATCH 13/20] fix: an unfinished way index is not an index without
 ways

The header of the file was reserved with a count of 0, so the file left behind
when wayindex is interrupted could be used, and had no ways.
---
 cmd/wayindex/wayindexer/wayindexer_writer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/wayindex/wayindexer/wayindexer_writer.go b/cmd/wayindex/wayindexer/wayindexer_writer.go
index 10127cd..d7232ff 100644
--- a/cmd/wayindex/wayindexer/wayindexer_writer.go
+++ b/cmd/wayindex/wayindexer/wayindexer_writer.go
@@ -18,8 +18,9 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 		outputFileIdx := iio.OsCreate(outputFileName)
 		outputFileLoc := iio.OsCreate(outputFileName + ".loc.tmp")
 
-		// Reserve 16 bytes.  Don't need nearly this much for the header, but it keeps things in cache lines
-		iio.FWriteSliceI64(outputFileIdx, []int64{0, 0})
+		// Reserve 16 bytes.  Don't need nearly this much for the header, but it keeps things in cache lines.
+		// Until it is finished, the file must not look like an index without ways, so it gets an impossible count.
+		iio.FWriteSliceI64(outputFileIdx, []int64{-1, 0})
 
 		var outputData []uint64
 		locationLength := int64(0)
-- 
2.43.0


From a241d4992bd75d77caf597ef66051a2f3abb35d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:05 +0000
Subject: [PATCH 14/20] fix: refuse negative way ids and offsets, which do not
 fit their index fields

---
 internal/wayindex/indexdata.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/wayindex/indexdata.go b/internal/wayindex/indexdata.go
index 81efca5..adfe281 100644
--- a/internal/wayindex/indexdata.go
+++ b/internal/wayindex/indexdata.go
@@ -16,11 +16,11 @@ func (id WayIndexData) Offset() int64 {
 }
 
 func MakeIndexData(wayID int64, offset int64) WayIndexData {
-	if wayID >= (1 << 31) {
-		panic("wayID too large")
+	if wayID < 0 || wayID >= (1<<31) {
+		panic("wayID out of range")
 	}
-	if offset >= (1 << 33) {
-		panic(fmt.Sprintf("offset too large: %d\n", offset))
+	if offset < 0 || offset >= (1<<33) {
+		panic(fmt.Sprintf("offset out of range: %d\n", offset))
 	}
 	return WayIndexData(wayID<<33 | offset)
 }
-- 
2.43.0


From f8de5d3eb37a05db98affc2652f0b2ab3128d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 15/20] fix: do not fail on a timing factor which is not well
 above one

With a factor slightly above one a slow lookup is beyond the last counter,
which ends the command, and with a factor of one or less it's never over.
---
 internal/nodeindex/nodesubindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/nodeindex/nodesubindex.go b/internal/nodeindex/nodesubindex.go
index d7f61ae..a80f970 100644
--- a/internal/nodeindex/nodesubindex.go
+++ b/internal/nodeindex/nodesubindex.go
@@ -89,7 +89,7 @@ func (si *NodeSubIndex) FindNode(id uint64, hint int) (int64, int, bool) {
 		// A page fault should be serviced in under 2 seconds, so if the delta is higher then it's likely a core
 		// jump with a different timestamp, rather than a slow page fault.
 		i := 0
-		for delta > 1 {
+		for delta > 1 && i < len(si.parent.lookupTimingCount) {
 			// TODO: something something log?
 			i++
 			delta /= si.parent.divFactor
-- 
2.43.0


From 6e27619584984c1c7b8c133e930d9de2dd731954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 16/20] fix: refuse arguments which can not be carried out

Without a worker every command fails, but only once it has overwritten its
output file, and without a pass relindex ends well without an output file.
---
 cmd/blockcount/args.go   | 4 ++++
 cmd/decompress/args.go   | 4 ++++
 cmd/dumpwayindex/args.go | 4 ++++
 cmd/entitycount/args.go  | 4 ++++
 cmd/entityfind/args.go   | 4 ++++
 cmd/nodeindex/args.go    | 4 ++++
 cmd/relindex/args.go     | 8 ++++++++
 cmd/rewritenodes/args.go | 5 +++++
 cmd/tagfilter/args.go    | 5 +++++
 cmd/wayindex/args.go     | 8 ++++++++
 internal/ui/args.go      | 6 +++++-
 11 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/cmd/blockcount/args.go b/cmd/blockcount/args.go
index 00fe500..7ab5c0d 100644
--- a/cmd/blockcount/args.go
+++ b/cmd/blockcount/args.go
@@ -44,6 +44,10 @@ func parseArgs(commandLine []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	// Validation results
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
diff --git a/cmd/decompress/args.go b/cmd/decompress/args.go
index e804580..a9cc02a 100644
--- a/cmd/decompress/args.go
+++ b/cmd/decompress/args.go
@@ -48,6 +48,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	// Validation results
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
diff --git a/cmd/dumpwayindex/args.go b/cmd/dumpwayindex/args.go
index 7bb2938..5c2d3f5 100644
--- a/cmd/dumpwayindex/args.go
+++ b/cmd/dumpwayindex/args.go
@@ -53,6 +53,10 @@ This is mainly a scratch application for debugging the index.`
 		errors = append(errors, "sub-index-count and sub-index-index must be specified together")
 	}
 
+	if opts.SubIndexIndex != nil && *opts.SubIndexIndex < 0 {
+		errors = append(errors, "sub-index-index must not be negative")
+	}
+
 	if opts.SubIndexCount != nil && opts.SubIndexIndex != nil && *opts.SubIndexIndex >= *opts.SubIndexCount {
 		errors = append(errors, "sub-index-index must be below sub-index-count")
 	}
diff --git a/cmd/entitycount/args.go b/cmd/entitycount/args.go
index b6893f8..babf1cc 100644
--- a/cmd/entitycount/args.go
+++ b/cmd/entitycount/args.go
@@ -44,6 +44,10 @@ func parseArgs(commandLine []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/entityfind/args.go b/cmd/entityfind/args.go
index a38623d..1a4216b 100644
--- a/cmd/entityfind/args.go
+++ b/cmd/entityfind/args.go
@@ -45,6 +45,10 @@ func parseArgs(commandLine []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/nodeindex/args.go b/cmd/nodeindex/args.go
index 992ace4..81d1518 100644
--- a/cmd/nodeindex/args.go
+++ b/cmd/nodeindex/args.go
@@ -48,6 +48,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index d9c1150..a7b171c 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -52,6 +52,14 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
+	if opts.Passes < 1 {
+		errors = append(errors, "passes must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 6a12eb0..210b53c 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -47,8 +47,13 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/tagfilter/args.go b/cmd/tagfilter/args.go
index a257305..090809c 100644
--- a/cmd/tagfilter/args.go
+++ b/cmd/tagfilter/args.go
@@ -44,8 +44,13 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/wayindex/args.go b/cmd/wayindex/args.go
index 7802d1c..3fd9ca4 100644
--- a/cmd/wayindex/args.go
+++ b/cmd/wayindex/args.go
@@ -49,6 +49,14 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
+	if opts.Alignment < 0 {
+		errors = append(errors, "alignment must not be negative")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/internal/ui/args.go b/internal/ui/args.go
index f86dfa2..7d38e05 100644
--- a/internal/ui/args.go
+++ b/internal/ui/args.go
@@ -9,5 +9,9 @@ type UIOpts struct {
 }
 
 func (opts *UIOpts) Validate() []string {
-	return nil
+	var errors []string
+	if opts.Refresh < 0 {
+		errors = append(errors, "refresh must not be negative")
+	}
+	return errors
 }
-- 
2.43.0


From 3e968d50bf3c920d0bffb5886ac66ca7d616d4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 17/20] fix: a cancelled index is not a finished index

---
 cmd/nodeindex/indexer/nodeindexer_writer.go  | 11 ++++++++---
 cmd/wayindex/wayindexer/wayindexer_writer.go | 13 +++++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_writer.go b/cmd/nodeindex/indexer/nodeindexer_writer.go
index 06f6df0..56694a9 100644
--- a/cmd/nodeindex/indexer/nodeindexer_writer.go
+++ b/cmd/nodeindex/indexer/nodeindexer_writer.go
@@ -50,9 +50,11 @@ func (ni *NodeIndexer) Output(outputFileName string) func(ctx context.Context, c
 		// Append location file to end of index file
 		ni.writer.SetStateCopyLocations(8 * lastLocationIndex)
 		iio.FSeek(outputFileLoc, 0, io.SeekStart)
+		cancelled := false
 		buf := make([]byte, 1048576)
 		for {
 			if icontext.IsCancelled(ctx) {
+				cancelled = true
 				break
 			}
 			n := iio.FCopy(outputFileIdx, outputFileLoc, buf)
@@ -64,10 +66,13 @@ func (ni *NodeIndexer) Output(outputFileName string) func(ctx context.Context, c
 		iio.FClose(outputFileLoc)
 		iio.OsRemove(outputFileName + ".loc.tmp")
 
-		// Put the index block count at the start of the index file
+		// Put the index block count at the start of the index file, unless it was
+		// cancelled, in which case it must not look like a finished index.
 		ni.writer.SetCurrentState(state.WriteFinalizing)
-		iio.FSeek(outputFileIdx, 0, io.SeekStart)
-		iio.FWriteSliceU64(outputFileIdx, []uint64{nodeindex.Version, indexElementCount})
+		if !cancelled {
+			iio.FSeek(outputFileIdx, 0, io.SeekStart)
+			iio.FWriteSliceU64(outputFileIdx, []uint64{nodeindex.Version, indexElementCount})
+		}
 		iio.FClose(outputFileIdx)
 	}
 }
diff --git a/cmd/wayindex/wayindexer/wayindexer_writer.go b/cmd/wayindex/wayindexer/wayindexer_writer.go
index d7232ff..5f6dec5 100644
--- a/cmd/wayindex/wayindexer/wayindexer_writer.go
+++ b/cmd/wayindex/wayindexer/wayindexer_writer.go
@@ -56,9 +56,11 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 		// TODO: Put location file at the start
 		ni.writer.SetStateCopyLocations(locationLength << locationAlignmentShift)
 		iio.FSeek(outputFileLoc, 0, io.SeekStart)
+		cancelled := false
 		buf := make([]byte, 1048576)
 		for {
 			if icontext.IsCancelled(ctx) {
+				cancelled = true
 				// TODO: Check if this should be done less frequently.
 				break
 			}
@@ -72,11 +74,14 @@ func (ni *WayIndexer) Output(outputFileName string, alignmentShift int) func(ctx
 		iio.FClose(outputFileLoc)
 		iio.OsRemove(outputFileName + ".loc.tmp")
 
-		// Put the index block count at the start of the index file
+		// Put the index block count at the start of the index file, unless it was
+		// cancelled, in which case it must not look like a finished index.
 		ni.writer.SetCurrentState(state.WriteFinalizing)
-		iio.FSeek(outputFileIdx, 0, io.SeekStart)
-		// TODO: Version
-		iio.FWriteSliceI64(outputFileIdx, []int64{indexBlockCount, int64(alignmentShift)})
+		if !cancelled {
+			iio.FSeek(outputFileIdx, 0, io.SeekStart)
+			// TODO: Version
+			iio.FWriteSliceI64(outputFileIdx, []int64{indexBlockCount, int64(alignmentShift)})
+		}
 		iio.FClose(outputFileIdx)
 	}
 }
-- 
2.43.0


From 8995cbdd378c3fc0fc39ce3b6e4f992c3841b6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:41 +0000
Subject: [PATCH 18/20] fix: a cancelled rewrite does no further passes

---
 cmd/rewritenodes/rewritenodes.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/rewritenodes/rewritenodes.go b/cmd/rewritenodes/rewritenodes.go
index a09073c..3668296 100644
--- a/cmd/rewritenodes/rewritenodes.go
+++ b/cmd/rewritenodes/rewritenodes.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/squizzling/osmindex/cmd/rewritenodes/rewriter"
 	wcmd "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/widget"
+	"github.com/squizzling/osmindex/internal/icontext"
 	"github.com/squizzling/osmindex/internal/iio"
 	"github.com/squizzling/osmindex/internal/system"
 	"github.com/squizzling/osmindex/internal/ui"
@@ -46,7 +47,9 @@ func main() {
 	mainUI := ui.NewUI(opts.Refresh, cancel)
 	var passTimes []time.Duration
 
-	for i := uint64(0); i < passes; i++ {
+	// Once it's cancelled there may be nothing to do another pass over
+	i := uint64(0)
+	for ; i < passes && !icontext.IsCancelled(ctx); i++ {
 		passStartTime := time.Now()
 
 		if i > 1 {
@@ -79,8 +82,11 @@ func main() {
 		passTimes = append(passTimes, time.Since(passStartTime))
 	}
 
-	if passes > 1 {
-		iio.OsRemove(makePassFilename(opts.OutputFile, passes-1, passes))
+	// What the last pass read and, if it was not meant to be the last one, wrote
+	for pass := uint64(1); pass < passes; pass++ {
+		if pass+1 == i || pass == i {
+			iio.OsRemove(makePassFilename(opts.OutputFile, pass, passes))
+		}
 	}
 
 	mainUI.Stop()
-- 
2.43.0


From fa5ccd8e1a5b970dface30c2aa1b0dc5ae9d1008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:13 +0000
Subject: [PATCH 19/20] fix: keep nodes' tags that have an empty key

In the key/value list of dense nodes, string 0 ends a node. A tag whose key
is the empty string was written as that terminator, which shifted the tags
of all following nodes. Such a key now gets its own entry of the table.
---
 internal/t/string_table_builder.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/t/string_table_builder.go b/internal/t/string_table_builder.go
index 314597a..b7aa29e 100644
--- a/internal/t/string_table_builder.go
+++ b/internal/t/string_table_builder.go
@@ -10,6 +10,8 @@ type stringTableBuilder struct {
 	stringFrequency map[string]uint32
 	stringIndex     map[string]uint32
 	stringList      []string
+	emptyKey        bool
+	emptyKeyIndex   uint32
 }
 
 func NewStringTableBuilder() *stringTableBuilder {
@@ -21,6 +23,7 @@ func NewStringTableBuilder() *stringTableBuilder {
 
 func (stb *stringTableBuilder) AddMap(m map[string]string) {
 	for k, v := range m {
+		stb.emptyKey = stb.emptyKey || k == ""
 		stb.AddString(k)
 		stb.AddString(v)
 	}
@@ -55,6 +58,13 @@ func (stb *stringTableBuilder) Finalize() {
 	for idx, s := range stb.stringList {
 		stb.stringIndex[s] = uint32(idx)
 	}
+
+	if stb.emptyKey {
+		// In the key/values of dense nodes 0 is the end of a node, so an empty key
+		// needs another index.
+		stb.emptyKeyIndex = uint32(len(stb.stringList))
+		stb.stringList = append(stb.stringList, "")
+	}
 }
 
 func (stb *stringTableBuilder) GetIndex(s string) uint32 {
@@ -98,7 +108,11 @@ func (stb *stringTableBuilder) ToKeyValLinear(m map[string]string) []int32 {
 	sort.Strings(sortedKeys)
 
 	for _, k := range sortedKeys {
-		ids = append(ids, int32(stb.GetIndex(k)))
+		if k == "" {
+			ids = append(ids, int32(stb.emptyKeyIndex))
+		} else {
+			ids = append(ids, int32(stb.GetIndex(k)))
+		}
 		ids = append(ids, int32(stb.GetIndex(m[k])))
 	}
 	return ids
-- 
2.43.0


From 7fbc11337f12fb7029f226e0eabc9ea16bd2259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:50 +0000
Subject: [PATCH 20/20] fix: do not fail on a timing factor of the way index
 which is not well above one

As for the node index: with a factor slightly above one a slow lookup is beyond
the last counter, and with a factor of one or less it's never over.
---
 internal/wayindex/subindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/wayindex/subindex.go b/internal/wayindex/subindex.go
index fb7a983..aa2a443 100644
--- a/internal/wayindex/subindex.go
+++ b/internal/wayindex/subindex.go
@@ -77,7 +77,7 @@ func (si *SubWayIndex) FindLocations(id int64, hint int) ([]int64, int, bool) {
 		// A page fault should be serviced in under 2 seconds, so if the delta is higher then it's likely a core
 		// jump with a different timestamp, rather than a slow page fault.
 		i := 0
-		for delta > 1 {
+		for delta > 1 && i < len(si.parent.lookupTimingCount) {
 			i++
 			delta /= si.parent.divFactor
 		}
-- 
2.43.0

