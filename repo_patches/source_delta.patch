From 4ac64b947c7a84de3929c2045b59ac3091ca2ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 1/8] fix: reject UTF-8 records shorter than their identifier

---
 internal/core/base_parsers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 90f2206..a8d1d99 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -45,6 +45,9 @@ func (parser *RecordParser) ParseHprofUtf8(remaining uint32) (HprofUtf8, error)
 	if err != nil {
 		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", err)
 	}
+	if remaining < parser.primitiveParser.identifierSize {
+		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: record length %v is less than identifier size", remaining)
+	}
 	buf := make([]byte, remaining-parser.primitiveParser.identifierSize)
 	_, err = io.ReadFull(parser.primitiveParser.heapDump, buf)
 	if err != nil {
-- 
2.43.0


From c6c0ae0a99c9df6a689867a2f151d77abd91f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 2/8] fix: decode object array elements with the dump's
 identifier size

---
 internal/java/heap.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index f82e707..53a7bd3 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -11,7 +11,6 @@ package java
 
 import (
 	"bytes"
-	"encoding/binary"
 	"fmt"
 	"io"
 
@@ -229,8 +228,11 @@ func (h *Heap) ParseObjectArrayFull(arrayObjectId core.Identifier) (ObjectArray,
 		if err != nil {
 			return ObjectArray{}, fmt.Errorf("error reading element of object array with id %v: %w", arrayObjectId, err)
 		}
-		id := binary.BigEndian.Uint64(e)
-		elements = append(elements, core.Identifier(id))
+		id, err := core.NewPrimitiveParser(bytes.NewReader(e), h.parsedAccessor.IdentifierSize).ParseIdentifier()
+		if err != nil {
+			return ObjectArray{}, fmt.Errorf("error parsing element of object array with id %v: %w", arrayObjectId, err)
+		}
+		elements = append(elements, id)
 	}
 	return ObjectArray{
 		ArrayClassId: header.ArrayClassId,
-- 
2.43.0


From 7526170415b61bcd6038003d41f66eb8b426a3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 3/8] fix: do not divide by zero when a total is zero

---
 internal/output/objects.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index 0792079..041a58f 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -113,8 +113,8 @@ func getPrintItems(o objects.Objects) printObject {
 	for _, item := range o.Items {
 		printItems = append(printItems, printItem{
 			Name:           format.ClassName(item.Name),
-			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, 100*item.InstancesCount/o.TotalCount),
-			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), 100*item.TotalSize/o.TotalSize),
+			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, percent(item.InstancesCount, o.TotalCount)),
+			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), percent(item.TotalSize, o.TotalSize)),
 		})
 	}
 	printObj.TotalCount = strconv.Itoa(o.TotalCount)
@@ -123,6 +123,14 @@ func getPrintItems(o objects.Objects) printObject {
 	return printObj
 }
 
+// percent returns what integer percentage of the total the part is.
+func percent(part, total int) int {
+	if total == 0 {
+		return 0
+	}
+	return 100 * part / total
+}
+
 var (
 	//go:embed templates/objects.html
 	objectsHtml string
-- 
2.43.0


From 149f9bad24982b52c15f95c48b9cb53e64257fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 4/8] fix: report unknown sub-record types instead of skipping
 a byte

---
 internal/dump/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 9504907..522e4cf 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -220,6 +220,8 @@ func (parser *Parser) ParseHeapDump() error {
 					}
 					parser.pos--
 					break loop
+				default:
+					return fmt.Errorf("unknown sub-record type: %v", subRecordHeader.SubRecordType)
 				}
 			}
 		case core.HprofHeapDumpEndTag:
-- 
2.43.0


From 613603107deff5a6024030f95b0b1deec49c63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 5/8] fix: report errors of the final index flush and close

---
 internal/dump/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 522e4cf..9bfbfd3 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -58,7 +58,7 @@ func (creator *Parser) GetPosition() int {
 
 // ParseHeapDump parses heap dump to storages.
 // Can be used with arbitrary io.Reader.
-func (parser *Parser) ParseHeapDump() error {
+func (parser *Parser) ParseHeapDump() (err error) {
 	bufferedHeapDump := bufio.NewReader(parser.heapDump)
 	fileHeader, err := core.ParseFileHeader(bufferedHeapDump)
 	if err != nil {
@@ -75,7 +75,11 @@ func (parser *Parser) ParseHeapDump() error {
 
 	parser.pos = 31
 
-	defer parser.bigRecordsWriteStorage.Close()
+	defer func() {
+		if closeErr := parser.bigRecordsWriteStorage.Close(); closeErr != nil && err == nil {
+			err = fmt.Errorf("error closing index storage: %w", closeErr)
+		}
+	}()
 
 	for {
 		header, err := recordParser.ParseRecordHeader()
-- 
2.43.0


From 5cbe13d762f178c8d41ce947fbb25afb634cf04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:40 +0000
Subject: [PATCH 6/8] fix: report invalid array element types instead of
 panicking

---
 internal/core/types.go  | 7 +++++++
 internal/dump/parser.go | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/internal/core/types.go b/internal/core/types.go
index fb7a2b9..f6a6144 100644
--- a/internal/core/types.go
+++ b/internal/core/types.go
@@ -70,6 +70,13 @@ func (j JavaType) String() string {
 	return "unknown"
 }
 
+// IsValid tells if the type is one of the types
+// defined by .hprof format.
+func (j JavaType) IsValid() bool {
+	_, ok := javaTypeMap[j]
+	return ok
+}
+
 // JavaValue wraps type of the
 // constant and the value converted
 // to corresponding Go type.
diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 9bfbfd3..71965f5 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -203,6 +203,9 @@ func (parser *Parser) ParseHeapDump() (err error) {
 					if err != nil {
 						return fmt.Errorf("error parsing HprofGcPrimArrayDump: %w", err)
 					}
+					if !record.ElementType.IsValid() {
+						return fmt.Errorf("error parsing HprofGcPrimArrayDump: unknown element type %d", uint8(record.ElementType))
+					}
 					if err := parser.bigRecordsWriteStorage.HprofGcPrimArrayDumpPutOffset(record.ArrayObjectId, parser.pos); err != nil {
 						return fmt.Errorf("indexing error: HprofGcPrimArrayDumpPutOffset: %w", err)
 					}
-- 
2.43.0


From 2f82f985ed1f724217a0f2b9ad4c0fff67e4dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 7/8] fix: read all properties of a hash bucket, not only the
 first

---
 internal/summary/summary.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index c855894..b7657e3 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -137,7 +137,7 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 	}
 	resultProps := make(map[string]string)
 	for _, nodeObjectId := range table.Elements {
-		if nodeObjectId != 0 {
+		for nodeObjectId != 0 {
 			node, err := heap.ParseNormalObject(nodeObjectId)
 			if err != nil {
 				return nil, err
@@ -159,6 +159,14 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 				return nil, err
 			}
 			resultProps[keyString] = valString
+			next, err := node.GetFieldValueByName("next")
+			if err != nil {
+				return nil, err
+			}
+			nodeObjectId, err = next.Value.ToObject()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 	return Properties(resultProps), nil
-- 
2.43.0


From bc55a3992257cb98c52eb3e19048017efdc36c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 8/8] fix: keep the progress bar 50 cells wide for any position

---
 internal/cmd/interactive_print.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/cmd/interactive_print.go b/internal/cmd/interactive_print.go
index 0e0cc7e..568a4b2 100644
--- a/internal/cmd/interactive_print.go
+++ b/internal/cmd/interactive_print.go
@@ -37,8 +37,16 @@ func clearLine() {
 
 func progressBar(max int, positionFn func() int, label string) func() string {
 	return func() string {
-		progress := 100 * float64(positionFn()) / float64(max)
-		blocksNumber := int(progress / 2)
+		progress := 100.0
+		if max > 0 {
+			progress = 100 * float64(positionFn()) / float64(max)
+		}
+		blocksNumber := 50
+		if progress < 0 {
+			blocksNumber = 0
+		} else if progress < 100 {
+			blocksNumber = int(progress / 2)
+		}
 		blocks := strings.Repeat("▮", blocksNumber) + strings.Repeat("▯", 50-blocksNumber)
 		str := fmt.Sprintf("%s: %.2f%% [%s]", label, progress, blocks)
 		return str
-- 
2.43.0

