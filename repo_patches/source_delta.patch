From 76bc4c856b8b232c038289626c71d307c75f30fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 01/80] fix: padded text output must not round 64-bit integers
 through float64

---
 gotables.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gotables.go b/gotables.go
index a47e0fe..70d7e94 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1331,15 +1331,16 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 				var toWrite string
 				if row <= 1 { // It's a colName or typeName
 					toWrite = matrix[col][row]
-				} else { // It's numeric. Note: float conversion handles int conversion.
+				} else if colTypes[col] != "float32" && colTypes[col] != "float64" {
+					// It's an integral. It is already formatted, and conversion to float would lose precision.
+					toWrite = matrix[col][row]
+				} else { // It's a float.
 					var bits int
 					switch colTypes[col] {
 					case "float32":
 						bits = 32
-					case "float64":
-						bits = 64
 					default:
-						bits = 64 // For int and other non-float integrals.
+						bits = 64
 					}
 					// Convert back to float so we can format it again in light of the maximum precision in the column.
 					float64Val, err := strconv.ParseFloat(matrix[col][row], bits)
-- 
2.43.0


From 481ff1bc9131bf87a73d9c6f5b600d5df3ebf8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 02/80] fix: unpadded text output returned an empty string for
 byte, []byte, []uint8 and time.Time columns

---
 gotables.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 70d7e94..e5613a4 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1203,6 +1203,7 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				var runeVal rune
 				var tVal bool
 				var ui8Val uint8
+				var ui8SliceVal []uint8
 				var ui16Val uint16
 				var ui32Val uint32
 				var ui64Val uint64
@@ -1215,6 +1216,7 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				var f32Val float32
 				var f64Val float64
 				var tableVal *Table
+				var timeVal time.Time
 				buf.WriteString(horizontalSep)
 				switch table.colTypes[colIndex] {
 				case "string":
@@ -1228,9 +1230,12 @@ func (table *Table) _String(horizontalSeparator byte) string {
 				case "bool":
 					tVal = row[colIndex].(bool)
 					buf.WriteString(fmt.Sprintf("%t", tVal))
-				case "uint8":
+				case "uint8", "byte":
 					ui8Val = row[colIndex].(uint8)
 					buf.WriteString(fmt.Sprintf("%d", ui8Val))
+				case "[]uint8", "[]byte":
+					ui8SliceVal = row[colIndex].([]uint8)
+					buf.WriteString(fmt.Sprintf("%v", ui8SliceVal))
 				case "uint16":
 					ui16Val = row[colIndex].(uint16)
 					buf.WriteString(fmt.Sprintf("%d", ui16Val))
@@ -1272,6 +1277,9 @@ func (table *Table) _String(horizontalSeparator byte) string {
 					buf.WriteByte(91) // Opening square bracket.
 					buf.WriteString(tableName)
 					buf.WriteByte(93) // Closing square bracket.
+				case "time.Time":
+					timeVal = row[colIndex].(time.Time)
+					buf.WriteString(timeVal.Format(time.RFC3339Nano))
 				default:
 					log.Printf("%s #1 ERROR IN %s: unknown type: %s\n",
 						UtilFuncSource(), UtilFuncName(), table.colTypes[colIndex])
-- 
2.43.0


From 18ace099a6f7093cb4dfb0eb8727b9b3756e2b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 03/80] fix: accept RFC 3339 times with fewer than 9 fractional
 digits, as written by String()

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 48847af..290d33d 100644
--- a/parser.go
+++ b/parser.go
@@ -151,7 +151,7 @@ const tableNameNilPattern string = `^(\[\])`                  // Don't add $ at
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(Z|([+-]\d{2}:\d{2}))`
 // RFC3339Nano = "2006-01-02T15:04:05.999999999Z07:00"
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|([+-]\d{2}:\d{2}))`
-const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{9})?(Z|([+-]\d{2}:\d{2}))`
+const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{1,9})?(Z|([+-]\d{2}:\d{2}))`
 
 var tableSetNameRegexp *regexp.Regexp = regexp.MustCompile(tableSetNamePattern)
 var tableNameRegexp *regexp.Regexp = regexp.MustCompile(tableNamePattern)
-- 
2.43.0


From f5106641db4fa1d8f85d0478652300f187906f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 04/80] fix: time, rune and NaN cells must start where the cell
 starts, not skip over preceding text

---
 parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 290d33d..8eae7d9 100644
--- a/parser.go
+++ b/parser.go
@@ -121,7 +121,7 @@ var boolRegexp *regexp.Regexp = regexp.MustCompile(`^\b(true|false)\b`)
 
 // Note: (\\') successfully parses '\'' It needs to go before ([^']*)
 //             This may not be terribly efficient, awaiting a more specific regular expresssion.
-const runeRegexpString string = `'((\\n)|(\\')|([^']\\[xuU].*)|([^']*))'`
+const runeRegexpString string = `^'((\\n)|(\\')|([^']\\[xuU].*)|([^']*))'`
 
 var runeRegexp *regexp.Regexp = regexp.MustCompile(runeRegexpString)
 
@@ -139,7 +139,7 @@ var intRegexp *regexp.Regexp
 // Allow negative float numbers! 15/03/2017 Amazed that this was missed during initial testing!
 // var floatRegexp		*regexp.Regexp = regexp.MustCompile(`(^[-+]?(\b[0-9]+\.([0-9]+\b)?|\b\.[0-9]+\b))|([Nn][Aa][Nn])|(\b[-+]?\d+\b)`)
 // From Regular Expressions Cookbook.
-var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?)|([Nn][Aa][Nn])`)
+var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?|[Nn][Aa][Nn])`)
 
 const tableSetNamePattern string = `^\[\[[a-zA-Z_][a-zA-Z0-9_]*\]\]$`
 const namePattern string = `^[a-zA-Z_][a-zA-Z0-9_]*$`
@@ -151,7 +151,7 @@ const tableNameNilPattern string = `^(\[\])`                  // Don't add $ at
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(Z|([+-]\d{2}:\d{2}))`
 // RFC3339Nano = "2006-01-02T15:04:05.999999999Z07:00"
 // const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d+)?(Z|([+-]\d{2}:\d{2}))`
-const rfc3339TimePattern string = `\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{1,9})?(Z|([+-]\d{2}:\d{2}))`
+const rfc3339TimePattern string = `^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(\.\d{1,9})?(Z|([+-]\d{2}:\d{2}))`
 
 var tableSetNameRegexp *regexp.Regexp = regexp.MustCompile(tableSetNamePattern)
 var tableNameRegexp *regexp.Regexp = regexp.MustCompile(tableNamePattern)
-- 
2.43.0


From bd63dcf98587af39072e58b3b264f4008b0c0102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 05/80] fix: accept +Inf and -Inf in float cells, as written by
 String()

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 8eae7d9..bee7987 100644
--- a/parser.go
+++ b/parser.go
@@ -139,7 +139,7 @@ var intRegexp *regexp.Regexp
 // Allow negative float numbers! 15/03/2017 Amazed that this was missed during initial testing!
 // var floatRegexp		*regexp.Regexp = regexp.MustCompile(`(^[-+]?(\b[0-9]+\.([0-9]+\b)?|\b\.[0-9]+\b))|([Nn][Aa][Nn])|(\b[-+]?\d+\b)`)
 // From Regular Expressions Cookbook.
-var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?|[Nn][Aa][Nn])`)
+var floatRegexp *regexp.Regexp = regexp.MustCompile(`^([-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?|[-+]Inf|[Nn][Aa][Nn])`)
 
 const tableSetNamePattern string = `^\[\[[a-zA-Z_][a-zA-Z0-9_]*\]\]$`
 const namePattern string = `^[a-zA-Z_][a-zA-Z0-9_]*$`
-- 
2.43.0


From fe3aecff545b999d5f3a44065b4d6276cafc3804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 06/80] fix: struct-shape text output must escape strings and
 runes so that it can be parsed back

---
 gotables.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gotables.go b/gotables.go
index e5613a4..a6e9caf 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1640,12 +1640,17 @@ func printStruct(table *Table) string {
 
 			switch table.colTypes[colIndex] {
 			case "string":
-				// Note 1: GetValAsStringByColIndex() doesn't include delimiters around strings.
-				// Note 2: Don't use %q. Use \"%s\" instead. Because %q replicates escape slashes.
-				s += " = " + fmt.Sprintf("\"%s\"", asString)
+				// Note: GetValAsStringByColIndex() doesn't include delimiters around strings and doesn't escape them.
+				s += " = " + strconv.Quote(asString)
 			case "rune":
-				// Note: GetValAsStringByColIndex() doesn't include delimiters around runes.
-				s += " = " + fmt.Sprintf("'%s'", asString)
+				// Note: GetValAsStringByColIndex() doesn't include delimiters around runes and doesn't escape them.
+				var runeVal rune
+				runeVal, err = table.GetRuneByColIndex(colIndex, RowIndexZero)
+				if err != nil {
+					_, _ = os.Stderr.WriteString(fmt.Sprintf("%s %s %s\n", UtilFuncSource(), UtilFuncName(), err))
+					UtilPrintCaller()
+				}
+				s += " = " + strconv.QuoteRune(runeVal)
 			default:
 				// All other types don't have delimiters.
 				s += " = " + asString
-- 
2.43.0


From 6f4a2ef2bd6ac5e4043192d7fc6bd351aa3a37e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 07/80] fix: padded text output must not reformat floats, which
 lost the last digit of some powers of 2

---
 gotables.go | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/gotables.go b/gotables.go
index a6e9caf..db64676 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1339,27 +1339,18 @@ func printMatrix(tableName string, matrix [][]string, width []int, precis []int,
 				var toWrite string
 				if row <= 1 { // It's a colName or typeName
 					toWrite = matrix[col][row]
-				} else if colTypes[col] != "float32" && colTypes[col] != "float64" {
-					// It's an integral. It is already formatted, and conversion to float would lose precision.
+				} else {
+					// It's numeric. It is already formatted, exactly. Any further conversion could lose precision.
 					toWrite = matrix[col][row]
-				} else { // It's a float.
-					var bits int
-					switch colTypes[col] {
-					case "float32":
-						bits = 32
-					default:
-						bits = 64
-					}
-					// Convert back to float so we can format it again in light of the maximum precision in the column.
-					float64Val, err := strconv.ParseFloat(matrix[col][row], bits)
-					if err != nil {
-						_, _ = os.Stderr.WriteString(fmt.Sprintf("%s %s %s\n", UtilFuncSource(), UtilFuncName(), err))
-						UtilPrintCaller()
-						return ""
+					if (colTypes[col] == "float32" || colTypes[col] == "float64") && !strings.ContainsAny(toWrite, "NI") { // Not NaN or Inf
+						// Extend the fractional part in light of the maximum precision in the column.
+						if precis[col] > 0 && !strings.Contains(toWrite, ".") {
+							toWrite += "."
+						}
+						toWrite += strings.Repeat("0", max(0, precis[col]-precisionOf(toWrite)))
 					}
-					toWrite = strconv.FormatFloat(float64Val, 'f', precis[col], bits)
-					//					width[col] = max(width[col], len(toWrite))
 				}
+
 				//				s = fmt.Sprintf("%s%*s", sep, width[col], matrix[col][row])	// Align right
 				if colTypes[col] == "float32" || colTypes[col] == "float64" {
 					// Replace trailing zeros with space padding here.
-- 
2.43.0


From 3d9c3fddceba1f3510920b77f4eb9177b21550b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 08/80] fix: a row of col names at end of input without col
 types was silently dropped

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index bee7987..595e1d3 100644
--- a/parser.go
+++ b/parser.go
@@ -524,6 +524,9 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 		}
 
 		if readError == io.EOF {
+			if expecting == _COL_TYPES {
+				return nil, fmt.Errorf("%s expecting row of col names to be followed by a row of col types", p.gotFilePos())
+			}
 			return tables, nil // It's not an error to reach EOF. It just means end of document.
 		}
 	}
-- 
2.43.0


From f35053665ff21c68a8f9d852103f635e43e8522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 09/80] fix: text after <name> <type> in a struct without data
 was silently dropped

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index 595e1d3..5d239b6 100644
--- a/parser.go
+++ b/parser.go
@@ -389,6 +389,10 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 				}
 				var colTypeSlice []string = []string{colType}
 
+				if !structHasRowData && len(lineSplit) > 2 {
+					return nil, fmt.Errorf("#6 %s looks like struct without data but found: %s", p.gotFilePos(), line)
+				}
+
 				err = table.AppendCol(colName, colType)
 				if err != nil {
 					return nil, fmt.Errorf("%s %s", p.gotFilePos(), err)
-- 
2.43.0


From ee4306e170642a0eb4ebe89537f5dbdf818ed1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 10/80] fix: names must be ASCII as in namePattern; some 2-byte
 letters were accepted but could not be parsed back

---
 parser.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 5d239b6..529ed78 100644
--- a/parser.go
+++ b/parser.go
@@ -25,7 +25,6 @@ import (
 	"strconv"
 	"strings"
 	"time"
-	"unicode"
 )
 
 /*
@@ -814,18 +813,23 @@ func isValidName(name string) (bool, error) {
 	if len(name) == 0 {
 		return false, fmt.Errorf("%s: len(name) == 0", UtilFuncName())
 	}
-	if !unicode.IsLetter(rune(name[0])) && name[0] != '_' {
+	// Names are ASCII only, as in namePattern, or else they could not be parsed back. Note: name[i] is a byte.
+	if !isAsciiLetter(name[0]) && name[0] != '_' {
 		return false, fmt.Errorf("%s: invalid first char: %c (expecting letter or '_')", UtilFuncName(), name[0])
 	}
 	for i := 1; i < len(name); i++ {
-		if !unicode.IsLetter(rune(name[i])) && name[i] != '_' && !unicode.IsNumber(rune(name[i])) {
-			return false, fmt.Errorf("%s: invalid char: %c (expecting letter or '_' or number)", UtilFuncName(), name[0])
+		if !isAsciiLetter(name[i]) && name[i] != '_' && !(name[i] >= '0' && name[i] <= '9') {
+			return false, fmt.Errorf("%s: invalid char: %c (expecting letter or '_' or number)", UtilFuncName(), name[i])
 		}
 	}
 
 	return true, nil
 }
 
+func isAsciiLetter(c byte) bool {
+	return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
+}
+
 // Note: The same validity rules apply to both table names and col names.
 func IsValidColName(colName string) (bool, error) {
 
-- 
2.43.0


From b7818e352fed1eee77175f86dedcbb7fc6319286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 11/80] fix: unpadded text of a table set dropped the set's
 name

---
 gotables.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gotables.go b/gotables.go
index db64676..afb3f8d 100644
--- a/gotables.go
+++ b/gotables.go
@@ -342,6 +342,9 @@ func (tableSet *TableSet) _String(horizontalSeparator byte) string {
 
 	var buf bytes.Buffer
 	//	buf.WriteString("# From file: \"" + tableSet.name + "\"\n\n")
+	if tableSet.tableSetName != "" {
+		buf.WriteString(fmt.Sprintf("[[%s]]\n\n", tableSet.tableSetName))
+	}
 	var tableSep = ""
 	var table *Table
 	for i := 0; i < len(tableSet.tables); i++ {
-- 
2.43.0


From 5a4b51e01cf1c27687d8955218d1d71f320d15be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 12/80] fix: ByColIndex setters and zero-value resets panicked
 on an index out of range instead of returning an error

---
 gotables.go |   5 +++
 helpers.go  | 110 ++++++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 95 insertions(+), 20 deletions(-)

diff --git a/gotables.go b/gotables.go
index afb3f8d..f672866 100644
--- a/gotables.go
+++ b/gotables.go
@@ -847,6 +847,11 @@ func (table *Table) SetColCellsToZeroValueByColIndex(colIndex int) error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	hasCol, err := table.HasColByColIndex(colIndex)
+	if !hasCol {
+		return err
+	}
+
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 		err := table.SetCellToZeroValueByColIndex(colIndex, rowIndex)
 		if err != nil {
diff --git a/helpers.go b/helpers.go
index 83fc552..0110024 100644
--- a/helpers.go
+++ b/helpers.go
@@ -969,7 +969,10 @@ func (table *Table) SetByteSliceByColIndex(colIndex int, rowIndex int, newVal []
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1010,7 +1013,10 @@ func (table *Table) SetUint8SliceByColIndex(colIndex int, rowIndex int, newVal [
 			UtilFuncName(), table.Name(), colIndex)
 	}
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1045,7 +1051,10 @@ func (table *Table) SetBoolByColIndex(colIndex int, rowIndex int, newVal bool) e
 
 	const valType string = "bool"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1080,7 +1089,10 @@ func (table *Table) SetByteByColIndex(colIndex int, rowIndex int, newVal byte) e
 
 	const valType string = "byte"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1115,7 +1127,10 @@ func (table *Table) SetFloat32ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1150,7 +1165,10 @@ func (table *Table) SetFloat64ByColIndex(colIndex int, rowIndex int, newVal floa
 
 	const valType string = "float64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1185,7 +1203,10 @@ func (table *Table) SetIntByColIndex(colIndex int, rowIndex int, newVal int) err
 
 	const valType string = "int"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1220,7 +1241,10 @@ func (table *Table) SetInt16ByColIndex(colIndex int, rowIndex int, newVal int16)
 
 	const valType string = "int16"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1255,7 +1279,10 @@ func (table *Table) SetInt32ByColIndex(colIndex int, rowIndex int, newVal int32)
 
 	const valType string = "int32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1290,7 +1317,10 @@ func (table *Table) SetInt64ByColIndex(colIndex int, rowIndex int, newVal int64)
 
 	const valType string = "int64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1325,7 +1355,10 @@ func (table *Table) SetInt8ByColIndex(colIndex int, rowIndex int, newVal int8) e
 
 	const valType string = "int8"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1360,7 +1393,10 @@ func (table *Table) SetRuneByColIndex(colIndex int, rowIndex int, newVal rune) e
 
 	const valType string = "rune"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1395,7 +1431,10 @@ func (table *Table) SetStringByColIndex(colIndex int, rowIndex int, newVal strin
 
 	const valType string = "string"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1430,7 +1469,10 @@ func (table *Table) SetUintByColIndex(colIndex int, rowIndex int, newVal uint) e
 
 	const valType string = "uint"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1465,7 +1507,10 @@ func (table *Table) SetUint16ByColIndex(colIndex int, rowIndex int, newVal uint1
 
 	const valType string = "uint16"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1500,7 +1545,10 @@ func (table *Table) SetUint32ByColIndex(colIndex int, rowIndex int, newVal uint3
 
 	const valType string = "uint32"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1535,7 +1583,10 @@ func (table *Table) SetUint64ByColIndex(colIndex int, rowIndex int, newVal uint6
 
 	const valType string = "uint64"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1570,7 +1621,10 @@ func (table *Table) SetUint8ByColIndex(colIndex int, rowIndex int, newVal uint8)
 
 	const valType string = "uint8"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1614,7 +1668,10 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 	// This may help with reporting errors.
 	newVal.parentTable = table
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -1649,7 +1706,10 @@ func (table *Table) SetTimeByColIndex(colIndex int, rowIndex int, newVal time.Ti
 
 	const valType string = "time.Time"
 
-	colType := table.colTypes[colIndex]
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
 
 	if valType != colType {
 		if !isAlias(colType, valType) {
@@ -4855,6 +4915,11 @@ func (table *Table) SetCellToZeroValueByColIndex(colIndex int, rowIndex int) err
 		return fmt.Errorf("table.%s: table is <nil>", UtilFuncName())
 	}
 
+	hasCell, err := table.HasCellByColIndex(colIndex, rowIndex)
+	if !hasCell {
+		return err
+	}
+
 	var colType = table.colTypes[colIndex]
 
 	switch colType {
@@ -4937,6 +5002,11 @@ func (table *Table) SetRowCellsToZeroValue(rowIndex int) error {
 		return fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 	}
 
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return err
+	}
+
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		var colType string = table.colTypes[colIndex]
 		switch colType {
-- 
2.43.0


From 7f6a3540368ab9bfbd9355fa1552bb38c38de39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 13/80] fix: SwapCols and SwapColsByColIndex left the row data
 behind, under the wrong column

---
 sort.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sort.go b/sort.go
index 4f107b4..7c229b1 100644
--- a/sort.go
+++ b/sort.go
@@ -952,6 +952,10 @@ func (table *Table) SwapColsByColIndex(colIndex1 int, colIndex2 int) error {
 
 	table.colNamesMap[colName1], table.colNamesMap[colName2] = table.colNamesMap[colName2], table.colNamesMap[colName1]
 
+	for _, row := range table.rows {
+		row[colIndex1], row[colIndex2] = row[colIndex2], row[colIndex1]
+	}
+
 	return nil
 }
 
@@ -987,6 +991,10 @@ func (table *Table) SwapCols(colName1 string, colName2 string) error {
 
 	table.colNamesMap[colName1], table.colNamesMap[colName2] = table.colNamesMap[colName2], table.colNamesMap[colName1]
 
+	for _, row := range table.rows {
+		row[col1], row[col2] = row[col2], row[col1]
+	}
+
 	return nil
 }
 
-- 
2.43.0


From f91fd3152aafdfbf68735be9e4870d829996be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 14/80] fix: SearchLast panicked for values before the first
 row and on an empty table

---
 sort.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index 7c229b1..e782f52 100644
--- a/sort.go
+++ b/sort.go
@@ -1060,7 +1060,8 @@ func (table *Table) searchByKeysLast(searchValues []interface{}) (int, error) {
 
 	// See logic at: https://golang.org/pkg/sort/#Search
 	// See Search() source code at: https://golang.org/src/sort/search.go?s=2247:2287#L49
-	if searchIndex < table.RowCount() && searchValuesMatchRowValues(table, searchValues, searchIndex) {
+	// Note: SearchLast() returns -1 if searchValues would be before the first row.
+	if searchIndex >= 0 && searchValuesMatchRowValues(table, searchValues, searchIndex) {
 		return searchIndex, nil
 	} else {
 		return -1, fmt.Errorf("[%s].Search(%v) search values not in table: %v",
-- 
2.43.0


From 64ef4e5298e0e4b897a97a9250e4158c1a32ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 15/80] fix: a failed SetSortKeys or SetSortKeysReverse (or
 Sort) changed the sort keys

---
 sort.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sort.go b/sort.go
index e782f52..37c4cbd 100644
--- a/sort.go
+++ b/sort.go
@@ -171,11 +171,13 @@ func (table *Table) SetSortKeys(sortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	previousSortKeys := table.sortKeys
 	table.sortKeys = newSortKeys() // Replace any existing sort keys.
 
 	for _, colName := range sortColNames {
 		err := table.AppendSortKey(colName)
 		if err != nil {
+			table.sortKeys = previousSortKeys
 			//			errSortKey := errors.New(fmt.Sprintf("SetSortKeys(%v): %v\n", sortColNames, err))
 			errSortKey := fmt.Errorf("SetSortKeys(%v): %v", sortColNames, err)
 			return errSortKey
@@ -197,9 +199,12 @@ func (table *Table) SetSortKeysReverse(reverseSortColNames ...string) error {
 		return fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	previousSortKeys := append(newSortKeys(), table.sortKeys...)
+
 	for _, colName := range reverseSortColNames {
 		err := table.setSortKeyReverse(colName)
 		if err != nil {
+			table.sortKeys = previousSortKeys
 			errSortKey := fmt.Errorf("SetSortKeysReverse(%v): %v", reverseSortColNames, err)
 			return errSortKey
 		}
-- 
2.43.0


From ba6a60d281198d0df786cc973781e258ef6a57e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 16/80] fix: NaN compared equal to every number, so tables with
 NaN keys did not sort; NaN now sorts first

---
 sort.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sort.go b/sort.go
index 37c4cbd..a09aebd 100644
--- a/sort.go
+++ b/sort.go
@@ -446,8 +446,11 @@ var compare_float32 compareFunc = func(i, j interface{}) int {
 		return -1
 	} else if float32i > float32j {
 		return +1
-	} else {
+	} else if float32i == float32j {
 		return 0
+	} else {
+		// At least one is NaN. NaN sorts to before all other values, as it does in Go library sort.
+		return compare_bool(float32i == float32i, float32j == float32j)
 	}
 }
 
@@ -458,8 +461,11 @@ var compare_float64 compareFunc = func(i, j interface{}) int {
 		return -1
 	} else if float64i > float64j {
 		return +1
-	} else {
+	} else if float64i == float64j {
 		return 0
+	} else {
+		// At least one is NaN. NaN sorts to before all other values, as it does in Go library sort.
+		return compare_bool(float64i == float64i, float64j == float64j)
 	}
 }
 
-- 
2.43.0


From 7cb0d9187739901f575aef967ca38505f3c7fd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 17/80] fix: OrderColsBySortKeys panicked on a repeated sort
 key instead of returning an error

---
 sort.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sort.go b/sort.go
index a09aebd..4f9ab9a 100644
--- a/sort.go
+++ b/sort.go
@@ -867,7 +867,7 @@ func (table *Table) OrderColsBySortKeys() error {
 	}
 
 	var err error
-	var newOrder []string = make([]string, table.ColCount()) // List of new colNames.
+	var newOrder []string // List of new colNames.
 	var key int
 
 	// Populate new order ...
@@ -875,11 +875,10 @@ func (table *Table) OrderColsBySortKeys() error {
 	// First slots with key col names.
 	for key = 0; key < table.SortKeyCount(); key++ {
 		keyName := table.sortKeys[key].colName
-		newOrder[key] = keyName
+		newOrder = append(newOrder, keyName)
 	}
 
 	// Subsequent slots with non-key col names.
-	row := table.SortKeyCount()
 	for col := 0; col < table.ColCount(); col++ {
 		colName := table.colNames[col]
 		var isSortKey bool
@@ -888,8 +887,7 @@ func (table *Table) OrderColsBySortKeys() error {
 			return err
 		}
 		if !isSortKey {
-			newOrder[row] = colName
-			row++
+			newOrder = append(newOrder, colName)
 		}
 	}
 
-- 
2.43.0


From 6c10db4850fd66b06ad1a14a60a85e5317e72323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 18/80] fix: RenameCol left the old col name in the sort keys,
 so a later Sort panicked

---
 gotables.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gotables.go b/gotables.go
index f672866..267780c 100644
--- a/gotables.go
+++ b/gotables.go
@@ -2668,6 +2668,13 @@ func (table *Table) RenameCol(oldName string, newName string) error {
 	delete(table.colNamesMap, oldName)    // Delete the old one.
 	table.colNamesMap[newName] = colIndex // Add the new one.
 
+	// Rename col in sort keys.
+	for keyIndex := range table.sortKeys {
+		if table.sortKeys[keyIndex].colName == oldName {
+			table.sortKeys[keyIndex].colName = newName
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 0835303ee53858c8b313c8735014abad0b427af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 19/80] fix: DeleteCol left the deleted col in the sort keys,
 so a later Sort panicked

---
 gotables.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gotables.go b/gotables.go
index 267780c..054151b 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1876,6 +1876,15 @@ func (table *Table) DeleteColByColIndex(colIndex int) error {
 		table.colNamesMap[table.colNames[localColIndex]] = localColIndex
 	}
 
+	// A deleted col can no longer be a sort key.
+	remainingSortKeys := newSortKeys()
+	for _, key := range table.sortKeys {
+		if key.colName != colName {
+			remainingSortKeys = append(remainingSortKeys, key)
+		}
+	}
+	table.sortKeys = remainingSortKeys
+
 	// From Ivo Balbaert p182 for deleting a single element from a slice.
 	table.colTypes = append(table.colTypes[:colIndex], table.colTypes[colIndex+1:]...)
 
-- 
2.43.0


From b60445afa169558d78133779d22464ec8c0557ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 20/80] fix: a failed AppendRowsFromTable left rows behind

---
 gotables.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index 054151b..ad2fabe 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3525,11 +3525,9 @@ func (table *Table) AppendColsFromTable(fromTable *Table) error {
 	return nil
 }
 
-func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRow int) error {
+func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRow int) (err error) {
 	// where("caller: " + UtilFuncCaller())
 	// where(UtilFuncName())
-	var err error
-
 	if toTable == nil {
 		return fmt.Errorf("toTable.table.%s: table is <nil>", UtilFuncName())
 	}
@@ -3560,6 +3558,21 @@ func (toTable *Table) AppendRowsFromTable(fromTable *Table, firstRow int, lastRo
 		}
 	}
 
+	if firstRow <= lastRow {
+		if firstRow < 0 || lastRow > fromTable.RowCount()-1 {
+			return fmt.Errorf("[%s].%s([%s], %d, %d): row range is out of range with fromTable RowCount() length %d",
+				toTable.Name(), UtilFuncName(), fromTable.Name(), firstRow, lastRow, fromTable.RowCount())
+		}
+	}
+
+	// If there is an error, don't leave any of the rows behind.
+	toRowCount := toTable.RowCount()
+	defer func() {
+		if err != nil {
+			toTable.rows = toTable.rows[:toRowCount]
+		}
+	}()
+
 	// Note: multiple assignment syntax in for loop.
 	for fromRow, toRow := firstRow, toTable.RowCount(); fromRow <= lastRow; fromRow, toRow = fromRow+1, toRow+1 {
 
-- 
2.43.0


From 184a753e678334be83d99f28e1281eb98af7504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 21/80] fix: a failed AppendColsFromTable left columns behind

---
 gotables.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gotables.go b/gotables.go
index ad2fabe..c5e6375 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3491,6 +3491,16 @@ func (table *Table) AppendColsFromTable(fromTable *Table) error {
 		return err
 	}
 
+	// Check all col types before appending any cols.
+	for fromCol := 0; fromCol < fromTable.ColCount(); fromCol++ {
+		colName, colType := fromTable.colNames[fromCol], fromTable.colTypes[fromCol]
+		colInfo, err := table.getColInfo(colName)
+		if err == nil && colType != colInfo.colType {
+			return fmt.Errorf("[%s].%s([%s]): skipping duplicate colName %q (is okay), but expecting type %q, not %q",
+				table.Name(), UtilFuncName(), fromTable.Name(), colName, colInfo.colType, colType)
+		}
+	}
+
 	for rowIndex := 0; rowIndex < colsTable.RowCount(); rowIndex++ {
 		colName, err := colsTable.GetString("colName", rowIndex)
 		if err != nil {
-- 
2.43.0


From 518889a4bc3b7b1e396d64f1439fbec70df4c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 22/80] fix: IsValidTable and DeleteRow swallowed errors

---
 gotables.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gotables.go b/gotables.go
index c5e6375..07fc56b 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1015,7 +1015,7 @@ func (table *Table) DeleteRow(rowIndex int) error {
 
 	err = table.DeleteRows(rowIndex, rowIndex)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	if debugging {
@@ -2836,7 +2836,7 @@ func (table *Table) IsValidTable() (isValid bool, err error) {
 
 	_, err = table.isValidColNamesMap()
 	if err != nil {
-		return false, nil
+		return false, err
 	}
 
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
-- 
2.43.0


From 5e91d57473f3550185105db4f6741f1c9a26fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 23/80] fix: Equals compared nested tables by col index, not by
 col name, so column order mattered

---
 gotables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 07fc56b..1447783 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3422,7 +3422,7 @@ func (table1 *Table) Equals(table2 *Table) (equals bool, err error) {
 				if err != nil {
 					return false, err
 				}
-				nestedTable2, err := table2.GetTableByColIndex(colIndex, rowIndex)
+				nestedTable2, err := table2.GetTable(colName, rowIndex)
 				if err != nil {
 					return false, err
 				}
-- 
2.43.0


From 432818bb148624fd506adcd91675bec0546affc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 24/80] fix: AppendTable panicked on a nil table

---
 gotables.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gotables.go b/gotables.go
index 1447783..ab56bcc 100644
--- a/gotables.go
+++ b/gotables.go
@@ -426,6 +426,10 @@ func (tableSet *TableSet) AppendTable(newTable *Table) error {
 		return fmt.Errorf("%s tableSet.%s tableSet is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	if newTable == nil {
+		return fmt.Errorf("%s tableSet.%s newTable is <nil>", UtilFuncSource(), UtilFuncName())
+	}
+
 	// Note: Could maintain a map in parallel for rapid lookup of table names.
 	for _, existingTable := range tableSet.tables {
 		if existingTable.Name() == newTable.Name() {
-- 
2.43.0


From 955e5d24d33acb831aa37b23b2c8d57d12414f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 25/80] fix: StringNested renamed the nested tables, and gave
 nil tables a name

---
 gotables.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gotables.go b/gotables.go
index ab56bcc..1e72891 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4618,6 +4618,7 @@ globalDepth++
 				tailName := fmt.Sprintf("__FROM_%s_%s_%d%s", parentTableName, colName, rowIndex, parentTailName)
 */
 				headName := nestedTable.Name()
+				isNilTable := nestedTable.isNilTable
 				var tailName string
 				if debug {
 					tailName = fmt.Sprintf("__FROM_TABLE_%s_COL_%s_row_%d%s", parentTableName, colName, rowIndex, parentTailName)
@@ -4634,6 +4635,10 @@ globalDepth++
 // where(fmt.Sprintf("\n>>> nestedTable.stringNested_recursive(%q, %q, %d, stringNested=\n%s)",
 // table.Name(), colName, rowIndex, *stringNested))
 				nestedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
+
+				// The new name is only for the string. Give the nested table back its own name.
+				nestedTable.tableName = headName
+				nestedTable.isNilTable = isNilTable
 			}
 		}
 	}
-- 
2.43.0


From e5db3d58f52946e467f3a8cd7fd15e6cac21636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 26/80] fix: a failed SetTable changed the parent of the table
 it failed to set

---
 helpers.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/helpers.go b/helpers.go
index 0110024..5c471fa 100644
--- a/helpers.go
+++ b/helpers.go
@@ -868,9 +868,6 @@ func (table *Table) SetTable(colName string, rowIndex int, newVal *Table) error
 			UtilFuncNameNoParens(), colName, rowIndex, table.Name(), colName)
 	}
 
-	// This may help with reporting errors.
-	newVal.parentTable = table
-
 	colType, err := table.ColType(colName)
 	if err != nil {
 		return err
@@ -898,6 +895,9 @@ func (table *Table) SetTable(colName string, rowIndex int, newVal *Table) error
 	// Note: This essentially inlines SetValByColIndex(): an average 30% speedup.
 	table.rows[rowIndex][colIndex] = newVal
 
+	// This may help with reporting errors.
+	newVal.parentTable = table
+
 	return nil
 }
 
@@ -1665,9 +1665,6 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 			UtilFuncNameNoParens(), colIndex, rowIndex, table.Name(), colIndex)
 	}
 
-	// This may help with reporting errors.
-	newVal.parentTable = table
-
 	colType, err := table.ColTypeByColIndex(colIndex)
 	if err != nil {
 		return err
@@ -1690,6 +1687,9 @@ func (table *Table) SetTableByColIndex(colIndex int, rowIndex int, newVal *Table
 	// Note: This essentially inlines SetValByColIndex(): an average 5 times speedup.
 	table.rows[rowIndex][colIndex] = newVal
 
+	// This may help with reporting errors.
+	newVal.parentTable = table
+
 	return nil
 }
 
-- 
2.43.0


From 3c52423a2e57e09ef9d5a292d380c0045b51130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 27/80] fix: GetCellInfoByColIndex panicked on a col index out
 of range

---
 tree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 480072e..e53e6ad 100644
--- a/tree.go
+++ b/tree.go
@@ -222,7 +222,11 @@ func (table *Table) GetCellInfoByColIndex(colIndex int, rowIndex int) (cellInfo
 	cellInfo.Table = table
 	cellInfo.ColIndex = colIndex
 	cellInfo.RowIndex = rowIndex
-	cellInfo.ColType = table.colTypes[colIndex]
+
+	cellInfo.ColType, err = table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return cellInfo, err
+	}
 
 	cellInfo.ColName, err = table.ColName(colIndex)
 	if err != nil {
-- 
2.43.0


From f61a6d5dab7079e74f777c971c599b9cca6fa8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 28/80] fix: IsValidTableNesting looked up nested cells in the
 root table, so valid nestings were called circular

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index e53e6ad..99e7087 100644
--- a/tree.go
+++ b/tree.go
@@ -341,7 +341,7 @@ func (rootTable *Table) IsValidTableNesting() (valid bool, err error) {
 	visitCell = func(walkNestedTables bool, cellInfo CellInfo) (err error) {
 		if IsTableColType(cellInfo.ColType) {
 			var nestedTable *Table
-			nestedTable, err = rootTable.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
+			nestedTable, err = cellInfo.Table.GetTableByColIndex(cellInfo.ColIndex, cellInfo.RowIndex)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 26c9e5442f5f839c3a44052456094de898dd175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 29/80] fix: Walk visited the root table twice before it
 noticed a circular reference to it, and panicked on a nil walkSafe

---
 tree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 99e7087..c0f6710 100644
--- a/tree.go
+++ b/tree.go
@@ -84,11 +84,14 @@ func (table *Table) Walk(
 		return
 	}
 
-	if table == nil {
+	if walkSafe == nil {
 		err = fmt.Errorf("table.%s(): walkSafe is nil", UtilFuncNameNoParens())
 		return
 	}
 
+	// Add this table to the map, so that a reference to the root table is recognised.
+	walkSafe[table] = EmptyStruct
+
 	// where(fmt.Sprintf("Walk() walkSafe %p = %v", walkSafe, walkSafe))
 
 	// Visit table.
-- 
2.43.0


From 0f4b0a010cc275bcc2fab2c228cbaa8c75f19fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 30/80] fix: CopyDeep returned the original table, or one of
 its nested tables, instead of a copy

---
 tree.go | 73 +++++++++++++++++++++------------------------------------
 1 file changed, 27 insertions(+), 46 deletions(-)

diff --git a/tree.go b/tree.go
index c0f6710..3540138 100644
--- a/tree.go
+++ b/tree.go
@@ -413,64 +413,45 @@ func (table *Table) CopyDeep() (tableCopy *Table, err error) {
 		return nil, fmt.Errorf("table.%s: table is nil", UtilFuncName())
 	}
 
-	// This may seem odd, but this is the point in CopyDeep() where it's possible
-	// to set tableCopy before all the recursive calls have occurred.
-	tableCopy = table
+	if table.isNilTable {
+		return NewNilTable(), nil
+	}
 
-	var visitTable = func(t *Table) (err error) {
-		// where(fmt.Sprintf("[%s]", t.Name()))
-		return
+	// Note: Copy() returns an error if there is a circular reference.
+	tableCopy, err = table.Copy()
+	if err != nil {
+		return nil, err
 	}
 
-	var visitCell = func(walkDeep bool, cell CellInfo) (err error) {
-		if IsTableColType(cell.ColType) {
-			// where(fmt.Sprintf("[%s] IsTableColType", cell.Table.Name()))
+	for colIndex := 0; colIndex < tableCopy.ColCount(); colIndex++ {
+		colType := tableCopy.colTypes[colIndex]
 
-			var nestedTable *Table
-			nestedTable, err = cell.Table.GetTableByColIndex(cell.ColIndex, cell.RowIndex)
-			if err != nil {
-				return
-			}
-			// where(fmt.Sprintf("nestedTable = %p", nestedTable))
-
-			var isNilTable bool
-			isNilTable, err = nestedTable.IsNilTable()
-			if err != nil {
-				return
-			}
+		for rowIndex := 0; rowIndex < tableCopy.RowCount(); rowIndex++ {
+			if IsTableColType(colType) {
+				var nestedTable *Table
+				nestedTable, err = tableCopy.GetTableByColIndex(colIndex, rowIndex)
+				if err != nil {
+					return nil, err
+				}
 
-			var nestedTableCopy *Table
-			if isNilTable {
-				nestedTableCopy = NewNilTable()	// New reference just to be on the safe side.
-			} else {
-				nestedTableCopy, err = nestedTable.Copy()
+				var nestedTableCopy *Table
+				nestedTableCopy, err = nestedTable.CopyDeep()
 				if err != nil {
-					return
+					return nil, err
 				}
-			}
 
-			err = cell.Table.SetTableByColIndex(cell.ColIndex, cell.RowIndex, nestedTableCopy)
-			if err != nil {
-			// where(fmt.Sprintf("nestedTableCopy = %p", nestedTableCopy))
-				return
+				err = tableCopy.SetTableByColIndex(colIndex, rowIndex, nestedTableCopy)
+				if err != nil {
+					return nil, err
+				}
+			} else if IsSliceColType(colType) {
+				slice := tableCopy.rows[rowIndex][colIndex].([]byte)
+				tableCopy.rows[rowIndex][colIndex] = append([]byte{}, slice...)
 			}
 		}
-		tableCopy = cell.Table
-
-		return
 	}
 
-	const walkDeep = true
-	var walkSafe WalkSafe = make(WalkSafe)
-	// where(fmt.Sprintf("declaring walkSafe = %p", walkSafe))
-	// where("BEGIN Walk()")
-	err = table.Walk(walkDeep, walkSafe, visitTable, nil, visitCell)
-	// where("END Walk()")
-	if err != nil {
-		return nil, err
-	}
-
-	return
+	return tableCopy, nil
 }
 
 /*
-- 
2.43.0


From ddaa2d4b0407ea072449412e54005fa5f7f49c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 31/80] fix: a signed int literal with a leading 0 was parsed
 as decimal, without a sign as octal

---
 parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.go b/parser.go
index 529ed78..b4e207f 100644
--- a/parser.go
+++ b/parser.go
@@ -1408,6 +1408,11 @@ func parseInt(s string, bitSize int) (int64Val int64, err error) {
 		return 0, fmt.Errorf("gotables.parseInt: parsing %q: invalid syntax", s)
 	}
 
+	if (s[0] == '-' || s[0] == '+') && len(s) >= 3 && s[1] == '0' {
+		// A signed literal with leading 0 is octal too, as it is in Go. Note: intRegexp has no sign before 0b 0o 0x
+		return strconv.ParseInt(s, _OCT, bitSize)
+	}
+
 	if s[0] == '0' && len(s) >= 2 {
 		// May be BIN, OCT or HEX.
 		switch s[0:2] {
-- 
2.43.0


From a7d2921427f494eb2d8255fde144ce162ea5a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 32/80] fix: a uint literal with a plus sign was recognised and
 then rejected

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index b4e207f..0806be9 100644
--- a/parser.go
+++ b/parser.go
@@ -1438,6 +1438,10 @@ func parseUint(s string, bitSize int) (uint64Val uint64, err error) {
 		return 0, fmt.Errorf("gotables.parseUint: parsing %q: invalid syntax", s)
 	}
 
+	if s[0] == '+' && len(s) >= 2 {
+		s = s[1:] // uintRegexp allows a plus sign, strconv.ParseUint() doesn't. Note: uintRegexp has no sign before 0b 0o 0x
+	}
+
 	if s[0] == '0' && len(s) >= 2 {
 		// May be BIN, OCT or HEX.
 		switch s[0:2] {
-- 
2.43.0


From 3701103057b3274091897a1eab5345fc2dd860b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 33/80] fix: part of a cell was parsed as the whole cell when
 the rest of it looked like the next cell

---
 parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.go b/parser.go
index 0806be9..0e8f156 100644
--- a/parser.go
+++ b/parser.go
@@ -1272,6 +1272,11 @@ func (p *parser) getRowSlice(line string, table *Table, colNames []string, colTy
 		}
 
 		remaining = remaining[rangeFound[1]:]
+		// Cells are separated by white space. Otherwise what was found is only part of a cell: 0b12 is not 0b1 and 2
+		if len(remaining) > 0 && remaining[0] != ' ' && remaining[0] != '\t' {
+			return nil, fmt.Errorf("%s col %s expecting a valid value of type %s followed by white space but found: %s",
+				p.gotFilePos(), colNames[i], colTypes[i], remaining)
+		}
 		//		remaining = strings.TrimLeft(remaining, " \t\r\n") // Remove leading whitespace. Is \t\r\n overkill?
 		remaining = strings.TrimLeft(remaining, " \t") // Remove leading whitespace.
 		colCount++
-- 
2.43.0


From d1146f6e6564db42033a14413285e2790c600c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 34/80] fix: concurrent parsers shared a line number, so their
 errors named wrong lines

---
 parser.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 0e8f156..959b60e 100644
--- a/parser.go
+++ b/parser.go
@@ -90,8 +90,6 @@ func init() {
 	uintSliceRegexp = regexp.MustCompile(uintSliceRegexpString)
 }
 
-var globalLineNum int
-
 const globalErrorLimit int = 10
 
 var globalErrorCount int
@@ -283,8 +281,8 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 	var readError error
 	var stringReader *strings.Reader = strings.NewReader(s)
 	var inputReader *bufio.Reader = bufio.NewReader(stringReader)
-	globalLineNum = 1
-	for ; ; globalLineNum++ {
+	p.lineNum = 1
+	for ; ; p.lineNum++ {
 		line, readError = inputReader.ReadString('\n')
 		line = strings.TrimSpace(line)
 
@@ -657,7 +655,7 @@ func (p *parser) parseFile(inputFileName string) (*TableSet, error) {
 }
 
 func (p *parser) gotFilePos() string {
-	return fmt.Sprintf("%s:%d:", p.fileName, globalLineNum)
+	return fmt.Sprintf("%s:%d:", p.fileName, p.lineNum)
 }
 
 func file_line() string {
@@ -1302,6 +1300,7 @@ func rangeForIntegerType(min int64, max uint64) string {
 // parser definition: fields and methods.
 type parser struct {
 	fileName string // Needed for printing file and line diagnostics.
+	lineNum  int    // Not global: parsers may be running at the same time.
 }
 
 // Needed for printing file and line diagnostics.
-- 
2.43.0


From c785ec95acde23f64b0e0fd5f0cddfc0ed376cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 35/80] fix: the error for a duplicate column name in text did
 not say where it is

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 959b60e..5b826bd 100644
--- a/parser.go
+++ b/parser.go
@@ -486,7 +486,7 @@ func (p *parser) parseString(s string) (*TableSet, error) {
 			// Trust that gotables syntax error handling will ensure both are available here.
 			err = table.appendCols(parserColNames, parserColTypes)
 			if err != nil {
-				return nil, err
+				return nil, fmt.Errorf("%s %s", p.gotFilePos(), err)
 			}
 
 			expecting = _COL_ROWS
-- 
2.43.0


From 9f570a37847e9e65f5b51b7cf5d5003f7aebc178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 36/80] fix: table sets accepted names that could not be parsed
 back

---
 gotables.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index 1e72891..b5daac5 100644
--- a/gotables.go
+++ b/gotables.go
@@ -105,7 +105,10 @@ type TableSetExported struct {
 // Factory function to return an initialised *TableSet pointer.
 func NewTableSet(tableSetName string) (*TableSet, error) {
 	var newTables *TableSet = new(TableSet)
-	newTables.tableSetName = tableSetName
+	err := newTables.SetName(tableSetName)
+	if err != nil {
+		return nil, err
+	}
 	newTables.tables = []*Table{} // An empty slice of tables.
 	return newTables, nil
 }
@@ -379,6 +382,13 @@ func (tableSet *TableSet) SetName(tableSetName string) error {
 		return fmt.Errorf("%s tableSet.%s tableSet is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	// A table set may be unnamed. Otherwise its name must be one that the parser accepts.
+	if tableSetName != "" {
+		if isValid, _ := isValidName(tableSetName); !isValid {
+			return fmt.Errorf("invalid table set name: %s (valid example: _Foo1Bar2)", tableSetName)
+		}
+	}
+
 	tableSet.tableSetName = tableSetName
 
 	return nil
-- 
2.43.0


From 1862f6a7f878cd04f2f7d719d5b9cf8e07678453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 37/80] fix: JSON strings and runes were escaped as Go, giving
 invalid JSON

---
 json.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 376de3a..9285c0d 100644
--- a/json.go
+++ b/json.go
@@ -12,6 +12,7 @@ import (
 	_ "strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 type circRefMap map[*Table]struct{}
@@ -90,6 +91,23 @@ func (table *Table) getTableAsJSON_private() (jsonString string, err error) {
 	return
 }
 
+// Quote a string as JSON, which is not the same as quoting it as Go: \x07, \U0001F600 and others are not JSON.
+func quoteJSON(s string) (quoted string, err error) {
+	if !utf8.ValidString(s) {
+		return "", fmt.Errorf("%s: string is not valid UTF-8 and cannot be represented in JSON: %q", UtilFuncName(), s)
+	}
+
+	var buf bytes.Buffer
+	encoder := json.NewEncoder(&buf)
+	encoder.SetEscapeHTML(false)
+	err = encoder.Encode(s)
+	if err != nil {
+		return "", err
+	}
+
+	return strings.TrimSuffix(buf.String(), "\n"), nil // Encode() appends a newline.
+}
+
 func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap, topTable *Table) (err error) {
 	//where(fmt.Sprintf("***INSIDE*** %s", UtilFuncName()))
 
@@ -143,7 +161,12 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 			switch val.(type) {
 
 			case string:
-				buf.WriteString(fmt.Sprintf("%q", val.(string)))
+				var quoted string
+				quoted, err = quoteJSON(val.(string))
+				if err != nil {
+					return err
+				}
+				buf.WriteString(quoted)
 
 			case bool, int, uint, int8, int16, int64, uint8, uint16, uint32, uint64, float32, float64:
 				var valStr string
@@ -164,7 +187,16 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				case "int32":
 					buf.WriteString(valStr)
 				case "rune":
-					buf.WriteString(fmt.Sprintf("%q", valStr))
+					if !utf8.ValidRune(val.(rune)) {
+						return fmt.Errorf("%s: [%s].(%d,%d): rune %U cannot be represented in JSON",
+							UtilFuncName(), table.Name(), colIndex, rowIndex, val.(rune))
+					}
+					var quoted string
+					quoted, err = quoteJSON(valStr)
+					if err != nil {
+						return err
+					}
+					buf.WriteString(quoted)
 				default:
 					msg := invalidColTypeMsg(table.Name(), fmt.Sprintf("%s: %s", UtilFuncName(), table.colTypes[colIndex]))
 					buf.WriteString(msg)
-- 
2.43.0


From 74d1530618481ab31c7ed27e8fc677a846dcbe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 38/80] fix: JSON was written with NaN, infinite and unreadable
 time values

---
 json.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/json.go b/json.go
index 9285c0d..4c55459 100644
--- a/json.go
+++ b/json.go
@@ -174,6 +174,10 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 				if err != nil {
 					return err
 				}
+				if !json.Valid([]byte(valStr)) { // NaN and infinity are not JSON.
+					return fmt.Errorf("%s: [%s].(%d,%d): %s value %s cannot be represented in JSON",
+						UtilFuncName(), table.Name(), colIndex, rowIndex, table.colTypes[colIndex], valStr)
+				}
 				buf.WriteString(valStr)
 
 			// rune vs int32
@@ -244,6 +248,13 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 
 			case time.Time:
 				var timeVal time.Time = val.(time.Time)
+				// RFC 3339 has a 4 digit year and no seconds in its zone offset.
+				var checkVal time.Time
+				checkVal, err = time.Parse(time.RFC3339, timeVal.Format(time.RFC3339Nano))
+				if err != nil || !checkVal.Equal(timeVal) {
+					return fmt.Errorf("%s: [%s].(%d,%d): time %v cannot be represented in JSON",
+						UtilFuncName(), table.Name(), colIndex, rowIndex, timeVal)
+				}
 				if timeVal.Nanosecond() > 0 {
 					buf.WriteByte('"')
 					buf.WriteString(timeVal.Format(time.RFC3339Nano))
-- 
2.43.0


From 1bd47ebb6f4a8a123da89bb24e1659578eb879f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 39/80] fix: JSON integers lost precision or wrapped when read

---
 json.go | 125 ++++++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 99 insertions(+), 26 deletions(-)

diff --git a/json.go b/json.go
index 4c55459..da8563d 100644
--- a/json.go
+++ b/json.go
@@ -5,11 +5,11 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	_ "math"
+	"math"
 	_ "os"
 	"reflect"
 	"regexp"
-	_ "strconv"
+	"strconv"
 	"strings"
 	"time"
 	"unicode/utf8"
@@ -312,6 +312,37 @@ func checkJsonDecodeError(checkErr error) (err error) {
 	return nil
 }
 
+// Convert a JSON number to an integer of bitSize, exactly or not at all.
+func jsonNumberToInt(number json.Number, bitSize int) (val int64, err error) {
+	val, err = strconv.ParseInt(wholeNumber(number), 10, bitSize)
+	return
+}
+
+// Convert a JSON number to an unsigned integer of bitSize, exactly or not at all.
+func jsonNumberToUint(number json.Number, bitSize int) (val uint64, err error) {
+	val, err = strconv.ParseUint(wholeNumber(number), 10, bitSize)
+	return
+}
+
+// Convert a JSON number to a float of bitSize.
+func jsonNumberToFloat(number json.Number, bitSize int) (val float64, err error) {
+	val, err = strconv.ParseFloat(number.String(), bitSize)
+	return
+}
+
+// Some JSON writers write whole numbers with a fraction or exponent: 1.0 or 1e3
+func wholeNumber(number json.Number) string {
+	const maxExact = 1 << 53
+	var s string = number.String()
+	if strings.ContainsAny(s, ".eE") {
+		floatVal, err := number.Float64()
+		if err == nil && floatVal == math.Trunc(floatVal) && math.Abs(floatVal) <= maxExact {
+			return strconv.FormatInt(int64(floatVal), 10)
+		}
+	}
+	return s
+}
+
 func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, err error) {
 	//where(fmt.Sprintf("***INSIDE*** %s", UtilFuncName()))
 
@@ -437,47 +468,84 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 
 				// Deal with conversions to larger ints: int64 uint64
 				case json.Number: // We set to json.Number with: decoder.UseNumber()
-					var float64Val float64
-					float64Val, err = cell.(json.Number).Float64()
-					if err != nil {
-						err := fmt.Errorf("could not convert json.Number to float64")
-						return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
-					}
+					var number json.Number = cell.(json.Number)
+					var intVal int64
+					var uintVal uint64
+					var floatVal float64
 
 					switch colType { // We need to convert them back to gotables numeric types
 					case "int64":
-						err = table.SetInt64ByColIndex(colIndex, rowIndex, int64(float64Val))
+						intVal, err = jsonNumberToInt(number, 64)
+						if err == nil {
+							err = table.SetInt64ByColIndex(colIndex, rowIndex, intVal)
+						}
 					case "uint64":
-						err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(float64Val))
+						uintVal, err = jsonNumberToUint(number, 64)
+						if err == nil {
+							err = table.SetUint64ByColIndex(colIndex, rowIndex, uintVal)
+						}
 					case "float32":
-						err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
+						floatVal, err = jsonNumberToFloat(number, 32)
+						if err == nil {
+							err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(floatVal))
+						}
 					case "float64":
-						err = table.SetFloat64ByColIndex(colIndex, rowIndex, float64Val)
+						floatVal, err = jsonNumberToFloat(number, 64)
+						if err == nil {
+							err = table.SetFloat64ByColIndex(colIndex, rowIndex, floatVal)
+						}
 					case "int":
-						err = table.SetIntByColIndex(colIndex, rowIndex, int(float64Val))
+						intVal, err = jsonNumberToInt(number, strconv.IntSize)
+						if err == nil {
+							err = table.SetIntByColIndex(colIndex, rowIndex, int(intVal))
+						}
 					case "uint":
-						err = table.SetUintByColIndex(colIndex, rowIndex, uint(float64Val))
+						uintVal, err = jsonNumberToUint(number, strconv.IntSize)
+						if err == nil {
+							err = table.SetUintByColIndex(colIndex, rowIndex, uint(uintVal))
+						}
 					case "byte":
-						err = table.SetByteByColIndex(colIndex, rowIndex, byte(float64Val))
+						uintVal, err = jsonNumberToUint(number, 8)
+						if err == nil {
+							err = table.SetByteByColIndex(colIndex, rowIndex, byte(uintVal))
+						}
 					case "int8":
-						err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(float64Val))
+						intVal, err = jsonNumberToInt(number, 8)
+						if err == nil {
+							err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(intVal))
+						}
 					case "int16":
-						err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(float64Val))
+						intVal, err = jsonNumberToInt(number, 16)
+						if err == nil {
+							err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(intVal))
+						}
 					case "int32":
-						err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(float64Val))
+						intVal, err = jsonNumberToInt(number, 32)
+						if err == nil {
+							err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(intVal))
+						}
 					case "uint8":
-						err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(float64Val))
+						uintVal, err = jsonNumberToUint(number, 8)
+						if err == nil {
+							err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(uintVal))
+						}
 					case "uint16":
-						err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(float64Val))
+						uintVal, err = jsonNumberToUint(number, 16)
+						if err == nil {
+							err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(uintVal))
+						}
 					case "uint32":
-						err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(float64Val))
+						uintVal, err = jsonNumberToUint(number, 32)
+						if err == nil {
+							err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(uintVal))
+						}
 					default:
 						return nil, fmt.Errorf("%s %s: unexpected value of type: %s",
 							UtilFuncSource(), UtilFuncName(), colType)
 					}
 					// Single error handler for all the calls in this switch statement.
 					if err != nil {
-						err := fmt.Errorf("could not convert JSON float64 to gotables %s", colType)
+						err := fmt.Errorf("could not convert JSON number %s to gotables %s: %v", number, colType, err)
 						return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
 					}
 				case bool:
@@ -486,14 +554,19 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 				case []interface{}: // This cell is a slice (probably either byte or uint8)
 					var interfaceSlice []interface{} = cell.([]interface{})
 					var byteSlice []byte = []byte{} // Ready to append to.
-					var float64Val float64
 					for _, sliceVal := range interfaceSlice {
-						float64Val, err = sliceVal.(json.Number).Float64()
+						number, isNumber := sliceVal.(json.Number)
+						if !isNumber {
+							return nil, fmt.Errorf("%s %s: expecting number in JSON %s but found: %v",
+								UtilFuncSource(), UtilFuncName(), colType, sliceVal)
+						}
+						var uintVal uint64
+						uintVal, err = jsonNumberToUint(number, 8)
 						if err != nil {
-							err := fmt.Errorf("could not convert json.Number to float64")
+							err := fmt.Errorf("could not convert JSON number %s to element of gotables %s: %v", number, colType, err)
 							return nil, fmt.Errorf("%s %s: %v", UtilFuncSource(), UtilFuncName(), err)
 						}
-						byteSlice = append(byteSlice, byte(float64Val))
+						byteSlice = append(byteSlice, byte(uintVal))
 					}
 					err = table.SetByteSliceByColIndex(colIndex, rowIndex, byteSlice)
 					if err != nil {
-- 
2.43.0


From 5a788809b9d2f0eef6822156ec1e71e21bd85d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 40/80] fix: malformed JSON caused a panic or was silently
 ignored

---
 json.go | 51 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/json.go b/json.go
index da8563d..081307a 100644
--- a/json.go
+++ b/json.go
@@ -371,6 +371,9 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 	// If this optional isStructShape element is present, use it.
 	var isStructShape bool
 	isStructShape, exists = jsonMap["isStructShape"].(bool)
+	if !exists && jsonMap["isStructShape"] != nil {
+		return nil, fmt.Errorf("expecting JSON isStructShape to be true or false but found: %v", jsonMap["isStructShape"])
+	}
 	if exists {
 		err = table.SetStructShape(isStructShape)
 		if err != nil {
@@ -389,7 +392,11 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 		var colName string
 		var colType string
 		var val interface{}
-		for colName, val = range colNameAndType.(map[string]interface{}) {
+		colNameAndTypeMap, isMap := colNameAndType.(map[string]interface{})
+		if !isMap || len(colNameAndTypeMap) != 1 {
+			return nil, fmt.Errorf("expecting one col name and type in each element of JSON metadata but found: %v", colNameAndType)
+		}
+		for colName, val = range colNameAndTypeMap {
 			// There's only one map element here: colName and colType.
 		}
 		var ok bool
@@ -406,11 +413,14 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 
 	// (3) Retrieve and process data (if any).
 	var data []interface{}
-	data, exists = jsonMap["data"].([]interface{})
-	if !exists {
+	if jsonMap["data"] == nil {
 		// Zero rows in this table. That's okay.
 		return table, nil
 	}
+	data, exists = jsonMap["data"].([]interface{})
+	if !exists {
+		return nil, fmt.Errorf("expecting JSON data to be an array of rows but got type %T: %v", jsonMap["data"], jsonMap["data"])
+	}
 
 	// Loop through the array of rows.
 	for rowIndex, val := range data {
@@ -420,11 +430,29 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 			return nil, err
 		}
 
-		var row []interface{} = val.([]interface{})
+		row, isRow := val.([]interface{})
+		if !isRow {
+			return nil, fmt.Errorf("expecting JSON row [%d] of table [%s] to be an array of cells but found: %v",
+				rowIndex, tableName, val)
+		}
+		if len(row) != table.ColCount() {
+			return nil, fmt.Errorf("expecting %d cell%s in JSON row [%d] of table [%s] but found %d",
+				table.ColCount(), plural(table.ColCount()), rowIndex, tableName, len(row))
+		}
 		for colIndex, val := range row {
 			// where(fmt.Sprintf("\t\tcol [%d] %v", colIndex, val))
+			cellMap, isMap := val.(map[string]interface{})
+			if !isMap || len(cellMap) != 1 {
+				return nil, fmt.Errorf("expecting one col name and value in JSON at [%s].(%d,%d) but found: %v",
+					tableName, colIndex, rowIndex, val)
+			}
+			var cellName string
 			var cell interface{}
-			for _, cell = range val.(map[string]interface{}) {
+			for cellName, cell = range cellMap {
+				if cellName != table.colNames[colIndex] {
+					return nil, fmt.Errorf("expecting JSON value of col %s at [%s].(%d,%d) but found: %s",
+						table.colNames[colIndex], tableName, colIndex, rowIndex, cellName)
+				}
 				// There's only one map element here: colName and colType.
 				// where(fmt.Sprintf("\t\t\tcol=%d row=%d celltype=%T cell=%v", colIndex, rowIndex, cell, cell))
 
@@ -435,6 +463,10 @@ func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, e
 					case "rune":
 						var stringVal = cell.(string)
 						var runeSlice []rune = []rune(stringVal)
+						if len(runeSlice) != 1 {
+							return nil, fmt.Errorf("%s %s: expecting one rune in JSON string but found: %q",
+								UtilFuncSource(), UtilFuncName(), stringVal)
+						}
 						var runeVal rune = runeSlice[0]
 						err = table.SetRuneByColIndex(colIndex, rowIndex, runeVal)
 					case "time.Time":
@@ -704,6 +736,10 @@ func NewTableSetFromJSON(jsonTableSetString string) (tableSet *TableSet, err err
 	if err != nil {
 		return nil, err
 	}
+	_, err = decoder.Token()
+	if err != io.EOF {
+		return nil, fmt.Errorf("%s: unexpected text after end of JSON document", UtilFuncName())
+	}
 
 	// (1) Retrieve and process TableSet name.
 	var tableSetName string
@@ -731,7 +767,10 @@ func NewTableSetFromJSON(jsonTableSetString string) (tableSet *TableSet, err err
 	// (3) Loop through the array of tables.
 	for _, tableMapInterface = range tablesMap {
 
-		tableMap = tableMapInterface.(map[string]interface{})
+		tableMap, exists = tableMapInterface.(map[string]interface{})
+		if !exists {
+			return nil, fmt.Errorf("%s: expecting a JSON table but found: %v", UtilFuncName(), tableMapInterface)
+		}
 
 		var table *Table
 		table, err = newTableFromJSON_recursive(tableMap)
-- 
2.43.0


From f7a613acc595f46958424eb94336e799bf7e506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 41/80] fix: GetTableSetAsYAML returned empty YAML instead of
 an error

---
 yaml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaml.go b/yaml.go
index 09d961b..757a32a 100644
--- a/yaml.go
+++ b/yaml.go
@@ -377,13 +377,13 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	var yamlMap map[string]interface{}
 	yamlMap, err = tableSet.GetTableSetAsMap()
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	var yamlBytes []byte
 	yamlBytes, err = yaml.Marshal(yamlMap)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 
 	yamlString = string(yamlBytes)
-- 
2.43.0


From aa7a0a202797f80206b6ff6eeb9e3c0fb4be743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 42/80] fix: YAML values wrapped or were rejected, and
 malformed YAML caused a panic

---
 yaml.go | 340 ++++++++++++++++++++++++++++----------------------------
 1 file changed, 169 insertions(+), 171 deletions(-)

diff --git a/yaml.go b/yaml.go
index 757a32a..fcb4183 100644
--- a/yaml.go
+++ b/yaml.go
@@ -3,9 +3,11 @@ package gotables
 import (
 	_ "encoding/json"
 	"fmt"
+	"io"
+	"math"
 	_ "os"
-	_ "strings"
-	"time"
+	"strconv"
+	"strings"
 
 	yaml "gopkg.in/yaml.v3"
 )
@@ -34,10 +36,16 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 	}
 
 	var tableSetMap map[string]interface{}
-	err = yaml.Unmarshal([]byte(yamlTableSetString), &tableSetMap)
+	var decoder *yaml.Decoder = yaml.NewDecoder(strings.NewReader(yamlTableSetString))
+	err = decoder.Decode(&tableSetMap)
 	if err != nil {
 		return
 	}
+	var extra yaml.Node
+	err = decoder.Decode(&extra)
+	if err != io.EOF {
+		return nil, fmt.Errorf("%s %s: expecting one YAML doc but found more", UtilFuncSource(), UtilFuncName())
+	}
 
 	// (1) Retrieve and process TableSet name.
 	var tableSetName string
@@ -56,28 +64,35 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 	var tablesMap []interface{}
 	var anyVal interface{}
 	anyVal, exists = tableSetMap["tables"]
-	tablesMap = anyVal.([]interface{})
-
 	if !exists {
 		return nil, fmt.Errorf("%s %s: in YAML doc: 'tables' is missing", UtilFuncSource(), UtilFuncName())
 	}
+	tablesMap, exists = anyVal.([]interface{})
+	if !exists {
+		return nil, fmt.Errorf("%s %s: in YAML doc: expecting 'tables' to be a sequence but found: %v",
+			UtilFuncSource(), UtilFuncName(), anyVal)
+	}
 
 	var tableMap map[string]interface{}
 
 	// (3) Loop through the array of tables.
 	for _, anyVal = range tablesMap {
 
-		tableMap = anyVal.(map[string]interface{})
+		tableMap, exists = anyVal.(map[string]interface{})
+		if !exists {
+			return nil, fmt.Errorf("%s %s: in YAML doc: expecting a table but found: %v",
+				UtilFuncSource(), UtilFuncName(), anyVal)
+		}
 
 		var table *Table
 		table, err = newTableFromYAML_recursive(tableMap)
 		if err != nil {
-			return
+			return nil, err
 		}
 
 		err = tableSet.Append(table)
 		if err != nil {
-			return
+			return nil, err
 		}
 	}
 
@@ -117,6 +132,10 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 	// If this optional isStructShape element is present, use it.
 	var isStructShape bool
 	isStructShape, exists = tableMap["isStructShape"].(bool)
+	if !exists && tableMap["isStructShape"] != nil {
+		return nil, fmt.Errorf("%s %s: in YAML doc: expecting 'isStructShape' to be true or false but found: %v",
+			UtilFuncSource(), UtilFuncName(), tableMap["isStructShape"])
+	}
 	if exists {
 		err = table.SetStructShape(isStructShape)
 		if err != nil {
@@ -136,7 +155,12 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 		var colName string
 		var colType string
 		var typeVal interface{}
-		for colName, typeVal = range colNameAndType.(map[string]interface{}) {
+		colNameAndTypeMap, isMap := colNameAndType.(map[string]interface{})
+		if !isMap || len(colNameAndTypeMap) != 1 {
+			return nil, fmt.Errorf("%s %s: in YAML doc: expecting one col name and type in each element of 'metadata' but found: %v",
+				UtilFuncSource(), UtilFuncName(), colNameAndType)
+		}
+		for colName, typeVal = range colNameAndTypeMap {
 			// There's only one map element here: colName and colType.
 		}
 		colType, ok := typeVal.(string)
@@ -173,11 +197,20 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 		dataMapSlice = whatever.([]interface{})
 		data = make([][]interface{}, len(dataMapSlice))
 		for i, el1 := range dataMapSlice {
-			for _, el2 := range el1.([]interface{}) {
+			row, isRow := el1.([]interface{})
+			if !isRow {
+				return nil, fmt.Errorf("%s %s: in YAML doc: expecting row [%d] of table [%s] to be a sequence of cells but found: %v",
+					UtilFuncSource(), UtilFuncName(), i, tableName, el1)
+			}
+			for _, el2 := range row {
 				data[i] = append(data[i], el2)
 			}
 		}
+	case nil:
+		// Zero rows in this table. That's okay.
 	default:
+		return nil, fmt.Errorf("%s %s: in YAML doc: expecting 'data' to be a sequence of rows but found: %v",
+			UtilFuncSource(), UtilFuncName(), whatever)
 	}
 
 	whatever, exists = existsInMap(tableMap, "data")
@@ -196,168 +229,12 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 			return
 		}
 		row = data[rowIndex]
+		if len(row) != table.ColCount() {
+			return nil, fmt.Errorf("%s %s: in YAML doc: expecting %d cell%s in row [%d] of table [%s] but found %d",
+				UtilFuncSource(), UtilFuncName(), table.ColCount(), plural(table.ColCount()), rowIndex, tableName, len(row))
+		}
 		for colIndex := 0; colIndex < len(row); colIndex++ {
-			switch row[colIndex].(type) {
-			case uint:
-				err = table.SetUintByColIndex(colIndex, rowIndex, row[colIndex].(uint))
-			case int:
-				var intVal = row[colIndex].(int)
-				switch table.colTypes[colIndex] {
-				case "int":
-					err = table.SetIntByColIndex(colIndex, rowIndex, row[colIndex].(int))
-				case "uint":
-					var intVal int = row[colIndex].(int)
-					var uintVal uint = uint(intVal)
-					err = table.SetUintByColIndex(colIndex, rowIndex, uintVal)
-				case "int8":
-					err = table.SetInt8ByColIndex(colIndex, rowIndex, int8(intVal))
-				case "int16":
-					err = table.SetInt16ByColIndex(colIndex, rowIndex, int16(intVal))
-				case "int32":
-					err = table.SetInt32ByColIndex(colIndex, rowIndex, int32(intVal))
-				case "int64":
-					err = table.SetInt64ByColIndex(colIndex, rowIndex, int64(intVal))
-				case "uint8":
-					err = table.SetUint8ByColIndex(colIndex, rowIndex, uint8(intVal))
-				case "byte":
-					err = table.SetByteByColIndex(colIndex, rowIndex, uint8(intVal))
-				case "uint16":
-					err = table.SetUint16ByColIndex(colIndex, rowIndex, uint16(intVal))
-				case "uint32":
-					err = table.SetUint32ByColIndex(colIndex, rowIndex, uint32(intVal))
-				case "uint64":
-					err = table.SetUint64ByColIndex(colIndex, rowIndex, uint64(intVal))
-				case "float32":
-					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(intVal))
-				case "time.Time":
-					err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
-				case "rune":
-					err = table.SetRuneByColIndex(colIndex, rowIndex, rune(intVal))
-				default:
-					msg := invalidColTypeMsg(table.Name(), table.colTypes[colIndex])
-					err = fmt.Errorf("%s %s: %s", UtilFuncSource(), UtilFuncName(), msg)
-					table = nil
-					return
-				}
-				// Error handler for all cases.
-				if err != nil {
-					table = nil
-					return
-				}
-			case float32:
-				var float32Val float32 = row[colIndex].(float32)
-				err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32Val)
-			case float64:
-				switch table.colTypes[colIndex] {
-				case "float32":
-					var float64Val float64 = row[colIndex].(float64)
-					err = table.SetFloat32ByColIndex(colIndex, rowIndex, float32(float64Val))
-				case "float64":
-					err = table.SetFloat64ByColIndex(colIndex, rowIndex, row[colIndex].(float64))
-				default:
-					msg := invalidColTypeMsg(table.Name(), table.colTypes[colIndex])
-					err = fmt.Errorf("%s %s: %s", UtilFuncSource(), UtilFuncName(), msg)
-					table = nil
-					return
-				}
-			case byte:
-				var byteVal byte = row[colIndex].(byte)
-				err = table.SetByteByColIndex(colIndex, rowIndex, byteVal)
-			case rune:
-				var runeVal rune = row[colIndex].(rune)
-				err = table.SetRuneByColIndex(colIndex, rowIndex, runeVal)
-			case string:
-				var stringVal string = row[colIndex].(string)
-				err = table.SetStringByColIndex(colIndex, rowIndex, stringVal)
-			case bool:
-				err = table.SetBoolByColIndex(colIndex, rowIndex, row[colIndex].(bool))
-			case time.Time:
-				err = table.SetTimeByColIndex(colIndex, rowIndex, row[colIndex].(time.Time))
-			case interface{}:
-				switch table.colTypes[colIndex] {
-				case "byte":
-					err = table.SetByteByColIndex(colIndex, rowIndex, row[colIndex].(byte))
-
-				case "uint":
-					var uint64Val uint64 = row[colIndex].(uint64)
-					err = table.SetUintByColIndex(colIndex, rowIndex, uint(uint64Val))
-
-				case "uint16":
-					err = table.SetUint16ByColIndex(colIndex, rowIndex, row[colIndex].(uint16))
-
-				case "uint32":
-					err = table.SetUint32ByColIndex(colIndex, rowIndex, row[colIndex].(uint32))
-
-				case "uint64":
-					err = table.SetUint64ByColIndex(colIndex, rowIndex, row[colIndex].(uint64))
-
-				case "int8":
-					err = table.SetInt8ByColIndex(colIndex, rowIndex, row[colIndex].(int8))
-
-				case "int16":
-					err = table.SetInt16ByColIndex(colIndex, rowIndex, row[colIndex].(int16))
-
-				case "int64":
-					err = table.SetInt64ByColIndex(colIndex, rowIndex, row[colIndex].(int64))
-
-				case "*Table":
-					var tableOut *Table
-					tableOut, err = newTableFromYAML_recursive(row[colIndex].(map[string]interface{}))
-					if err != nil {
-						return
-					}
-					err = table.SetTableByColIndex(colIndex, rowIndex, tableOut)
-
-				case "[]byte", "[]uint8":
-					var sliceVal []interface{}
-					var byteSliceVal []byte
-
-					switch row[colIndex].(type) {
-					case []byte:
-						byteSliceVal = row[colIndex].([]byte)
-					case []interface{}:
-						sliceVal = row[colIndex].([]interface{})
-						byteSliceVal = make([]byte, len(sliceVal))
-						for i := 0; i < len(sliceVal); i++ {
-							var intVal int = sliceVal[i].(int)
-							byteSliceVal[i] = byte(intVal)
-						}
-					case interface{}:
-					default:
-					}
-					switch table.colTypes[colIndex] {
-					case "[]byte":
-						err = table.SetByteSliceByColIndex(colIndex, rowIndex, byteSliceVal)
-					case "[]uint8":
-						err = table.SetUint8SliceByColIndex(colIndex, rowIndex, byteSliceVal)
-					default:
-						msg := invalidColTypeMsg(table.Name(), table.colTypes[colIndex])
-						err = fmt.Errorf("#1 %s %s: %s", UtilFuncSource(), UtilFuncName(), msg)
-						table = nil
-						return
-					}
-
-				default:
-					msg := invalidColTypeMsg(table.Name(), table.colTypes[colIndex])
-					err = fmt.Errorf("#2 %s %s: %s", UtilFuncSource(), UtilFuncName(), msg)
-					table = nil
-					return
-				}
-				// #1 Error handler for all cases.
-				if err != nil {
-					table = nil
-					return
-				}
-			case []interface{}:
-			case []byte:
-			case *Table:
-			default:
-				msg := invalidColTypeMsg(table.Name(), table.colTypes[colIndex])
-				err = fmt.Errorf("#3 %s %s: %s", UtilFuncSource(), UtilFuncName(), msg)
-				table = nil
-				return
-			}
-			// #3 Error handler for all cases.
+			err = setCellFromYAML(table, colIndex, rowIndex, row[colIndex])
 			if err != nil {
 				table = nil
 				return
@@ -368,6 +245,127 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 	return
 }
 
+// Set a cell from a YAML value, exactly or not at all.
+func setCellFromYAML(table *Table, colIndex int, rowIndex int, yamlVal interface{}) (err error) {
+
+	var colType string = table.colTypes[colIndex]
+
+	var unexpected = func() error {
+		return fmt.Errorf("%s %s: in YAML doc: unexpected value for type %s at [%s].(%d,%d): %v",
+			UtilFuncSource(), UtilFuncName(), colType, table.Name(), colIndex, rowIndex, yamlVal)
+	}
+
+	var val interface{}
+
+	switch colType {
+	case "int", "int8", "int16", "int32", "int64", "rune",
+		"uint", "uint8", "uint16", "uint32", "uint64", "byte":
+		var digits string
+		switch yamlVal.(type) {
+		case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
+			digits = fmt.Sprintf("%d", yamlVal)
+		default:
+			return unexpected()
+		}
+		var intVal int64
+		var uintVal uint64
+		switch colType {
+		case "int":
+			intVal, err = strconv.ParseInt(digits, 10, strconv.IntSize)
+			val = int(intVal)
+		case "int8":
+			intVal, err = strconv.ParseInt(digits, 10, 8)
+			val = int8(intVal)
+		case "int16":
+			intVal, err = strconv.ParseInt(digits, 10, 16)
+			val = int16(intVal)
+		case "int32", "rune":
+			intVal, err = strconv.ParseInt(digits, 10, 32)
+			val = int32(intVal)
+		case "int64":
+			val, err = strconv.ParseInt(digits, 10, 64)
+		case "uint":
+			uintVal, err = strconv.ParseUint(digits, 10, strconv.IntSize)
+			val = uint(uintVal)
+		case "uint8", "byte":
+			uintVal, err = strconv.ParseUint(digits, 10, 8)
+			val = uint8(uintVal)
+		case "uint16":
+			uintVal, err = strconv.ParseUint(digits, 10, 16)
+			val = uint16(uintVal)
+		case "uint32":
+			uintVal, err = strconv.ParseUint(digits, 10, 32)
+			val = uint32(uintVal)
+		case "uint64":
+			val, err = strconv.ParseUint(digits, 10, 64)
+		}
+		if err != nil {
+			return unexpected()
+		}
+
+	case "float32", "float64":
+		var floatVal float64
+		switch yamlVal.(type) {
+		case float64:
+			floatVal = yamlVal.(float64)
+		case float32:
+			floatVal = float64(yamlVal.(float32))
+		case int: // YAML doesn't distinguish 1.0 from 1
+			floatVal = float64(yamlVal.(int))
+		case int64:
+			floatVal = float64(yamlVal.(int64))
+		case uint64:
+			floatVal = float64(yamlVal.(uint64))
+		default:
+			return unexpected()
+		}
+		if colType == "float32" {
+			if math.IsInf(float64(float32(floatVal)), 0) && !math.IsInf(floatVal, 0) {
+				return unexpected()
+			}
+			val = float32(floatVal)
+		} else {
+			val = floatVal
+		}
+
+	case "[]byte", "[]uint8":
+		switch yamlVal.(type) {
+		case []byte:
+			val = yamlVal
+		case []interface{}:
+			var sliceVal []interface{} = yamlVal.([]interface{})
+			var byteSliceVal []byte = make([]byte, len(sliceVal))
+			for i := 0; i < len(sliceVal); i++ {
+				intVal, isInt := sliceVal[i].(int)
+				if !isInt || intVal < 0 || intVal > math.MaxUint8 {
+					return unexpected()
+				}
+				byteSliceVal[i] = byte(intVal)
+			}
+			val = byteSliceVal
+		default:
+			return unexpected()
+		}
+
+	case "*Table":
+		tableMap, isMap := yamlVal.(map[string]interface{})
+		if !isMap {
+			return unexpected()
+		}
+		var tableOut *Table
+		tableOut, err = newTableFromYAML_recursive(tableMap)
+		if err != nil {
+			return err
+		}
+		return table.SetTableByColIndex(colIndex, rowIndex, tableOut)
+
+	default: // string bool time.Time
+		val = yamlVal
+	}
+
+	return table.SetValByColIndex(colIndex, rowIndex, val)
+}
+
 func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 
 	if tableSet == nil {
-- 
2.43.0


From a6ba8805f85dde19a999c199e871d0037bac42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 43/80] fix: YAML of a circular table never ended, and of some
 times could not be read

---
 json.go | 11 +++++++----
 yaml.go | 23 +++++++++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/json.go b/json.go
index 081307a..40510f2 100644
--- a/json.go
+++ b/json.go
@@ -108,6 +108,12 @@ func quoteJSON(s string) (quoted string, err error) {
 	return strings.TrimSuffix(buf.String(), "\n"), nil // Encode() appends a newline.
 }
 
+// RFC 3339 has a 4 digit year and no seconds in its zone offset.
+func isRFC3339(timeVal time.Time) bool {
+	checkVal, err := time.Parse(time.RFC3339, timeVal.Format(time.RFC3339Nano))
+	return err == nil && checkVal.Equal(timeVal)
+}
+
 func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap, topTable *Table) (err error) {
 	//where(fmt.Sprintf("***INSIDE*** %s", UtilFuncName()))
 
@@ -248,10 +254,7 @@ func getTableAsJSON_recursive(table *Table, buf *bytes.Buffer, refMap circRefMap
 
 			case time.Time:
 				var timeVal time.Time = val.(time.Time)
-				// RFC 3339 has a 4 digit year and no seconds in its zone offset.
-				var checkVal time.Time
-				checkVal, err = time.Parse(time.RFC3339, timeVal.Format(time.RFC3339Nano))
-				if err != nil || !checkVal.Equal(timeVal) {
+				if !isRFC3339(timeVal) {
 					return fmt.Errorf("%s: [%s].(%d,%d): time %v cannot be represented in JSON",
 						UtilFuncName(), table.Name(), colIndex, rowIndex, timeVal)
 				}
diff --git a/yaml.go b/yaml.go
index fcb4183..72c8d8b 100644
--- a/yaml.go
+++ b/yaml.go
@@ -8,6 +8,7 @@ import (
 	_ "os"
 	"strconv"
 	"strings"
+	"time"
 
 	yaml "gopkg.in/yaml.v3"
 )
@@ -408,7 +409,7 @@ func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, er
 		}
 
 		var yamlTable map[string]interface{}
-		yamlTable, err = table.getTableAsMap()
+		yamlTable, err = table.getTableAsMap(circRefMap{})
 		if err != nil {
 			return
 		}
@@ -422,7 +423,15 @@ func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, er
 	return
 }
 
-func (table *Table) getTableAsMap() (yamlTable map[string]interface{}, err error) {
+func (table *Table) getTableAsMap(refMap circRefMap) (yamlTable map[string]interface{}, err error) {
+
+	// A table nested within itself has no end.
+	_, exists := refMap[table]
+	if exists {
+		return nil, fmt.Errorf("%s: circular reference: table [%s] is nested within itself", UtilFuncName(), table.Name())
+	}
+	refMap[table] = EmptyStruct
+	defer delete(refMap, table)
 
 	var yamlObject map[string]interface{} // Cell name and value pair.
 	var yamlTableData [][]interface{}
@@ -515,7 +524,13 @@ func (table *Table) getTableAsMap() (yamlTable map[string]interface{}, err error
 			byteSlice, err = cell.Table.GetByteSliceByColIndex(cell.ColIndex, cell.RowIndex)
 			anyVal = byteSlice
 		case "time.Time":
-			anyVal, err = cell.Table.GetTimeByColIndex(cell.ColIndex, cell.RowIndex)
+			var timeVal time.Time
+			timeVal, err = cell.Table.GetTimeByColIndex(cell.ColIndex, cell.RowIndex)
+			if err == nil && !isRFC3339(timeVal) {
+				err = fmt.Errorf("visitCell() YAML: [%s].(%d,%d): time %v cannot be represented in YAML",
+					cell.Table.Name(), cell.ColIndex, cell.RowIndex, timeVal)
+			}
+			anyVal = timeVal
 		case "*Table":
 			var nestedTable *Table
 			nestedTable, err = cell.Table.GetTableByColIndex(cell.ColIndex, cell.RowIndex)
@@ -523,7 +538,7 @@ func (table *Table) getTableAsMap() (yamlTable map[string]interface{}, err error
 				return err
 			}
 
-			anyVal, err = nestedTable.getTableAsMap()
+			anyVal, err = nestedTable.getTableAsMap(refMap)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 2bb87165586287b22500f3e6a3afc2cb00b2890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 44/80] fix: Gob encoding panicked on sort keys and decoding
 lost them

---
 gob.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gob.go b/gob.go
index 978b96b..e1e6426 100644
--- a/gob.go
+++ b/gob.go
@@ -70,7 +70,7 @@ func (table *Table) exportTable() (*TableExported, error) {
 
 	tableExported.SortKeys = []SortKeyExported{}
 	for keyIndex, _ := range table.sortKeys {
-		tableExported.SortKeys[keyIndex] = SortKeyExported{}
+		tableExported.SortKeys = append(tableExported.SortKeys, SortKeyExported{})
 		tableExported.SortKeys[keyIndex].ColName = table.sortKeys[keyIndex].colName
 		tableExported.SortKeys[keyIndex].ColType = table.sortKeys[keyIndex].colType
 		tableExported.SortKeys[keyIndex].Reverse = table.sortKeys[keyIndex].reverse
@@ -132,12 +132,13 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 	}
 
 	table.sortKeys = []sortKey{}
-	for keyIndex, _ := range table.sortKeys {
-		table.sortKeys[keyIndex] = sortKey{}
-		table.sortKeys[keyIndex].colName = tableExported.SortKeys[keyIndex].ColName
-		table.sortKeys[keyIndex].colType = tableExported.SortKeys[keyIndex].ColType
+	for keyIndex, _ := range tableExported.SortKeys {
+		// Gob doesn't encode functions. AppendSortKey() sets sortFunc.
+		err = table.AppendSortKey(tableExported.SortKeys[keyIndex].ColName)
+		if err != nil {
+			return nil, err
+		}
 		table.sortKeys[keyIndex].reverse = tableExported.SortKeys[keyIndex].Reverse
-		table.sortKeys[keyIndex].sortFunc = tableExported.SortKeys[keyIndex].SortFunc
 	}
 
 	table.isStructShape = tableExported.StructShape
-- 
2.43.0


From 103ef8ecf231f7bfd9f95f9697e7a0f27c9f3237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 45/80] fix: malformed Gob caused a panic or gave an
 inconsistent table

---
 gob.go | 57 ++++++++++++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/gob.go b/gob.go
index e1e6426..baf2844 100644
--- a/gob.go
+++ b/gob.go
@@ -100,35 +100,30 @@ func (tableExported *TableExported) importTable() (*Table, error) {
 
 	var colCount int = len(tableExported.ColNames)
 
-	table.colNames = make([]string, colCount)
-	elementCount = copy(table.colNames, tableExported.ColNames)
-	if elementCount != colCount {
-		err = fmt.Errorf("importTable() [%s] expecting to import %d col names but imported: %d",
-			tableName, colCount, elementCount)
-		return nil, err
-	}
-
-	table.colTypes = make([]string, colCount)
-	elementCount = copy(table.colTypes, tableExported.ColTypes)
-	if elementCount != colCount {
-		err = fmt.Errorf("importTable() [%s] expecting to import %d col types but imported: %d",
-			tableName, colCount, elementCount)
+	err = table.appendCols(tableExported.ColNames, tableExported.ColTypes)
+	if err != nil {
 		return nil, err
 	}
 
-	table.colNamesMap = map[string]int{}
-	for key, val := range tableExported.ColNamesMap {
-		table.colNamesMap[key] = val
-	}
-
 	var rowCount int = len(tableExported.Rows)
 
-	table.rows = make([]tableRow, rowCount)
-	elementCount = copy(table.rows, tableExported.Rows)
-	if elementCount != rowCount {
-		err = fmt.Errorf("importTable() [%s] expecting to import %d rows but imported: %d",
-			table.Name(), rowCount, elementCount)
-		return nil, err
+	for rowIndex := 0; rowIndex < rowCount; rowIndex++ {
+		elementCount = len(tableExported.Rows[rowIndex])
+		if elementCount != colCount {
+			err = fmt.Errorf("importTable() [%s] expecting to import %d cells in row %d but found: %d",
+				table.Name(), colCount, rowIndex, elementCount)
+			return nil, err
+		}
+		err = table.AppendRow()
+		if err != nil {
+			return nil, err
+		}
+		for colIndex := 0; colIndex < colCount; colIndex++ {
+			err = table.SetValByColIndex(colIndex, rowIndex, tableExported.Rows[rowIndex][colIndex])
+			if err != nil {
+				return nil, err
+			}
+		}
 	}
 
 	table.sortKeys = []sortKey{}
@@ -192,6 +187,10 @@ func (tableSet *TableSet) GobEncode() ([]bytes.Buffer, error) {
 	var encodedTableSet []bytes.Buffer
 	var err error
 
+	if tableSet == nil {
+		return emptyBuffer, fmt.Errorf("tableSet.%s tableSet is <nil>", UtilFuncName())
+	}
+
 	for tableIndex := 0; tableIndex < len(tableSet.tables); tableIndex++ {
 		var table *Table = tableSet.tables[tableIndex]
 		var encodedTable *bytes.Buffer
@@ -254,6 +253,9 @@ func NewTableSetFromGob(buffer []bytes.Buffer) (*TableSet, error) {
 func GobDecodeTableSet(buffer []bytes.Buffer) (*TableSet, error) {
 	var tableSet *TableSet
 	var err error
+	if len(buffer) == 0 {
+		return nil, fmt.Errorf("%s: buffer is empty: expecting at least a table set header", UtilFuncName())
+	}
 	tableSet, err = NewTableSet("")
 	if err != nil {
 		return nil, err
@@ -281,7 +283,12 @@ func GobDecodeTableSet(buffer []bytes.Buffer) (*TableSet, error) {
 	if err != nil {
 		return nil, err
 	}
-	tableSet.tableSetName = tableSetHeader.TableSetName
+	if tableSetHeader.TableSetName != "" {
+		err = tableSet.SetName(tableSetHeader.TableSetName)
+		if err != nil {
+			return nil, err
+		}
+	}
 	tableSet.fileName = tableSetHeader.FileName
 
 	return tableSet, nil
-- 
2.43.0


From 45a89eff21ebca14ab6b2dd52babfe3fa97adcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 46/80] fix: some strings of more than one line could not be
 read back from YAML

---
 yaml.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/yaml.go b/yaml.go
index 72c8d8b..c6070db 100644
--- a/yaml.go
+++ b/yaml.go
@@ -9,6 +9,8 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode"
+	"unicode/utf8"
 
 	yaml "gopkg.in/yaml.v3"
 )
@@ -379,6 +381,10 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 		return "", err
 	}
 
+	for _, yamlTable := range yamlMap["tables"].([]map[string]interface{}) {
+		quoteYAMLStrings(yamlTable)
+	}
+
 	var yamlBytes []byte
 	yamlBytes, err = yaml.Marshal(yamlMap)
 	if err != nil {
@@ -390,6 +396,29 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	return
 }
 
+/*
+	Quote strings of more than one line that begin with white space.
+
+	yaml.Marshal() writes strings of more than one line as literal blocks, and
+	doesn't read back the same string from a block that begins with white space.
+*/
+func quoteYAMLStrings(yamlTable map[string]interface{}) {
+	for _, row := range yamlTable["data"].([][]interface{}) {
+		for colIndex, cell := range row {
+			switch cell.(type) {
+			case string:
+				var stringVal string = cell.(string)
+				firstRune, _ := utf8.DecodeRuneInString(stringVal)
+				if unicode.IsSpace(firstRune) && strings.Contains(stringVal, "\n") && utf8.ValidString(stringVal) {
+					row[colIndex] = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Style: yaml.DoubleQuotedStyle, Value: stringVal}
+				}
+			case map[string]interface{}:
+				quoteYAMLStrings(cell.(map[string]interface{}))
+			}
+		}
+	}
+}
+
 func (tableSet *TableSet) GetTableSetAsMap() (yamlMap map[string]interface{}, err error) {
 
 	if tableSet == nil {
-- 
2.43.0


From 752f6116c9350533363db63f07750fecc399bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 47/80] fix: YAML of a table with data but no name was read as
 a nil table

---
 yaml.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/yaml.go b/yaml.go
index c6070db..be7614a 100644
--- a/yaml.go
+++ b/yaml.go
@@ -93,6 +93,10 @@ func NewTableSetFromYAML(yamlTableSetString string) (tableSet *TableSet, err err
 			return nil, err
 		}
 
+		if table.isNilTable {
+			return nil, fmt.Errorf("%s %s: in YAML doc: table has empty 'tableName'", UtilFuncSource(), UtilFuncName())
+		}
+
 		err = tableSet.Append(table)
 		if err != nil {
 			return nil, err
@@ -128,6 +132,14 @@ func newTableFromYAML_recursive(tableMap map[string]interface{}) (table *Table,
 			return
 		}
 	} else {
+		// A nil table has no name, cols or rows.
+		for _, key := range []string{"metadata", "data"} {
+			elements, _ := tableMap[key].([]interface{})
+			if len(elements) > 0 {
+				err = fmt.Errorf("%s %s: in YAML doc: table with '%s' has empty 'tableName'", UtilFuncSource(), UtilFuncName(), key)
+				return
+			}
+		}
 		table = NewNilTable()
 		return
 	}
-- 
2.43.0


From 0e2a8f29685eee456dd4fb84d577170eb024ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 48/80] fix: Merge of tables with no matching keys failed

---
 merge.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/merge.go b/merge.go
index 2131936..bf8e1c2 100644
--- a/merge.go
+++ b/merge.go
@@ -242,6 +242,8 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 
 	// where(fmt.Sprintf("BEFORE Merge()\n%s\n", merged))
 
+	var duplicates int // Rows to be deleted. There are none if no keys match.
+
 	// Loop through to the second-last row, comparing each row with the row after it.
 	for rowIndex := 0; rowIndex < merged.RowCount()-1; rowIndex++ {
 
@@ -435,6 +437,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 			if err != nil {
 				return nil, err
 			}
+			duplicates++
 		}
 	}
 
@@ -448,16 +451,19 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return nil, err
 	}
 
-	// Find the block of rows to delete.
-	first, last, err := merged.SearchRange(true)
-	if err != nil {
-		return nil, err
-	}
+	if duplicates > 0 {
+		// Find the block of rows to delete.
+		var first, last int
+		first, last, err = merged.SearchRange(true)
+		if err != nil {
+			return nil, err
+		}
 
-	// Delete the block of rows.
-	err = merged.DeleteRows(first, last)
-	if err != nil {
-		return nil, err
+		// Delete the block of rows.
+		err = merged.DeleteRows(first, last)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Delete the temporary tag columns.
-- 
2.43.0


From 25c637f79d215b54b6d3dfa7b2b28e2be42713e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 49/80] fix: Merge failed on byte, rune, []byte, time.Time and
 *Table columns

---
 merge.go | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index bf8e1c2..627ea46 100644
--- a/merge.go
+++ b/merge.go
@@ -26,6 +26,7 @@ import (
 	"fmt"
 	"math"
 	"reflect"
+	"time"
 )
 
 /*
@@ -315,7 +316,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "int8", "int16", "int32", "int64", "int":
+				case "int8", "int16", "int32", "int64", "int", "rune":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 int64
@@ -343,7 +344,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
-				case "uint8", "uint16", "uint32", "uint64", "uint":
+				case "uint8", "uint16", "uint32", "uint64", "uint", "byte":
 					var tmp1 interface{}
 					var tmp2 interface{}
 					var val1 uint64
@@ -413,6 +414,29 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						}
 					}
 					// Otherwise both vals must be zero. Do nothing.
+				case "[]byte", "[]uint8", "time.Time", "*Table":
+					var val1 interface{}
+					var val2 interface{}
+					val1, err = merged.GetValByColIndex(colIndex, rowIndex1)
+					if err != nil {
+						return nil, err
+					}
+					val2, err = merged.GetValByColIndex(colIndex, rowIndex2)
+					if err != nil {
+						return nil, err
+					}
+					if !isMissingVal(val1) { // Covers combinations (c) and (d)
+						err = merged.SetValByColIndex(colIndex, rowIndex2, val1) // Use val1
+						if err != nil {
+							return nil, err
+						}
+					} else if !isMissingVal(val2) { // Covers combination (b)
+						err = merged.SetValByColIndex(colIndex, rowIndex1, val2) // Use val2
+						if err != nil {
+							return nil, err
+						}
+					}
+					// Otherwise both vals must be zero. Do nothing.
 				default:
 					// Should never reach here.
 					var isValid bool
@@ -514,3 +538,17 @@ func (srcTable *Table) copyTableCells(beginRow int, targTable *Table) error {
 
 	return nil
 }
+
+// Is this cell value the zero value of its type? For types which are not comparable with a constant.
+func isMissingVal(val interface{}) bool {
+	switch val := val.(type) {
+	case []byte:
+		return len(val) == 0
+	case time.Time:
+		return val.IsZero()
+	case *Table:
+		return val == nil || val.isNilTable
+	default:
+		return val == nil
+	}
+}
-- 
2.43.0


From bb10520f4a6aa55f11f87209e108b8686278a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 50/80] fix: Merge with an empty table returned the other table
 itself, not merged

---
 merge.go | 38 +++++---------------------------------
 1 file changed, 5 insertions(+), 33 deletions(-)

diff --git a/merge.go b/merge.go
index 627ea46..45868f5 100644
--- a/merge.go
+++ b/merge.go
@@ -80,23 +80,6 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return nil
 	}
 
-	// Local function.
-	sortMerged := func(localMerged *Table) (*Table, error) {
-		if localMerged.SortKeyCount() == 0 {
-			err = setSortKeysBetweenTables()
-			if err != nil {
-				return nil, err
-			}
-		}
-
-		err = localMerged.Sort()
-		if err != nil {
-			return nil, err
-		}
-
-		return localMerged, nil
-	}
-
 	if table1 == nil {
 		err = fmt.Errorf("func (table1 *Table) %s(table2 *Table): table1 is <nil>", UtilFuncName())
 		return merged, err
@@ -107,22 +90,11 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		return merged, err
 	}
 
-	// TODO: this value of merged is never used (SA4006)
-	if table1.RowCount() == 0 {
-		merged, err = sortMerged(table2)
-		if err != nil {
-			return nil, err
-		}
-		return table2, nil
-	}
-
-	// TODO: this value of merged is never used (SA4006)
-	if table2.RowCount() == 0 {
-		merged, err = sortMerged(table1)
-		if err != nil {
-			return nil, err
-		}
-		return table1, nil
+	// A table with no columns has nothing to merge into the other table.
+	if table1.ColCount() == 0 {
+		table1 = table2
+	} else if table2.ColCount() == 0 {
+		table2 = table1
 	}
 
 	// Check that table1 and table2 have the same sort columns.
-- 
2.43.0


From 13f97748c23f9b1c280263c7ceeea5424fb3a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 51/80] fix: Merge failed on a table with a column named
 _TABLE_ or _DELETE_

---
 merge.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 45868f5..027bd18 100644
--- a/merge.go
+++ b/merge.go
@@ -138,7 +138,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	var tempColCount int // To ignore temporary columns.
 
 	// Add a column to keep track of which columns came from which table.
-	const tableNumberColName = "_TABLE_"
+	tableNumberColName := merged.unusedColName("_TABLE_")
 	err = merged.AppendCol(tableNumberColName, "int")
 	if err != nil {
 		return nil, err
@@ -206,7 +206,7 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 	}
 
 	// Add a column to keep track of which columns are duplicates, to be deleted later.
-	const deleteColName = "_DELETE_"
+	deleteColName := merged.unusedColName("_DELETE_")
 	err = merged.AppendCol(deleteColName, "bool")
 	if err != nil {
 		return nil, err
@@ -524,3 +524,13 @@ func isMissingVal(val interface{}) bool {
 		return val == nil
 	}
 }
+
+// A name for a temporary column, which doesn't clash with a column already in the table.
+func (table *Table) unusedColName(colName string) string {
+	for {
+		if hasCol, _ := table.HasCol(colName); !hasCol {
+			return colName
+		}
+		colName += "_"
+	}
+}
-- 
2.43.0


From 6f637bab4e4121b0563d6da4a09e0f0a9f86749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 52/80] fix: Nest failed for rows with no match and for sort
 keys set only in nestable, and on failure left table changed

---
 nest.go | 55 +++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/nest.go b/nest.go
index 38bb58a..f36dfb0 100644
--- a/nest.go
+++ b/nest.go
@@ -42,9 +42,7 @@ SOFTWARE.
 		nestedString, _ = table.GetString(nestColName, rowIndex)
 		nestedTable,  _ = gotables.NewTableFromString(nestedString)
 */
-func (table *Table) Nest(nestable *Table, nestColName string) error {
-
-	var err error
+func (table *Table) Nest(nestable *Table, nestColName string) (err error) {
 
 	if table == nil {
 		return fmt.Errorf("table.%s(nestable, nestColName): table is <nil>", UtilFuncName())
@@ -56,21 +54,22 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 
 	// Use whichever table has sort keys for the shared keys. table is dominant over nestable.
 	if table.SortKeyCount() == 0 {
-		err = nestable.SetSortKeysFromTable(table)
+		err = table.SetSortKeysFromTable(nestable)
 		if err != nil {
 			return err
 		}
+		defer func() {
+			if err != nil {
+				// Leave table as it was.
+				table.sortKeys = newSortKeys()
+			}
+		}()
 	}
 	err = nestable.SetSortKeysFromTable(table)
 	if err != nil {
 		return err
 	}
 
-	err = table.Sort()
-	if err != nil {
-		return err
-	}
-
 	err = nestable.Sort()
 	if err != nil {
 		return err
@@ -93,11 +92,8 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 	// Make an empty slice of keys from table, which are search terms for nestable.
 	var keys []interface{} = make([]interface{}, keysTable.RowCount())
 
-	// Create a string col for nested table, for now. Later we may make this a *Table pointer.
-	err = table.AppendCol(nestColName, "string")
-	if err != nil {
-		return err
-	}
+	// Collect the nested tables before changing table, so that table is left as it was if there is an error.
+	var nested []string = make([]string, table.RowCount())
 
 	// Loop through rows of table, slicing matching rows (if any) from nestable.
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
@@ -110,22 +106,45 @@ func (table *Table) Nest(nestable *Table, nestColName string) error {
 			}
 		}
 
-		firstRow, lastRow, err := nestable.SearchRange(keys...)
+		err = nestable.checkSearchArguments(keys...)
 		if err != nil {
 			return err
 		}
 
 		nestTableName := nestColName
-		newTable, err := nestable.NewTableFromRows(nestTableName, firstRow, lastRow)
+		newTable, err := NewTable(nestTableName)
+		if err != nil {
+			return err
+		}
+
+		err = newTable.AppendColsFromTable(nestable)
 		if err != nil {
 			return err
 		}
 
-		err = table.SetString(nestColName, rowIndex, newTable.StringUnpadded())
+		firstRow, lastRow, searchErr := nestable.SearchRange(keys...)
+		if searchErr == nil { // Otherwise there are no matching rows.
+			err = newTable.AppendRowsFromTable(nestable, firstRow, lastRow)
+			if err != nil {
+				return err
+			}
+		}
+
+		nested[rowIndex] = newTable.StringUnpadded()
+	}
+
+	// Create a string col for nested table, for now. Later we may make this a *Table pointer.
+	err = table.AppendCol(nestColName, "string")
+	if err != nil {
+		return err
+	}
+
+	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
+		err = table.SetString(nestColName, rowIndex, nested[rowIndex])
 		if err != nil {
 			return err
 		}
 	}
 
-	return nil
+	return table.Sort()
 }
-- 
2.43.0


From 34ba9d5dbca179863ddb2c0a6a5760a1fa426291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 53/80] fix: CSV of a single column lost rows with an empty
 value

---
 gotables.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gotables.go b/gotables.go
index b5daac5..f7051e4 100644
--- a/gotables.go
+++ b/gotables.go
@@ -1795,6 +1795,13 @@ func (table *Table) GetTableAsCSV(optionalSubstituteHeadingNames ...string) (str
 			}
 		}
 
+		if len(record) == 1 && record[0] == "" {
+			// A line with nothing in it is no record at all, so a lone empty value needs to be quoted.
+			csvWriter.Flush()
+			buf.WriteString("\"\"\n")
+			continue
+		}
+
 		err = csvWriter.Write(record)
 		if err != nil {
 			return "", err
-- 
2.43.0


From e05da88611eac5a3f1f078f6d5ae02a55cd2798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 54/80] fix: generated code did not compile for time.Time and
 *Table columns

---
 generate.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generate.go b/generate.go
index 949cbdc..302c86b 100644
--- a/generate.go
+++ b/generate.go
@@ -71,6 +71,9 @@ func (table *Table) GenerateTypeStruct() (string, error) {
 		buf.WriteString("\t")
 		buf.WriteString(colName)
 		buf.WriteString(" ")
+		if colType == "*Table" {
+			colType = "*gotables.Table" // As seen from outside this package.
+		}
 		buf.WriteString(colType)
 		buf.WriteString("\n")
 	}
@@ -325,6 +328,12 @@ func typeProper(typeName string) string {
 
 // Returns getter/setter name without Get/Set prefix
 func accessorName(typeName string) string {
+	switch typeName {
+	case "time.Time":
+		return "Time"
+	case "*Table":
+		return "Table"
+	}
 	if strings.HasPrefix(typeName, "[]") {
 		return fmt.Sprintf("%sSlice", typeProper(typeName[2:]))
 	} else {
-- 
2.43.0


From 961a9939cbc434d4a3e78d8ce25faccd9afc9bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 55/80] fix: generated code did not compile when a column or
 table had the name of one of its variables

---
 generate.go | 110 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 66 insertions(+), 44 deletions(-)

diff --git a/generate.go b/generate.go
index 302c86b..db85ba8 100644
--- a/generate.go
+++ b/generate.go
@@ -155,44 +155,41 @@ func (tableSet *TableSet) generateTypeStructSet() (string, error) {
 
 		func TypeStructSliceFromTable_MyTable(table *gotables.Table) ([]MyTable, error) {
 		        if table == nil {
-		                return nil, fmt.Errorf("TypeStructSliceFromTable_MyTable(slice []MyTable) slice is <nil>")
+		                return nil, fmt.Errorf("TypeStructSliceFromTable_MyTable(table *gotables.Table) table is <nil>")
 		        }
 
-		        var MyTable []MyTable = make([]MyTable, table.RowCount())
+		        var slice []MyTable = make([]MyTable, table.RowCount())
 
 		        for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
-		                f, err := table.GetFloat32("f", rowIndex)
+		                var err error
+
+		                slice[rowIndex].f, err = table.GetFloat32("f", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].f = f
 
-		                b, err := table.GetBool("b", rowIndex)
+		                slice[rowIndex].b, err = table.GetBool("b", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].b = b
 
-		                i, err := table.GetInt("i", rowIndex)
+		                slice[rowIndex].i, err = table.GetInt("i", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].i = i
 
-		                str, err := table.GetString("str", rowIndex)
+		                slice[rowIndex].str, err = table.GetString("str", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].str = str
 
-		                bb, err := table.GetByteSlice("bb", rowIndex)
+		                slice[rowIndex].bb, err = table.GetByteSlice("bb", rowIndex)
 		                if err != nil {
 		                        return nil, err
 		                }
-		                MyTable[rowIndex].bb = bb
 		        }
 
-		        return MyTable, nil
+		        return slice, nil
 		}
 
 	Snippets of code as they might appear in your own program:
@@ -238,14 +235,23 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 		tableName, tableName))
 	buf.WriteString("*/\n")
 
-	buf.WriteString(fmt.Sprintf("func %s(table *gotables.Table) ([]%s, error) {\n", funcName, tableName))
-	buf.WriteString("\tif table == nil {\n")
-	buf.WriteString(fmt.Sprintf("\t\treturn nil, fmt.Errorf(\"%s(slice []%s) slice is <nil>\")\n", funcName, tableName))
+	// Local names in the generated function. They must not hide the type.
+	tableVar := localName("table", tableName)
+	sliceVar := localName("slice", tableName)
+	rowIndexVar := localName("rowIndex", tableName)
+	errVar := localName("err", tableName)
+
+	buf.WriteString(fmt.Sprintf("func %s(%s *gotables.Table) ([]%s, error) {\n", funcName, tableVar, tableName))
+	buf.WriteString(fmt.Sprintf("\tif %s == nil {\n", tableVar))
+	buf.WriteString(fmt.Sprintf("\t\treturn nil, fmt.Errorf(\"%s(table *gotables.Table) table is <nil>\")\n", funcName))
 	buf.WriteString("\t}\n\n")
 
-	buf.WriteString(fmt.Sprintf("\tvar %s []%s = make([]%s, table.RowCount())\n\n", tableName, tableName, tableName))
+	buf.WriteString(fmt.Sprintf("\tvar %s []%s = make([]%s, %s.RowCount())\n\n", sliceVar, tableName, tableName, tableVar))
 
-	buf.WriteString("\tfor rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {\n")
+	buf.WriteString(fmt.Sprintf("\tfor %s := 0; %s < %s.RowCount(); %s++ {\n", rowIndexVar, rowIndexVar, tableVar, rowIndexVar))
+	if table.ColCount() > 0 {
+		buf.WriteString(fmt.Sprintf("\t\tvar %s error\n\n", errVar))
+	}
 	var sep string = ""
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		colName, err := table.ColName(colIndex)
@@ -257,17 +263,17 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 			return "", err
 		}
 		buf.WriteString(sep)
-		buf.WriteString(fmt.Sprintf("\t\t%s, err := table.%s(%q, rowIndex)\n", colName, getterName(colType), colName))
-		buf.WriteString("\t\tif err != nil {\n")
-		buf.WriteString("\t\t\treturn nil, err\n")
+		buf.WriteString(fmt.Sprintf("\t\t%s[%s].%s, %s = %s.%s(%q, %s)\n",
+			sliceVar, rowIndexVar, colName, errVar, tableVar, getterName(colType), colName, rowIndexVar))
+		buf.WriteString(fmt.Sprintf("\t\tif %s != nil {\n", errVar))
+		buf.WriteString(fmt.Sprintf("\t\t\treturn nil, %s\n", errVar))
 		buf.WriteString("\t\t}\n")
-		buf.WriteString(fmt.Sprintf("\t\t%s[rowIndex].%s = %s\n", tableName, colName, colName))
 		sep = "\n"
 	}
 
 	buf.WriteString("\t}\n\n")
 
-	buf.WriteString(fmt.Sprintf("\treturn %s, nil\n", tableName))
+	buf.WriteString(fmt.Sprintf("\treturn %s, nil\n", sliceVar))
 
 	buf.WriteString("}\n")
 
@@ -511,34 +517,42 @@ func (table *Table) GenerateTypeStructSliceToTable() (string, error) {
 		tableName, tableName))
 	buf.WriteString("*/\n")
 
-	buf.WriteString(fmt.Sprintf("func %s(slice []%s) (*gotables.Table, error) {\n", funcName, tableName))
-	buf.WriteString("\tif slice == nil {\n")
+	// Local names in the generated function. They must not hide the type.
+	tableVar := localName("table", tableName)
+	sliceVar := localName("slice", tableName)
+	rowIndexVar := localName("rowIndex", tableName)
+	errVar := localName("err", tableName)
+	tableNameVar := localName("tableName", tableName)
+	colNamesVar := localName("colNames", tableName)
+	colTypesVar := localName("colTypes", tableName)
+
+	buf.WriteString(fmt.Sprintf("func %s(%s []%s) (*gotables.Table, error) {\n", funcName, sliceVar, tableName))
+	buf.WriteString(fmt.Sprintf("\tif %s == nil {\n", sliceVar))
 	buf.WriteString(fmt.Sprintf("\t\treturn nil, fmt.Errorf(\"%s(slice []%s) slice is <nil>\")\n", funcName, tableName))
 	buf.WriteString("\t}\n\n")
 
-	buf.WriteString("\tvar err error\n\n")
+	buf.WriteString(fmt.Sprintf("\tvar %s error\n\n", errVar))
 
 	colNames, colTypes, err := table.GetColInfoAsSlices()
 	if err != nil {
 		return "", err
 	}
 
-	tableName = table.Name()
+	buf.WriteString(fmt.Sprintf("\tvar %s *gotables.Table\n", tableVar))
+	buf.WriteString(fmt.Sprintf("\tvar %s string = %q\n", tableNameVar, tableName))
+	buf.WriteString(fmt.Sprintf("\tvar %s []string = %s\n", colNamesVar, stringSliceToLiteral(colNames)))
+	buf.WriteString(fmt.Sprintf("\tvar %s []string = %s\n", colTypesVar, stringSliceToLiteral(colTypes)))
 
-	buf.WriteString("\tvar table *gotables.Table\n")
-	buf.WriteString(fmt.Sprintf("\tvar tableName string = %q\n", tableName))
-	buf.WriteString(fmt.Sprintf("\tvar colNames []string = %s\n", stringSliceToLiteral(colNames)))
-	buf.WriteString(fmt.Sprintf("\tvar colTypes []string = %s\n", stringSliceToLiteral(colTypes)))
-
-	buf.WriteString("\ttable, err = gotables.NewTableFromMetadata(tableName, colNames, colTypes)\n")
-	buf.WriteString("\tif err != nil {\n")
-	buf.WriteString("\t\treturn nil, err\n")
+	buf.WriteString(fmt.Sprintf("\t%s, %s = gotables.NewTableFromMetadata(%s, %s, %s)\n",
+		tableVar, errVar, tableNameVar, colNamesVar, colTypesVar))
+	buf.WriteString(fmt.Sprintf("\tif %s != nil {\n", errVar))
+	buf.WriteString(fmt.Sprintf("\t\treturn nil, %s\n", errVar))
 	buf.WriteString("\t}\n\n")
 
-	buf.WriteString("\tfor rowIndex := 0; rowIndex < len(slice); rowIndex++ {\n")
-	buf.WriteString("\t\terr = table.AppendRow()\n")
-	buf.WriteString("\t\tif err != nil {\n")
-	buf.WriteString("\t\t\treturn nil, err\n")
+	buf.WriteString(fmt.Sprintf("\tfor %s := 0; %s < len(%s); %s++ {\n", rowIndexVar, rowIndexVar, sliceVar, rowIndexVar))
+	buf.WriteString(fmt.Sprintf("\t\t%s = %s.AppendRow()\n", errVar, tableVar))
+	buf.WriteString(fmt.Sprintf("\t\tif %s != nil {\n", errVar))
+	buf.WriteString(fmt.Sprintf("\t\t\treturn nil, %s\n", errVar))
 	buf.WriteString("\t\t}\n\n")
 	var sep string = ""
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
@@ -551,17 +565,17 @@ func (table *Table) GenerateTypeStructSliceToTable() (string, error) {
 			return "", err
 		}
 		buf.WriteString(sep)
-		buf.WriteString(fmt.Sprintf("\t\terr = table.%s(%q, rowIndex, slice[rowIndex].%s)\n",
-			setterName(colType), colName, colName))
-		buf.WriteString("\t\tif err != nil {\n")
-		buf.WriteString("\t\t\treturn nil, err\n")
+		buf.WriteString(fmt.Sprintf("\t\t%s = %s.%s(%q, %s, %s[%s].%s)\n",
+			errVar, tableVar, setterName(colType), colName, rowIndexVar, sliceVar, rowIndexVar, colName))
+		buf.WriteString(fmt.Sprintf("\t\tif %s != nil {\n", errVar))
+		buf.WriteString(fmt.Sprintf("\t\t\treturn nil, %s\n", errVar))
 		buf.WriteString("\t\t}\n")
 		sep = "\n"
 	}
 
 	buf.WriteString("\t}\n\n")
 
-	buf.WriteString("\treturn table, nil\n")
+	buf.WriteString(fmt.Sprintf("\treturn %s, nil\n", tableVar))
 
 	buf.WriteString("}\n")
 
@@ -594,3 +608,11 @@ func stringSliceToLiteral(slice []string) string {
 
 	return buf.String()
 }
+
+// A name for a local variable in generated code. It must not be the name of the generated type.
+func localName(name string, typeName string) string {
+	if name == typeName {
+		return name + "_"
+	}
+	return name
+}
-- 
2.43.0


From 696f762e99be4634c642d836af3d5cbbc1aa932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 56/80] fix: generated code did not compile when a name is a Go
 keyword or otherwise unusable; give an error instead

---
 generate.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/generate.go b/generate.go
index db85ba8..ee23870 100644
--- a/generate.go
+++ b/generate.go
@@ -4,6 +4,8 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"go/doc"
+	"go/token"
 	"strings"
 	"time"
 	"unicode"
@@ -46,6 +48,10 @@ func (table *Table) GenerateTypeStruct() (string, error) {
 		return "", fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	if err := table.canGenerate(); err != nil {
+		return "", err
+	}
+
 	var buf bytes.Buffer
 	tableName := table.Name()
 
@@ -223,6 +229,10 @@ func (table *Table) GenerateTypeStructSliceFromTable() (string, error) {
 		return "", fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	if err := table.canGenerate(); err != nil {
+		return "", err
+	}
+
 	var buf bytes.Buffer
 
 	tableName := table.Name()
@@ -504,6 +514,10 @@ func (table *Table) GenerateTypeStructSliceToTable() (string, error) {
 		return "", fmt.Errorf("table.%s table is <nil>", UtilFuncName())
 	}
 
+	if err := table.canGenerate(); err != nil {
+		return "", err
+	}
+
 	var err error
 	var buf bytes.Buffer
 
@@ -616,3 +630,27 @@ func localName(name string, typeName string) string {
 	}
 	return name
 }
+
+// Can this table be the source of generated Go code? Some names are valid in a table but not in Go.
+func (table *Table) canGenerate() error {
+	tableName := table.Name()
+	switch {
+	case !token.IsIdentifier(tableName) || tableName == "_" || doc.IsPredeclared(tableName):
+		return fmt.Errorf("cannot generate Go code from table [%s]: its name cannot be the name of a Go type", tableName)
+	case tableName == "init" || tableName == "main" || tableName == "fmt" || tableName == "gotables" || tableName == "time":
+		return fmt.Errorf("cannot generate Go code from table [%s]: its name already has a meaning in Go source files", tableName)
+	}
+
+	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
+		colName, err := table.ColName(colIndex)
+		if err != nil {
+			return err
+		}
+		if !token.IsIdentifier(colName) || colName == "_" {
+			return fmt.Errorf("cannot generate Go code from table [%s]: col name %s cannot be the name of a Go struct field",
+				tableName, colName)
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From f4fbd895551becfc0e71e8015e101f70516410c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 57/80] fix: gotecho and gotsyntax did not compile

---
 cmd/gotecho/gotecho.go     | 4 ++--
 cmd/gotsyntax/gotsyntax.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/gotecho/gotecho.go b/cmd/gotecho/gotecho.go
index 19ffb0b..498ed67 100644
--- a/cmd/gotecho/gotecho.go
+++ b/cmd/gotecho/gotecho.go
@@ -169,7 +169,7 @@ func main() {
 			finalMsg = fmt.Sprintf("warning: ignoring gotecho -r %s which is a different table from gotecho -t %s\n",
 				flags.r.String(), flags.t.String())
 		}
-		table, err := tables.Table(flags.r.String())
+		table, err := tables.GetTable(flags.r.String())
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "Error finding -r %s: %s\n", flags.r.String(), err)
 			os.Exit(10)
@@ -194,7 +194,7 @@ func main() {
 
 	if flags.t.AllOk() {
 		// Print just this table.
-		table, err := tables.Table(flags.t.String())
+		table, err := tables.GetTable(flags.t.String())
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "Error finding -t %s: %s\n", flags.t.String(), err)
 			os.Exit(11)
diff --git a/cmd/gotsyntax/gotsyntax.go b/cmd/gotsyntax/gotsyntax.go
index 1c501b1..5c96218 100644
--- a/cmd/gotsyntax/gotsyntax.go
+++ b/cmd/gotsyntax/gotsyntax.go
@@ -72,7 +72,7 @@ func main() {
 		} else {
 			tableCount := tables.TableCount()
 			if tableCount == 1 {
-				table0, err := tables.TableByTableIndex(0)
+				table0, err := tables.GetTableByTableIndex(0)
 				if err != nil {
 					fmt.Fprintf(os.Stderr, "SYSTEM ERROR: %v\n", err)
 					exitVal = 2
-- 
2.43.0


From d4686f4dc9ab2ad5b54f4f72b35b4e15b27fd2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 58/80] fix: gotecho rejected its -u flag unless it came after
 -t or -r

---
 cmd/gotecho/gotecho.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/gotecho/gotecho.go b/cmd/gotecho/gotecho.go
index 498ed67..1d5c536 100644
--- a/cmd/gotecho/gotecho.go
+++ b/cmd/gotecho/gotecho.go
@@ -119,13 +119,14 @@ func main() {
 		os.Exit(2)
 	}
 
-	if len(os.Args) > 2 && os.Args[1] != "-t" && os.Args[1] != "-r" {
+	var nonFlagArgs []string = nonFlagArgs(flag.Args())
+
+	if len(nonFlagArgs) > 1 {
 		fmt.Fprintf(os.Stderr, "expecting flags to come before <gotables-file>\n")
 		printUsage()
 		os.Exit(3)
 	}
 
-	var nonFlagArgs []string = nonFlagArgs(flag.Args())
 	if len(nonFlagArgs) >= 1 {
 		file = nonFlagArgs[0]
 		tables, err = gotables.NewTableSetFromFile(file)
-- 
2.43.0


From ed78fb094037b94b1cbad931a91dcfc58b3e3e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 59/80] fix: gotecho parsed its flags too early for its own
 tests to run

---
 cmd/gotecho/gotecho.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/gotecho/gotecho.go b/cmd/gotecho/gotecho.go
index 1d5c536..310fab8 100644
--- a/cmd/gotecho/gotecho.go
+++ b/cmd/gotecho/gotecho.go
@@ -58,7 +58,6 @@ func init() {
 	log.SetFlags(log.Lshortfile)
 
 	flag.Usage = printUsage // Override the default flag.Usage variable.
-	initFlags()
 }
 
 func initFlags() {
@@ -105,6 +104,8 @@ func main() {
 	// defer profile.Start(profile.MemProfile, profile.ProfilePath(".")).Stop()
 	// After running: $ go tool pprof -http=:8080 mem.pprof
 
+	initFlags() // Not in init() because go test has flags of its own.
+
 	var err error
 	var file string
 	var tables *gotables.TableSet
-- 
2.43.0


From bf31fceeeff5d449a756f680cba787dd01661b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 60/80] fix: IsValidCellValue called byte, rune, []byte,
 time.Time and *Table values invalid for their own columns

---
 gotables.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index f7051e4..363da3a 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3190,10 +3190,12 @@ func (table *Table) IsValidCellValue(colName string, value interface{}) (bool, e
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: <nil>", table.Name(), colName, colType)
 	}
 
-	valueType := reflect.TypeOf(value)
-	valueTypeName := valueType.Name()
+	valueTypeName := fmt.Sprintf("%T", value)
+	if valueTypeName == "*gotables.Table" {
+		valueTypeName = "*Table"
+	}
 
-	if valueTypeName != colType {
+	if valueTypeName != colType && !isAlias(colType, valueTypeName) {
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: %v", table.Name(), colName, colType, value)
 	}
 
-- 
2.43.0


From c21e4453c80bd79504e91135b13ab15c7f310740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 61/80] fix: GetValMustGet and SortKeyCount of a nil table
 panicked with a nil pointer

---
 gotables.go | 5 +++++
 sort.go     | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/gotables.go b/gotables.go
index 363da3a..2d4266a 100644
--- a/gotables.go
+++ b/gotables.go
@@ -2315,6 +2315,11 @@ func (table *Table) RowCount() int {
 	Like its non-MustGet alternative but panics on error.
 */
 func (table *Table) GetValMustGet(colName string, rowIndex int) (val interface{}) {
+	if table == nil {
+		err := fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
+		panic(err)
+	}
+
 	if table.isNilTable {
 		err := fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 		panic(err)
diff --git a/sort.go b/sort.go
index 4f9ab9a..802a6e1 100644
--- a/sort.go
+++ b/sort.go
@@ -799,6 +799,10 @@ func newSortKeys() SortKeys {
 }
 
 func (table *Table) SortKeyCount() int {
+	if table == nil {
+		return -1
+	}
+
 	return len(table.sortKeys)
 }
 
-- 
2.43.0


From 41f6ee877d2a76afe82c21c56a6026b96cbac43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 62/80] fix: circular reference errors from Walk and
 HasCircularReference were not a CircRefError

---
 tree.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 3540138..9a21911 100644
--- a/tree.go
+++ b/tree.go
@@ -165,7 +165,7 @@ func (table *Table) Walk(
 						if exists { // Invalid table with circular reference!
 							// Construct CircRefError.
 							circError := NewCircRefError(table, nestedTable, "")
-							err = fmt.Errorf("visitCell(): %s", circError) // Wrap circError in err.
+							err = fmt.Errorf("visitCell(): %w", circError) // Wrap circError in err.
 							return err
 						} else {
 							// Add this nested table to the map.
@@ -311,7 +311,12 @@ func (rootTable *Table) HasCircularReference() (hasCircularReference bool, err e
 	if !isValidTableNesting {
 		// Say the error is from here, not from the called method.
 		replacedMsg := strings.Replace(err.Error(), "IsValidTableNesting", "HasCircularReference", 1)
-		err = fmt.Errorf("%s", replacedMsg)
+		if circError := GetCircRefError(err); circError != nil {
+			// Keep circError wrapped in err.
+			err = fmt.Errorf("%s%w", strings.TrimSuffix(replacedMsg, circError.Error()), circError)
+		} else {
+			err = fmt.Errorf("%s", replacedMsg)
+		}
 		return !isValidTableNesting, err
 	}
 
-- 
2.43.0


From d9d8250e4b0f60c623c1d54d3421279178673415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 63/80] fix: ShufflePseudorandom depended on, and reset, the
 random numbers of the whole program

---
 gotables.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gotables.go b/gotables.go
index 2d4266a..337d747 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4376,11 +4376,11 @@ func (table *Table) ShufflePseudorandom() error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
-	// This forces rand.Shuffle() to start from scratch on each call.
+	// This forces Shuffle() to start from scratch on each call.
 	// Otherwise there is a surprise side effect if a rand function is called elsewhere.
-	rand.Seed(0)
+	random := rand.New(rand.NewSource(0))
 
-	rand.Shuffle(len(table.rows), func(i, j int) {
+	random.Shuffle(len(table.rows), func(i, j int) {
 		table.rows[i], table.rows[j] = table.rows[j], table.rows[i]
 	})
 
-- 
2.43.0


From 44c7fe88578b7c275e57d38e9672c7bd2f52eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 64/80] fix: NewTreeTable of separate tables raced on shared
 counters

---
 tree.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/tree.go b/tree.go
index 9a21911..11ebda0 100644
--- a/tree.go
+++ b/tree.go
@@ -572,12 +572,9 @@ func (rootTable *Table) NewTreeTable1(tablesDepth int) (treeTable *Table, err er
 	If there are no type *Table cols in table, or if depth is set to 0, then
 	return table unchanged.
 */
-var globalTreeCalls int
-var globalTreeDepth int
 func (table *Table) NewTreeTable(depth int) (treeTable *Table, err error) {
-globalTreeCalls++
 if CURRENT_TESTS_VERBOSE {
-where(fmt.Sprintf("NewTreeTable(globalTreeCalls=%d)\n", globalTreeCalls))
+where(fmt.Sprintf("NewTreeTable(depth=%d)\n", depth))
 }
 	// where("caller: " + UtilFuncCaller())
 	// where(UtilFuncName())
@@ -603,11 +600,8 @@ where(fmt.Sprintf("NewTreeTable(globalTreeCalls=%d)\n", globalTreeCalls))
 }
 
 func newTreeTable_recursive(originalTable *Table, table *Table, depth int) (err error) {
-globalTreeDepth++
 if CURRENT_TESTS_VERBOSE {
 where(fmt.Sprintf("newTreeTable_recursive(depth=%d)\n", depth))
-where(fmt.Sprintf("newTreeTable_recursive(globalTreeCalls=%d)\n", globalTreeCalls))
-where(fmt.Sprintf("newTreeTable_recursive(globalTreeDepth=%d)\n", globalTreeDepth))
 }
 
 	if originalTable == nil {
-- 
2.43.0


From 44bcd28ec8a4c0b5eccf0f7faa2153234a9c1a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 65/80] fix: StringNested of a circular table never ended, and
 of separate tables raced on a shared counter

---
 gotables.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/gotables.go b/gotables.go
index 337d747..c38c088 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4563,7 +4563,8 @@ func (table *Table) IsTableCol(colName string) (isTableCol bool, err error) {
 }
 
 func (table *Table) StringNested() (stringNested string) {
-	table.stringNested_recursive(table.Name(), "", "", 0, &stringNested)
+	var enclosingTables circRefMap = circRefMap{}
+	table.stringNested_recursive(table.Name(), "", "", 0, enclosingTables, &stringNested)
 	return
 }
 
@@ -4594,11 +4595,7 @@ func (tableSet *TableSet) StringNested() (stringNested string) {
 }
 */
 
-var globalDepth int
-func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, stringNested *string) {
-//where(fmt.Sprintf("depth=%d [%s]",  globalDepth, table.Name()))
-globalDepth++
-
+func (table *Table) stringNested_recursive(parentTableName string, parentTailName, parentColName string, parentRowIndex int, enclosingTables circRefMap, stringNested *string) {
 	const debug = true
 
 //where(fmt.Sprintf("stringNested_recursive(parentTableName: [%s], parentColName: %q, parentRowIndex: %d, stringNested)\n",
@@ -4618,6 +4615,9 @@ globalDepth++
 	}
 */
 	*stringNested += table.String() + "\n"
+
+	enclosingTables[table] = EmptyStruct
+	defer delete(enclosingTables, table)
 //where("\n" + *stringNested)
 //where("-------------------- stringNested_recursive() --------------------")
 
@@ -4641,6 +4641,14 @@ globalDepth++
 //				tailName := fmt.Sprintf("__from_table_%s_col_%s_row_%d%s", parentTableName, colName, rowIndex, parentTailName)
 				tailName := fmt.Sprintf("__FROM_%s_%s_%d%s", parentTableName, colName, rowIndex, parentTailName)
 */
+				// A table inside itself has no end. Do not go down into it.
+				_, exists := enclosingTables[nestedTable]
+				if exists {
+					_, _ = os.Stderr.WriteString(fmt.Sprintf("%s ERROR table.%s: %v\n",
+						UtilFuncSource(), UtilFuncName(), NewCircRefError(table, nestedTable, "")))
+					continue
+				}
+
 				headName := nestedTable.Name()
 				isNilTable := nestedTable.isNilTable
 				var tailName string
@@ -4658,7 +4666,7 @@ globalDepth++
 
 // where(fmt.Sprintf("\n>>> nestedTable.stringNested_recursive(%q, %q, %d, stringNested=\n%s)",
 // table.Name(), colName, rowIndex, *stringNested))
-				nestedTable.stringNested_recursive(headName, tailName, colName, rowIndex, stringNested)
+				nestedTable.stringNested_recursive(headName, tailName, colName, rowIndex, enclosingTables, stringNested)
 
 				// The new name is only for the string. Give the nested table back its own name.
 				nestedTable.tableName = headName
@@ -4667,7 +4675,5 @@ globalDepth++
 		}
 	}
 
-	globalDepth--
-
 	return
 }
-- 
2.43.0


From e84af1f416f390080d11c10a0fa923e9eb42244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 66/80] fix: setting float cells of a row or col to NaN did not
 notice a missing row or col, or a col of another type, when there was nothing
 to set

---
 gotables.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index c38c088..1653f8e 100644
--- a/gotables.go
+++ b/gotables.go
@@ -790,7 +790,12 @@ func (table *Table) SetRowFloatCellsToNaN(rowIndex int) error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
-	var err error
+	// A table with no float columns would otherwise not notice a missing row.
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return err
+	}
+
 	var colType string
 	for colIndex := 0; colIndex < table.ColCount(); colIndex++ {
 		colType, err = table.ColTypeByColIndex(colIndex)
@@ -906,6 +911,20 @@ func (table *Table) SetColFloatCellsToNaNByColIndex(colIndex int) error {
 		return fmt.Errorf("%s table.%s table is <nil>", UtilFuncSource(), UtilFuncName())
 	}
 
+	// A table with no rows would otherwise not notice a missing col or a col of another type.
+	colType, err := table.ColTypeByColIndex(colIndex)
+	if err != nil {
+		return err
+	}
+	if colType != "float32" && colType != "float64" {
+		colName, err := table.ColName(colIndex)
+		if err != nil {
+			return err
+		}
+		return fmt.Errorf("%s: [%s] colIndex=%d colName=%s coltype=%s expecting colType float32 or float64 but found: %s",
+			UtilFuncName(), table.Name(), colIndex, colName, colType, colType)
+	}
+
 	for rowIndex := 0; rowIndex < table.RowCount(); rowIndex++ {
 		err := table.SetFloatCellToNaNByColIndex(colIndex, rowIndex)
 		if err != nil {
-- 
2.43.0


From f976ae8c3385f34bd8ad20ca5435d481aee0ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 67/80] fix: JSON whole numbers written with a fraction or
 exponent were rounded to 53 bits

---
 json.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/json.go b/json.go
index 40510f2..df6000b 100644
--- a/json.go
+++ b/json.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	"math"
 	_ "os"
 	"reflect"
 	"regexp"
@@ -334,16 +333,38 @@ func jsonNumberToFloat(number json.Number, bitSize int) (val float64, err error)
 }
 
 // Some JSON writers write whole numbers with a fraction or exponent: 1.0 or 1e3
+// Exact: does not go through a float, which would round.
 func wholeNumber(number json.Number) string {
-	const maxExact = 1 << 53
 	var s string = number.String()
-	if strings.ContainsAny(s, ".eE") {
-		floatVal, err := number.Float64()
-		if err == nil && floatVal == math.Trunc(floatVal) && math.Abs(floatVal) <= maxExact {
-			return strconv.FormatInt(int64(floatVal), 10)
+	if !strings.ContainsAny(s, ".eE") {
+		return s
+	}
+
+	const maxExponent = 20 // No whole number type has more digits.
+	var mantissa string = s
+	var exponent int
+	if i := strings.IndexAny(s, "eE"); i >= 0 {
+		var err error
+		exponent, err = strconv.Atoi(s[i+1:])
+		if err != nil {
+			return s
 		}
+		mantissa = s[:i]
+	}
+	var digits string = mantissa
+	if i := strings.Index(mantissa, "."); i >= 0 {
+		digits = mantissa[:i] + mantissa[i+1:]
+		exponent -= len(mantissa) - i - 1
+	}
+	var trimmed string = strings.TrimRight(digits, "0")
+	if trimmed == "" || trimmed == "-" {
+		return "0"
+	}
+	exponent += len(digits) - len(trimmed)
+	if exponent < 0 || exponent > maxExponent {
+		return s // Not a whole number, or too big.
 	}
-	return s
+	return trimmed + strings.Repeat("0", exponent)
 }
 
 func newTableFromJSON_recursive(jsonMap map[string]interface{}) (table *Table, err error) {
-- 
2.43.0


From 7fc74723bbbe461ecfe8e14e4bbfec9b993f54df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 68/80] fix: UtilRound rounded negative numbers down by one

---
 util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util.go b/util.go
index 7e2fbdf..99ba630 100644
--- a/util.go
+++ b/util.go
@@ -548,11 +548,11 @@ func UtilRound(val float64, places int) (rounded float64) {
 	var round float64
 	pow := math.Pow(10, float64(places))
 	digit := pow * val
-	_, frac := math.Modf(digit) // Modf(f) returns integer and fractional floating-point numbers that sum to f
-	if frac >= roundOn {
+	floor := math.Floor(digit) // Not Modf(): its fraction is negative if digit is negative.
+	if digit-floor >= roundOn {
 		round = math.Ceil(digit)
 	} else {
-		round = math.Floor(digit)
+		round = floor
 	}
 	rounded = round / pow
 	return
-- 
2.43.0


From 5289f74e2176f51a9815deced74875663fffdbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 69/80] fix: UtilGulpFromPipe changed bytes which are not
 UTF-8; with a timeout it lost read errors and raced with its caller

---
 util.go | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/util.go b/util.go
index 99ba630..ee02ec7 100644
--- a/util.go
+++ b/util.go
@@ -1,11 +1,10 @@
 package gotables
 
 import (
-	"bufio"
 	"bytes"
 	"fmt"
 	"go/format"
-	"io"
+	"io/ioutil"
 	"log"
 	"math"
 	"os"
@@ -590,18 +589,9 @@ func UtilCanReadFromPipe() (bool, error) {
 */
 func UtilGulpFromPipe() (string, error) {
 
-	reader := bufio.NewReader(os.Stdin)
-	var output []rune
-	for {
-		inputRune, _, err := reader.ReadRune()
-		if err != nil && err == io.EOF {
-			break
-		}
-		if err != nil {
-			return "", err
-		}
-
-		output = append(output, inputRune)
+	output, err := ioutil.ReadAll(os.Stdin)
+	if err != nil {
+		return "", err
 	}
 
 	return string(output), nil
@@ -616,16 +606,22 @@ func UtilGulpFromPipe() (string, error) {
 */
 func UtilGulpFromPipeWithTimeout(timeout time.Duration) (input string, err error) {
 
-	c1 := make(chan string, 1)
+	type gulped struct {
+		input string
+		err   error
+	}
+
+	c1 := make(chan gulped, 1)
 
 	go func() {
-		input, err = UtilGulpFromPipe()
-		c1 <- input
+		// Not the named results: they belong to the caller after a timeout.
+		input, err := UtilGulpFromPipe()
+		c1 <- gulped{input, err}
 	}()
 
 	select {
 	case result := <-c1:
-		return result, nil
+		return result.input, result.err
 	case <-time.After(timeout):
 		return "", fmt.Errorf("did not read any piped input from stdin after waiting %v", timeout)
 	}
-- 
2.43.0


From f503ef4de64c5113d43330609f3d9a022e19c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:00 +0000
Subject: [PATCH 70/80] fix: one float32 (7.038531e-26) was not read back from
 YAML as it was written: rounding twice

---
 yaml.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/yaml.go b/yaml.go
index be7614a..a7f8c15 100644
--- a/yaml.go
+++ b/yaml.go
@@ -394,7 +394,7 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 	}
 
 	for _, yamlTable := range yamlMap["tables"].([]map[string]interface{}) {
-		quoteYAMLStrings(yamlTable)
+		prepareYAMLCells(yamlTable)
 	}
 
 	var yamlBytes []byte
@@ -413,8 +413,13 @@ func (tableSet *TableSet) GetTableSetAsYAML() (yamlString string, err error) {
 
 	yaml.Marshal() writes strings of more than one line as literal blocks, and
 	doesn't read back the same string from a block that begins with white space.
+
+	Write as float64 a float32 that would not be read back the same.
+
+	yaml.Marshal() writes the shortest number that is nearest to a float32, but
+	yaml.Unmarshal() reads a float64, and rounding twice can go the wrong way.
 */
-func quoteYAMLStrings(yamlTable map[string]interface{}) {
+func prepareYAMLCells(yamlTable map[string]interface{}) {
 	for _, row := range yamlTable["data"].([][]interface{}) {
 		for colIndex, cell := range row {
 			switch cell.(type) {
@@ -424,8 +429,15 @@ func quoteYAMLStrings(yamlTable map[string]interface{}) {
 				if unicode.IsSpace(firstRune) && strings.Contains(stringVal, "\n") && utf8.ValidString(stringVal) {
 					row[colIndex] = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Style: yaml.DoubleQuotedStyle, Value: stringVal}
 				}
+			case float32:
+				var float32Val float32 = cell.(float32)
+				var shortest string = strconv.FormatFloat(float64(float32Val), 'g', -1, 32)
+				float64Val, err := strconv.ParseFloat(shortest, 64)
+				if err == nil && !math.IsNaN(float64Val) && float32(float64Val) != float32Val {
+					row[colIndex] = float64(float32Val)
+				}
 			case map[string]interface{}:
-				quoteYAMLStrings(cell.(map[string]interface{}))
+				prepareYAMLCells(cell.(map[string]interface{}))
 			}
 		}
 	}
-- 
2.43.0


From 140f624da52ac4a745057ca0b0154fd9d35faba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:45 +0000
Subject: [PATCH 71/80] fix: GetCellInfo() and RowByRowIndex() of a row out of
 range gave no error

---
 tree.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tree.go b/tree.go
index 11ebda0..60af5b6 100644
--- a/tree.go
+++ b/tree.go
@@ -222,6 +222,11 @@ func (table *Table) GetCellInfoByColIndex(colIndex int, rowIndex int) (cellInfo
 		return cellInfo, fmt.Errorf("table.%s(): table is nil", UtilFuncNameNoParens())
 	}
 
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return cellInfo, err
+	}
+
 	cellInfo.Table = table
 	cellInfo.ColIndex = colIndex
 	cellInfo.RowIndex = rowIndex
@@ -287,6 +292,11 @@ func (table *Table) RowByRowIndex(rowIndex int) (row Row, err error) {
 		return row, fmt.Errorf("table.%s(): table is nil", UtilFuncNameNoParens())
 	}
 
+	hasRow, err := table.HasRow(rowIndex)
+	if !hasRow {
+		return row, err
+	}
+
 	row.Table = table
 	row.RowIndex = rowIndex
 
-- 
2.43.0


From 48f52a0b3f7edfe3ae1504166cca2802159f988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 72/80] fix: GetColValsAsStrings() and JoinColVals() of an
 unknown column of a table with no rows gave no error

---
 gotables.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gotables.go b/gotables.go
index 1653f8e..cf48b5b 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3177,6 +3177,10 @@ func (table *Table) GetColValsAsStrings(colName string) ([]string, error) {
 		return nil, fmt.Errorf("table.%s: table is an unnamed NilTable. Call table.SetName() to un-Nil it", UtilFuncName())
 	}
 
+	if hasCol, err := table.HasCol(colName); !hasCol {
+		return nil, err
+	}
+
 	rowCount := table.RowCount()
 	sVals := make([]string, rowCount)
 	for rowIndex := 0; rowIndex < rowCount; rowIndex++ {
-- 
2.43.0


From d2fce896112cbdf0cc8ae0a8932d63df4e6803ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:19 +0000
Subject: [PATCH 73/80] fix: IsValidColValue() and IsValidCellValue() of a nil
 *Table said it was valid, but it cannot be set

---
 gotables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotables.go b/gotables.go
index cf48b5b..a2a34e9 100644
--- a/gotables.go
+++ b/gotables.go
@@ -3214,7 +3214,7 @@ func (table *Table) IsValidCellValue(colName string, value interface{}) (bool, e
 		return false, err
 	}
 
-	if value == nil {
+	if tableVal, isTable := value.(*Table); value == nil || (isTable && tableVal == nil) {
 		return false, fmt.Errorf("table[%s] col=%s type=%s invalid value: <nil>", table.Name(), colName, colType)
 	}
 
-- 
2.43.0


From 1b4dad40bb03d9784db9f54b7631b889e5c66449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:43 +0000
Subject: [PATCH 74/80] fix: SearchLast() of the largest int called the
 function with negative indexes

---
 sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index 802a6e1..5fe0019 100644
--- a/sort.go
+++ b/sort.go
@@ -1158,7 +1158,7 @@ func SearchLast(n int, f func(int) bool) int {
 	i, j := -1, n
 	var h int
 	for i < j-1 {
-		h = i + (j-i)/2
+		h = i + int(uint(j-i)/2) // Avoid overflow: i may be -1 and n the largest int.
 		if !f(h) {
 			j = h
 		} else {
-- 
2.43.0


From f78f91ef41429e10ce4428b43311fbcacb378957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:50 +0000
Subject: [PATCH 75/80] fix: SetVal() and SetValByColIndex() of a nested table
 did not set its parent table, as SetTable() does

---
 gotables.go | 27 ++++++++++++++++++++++++++-
 merge.go    | 27 ++++++++++++++++-----------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/gotables.go b/gotables.go
index a2a34e9..519dc31 100644
--- a/gotables.go
+++ b/gotables.go
@@ -2027,6 +2027,24 @@ func (table *Table) SetValByColIndex(colIndex int, rowIndex int, val interface{}
 		UtilPrintCaller()
 	}
 
+	err := table.setCell(colIndex, rowIndex, val)
+	if err != nil {
+		return err
+	}
+
+	// As in SetTableByColIndex()
+	if tableVal, isTable := val.(*Table); isTable {
+		tableVal.parentTable = table
+	}
+
+	return nil
+}
+
+/*
+	Set the val in a cell. A val of type *Table keeps the parent table it has.
+*/
+func (table *Table) setCell(colIndex int, rowIndex int, val interface{}) error {
+
 	// No need to call HasCellByColIndex(). Col checked below.
 	// No measurable speedup.
 	hasRow, err := table.HasRow(rowIndex)
@@ -3671,7 +3689,14 @@ where("\n" + cellVal.(*Table).StringNested())
 }
 */
 
-			err = toTable.SetVal(colName, toRow, cellVal)
+			var toCol int
+			toCol, err = toTable.ColIndex(colName)
+			if err != nil {
+				return err
+			}
+
+			// Not SetVal(): a nested table is still in its cell of fromTable.
+			err = toTable.setCell(toCol, toRow, cellVal)
 			if err != nil {
 				return err
 			}
diff --git a/merge.go b/merge.go
index 027bd18..8878421 100644
--- a/merge.go
+++ b/merge.go
@@ -305,12 +305,12 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 					}
 					val2 = reflect.ValueOf(tmp2).Int()
 					if val1 != zeroVal { // Covers combinations (c) and (d)
-						err = merged.SetValByColIndex(colIndex, rowIndex+1, tmp1) // Use val1
+						err = merged.setCell(colIndex, rowIndex+1, tmp1) // Use val1
 						if err != nil {
 							return nil, err
 						}
 					} else if val2 != zeroVal { // Covers combination (b)
-						err = merged.SetValByColIndex(colIndex, rowIndex, tmp2) // Use val2
+						err = merged.setCell(colIndex, rowIndex, tmp2) // Use val2
 						if err != nil {
 							return nil, err
 						}
@@ -333,12 +333,12 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 					}
 					val2 = reflect.ValueOf(tmp2).Uint()
 					if val1 != zeroVal { // Covers combinations (c) and (d)
-						err = merged.SetValByColIndex(colIndex, rowIndex+1, tmp1) // Use val1
+						err = merged.setCell(colIndex, rowIndex+1, tmp1) // Use val1
 						if err != nil {
 							return nil, err
 						}
 					} else if val2 != zeroVal { // Covers combination (b)
-						err = merged.SetValByColIndex(colIndex, rowIndex, tmp2) // Use val2
+						err = merged.setCell(colIndex, rowIndex, tmp2) // Use val2
 						if err != nil {
 							return nil, err
 						}
@@ -365,22 +365,22 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 					val2 = reflect.ValueOf(tmp2).Float()
 
 					if val1 != zeroVal && !math.IsNaN(val1) { // Covers combinations (c) and (d)
-						err = merged.SetValByColIndex(colIndex, rowIndex2, tmp1) // Use val1
+						err = merged.setCell(colIndex, rowIndex2, tmp1) // Use val1
 						if err != nil {
 							return nil, err
 						}
 					} else if val2 != zeroVal && !math.IsNaN(val2) { // Covers combination (b)
-						err = merged.SetValByColIndex(colIndex, rowIndex1, tmp2) // Use val2
+						err = merged.setCell(colIndex, rowIndex1, tmp2) // Use val2
 						if err != nil {
 							return nil, err
 						}
 					} else if math.IsNaN(val1) { // Maybe one of them is NaN and the other is zero.
-						err = merged.SetValByColIndex(colIndex, rowIndex1, tmp2) // Use val2
+						err = merged.setCell(colIndex, rowIndex1, tmp2) // Use val2
 						if err != nil {
 							return nil, err
 						}
 					} else if math.IsNaN(val2) { // Maybe one of them is NaN and the other is zero.
-						err = merged.SetValByColIndex(colIndex, rowIndex2, tmp1) // Use val1
+						err = merged.setCell(colIndex, rowIndex2, tmp1) // Use val1
 						if err != nil {
 							return nil, err
 						}
@@ -398,12 +398,12 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 						return nil, err
 					}
 					if !isMissingVal(val1) { // Covers combinations (c) and (d)
-						err = merged.SetValByColIndex(colIndex, rowIndex2, val1) // Use val1
+						err = merged.setCell(colIndex, rowIndex2, val1) // Use val1
 						if err != nil {
 							return nil, err
 						}
 					} else if !isMissingVal(val2) { // Covers combination (b)
-						err = merged.SetValByColIndex(colIndex, rowIndex1, val2) // Use val2
+						err = merged.setCell(colIndex, rowIndex1, val2) // Use val2
 						if err != nil {
 							return nil, err
 						}
@@ -500,7 +500,12 @@ func (srcTable *Table) copyTableCells(beginRow int, targTable *Table) error {
 			if err != nil {
 				return err
 			}
-			err = targTable.SetVal(colName, targRow, cellVal)
+			targCol, err := targTable.ColIndex(colName)
+			if err != nil {
+				return err
+			}
+			// Not SetVal(): a nested table is still in its cell of srcTable.
+			err = targTable.setCell(targCol, targRow, cellVal)
 			// where(fmt.Sprintf("targTable.SetVal(%q, %d, cellVal=%v)\n", colName, targRow, cellVal))
 			if err != nil {
 				return err
-- 
2.43.0


From ccba6dade3493b94b881c5eac972e7069735eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:52 +0000
Subject: [PATCH 76/80] fix: SortUnique and Merge leave the sort keys of their
 tables as they were if they fail

---
 merge.go | 8 ++++++++
 sort.go  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/merge.go b/merge.go
index 8878421..c8d3490 100644
--- a/merge.go
+++ b/merge.go
@@ -97,6 +97,14 @@ func (table1 *Table) Merge(table2 *Table) (merged *Table, err error) {
 		table2 = table1
 	}
 
+	// If this fails, leave both input tables with the sort keys they had.
+	sortKeys1, sortKeys2 := table1.sortKeys, table2.sortKeys
+	defer func() {
+		if err != nil {
+			table1.sortKeys, table2.sortKeys = sortKeys1, sortKeys2
+		}
+	}()
+
 	// Check that table1 and table2 have the same sort columns.
 	err = setSortKeysBetweenTables()
 	if err != nil {
diff --git a/sort.go b/sort.go
index 5fe0019..43ec8a0 100644
--- a/sort.go
+++ b/sort.go
@@ -1285,6 +1285,14 @@ func (inputTable *Table) SortUnique(sortCols ...string) (newTableUnique *Table,
 		return nil, fmt.Errorf("inputTable.%s table is <nil>", UtilFuncName())
 	}
 
+	// If this fails, leave the input table with the sort keys it had.
+	previousSortKeys := inputTable.sortKeys
+	defer func() {
+		if err != nil {
+			inputTable.sortKeys = previousSortKeys
+		}
+	}()
+
 	if len(sortCols) > 0 {
 		// Sort mode (1)
 		err := inputTable.SetSortKeys(sortCols...)
-- 
2.43.0


From 971f8bd3eb3d56611435698956a2ec60a24be997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:55 +0000
Subject: [PATCH 77/80] fix: Nest leaves the nested table as it was if it fails

---
 nest.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nest.go b/nest.go
index f36dfb0..ca59902 100644
--- a/nest.go
+++ b/nest.go
@@ -52,6 +52,15 @@ func (table *Table) Nest(nestable *Table, nestColName string) (err error) {
 		return fmt.Errorf("table.%s(nestable, nestColName): nestable is <nil>", UtilFuncName())
 	}
 
+	// If this fails, leave nestable with the sort keys and the order of rows it had.
+	nestableSortKeys, nestableRows := nestable.sortKeys, append([]tableRow{}, nestable.rows...)
+	defer func() {
+		if err != nil {
+			nestable.sortKeys = nestableSortKeys
+			copy(nestable.rows, nestableRows)
+		}
+	}()
+
 	// Use whichever table has sort keys for the shared keys. table is dominant over nestable.
 	if table.SortKeyCount() == 0 {
 		err = table.SetSortKeysFromTable(nestable)
-- 
2.43.0


From ee116b1cedf48e1bd3a4d23444767aa0e4f581b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:19 +0000
Subject: [PATCH 78/80] fix: Walk does not write to the tables it walks

---
 gotables.go | 1 -
 tree.go     | 5 -----
 2 files changed, 6 deletions(-)

diff --git a/gotables.go b/gotables.go
index 519dc31..dafe241 100644
--- a/gotables.go
+++ b/gotables.go
@@ -514,7 +514,6 @@ type Table struct {
 	isStructShape bool
 	isNilTable    bool
 	parentTable   *Table
-	depth         int
 }
 
 // For GOB.
diff --git a/tree.go b/tree.go
index 60af5b6..7c0e487 100644
--- a/tree.go
+++ b/tree.go
@@ -176,8 +176,6 @@ func (table *Table) Walk(
 					}
 
 					// Down into nested table.
-					nestedTable.depth++
-
 					// Recursive call to visit nested tables.
 // where(fmt.Sprintf("walkSafe %p = %v", walkSafe, walkSafe))
 // where("calling nestedTable.Walk()")
@@ -185,9 +183,6 @@ func (table *Table) Walk(
 					if err != nil {
 						return
 					}
-
-					// Back up from nested table.
-					nestedTable.depth--
 				}
 			}
 		}
-- 
2.43.0


From dfb0a98f1db14b1aeedc8f5ef56d9384b36a3382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:19 +0000
Subject: [PATCH 79/80] fix: StringNested does not rename nested tables while
 it works

---
 gotables.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/gotables.go b/gotables.go
index dafe241..6c64ffc 100644
--- a/gotables.go
+++ b/gotables.go
@@ -4697,7 +4697,6 @@ func (table *Table) stringNested_recursive(parentTableName string, parentTailNam
 				}
 
 				headName := nestedTable.Name()
-				isNilTable := nestedTable.isNilTable
 				var tailName string
 				if debug {
 					tailName = fmt.Sprintf("__FROM_TABLE_%s_COL_%s_row_%d%s", parentTableName, colName, rowIndex, parentTailName)
@@ -4706,18 +4705,18 @@ func (table *Table) stringNested_recursive(parentTableName string, parentTailNam
 				}
 				newName := headName + tailName
 //where(fmt.Sprintf("newName = %s", newName))
-				err = nestedTable.SetName(newName)
+				// The new name is only for the string. Do not give it to the nested table itself.
+				renamedTable := *nestedTable
+				err = renamedTable.SetName(newName)
 				if err != nil {
 					return
 				}
 
 // where(fmt.Sprintf("\n>>> nestedTable.stringNested_recursive(%q, %q, %d, stringNested=\n%s)",
 // table.Name(), colName, rowIndex, *stringNested))
-				nestedTable.stringNested_recursive(headName, tailName, colName, rowIndex, enclosingTables, stringNested)
-
-				// The new name is only for the string. Give the nested table back its own name.
-				nestedTable.tableName = headName
-				nestedTable.isNilTable = isNilTable
+				enclosingTables[nestedTable] = EmptyStruct
+				renamedTable.stringNested_recursive(headName, tailName, colName, rowIndex, enclosingTables, stringNested)
+				delete(enclosingTables, nestedTable)
 			}
 		}
 	}
-- 
2.43.0


From 59cd10252148ce3d1a6518a19bbf171669eea07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:05 +0000
Subject: [PATCH 80/80] fix: a *Table cell set to its zero value knows its
 table, like one of a row set to zero values

SetCellToZeroValue (and so SetColCellsToZeroValue and AppendCol) put a
NilTable without a parent into the cell; SetRowCellsToZeroValue and
AppendRow give it one.
---
 helpers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 5c471fa..58b5830 100644
--- a/helpers.go
+++ b/helpers.go
@@ -4979,7 +4979,9 @@ func (table *Table) SetCellToZeroValueByColIndex(colIndex int, rowIndex int) err
 		table.rows[rowIndex][colIndex] = zeroVal.uint8Val
 	case "*Table":
 		// This is a x10 tuning strategy to avoid type conversion *Table(NewNilTable())
-		table.rows[rowIndex][colIndex] = NewNilTable() // Avoid circular reference.
+		var nilTable *Table = NewNilTable() // New table each time to avoid circular reference.
+		nilTable.parentTable = table
+		table.rows[rowIndex][colIndex] = nilTable
 	case "time.Time":
 		// This is a x10 tuning strategy to avoid type conversion time.Time(MinTime)
 		table.rows[rowIndex][colIndex] = zeroVal.timeVal
-- 
2.43.0

