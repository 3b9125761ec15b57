#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, observe, over=("inputs",)):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Text round trip: writing and parsing back loses nothing",
  "Any table written as gotables text (padded, unpadded, or in struct shape) parses back to a table with the same name, the same columns in the same order with the same types, and the same rows with exactly equal cell values. A set of such tables written as text parses back to a set with the same set name and the same tables in the same order. Writing does not change the table.",
  "every table buildable by the public API: every column type, every cell value (all integers, finite and infinite floats, NaN, any byte string, any Unicode rune, times with any nanosecond and whole-minute zone), every valid name, any number of columns and rows, empty tables included",
  "Tests round-trip a few dozen hand-written tables; the property quantifies over every cell value of twenty types and their alignment in three layouts, where precision, escaping and padding errors hide in particular values.",
  ["gotables.go", "parser.go"],
  [("padded writer", "gotables.go: Table.StringPadded"), ("unpadded writer", "gotables.go: Table._String"), ("struct writer", "gotables.go: Table._StringTableStruct"), ("cell formatting", "gotables.go: GetValAsStringByColIndex"), ("parser", "parser.go: parseString, getRowSlice")],
  ["Table.String", "Table.StringUnpadded", "TableSet.String", "NewTableFromString", "NewTableSetFromString"])

p("C02", "Layout never changes meaning, and no text is silently dropped",
  "The meaning of a gotables document does not depend on its layout: the number of spaces and tabs between cells, indentation, blank lines before and between tables, comment lines, CRLF line ends, a missing final newline, and struct shape versus tabular shape all parse to the same tables. A document that has been damaged (a cell missing or extra in a row, a cell that is not of its column's type, a duplicate column or table name, column names without types, an invalid name or type, trailing text after a value) is rejected with an error; it never yields tables in which some of the text was silently dropped or misread.",
  "every valid document, every combination of layout changes to it, and every single damage to it",
  "Tests parse fixed documents in one or two layouts and a handful of malformed ones; the claim is about every layout of every document and damage at every position.",
  ["parser.go"],
  [("document state machine", "parser.go: parseString"), ("shape detection", "parser.go: getTableShape"), ("row splitting", "parser.go: getRowSlice"), ("names", "parser.go: getTableName, getColNames, getColTypes")],
  ["NewTableSetFromString", "NewTableFromString"])

p("C03", "Parsing text always ends with a valid result or an error",
  "Parsing any text at all, valid or not, returns either an error or a table set: it never panics, never fails to end and never ends the process. What it accepts is a valid table set, and writing that set as text and parsing it again gives exactly the same set.",
  "every byte string, from random bytes through mutated and spliced real documents",
  "Tests feed a fixed list of malformed inputs; robustness is a claim about every byte string.",
  ["parser.go"],
  [("parser", "parser.go: parseString"), ("validation", "gotables.go: IsValidTable")],
  ["NewTableSetFromString", "NewTableFromString", "TableSet.IsValidTableSet"])

p("C04", "A literal in text means its Go value, and out-of-range is an error",
  "A cell's literal denotes the Go value of the same literal in its column's type: integers in decimal and the documented prefixed bases, floats to the nearest representable value, booleans, quoted strings and runes with Go escapes, byte slices of values 0 to 255, RFC 3339 times, and table names. A literal outside its type's range, or not of its type, is rejected with an error and never wraps, truncates or takes another value.",
  "every literal of every column type, in every base and spelling, in and out of range, tabular and struct shape",
  "Tests check a few literals per type; the ranges, bases, escapes and roundings form a space only generation covers.",
  ["parser.go"],
  [("literal regular expressions", "parser.go: regexps"), ("conversion", "parser.go: getRowSlice"), ("byte slices", "parser.go: getByteSlice"), ("time", "parser.go: time.Time case")],
  ["NewTableFromString", "GetVal"])

p("C05", "JSON round trip: valid JSON out, the same tables back",
  "A table or set of tables written as JSON is a valid JSON document (indented and unindented forms are the same document), and reading it back gives the same names, columns, types, rows and exactly equal cell values, including nested tables to any depth. A value JSON cannot carry is reported as an error, never written as invalid JSON or as another value.",
  "every set of tables: all column types, all values, all names, nested tables",
  "Tests convert fixed tables with small values; 64-bit integers, escapes, float extremes and nesting depth need generated values.",
  ["json.go"],
  [("writer", "json.go: getTableAsJSON_recursive"), ("reader", "json.go: newTableFromJSON_recursive")],
  ["GetTableSetAsJSON", "GetTableAsJSON", "GetTableAsJSONIndent", "NewTableSetFromJSON", "NewTableFromJSON"])

p("C06", "YAML round trip: the same tables back",
  "A set of tables written as YAML is a document a standard YAML parser reads, and reading it back gives the same set name, tables, columns, types, rows and equal cell values (the sign of a zero excepted), including nested tables to any depth. A value YAML cannot carry, or a circular nesting, is reported as an error and never written as something else.",
  "every set of tables: all column types, all values, all names, nested tables",
  "Tests convert a few fixed tables; YAML's implicit typing (numbers, booleans, dates, null-like strings) makes particular values go wrong.",
  ["yaml.go"],
  [("writer", "yaml.go: GetTableSetAsMap, getTableAsYAML"), ("reader", "yaml.go: NewTableSetFromYAML")],
  ["GetTableSetAsYAML", "NewTableSetFromYAML"])

p("C07", "Gob round trip: the same tables back",
  "A table or set of tables of the documented cell types encoded as Gob and decoded gives the same names, columns, types, rows, exactly equal cell values, struct shape, file name of the set, and sort keys with their directions; a cell type documented as unsupported (nested tables, times) is an error. Nothing of the original is changed by encoding.",
  "every table and set: all column types and values, with and without sort keys",
  "Tests encode two or three fixed tables without sort keys.",
  ["gob.go"],
  [("export", "gob.go: exportTable"), ("import", "gob.go: importTable")],
  ["Table.GobEncode", "TableSet.GobEncode", "NewTableFromGob", "NewTableSetFromGob"])

p("C08", "Malformed JSON, YAML or Gob is an error, never a panic or bad table",
  "Reading any JSON or YAML text or any Gob bytes, however malformed, returns an error or a table set that is valid; it never panics and never yields tables whose cells do not hold their column's type. Damage to the structure of a document (a missing key, a cell of the wrong JSON type, a row with missing or extra cells, an unknown column or type) is reported as an error.",
  "arbitrary, mutated and structurally damaged documents in the three formats",
  "Tests try a short list of broken documents.",
  ["json.go", "yaml.go", "gob.go"],
  [("JSON reader", "json.go: newTableFromJSON_recursive"), ("YAML reader", "yaml.go: newTableFromYAML_recursive"), ("Gob reader", "gob.go: GobDecodeTable, GobDecodeTableSet")],
  ["NewTableSetFromJSON", "NewTableFromJSON", "NewTableFromJSONByTableName", "NewTableSetFromYAML", "NewTableFromGob", "NewTableSetFromGob"])

p("C09", "Sort puts rows in key order and keeps every row whole",
  "Sorting by any sequence of sort keys, each ascending or reversed, leaves the rows in the order of those keys compared in sequence (numbers by value with NaN before every number, strings alphabetically ignoring case and then upper case before lower, false before true), and the rows afterwards are a permutation of the rows before with every row intact. Sorting changes nothing else. Sorting with unknown or unsortable keys or no keys is an error that leaves the table as it was.",
  "every table, every key sequence, every direction, with many duplicate keys",
  "Tests sort small fixed tables on a few key types; every type, direction and key combination with ties is beyond them.",
  ["sort.go"],
  [("sort", "sort.go: Sort, SortSimple"), ("compare functions", "sort.go: compareFuncs"), ("multi-key less", "sort.go: Less")],
  ["Sort", "SortSimple", "SetSortKeys", "SetSortKeysReverse", "CompareRows"])

p("C10", "Search finds exactly the rows a linear scan finds",
  "On a table sorted by its sort keys, searching for any combination of key values returns the first, the last, and the range of rows whose keys equal the searched values, exactly as a linear scan would, and reports not found exactly when no row matches; a new table made from a search range holds exactly the matching rows. Searching never changes the table, and wrong numbers or types of search values are errors. The package-level first and last binary searches agree with a linear scan for every monotonic predicate.",
  "every sorted table, ascending and reversed keys, duplicates, and searched values below, between, equal to and above those present; every size including empty",
  "Tests search fixed tables for chosen values; boundary positions and mixed directions with duplicates are an unbounded space.",
  ["sort.go", "gotables.go"],
  [("first", "sort.go: SearchFirst, searchByKeysFirst"), ("last", "sort.go: SearchLast, searchByKeysLast"), ("range", "sort.go: SearchRange"), ("table from range", "gotables.go: NewTableFromRowsBySearchRange")],
  ["Search", "SearchFirst", "SearchLast", "SearchRange", "NewTableFromRowsBySearchRange"])

p("C11", "Edit histories agree with a simple model of a table",
  "After any sequence of row and column operations (append, delete, rename, set, reset to zero values or NaN, reorder, sort, copy in rows or columns from another table) the table holds exactly what a simple list-of-rows model holds after the same sequence, remains valid, and every lookup by name agrees with lookup by index. An operation that returns an error leaves the table as it was.",
  "every finite sequence of operations with valid and invalid arguments",
  "Tests run short fixed sequences, mostly one operation each; stale index maps, sort keys and aliasing only show after particular histories.",
  ["gotables.go"],
  [("columns", "gotables.go: AppendCol, DeleteColByColIndex, RenameCol"), ("rows", "gotables.go: AppendRows, DeleteRows"), ("cells", "gotables.go: SetValByColIndex"), ("validity", "gotables.go: IsValidTable")],
  ["all row, column and cell methods of Table", "IsValidTable"], over=("histories", "inputs"))

p("C12", "Typed cell access is type safe and returns what was set",
  "For every column type, a typed or untyped set of a cell by column name or index succeeds exactly when the type is the column's (byte and uint8, and rune and int32, being the same Go types) and the cell exists, and afterwards every typed and untyped get of that cell returns exactly the value set and all other cells are unchanged. A set or get of the wrong type, an unknown column or a row out of range is an error (or a panic for the Must forms) and changes nothing; so is setting the cells of a whole row or column that does not exist or has another type, even where no cell would be set.",
  "every pairing of accessor type and column type, by name and by index, plain and Must forms, every value, valid and invalid positions",
  "There are over 160 near-identical accessors; tests call each with one or two values and rarely with a wrong type.",
  ["helpers.go", "gotables.go"],
  [("typed accessors", "helpers.go"), ("untyped accessors", "gotables.go: SetVal, GetVal")],
  ["SetXxx", "GetXxx", "SetXxxByColIndex", "GetXxxByColIndex", "...MustSet", "...MustGet", "SetVal", "GetVal"])

p("C13", "Equality holds for copies and fails for any difference",
  "Two tables are equal exactly when they have the same name, the same columns in whatever order and the same rows in order with equal values (times by instant; NaN is outside this property), nested tables compared the same way: a table equals itself and an independently built twin, equality is symmetric, and changing any one cell, column name, column type, row count or nested cell makes them unequal. Table sets are equal exactly when they hold equal tables.",
  "every table, its twins, and every single difference",
  "Tests compare a few fixed pairs.",
  ["gotables.go"],
  [("table equality", "gotables.go: Table.Equals"), ("set equality", "gotables.go: TableSet.Equals"), ("bytes", "gotables.go: Uint8SliceEquals")],
  ["Table.Equals", "TableSet.Equals", "Uint8SliceEquals"])

p("C14", "Copies are equal and independent",
  "A copy of a table or table set (shallow, columns only, deep, or a new table made from a range of rows) holds the same data as what it was made from, and afterwards no edit made to the copy is visible in the original and no edit made to the original is visible in the copy. Nested tables are shared by a shallow copy and are independent at every depth after a deep copy. Making a copy does not change the original.",
  "every table and set, every sequence of edits on either side after copying",
  "Tests check that a fresh copy looks the same; shared state only shows when one side is edited afterwards.",
  ["gotables.go", "tree.go"],
  [("copy", "gotables.go: Table.Copy, CopyCols, TableSet.Copy"), ("deep copy", "tree.go: CopyDeep"), ("rows", "gotables.go: NewTableFromRows, AppendRowsFromTable")],
  ["Copy", "CopyCols", "CopyDeep", "TableSet.Copy", "NewTableFromRows"], over=("inputs", "histories"))

p("C15", "A table set is a register of uniquely named tables",
  "After any sequence of append, delete, rename and lookup operations a table set behaves as an ordered list of uniquely named tables: lookups by name and index agree, order is insertion order, deleting removes exactly the named table, and duplicates, unknown names and out-of-range indexes are errors that change nothing.",
  "every finite sequence of set operations with valid and invalid arguments",
  "Tests use single operations on small fixed sets.",
  ["gotables.go"],
  [("set operations", "gotables.go: AppendTable, DeleteTableByTableIndex, TableSet.RenameTable, GetTable")],
  ["TableSet methods"], over=("histories",))

p("C16", "Rearranging columns moves whole columns and nothing else",
  "Swapping two columns, reordering columns in place or into a new table (by name or by index), and ordering columns by sort keys produce exactly the requested column order, and every cell keeps its value under its column's name and row. Incomplete, duplicate or unknown columns in a request are errors that leave the table as it was.",
  "every table and every permutation, and every invalid request",
  "Tests check names and types after a few rearrangements, not cell values under every permutation.",
  ["sort.go", "gotables.go"],
  [("swap", "sort.go: SwapColsByColIndex"), ("reorder", "gotables.go: ReorderCols, NewTableReorderCols"), ("by sort keys", "sort.go: OrderColsBySortKeys")],
  ["SwapCols", "ReorderCols", "NewTableReorderCols", "OrderColsBySortKeys"])

p("C17", "Merge joins two tables on their keys, losing no row and no value",
  "Merging two tables on their common sort keys (those of the first if set, otherwise those of the second) gives exactly one row for each key present in either table, sorted by the keys, with every column of both; each cell has the value of the table that has that key, and where both tables hold a non-key cell a missing, zero or NaN value never overrides a real one. Making the rows of one table unique by its keys follows the same rule and keeps its name. Neither input table of a merge is changed, and tables that cannot be merged (no common keys, mismatched column types) give an error.",
  "every pair of mergeable tables: overlapping and disjoint keys, one or several keys, every column type, shared and private columns",
  "Tests merge a few fixed pairs.",
  ["merge.go", "sort.go"],
  [("merge", "merge.go: Merge, merge functions"), ("unique rows", "sort.go: SortUnique")],
  ["Merge", "SortUnique"])

p("C18", "Reversing, shuffling and copying rows lose and invent nothing",
  "Reversing a table gives its rows in exactly reverse order and twice gives the original; shuffling gives a permutation of the rows, the pseudorandom one always the same for the same number of rows; making a table from a range of rows, or appending a range of rows from a table to another, gives exactly those rows in order. Every row stays whole, and an invalid range is an error that changes nothing.",
  "every table and every range, valid or not",
  "Tests run each on one small table.",
  ["gotables.go"],
  [("reverse and shuffle", "gotables.go: Reverse, ShuffleRandom, ShufflePseudorandom"), ("row ranges", "gotables.go: NewTableFromRows, AppendRowsFromTable")],
  ["Reverse", "ShuffleRandom", "ShufflePseudorandom", "NewTableFromRows", "AppendRowsFromTable"])

p("C19", "Nested tables: every walk ends, visits all once, and finds cycles",
  "Walking a table or set visits every table and every cell at every depth exactly once, in row and column order, and ends; the checks for circularity and validity never panic, loop or end the process. A table that occurs within itself, directly or through others, or more than once in a nesting, is reported as a circular reference, with an error that says which table, and a nesting in which every table occurs once is not, whatever its depth. The nested text of an acyclic nesting holds every table of it once, each after the table it is in and under a name of its own, and parses as a set, and a nested table's parent is the table whose cell it is in.",
  "every acyclic nesting of any shape and depth, and every nesting with a cycle of any length at any place",
  "Tests build two or three nestings by hand.",
  ["tree.go", "errors.go", "gotables.go"],
  [("walk", "tree.go: Table.Walk, TableSet.Walk"), ("cycles", "tree.go: HasCircularReference, isCircularReference")],
  ["Walk", "HasCircularReference", "IsValidTableNesting", "GetCellInfo", "StringNested", "ParentTable", "GetCircRefError"])

p("C20", "CSV output reads back to the same cells",
  "A table with columns written as CSV, read by a standard CSV reader, has one heading record (column names or the substitutes given) and one record per row, each with one field per column that denotes exactly the cell's value (NaN is the empty field; a nested table is its name in brackets). A table or list of headings that cannot be written as CSV gives an error, not partial or empty output.",
  "every table of CSV-able columns, every string including quotes, commas and line ends",
  "Tests print one or two fixed tables.",
  ["gotables.go"],
  [("CSV", "gotables.go: GetTableAsCSV")],
  ["GetTableAsCSV"])

p("C21", "Generated Go code compiles and declares the table's columns",
  "The Go source generated for a table (its struct type, and the functions to fill a slice of that struct from a table and a table from a slice) is Go that type-checks, with one field per column of the column's type in order, and running the two functions takes a table to a slice and back without loss. A table whose names Go cannot use gives an error and no code. Source formatting gives what the standard formatter gives, or an error.",
  "every table with identifier column names and every column type combination",
  "Tests compare output for one or two fixed tables.",
  ["generate.go", "util.go"],
  [("generation", "generate.go"), ("formatting", "util.go: UtilFormatSource")],
  ["GenerateTypeStruct", "GenerateTypeStructSliceFromTable", "GenerateTypeStructSliceToTable"])

p("C22", "Names and types valid in the API are exactly those valid in text",
  "A name accepted for a table or column by the API is accepted by the parser in the same place and survives a round trip, and a name rejected by one is rejected by the other; a rejected name or type leaves the table as it was. The set of valid column types is the same for the validity check, column creation, metadata creation and the parser.",
  "every string as a table name, column name and column type, through every operation that takes one",
  "Tests try a few good and bad names through a few of the entry points.",
  ["parser.go", "gotables.go"],
  [("validity", "parser.go: IsValidTableName, IsValidColName, IsValidColType"), ("users", "gotables.go: SetName, AppendCol, RenameCol, NewTableFromMetadata")],
  ["IsValidTableName", "IsValidColName", "IsValidColType", "NewTable", "SetName", "AppendCol", "RenameCol", "NewTableFromMetadata", "NewTableFromString"])

p("C23", "Parse errors name the right line, and parses do not affect each other",
  "When a document is rejected because of one bad line, the error names the file and that line's number, counting from 1 and including blank and comment lines. Parsing is a function of its input alone: what one parse returns, line numbers in errors included, does not depend on other parses before it or at the same time.",
  "every document with one bad line at any position; every sequence and concurrent set of parses",
  "Tests hardly look at line numbers and never parse concurrently.",
  ["parser.go"],
  [("line counting", "parser.go: parseString, gotFilePos")],
  ["NewTableSetFromString", "NewTableSetFromFile"], over=("inputs", "schedules"))

p("C24", "Files hold exactly what was written",
  "A table or set written to a file and read back by any of the file readers is the same table or set, the set knows the file's name, an existing longer file is fully replaced, and a missing file or unknown table is an error.",
  "every table and set, every earlier content of the file",
  "Tests write one file.",
  ["gotables.go", "parser.go"],
  [("write", "gotables.go: WriteFile"), ("read", "gotables.go: NewTableSetFromFile, NewTableFromFile, NewTableFromFileByTableName")],
  ["WriteFile", "NewTableSetFromFile", "NewTableFromFile", "NewTableFromFileByTableName"])

p("C25", "Nesting a table groups exactly the matching rows",
  "Nesting one table into another by its sort keys adds to the receiving table one column in which each row holds, as table text, a table of exactly the nestable rows with the same key (none for an unmatched row), each nestable row appearing under every matching row; the receiving table is then sorted by its keys and its other columns are unchanged. Failure leaves the receiving table, its sort keys included, as it was.",
  "every pair of tables with matching keys, duplicates and unmatched keys",
  "Tests nest one fixed pair.",
  ["nest.go"],
  [("nest", "nest.go: Nest")],
  ["Table.Nest"])

p("C26", "The command line tools report and echo exactly what the library reads",
  "The syntax checking tool exits with status 0 exactly when every file it is given parses and holds tables, and names each file that does not. The echo tool writes the library's own text of the set it reads (or of the one table asked for, rotated to or from struct shape when asked and the table has at most one row, unpadded when asked), the same whether it reads a file or a pipe; anything it cannot do ends with a non-zero status and writes no table.",
  "every list of files, valid, invalid, empty and missing, and every combination of the tools' options",
  "The tools' own tests run a few fixed command lines and are not part of the library's test suite.",
  ["cmd/gotecho/gotecho.go", "cmd/gotsyntax/gotsyntax.go"],
  [("echo", "cmd/gotecho/gotecho.go: main"), ("syntax", "cmd/gotsyntax/gotsyntax.go: main")],
  ["exit status and output of gotecho and gotsyntax"], over=("inputs", "configurations"))

p("C27", "Questions about a table agree with its contents",
  "What a table says about itself is what it holds: its name, its shape, its column and row counts, the name, type and position of each column, whether it has a given column, row or cell, whether a column is of a given type, whether a value is valid for a column, and its cells as text; asking by column name and by column index give the same answers, a value is said to be valid for a column exactly when it can be set there, and asking changes nothing. A question about a column, row or cell that does not exist is an error and never a panic; every method of a table or set that is nil gives an error (or, if it cannot, an empty answer), and a Must form panics with the reason.",
  "every table, every column name and index, row index, type and value, present or not; every method of the API on a nil receiver",
  "Tests ask a few questions of fixed tables; agreement of some thirty queries with each other and with the contents, in and out of range, and of every method on a nil receiver, is a claim about all of them.",
  ["gotables.go", "parser.go", "tree.go", "sort.go"],
  [("columns and types", "gotables.go: ColIndex, ColType, IsColType, HasCol"), ("cells", "gotables.go: HasCell, HasRow, GetValAsStringByColIndex"), ("values", "gotables.go: IsValidCellValue"), ("column information", "gotables.go: GetColInfoAsTable, GetColInfoAsSlices")],
  ["every exported method of Table and TableSet that returns information"])

p("C28", "The sort keys of a table are a list which edits keep in step with its columns",
  "A table's sort keys are exactly those set: setting replaces them, appending adds one at the end, deleting takes that one away, reversing marks those named and no others, and taking them from another table gives the same keys in the same order and direction. A key that is not a column, or not of a sortable type, is refused, and a refused request leaves the keys as they were. Renaming a column renames its key, deleting a column deletes its key, moving columns leaves the keys as they were, and neither table's keys depend on the other's afterwards.",
  "every history of key and column operations on two tables, with valid and invalid arguments",
  "Tests set keys and sort at once; that the keys stay in step through any history of edits is a claim about histories.",
  ["sort.go", "gotables.go"],
  [("keys", "sort.go: SetSortKeys, AppendSortKey, DeleteSortKey, SetSortKeysReverse, SetSortKeysFromTable"), ("columns", "gotables.go: RenameCol, DeleteCol")],
  ["GetSortKeysAsTable", "SortKeyCount", "IsSortKey"], over=("histories",))

p("C29", "Separate tables do not affect each other, in sequence or at the same time",
  "What an operation does depends on the tables it is given and on nothing else: not on what was done before to other tables, and not on what other goroutines are doing at the same time to tables of their own. Programs that use separate tables give the same results alone, interleaved, and at the same time in goroutines, without data races; a table sent to another goroutine over a channel goes on as it would have in the first.",
  "every set of operation histories on separate tables, every interleaving and schedule of them",
  "Tests run one operation at a time on one table; independence is a claim about every combination and every schedule.",
  ["gotables.go", "parser.go", "sort.go", "tree.go", "json.go", "yaml.go", "gob.go", "merge.go"],
  [("package variables", "every package-level variable"), ("shuffle", "gotables.go: ShufflePseudorandom"), ("nested text", "gotables.go: stringNested_recursive")],
  ["every operation of Table and TableSet"], over=("schedules", "histories"))

p("C30", "Utility functions do what they say",
  "Rounding gives the nearest multiple of the wanted power of ten, halves going up, for negative numbers as for positive. A string flag says whether it was given, keeps its value unchanged, and reports an argument that looks like another flag; a required flag that is missing is an error; the names and line a function asks for are those of its caller, source code is formatted as the Go formatter does it, and a command is reported as installed exactly when it can be found. Input from a pipe is returned whole, byte for byte, or an error is returned; a time limit ends the wait with an error and never alters what arrives in time.",
  "every number and number of places; every command line of flags; every byte content, size and timing of the pipe",
  "Tests round a few positive numbers, read no pipe, and use valid text.",
  ["util.go"],
  [("rounding", "util.go: UtilRound"), ("pipes", "util.go: UtilGulpFromPipe, UtilGulpFromPipeWithTimeout"), ("flags", "util.go: UtilStringFlag, UtilCheckStringFlag")],
  ["UtilRound", "UtilGulpFromPipe", "UtilGulpFromPipeWithTimeout", "UtilFuncName and its kin", "UtilFormatSource"], over=("inputs", "schedules"))

p("C31", "Padded text lines its columns up",
  "The text of a table is its name, a line of column names, a line of types and a line for each row, with no white space at the end of a line and one end of line at the end of the text; in padded text columns do not run into each other, whole-number columns end at their right edge, floating-point columns have their points under each other and other columns start at their left edge, counting characters and not bytes, whatever the widths of names, types and cells; padded and unpadded text have the same cells (but for zeros at the end of a fraction), unpadded text separating them by single spaces. A table in struct shape has a line for each column instead. The text of a set is its name and the texts of its tables, in order, separated by empty lines.",
  "every table and set: every type, every width of name and cell, every value, both shapes",
  "Tests compare the text of a few narrow tables; that columns line up whatever is in them is a claim about every width and every value.",
  ["gotables.go"],
  [("padding", "gotables.go: StringPadded, String"), ("sets", "gotables.go: TableSet.StringPadded, StringUnpadded"), ("points", "gotables.go: setWidths, padTrailingZeros")],
  ["String, StringPadded and StringUnpadded of Table and TableSet"])

p("C32", "No request spoils a table, or touches what it was not asked to change",
  "Whatever is asked of a table or a set, by any method, with any arguments, in any order, the library does not panic (but for the Must form of a refused request, which says why); a request that gives an error leaves every table and set as they were; a request that only asks changes nothing; a request that changes a table or a set changes that one alone (but for Nest and Merge, which make the sort keys of both tables the same); and every table is valid afterwards, with each cell of the type of its column: no table holds what it would not have accepted.",
  "every history of calls of every exported method of Table and TableSet, with fitting and unfitting arguments",
  "Tests call a method with arguments chosen for it; that no call at all spoils a table is a claim about every method, every argument and every state.",
  ["gotables.go", "helpers.go", "sort.go", "merge.go", "nest.go", "tree.go"],
  [("edits", "gotables.go: AppendCol, DeleteRows, SetVal, AppendRowsFromTable"), ("keys", "sort.go: SetSortKeys, SortUnique"), ("two tables", "merge.go: Merge; nest.go: Nest")],
  ["every exported method of Table and TableSet, found by reflection"], over=("histories", "inputs"))

p("C33", "One table can be read by many goroutines at the same time",
  "Asking does not write: any number of goroutines may, at the same time, ask anything of the same table, of the tables nested in it and of a set they are in (its text, JSON, YAML, Gob, copies, equality, searches, values, walks, generated code: every method but those which are asked to change a table or a set), and each gets the answer it would have got alone, with no data race.",
  "every set of questions of every method, every table and nesting of tables, every schedule of them",
  "Tests ask one question at a time; that no question writes to a table, not even for a moment, is a claim about every method and every schedule.",
  ["gotables.go", "tree.go", "sort.go", "json.go", "yaml.go", "gob.go", "helpers.go"],
  [("walks", "tree.go: Walk, HasCircularReference"), ("nested text", "gotables.go: stringNested_recursive"), ("copies", "gotables.go: Copy, Equals"), ("searches", "sort.go: Search, SearchRange")],
  ["every method of Table and TableSet that only asks, found by reflection"], over=("schedules", "inputs"))

p("C34", "What a table does depends on what it holds, not on how it came to hold it",
  "Two tables that hold the same (name, shape, columns, cells, sort keys, nesting) give the same answers to the same requests, fail at the same requests, and hold the same after each of them, however each of them was made: built up by requests, parsed from text, read from JSON, YAML or Gob, copied, made from rows of another, or with columns and rows moved, sorted or added and taken away again.",
  "every table, every way to make it, every history of requests after it",
  "Tests edit tables made in one way; that no way leaves something behind which shows only in a later request is a claim about every way, every table and every history.",
  ["gotables.go", "parser.go", "json.go", "yaml.go", "gob.go", "helpers.go", "sort.go", "merge.go", "nest.go"],
  [("parsed rows", "parser.go: getRowSlice, parseTable"), ("copies", "gotables.go: AppendRowsFromTable, AppendColsFromTable, CopyDeep"), ("decoding", "gob.go: GobDecodeTable; json.go: NewTableFromJSON; yaml.go: NewTableSetFromYAML")],
  ["every way to make a table, every method of Table"], over=("histories", "inputs"))

p("C35", "The same thing asked for in another way is the same thing",
  "Where there is more than one way to ask for something, each does the same, answers the same and fails at the same times, after any history: by column name or by column index; by a plain method or its MustGet or MustSet form (which panics just where the plain one returns an error); all at once or step by step (rows, columns, sort keys, sorting, zero values, NaN); taken from a table or put together from its parts; of a table in a set or alone, a set whole or table by table; and a text or JSON document gives the same tables (or is refused) read as a set or as one table, by name or by index, from a string or from a file.",
  "every table, every pair of ways, every history of requests; every document, valid or not",
  "Tests call each method a few times; that two ways never part is a claim about every table and every history which led to it.",
  ["gotables.go", "helpers.go", "sort.go", "tree.go", "json.go", "parser.go"],
  [("by name and by index", "helpers.go, gotables.go: methods with a ByColIndex form"), ("Must forms", "helpers.go: ...MustGet, ...MustSet"), ("at once", "gotables.go: DeleteRows, AppendRows, SetAllFloatCellsToNaN, AppendColsFromTable; helpers.go: SetRowCellsToZeroValue; sort.go: SetSortKeys, Sort, SortSimple"), ("readings", "gotables.go: NewTableFromString..., NewTableFromFile...; json.go: NewTableFromJSONByTableName")],
  ["every method of Table with more than one form, reading text and JSON"], over=("histories", "inputs"))

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
