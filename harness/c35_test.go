package gtverif

import (
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"testing"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C35: the same thing asked for in another way is the same thing.

// way of asking for something: what it answers, and whether it could not be done.
type way func(tb *gotables.Table) (answer any, err error)

func join(err *error, e error) bool {
	*err = errors.Join(*err, e)
	return e == nil
}

// inTwoWays draws something to ask for in two ways; nil if there is no such thing to ask of tb.
func inTwoWays(w *world, tb *gotables.Table) (what string, a, b way) {
	t := w.t
	rows, cols := tb.RowCount(), tb.ColCount()
	names, types, err := tb.GetColInfoAsSlices()
	if err != nil {
		names, types = nil, nil
	}
	row := rapid.IntRange(-1, rows).Draw(t, "row")
	col := -1
	if cols > 0 {
		col = rapid.IntRange(0, cols-1).Draw(t, "col")
	}
	some := func() (out []string) { // Some of the columns, mostly such as can be keys.
		for i, name := range names {
			if (isKeyType(types[i]) || rapid.IntRange(0, 9).Draw(t, "odd") == 0) && rapid.Bool().Draw(t, "some") {
				out = append(out, name)
			}
		}
		if len(out) > 1 {
			out = rapid.Permutation(out).Draw(t, "order")
		}
		return
	}
	do := func(f func(tb *gotables.Table) error) way {
		return func(tb *gotables.Table) (any, error) { return nil, f(tb) }
	}
	floats := func(tb *gotables.Table, f func(c int) error) (err error) {
		for c := range types {
			if types[c] == "float32" || types[c] == "float64" {
				join(&err, f(c))
			}
		}
		return
	}
	switch rapid.IntRange(0, 24).Draw(t, "way") {
	case 0:
		return fmt.Sprintf("row %d deleted alone and as a range", row),
			do(func(tb *gotables.Table) error { return tb.DeleteRow(row) }),
			do(func(tb *gotables.Table) error { return tb.DeleteRows(row, row) })
	case 1:
		n := rapid.IntRange(1, 5).Draw(t, "n")
		return fmt.Sprintf("%d rows appended at once and one by one", n),
			do(func(tb *gotables.Table) error { return tb.AppendRows(n) }),
			do(func(tb *gotables.Table) (err error) {
				for i := 0; i < n; i++ {
					join(&err, tb.AppendRow())
				}
				return
			})
	case 2:
		if rows > 0 {
			return "all rows deleted, and as a range",
				do(func(tb *gotables.Table) error { return tb.DeleteRowsAll() }),
				do(func(tb *gotables.Table) error { return tb.DeleteRows(0, rows-1) })
		}
	case 3:
		if rows > 1 {
			first := rapid.IntRange(0, rows-1).Draw(t, "first")
			last := rapid.IntRange(first, rows-1).Draw(t, "last")
			if rapid.IntRange(0, 2).Draw(t, "allRows") == 0 {
				first, last = 0, rows-1
			}
			return fmt.Sprintf("rows %d to %d deleted as a range and one by one", first, last),
				do(func(tb *gotables.Table) error { return tb.DeleteRows(first, last) }),
				do(func(tb *gotables.Table) (err error) {
					for r := last; r >= first; r-- {
						join(&err, tb.DeleteRow(r))
					}
					return
				})
		}
	case 4:
		keys := some()
		return fmt.Sprintf("keys %q set at once and appended", keys),
			do(func(tb *gotables.Table) error { return tb.SetSortKeys(keys...) }),
			do(func(tb *gotables.Table) (err error) {
				join(&err, tb.SetSortKeys())
				for _, key := range keys {
					join(&err, tb.AppendSortKey(key))
				}
				return
			})
	case 5, 6:
		keys := some()
		simple := rapid.Bool().Draw(t, "simple")
		if len(keys) > 0 {
			return fmt.Sprintf("sorted by %q and by keys set before (simple %v)", keys, simple),
				do(func(tb *gotables.Table) error {
					if simple {
						return tb.SortSimple(keys...)
					}
					return tb.Sort(keys...)
				}),
				do(func(tb *gotables.Table) (err error) {
					if join(&err, tb.SetSortKeys(keys...)) {
						join(&err, tb.Sort())
					}
					return
				})
		}
	case 7:
		keys := some()
		return fmt.Sprintf("keys %q reversed at once and one by one", keys),
			do(func(tb *gotables.Table) (err error) {
				if join(&err, tb.SetSortKeys(keys...)) {
					join(&err, tb.SetSortKeysReverse(keys...))
				}
				return
			}),
			do(func(tb *gotables.Table) (err error) {
				if join(&err, tb.SetSortKeys(keys...)) {
					for _, key := range slices.Backward(keys) {
						join(&err, tb.SetSortKeysReverse(key))
					}
				}
				return
			})
	case 8:
		by := rapid.IntRange(0, 2).Draw(t, "by")
		return fmt.Sprint("all floats to NaN, and by parts ", by),
			do(func(tb *gotables.Table) error { return tb.SetAllFloatCellsToNaN() }),
			do(func(tb *gotables.Table) (err error) {
				if by == 0 {
					return floats(tb, tb.SetColFloatCellsToNaNByColIndex)
				}
				for r := 0; r < rows; r++ {
					if by == 1 {
						join(&err, tb.SetRowFloatCellsToNaN(r))
						continue
					}
					join(&err, floats(tb, func(c int) error { return tb.SetFloatCellToNaNByColIndex(c, r) }))
				}
				return
			})
	case 9:
		if row >= 0 && row < rows {
			return fmt.Sprintf("row %d to zero, and its cells", row),
				do(func(tb *gotables.Table) error { return tb.SetRowCellsToZeroValue(row) }),
				do(func(tb *gotables.Table) (err error) {
					for c := range names {
						join(&err, tb.SetCellToZeroValueByColIndex(c, row))
					}
					return
				})
		}
	case 10:
		if col >= 0 {
			return fmt.Sprintf("col %d to zero, and its cells", col),
				do(func(tb *gotables.Table) error { return tb.SetColCellsToZeroValueByColIndex(col) }),
				do(func(tb *gotables.Table) (err error) {
					for r := 0; r < rows; r++ {
						join(&err, tb.SetCellToZeroValue(names[col], r))
					}
					return
				})
		}
	case 11:
		if col >= 0 {
			other := rapid.IntRange(0, cols-1).Draw(t, "other")
			order := indices(cols)
			order[col], order[other] = order[other], order[col]
			if other != col {
				return fmt.Sprintf("cols %d and %d swapped, and put in that order", col, other),
					do(func(tb *gotables.Table) error { return tb.SwapColsByColIndex(col, other) }),
					do(func(tb *gotables.Table) error { return tb.ReorderColsByColIndex(order...) })
			}
		}
	case 12:
		order := rapid.Permutation(indices(cols)).Draw(t, "order")
		return fmt.Sprintf("cols put in order %v, and one by one", order),
			do(func(tb *gotables.Table) error { return tb.ReorderColsByColIndex(order...) }),
			do(func(tb *gotables.Table) (err error) {
				for to, from := range order {
					at, e := tb.ColIndex(names[from])
					join(&err, e)
					if at != to {
						join(&err, tb.SwapColsByColIndex(to, at))
					}
				}
				return
			})
	case 13:
		return "a copy, and its columns with the rows appended",
			func(tb *gotables.Table) (any, error) {
				x, err := tb.Copy()
				return asIs(t, x, err)
			},
			func(tb *gotables.Table) (any, error) {
				x, err := tb.CopyCols()
				if err == nil && rows > 0 {
					err = x.AppendRowsFromTable(tb, 0, rows-1)
				}
				return asIs(t, x, err)
			}
	case 14:
		if rows > 0 {
			first := rapid.IntRange(0, rows-1).Draw(t, "first")
			last := rapid.IntRange(first, rows-1).Draw(t, "last")
			return fmt.Sprintf("a table of rows %d to %d, and one from which the others are deleted", first, last),
				func(tb *gotables.Table) (any, error) {
					x, err := tb.NewTableFromRows("N", first, last)
					return plainRows(t, x, err)
				},
				func(tb *gotables.Table) (any, error) {
					x, err := tb.Copy()
					if err == nil && last < rows-1 {
						err = x.DeleteRows(last+1, rows-1)
					}
					if err == nil && first > 0 {
						err = x.DeleteRows(0, first-1)
					}
					if err == nil {
						err = x.SetName("N")
					}
					return plainRows(t, x, err)
				}
		}
	case 15, 16:
		if tb.SortKeyCount() > 0 {
			want := -1
			args := w.arg(tb, "Search", reflect.TypeOf([]any{}), &want).Interface().([]any)
			return fmt.Sprintf("the rows of %v, and those from the first to the last", args),
				func(tb *gotables.Table) (any, error) {
					x, err := tb.NewTableFromRowsBySearchRange("N", args...)
					return plainRows(t, x, err)
				},
				func(tb *gotables.Table) (any, error) {
					first, err := tb.Search(args...)
					if err != nil {
						return nil, err
					}
					last, err := tb.SearchLast(args...)
					if err != nil {
						return nil, err
					}
					x, err := tb.NewTableFromRows("N", first, last)
					return plainRows(t, x, err)
				}
		}
	case 17:
		if col >= 0 {
			sep := rapid.SampledFrom([]string{"", ",", " | ", "\n"}).Draw(t, "sep")
			return fmt.Sprintf("values of col %d joined by %q and one by one", col, sep),
				func(tb *gotables.Table) (any, error) { return tb.JoinColValsByColIndex(col, sep) },
				func(tb *gotables.Table) (any, error) {
					var vals []string
					for r := 0; r < rows; r++ {
						s, err := tb.GetValAsString(names[col], r)
						if err != nil {
							return nil, err
						}
						vals = append(vals, s)
					}
					return strings.Join(vals, sep), nil
				}
		}
	case 18:
		name := rapid.SampledFrom([]string{"N", "a b", "", "é", "_", "A1"}).Draw(t, "newName")
		return fmt.Sprintf("named %q and renamed", name),
			do(func(tb *gotables.Table) error { return tb.SetName(name) }),
			do(func(tb *gotables.Table) error { return tb.RenameTable(name) })
	case 19:
		from := w.table()
		return fmt.Sprintf("columns appended from %s and one by one", from),
			do(func(tb *gotables.Table) error { return tb.AppendColsFromTable(build(t, from)) }),
			do(func(tb *gotables.Table) (err error) {
				for _, c := range from.Cols {
					if typ, e := tb.ColType(c.Name); e == nil {
						if typ != c.Type {
							join(&err, errors.New("another type"))
						}
						continue
					}
					join(&err, tb.AppendCol(c.Name, c.Type))
				}
				return
			})
	case 20:
		if rows > 0 && cols > 0 {
			var vals []any
			for c := range types {
				v, err := tb.GetValByColIndex(c, max(0, min(row, rows-1)))
				must(t, err, "GetValByColIndex")
				if types[c] == "*Table" {
					v = gotables.NewNilTable()
				}
				vals = append(vals, v)
			}
			reset := func(tb *gotables.Table) error { // A row again with the values of one there is.
				var err error
				join(&err, tb.AppendRow())
				for c := range vals {
					if types[c] != "*Table" {
						join(&err, tb.SetValByColIndex(c, tb.RowCount()-1, vals[c]))
					}
				}
				return err
			}
			return fmt.Sprintf("row %d once more: values set and rows appended from itself", row),
				do(reset),
				do(func(tb *gotables.Table) error {
					x, err := tb.NewTableFromRows("N", max(0, min(row, rows-1)), max(0, min(row, rows-1)))
					if err != nil {
						return err
					}
					for c := range types {
						if types[c] == "*Table" {
							if err = x.SetColCellsToZeroValueByColIndex(c); err != nil {
								return err
							}
						}
					}
					return tb.AppendRowsFromTable(x, 0, 0)
				})
		}
	case 21:
		return "as text, and in a set",
			func(tb *gotables.Table) (any, error) {
				y, err := gotables.NewTableFromString(tb.String())
				return asIs(t, y, err)
			},
			func(tb *gotables.Table) (any, error) {
				set, err := gotables.NewTableSetFromString(tb.StringUnpadded())
				if err != nil || set.TableCount() != 1 {
					return nil, errors.Join(err, errors.New("not a table"))
				}
				y, err := set.GetTable(tb.Name())
				return asIs(t, y, err)
			}
	case 22:
		set := func(tb *gotables.Table) *gotables.TableSet {
			set, err := gotables.NewTableSet("")
			must(t, err, "NewTableSet")
			must(t, set.AppendTable(tb), "AppendTable")
			return set
		}
		if isNil, _ := tb.IsNilTable(); isNil {
			return
		}
		indent := rapid.Bool().Draw(t, "indent")
		return fmt.Sprintf("through JSON alone, and in a set (indented: %v)", indent),
			func(tb *gotables.Table) (any, error) {
				s, err := tb.GetTableAsJSON()
				if err != nil {
					return nil, err
				}
				y, err := gotables.NewTableFromJSON(s)
				return asIs(t, y, err)
			},
			func(tb *gotables.Table) (any, error) {
				s, err := set(tb).GetTableSetAsJSON()
				if indent {
					s, err = set(tb).GetTableSetAsJSONIndent()
				}
				if err != nil {
					return nil, err
				}
				y, err := gotables.NewTableSetFromJSON(s)
				if err != nil {
					return nil, err
				}
				x, err := y.GetTableByTableIndex(0)
				return asIs(t, x, err)
			}
	case 23:
		return "two of them compared one way and the other",
			func(tb *gotables.Table) (any, error) {
				x, err := tb.CopyDeep()
				must(t, err, "CopyDeep")
				if row >= 0 && row < rows {
					must(t, x.DeleteRow(row), "DeleteRow")
				}
				eq, _ := tb.Equals(x)
				return eq, nil
			},
			func(tb *gotables.Table) (any, error) {
				x, err := tb.CopyDeep()
				must(t, err, "CopyDeep")
				if row >= 0 && row < rows {
					must(t, x.DeleteRow(row), "DeleteRow")
				}
				eq, _ := x.Equals(tb)
				return eq, nil
			}
	case 24:
		return "reversed once, and three times",
			do(func(tb *gotables.Table) error { return tb.Reverse() }),
			do(func(tb *gotables.Table) (err error) {
				for i := 0; i < 3; i++ {
					join(&err, tb.Reverse())
				}
				return
			})
	}
	return
}

func asIs(t fataler, x *gotables.Table, err error) (any, error) {
	if err != nil {
		return nil, err
	}
	return tellTable(t, x, 5), nil
}

// plainRows: a table of rows is not told apart by its shape and sort keys.
func plainRows(t fataler, x *gotables.Table, err error) (any, error) {
	if err == nil {
		err = x.SetSortKeys()
	}
	if err == nil {
		_ = x.SetStructShape(false)
	}
	return asIs(t, x, err)
}

func TestC35_ways(t *testing.T) {
	tableType := reflect.TypeOf((*gotables.Table)(nil))
	var byName, must2 []string // Methods with a ByColIndex form; with a MustGet or MustSet form.
	for i := 0; i < tableType.NumMethod(); i++ {
		name := tableType.Method(i).Name
		if _, ok := tableType.MethodByName(name + "ByColIndex"); ok && name != "ColName" {
			byName = append(byName, name)
		}
		for _, m := range []string{"MustGet", "MustSet"} {
			if base, ok := strings.CutSuffix(name, m); ok {
				if _, ok := tableType.MethodByName(base); ok {
					must2 = append(must2, base)
				}
			}
		}
	}
	if len(byName) < 40 || len(must2) < 40 {
		t.Fatalf("only %d methods with a ByColIndex form and %d with a Must form", len(byName), len(must2))
	}
	var untyped []string // Such as are not for columns of one type.
	for _, name := range byName {
		if typeOfMethod(name) == "" {
			untyped = append(untyped, name)
		}
	}
	mustName := func(name string) string {
		for _, m := range []string{"MustGet", "MustSet"} {
			if _, ok := tableType.MethodByName(name + m); ok {
				return name + m
			}
		}
		return ""
	}
	runCheck(t, "two tables that hold the same (small, keyed or a tree), then 3-20 times something asked of both, of the second in another way: by column index for by name, by the Must form for the plain one, by value for by type, in one go for step by step, read back one way or another (25 such ways); non-trivial = at least 3 done without error", 30000, 1000000, func(t *rapid.T, c *Case) {
		w := &world{t: t}
		var m *MT
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 0:
			budget := 4
			m = drawTree(t, 2, &budget)
		case 1, 2:
			m = genTable(tableOpts{types: keyTypes, minCols: 1, maxCols: 4, minRows: 0, maxRows: 8}).Draw(t, "m")
		default:
			m = w.table()
		}
		two := [2]*gotables.Table{build(t, m), build(t, m)}
		for _, col := range m.Cols {
			if isKeyType(col.Type) && rapid.IntRange(0, 2).Draw(t, "isKey") == 0 {
				reverse := rapid.Bool().Draw(t, "reverse")
				for _, tb := range two {
					if must(t, tb.AppendSortKey(col.Name), "AppendSortKey"); reverse {
						must(t, tb.SetSortKeysReverse(col.Name), "SetSortKeysReverse")
					}
				}
			}
		}
		var log []string
		done := 0
		for n := rapid.IntRange(3, 20).Draw(t, "requests"); n > 0; n-- {
			tb := two[0]
			w.tables = []*gotables.Table{tb}
			kind := rapid.IntRange(0, 5).Draw(t, "form")
			var answers [2]string
			failed := false
			if kind < 3 {
				what, a, b := inTwoWays(w, tb)
				if a == nil {
					continue
				}
				log = append(log, what)
				c.Key("%s: %s", m, strings.Join(log, "; "))
				c.Class("ways")
				var errs [2]error
				for j, f := range []way{a, b} {
					var x any
					x, errs[j] = f(two[j])
					if errs[j] == nil {
						answers[j] = tell(wordless{t}, reflect.ValueOf(&x).Elem())
					}
				}
				if (errs[0] == nil) != (errs[1] == nil) {
					t.Fatalf("one way it gives %v, the other way %v\ntable: %s\nrequests: %s", errs[0], errs[1], m, strings.Join(log, ";\n"))
				}
				if failed = errs[0] != nil; failed {
					return // What is left of them after a step failed is for C32.
				}
			} else {
				list := byName
				switch kind {
				case 3:
					list = must2
				case 4:
					list = untyped
				}
				name := rapid.SampledFrom(list).Draw(t, "method")
				if typ := typeOfMethod(name); typ != "" && tb.ColCount() > 0 && rapid.Bool().Draw(t, "fitting") { // One that fits a column.
					ct, err := tb.ColTypeByColIndex(rapid.IntRange(0, tb.ColCount()-1).Draw(t, "colOfType"))
					must(t, err, "ColTypeByColIndex")
					var fit []string
					for _, x := range list {
						if typeOfMethod(x) == ct {
							fit = append(fit, x)
						}
					}
					if len(fit) > 0 {
						name = rapid.SampledFrom(fit).Draw(t, "fit")
					}
				}
				other := name + "ByColIndex"
				if kind == 3 {
					other = mustName(name)
				}
				wantCol := -1
				if typ := typeOfMethod(name); typ != "" {
					for i := 0; i < tb.ColCount(); i++ {
						if ct, _ := tb.ColTypeByColIndex(i); ct == typ {
							wantCol = i
						}
					}
				}
				typ, otherTyp := reflect.ValueOf(tb).MethodByName(name).Type(), reflect.ValueOf(tb).MethodByName(other).Type()
				index := func(name string) int {
					if i, err := tb.ColIndex(name); err == nil {
						return i
					}
					return rapid.SampledFrom([]int{-1, tb.ColCount(), 1 << 40}).Draw(t, "noCol")
				}
				var args [2][]reflect.Value
				for i := 0; i < typ.NumIn(); i++ {
					a := w.arg(tb, name, typ.In(i), &wantCol)
					if name == "RenameCol" && i == 1 && rapid.IntRange(0, 3).Draw(t, "fresh") > 0 {
						a = reflect.ValueOf(rapid.SampledFrom([]string{"N", "new", "b", "_x", "c2"}).Draw(t, "newName"))
					}
					if k := a.Kind(); (k == reflect.Float32 || k == reflect.Float64) && rapid.IntRange(0, 3).Draw(t, "nan") == 0 {
						a = reflect.ValueOf(math.NaN()).Convert(a.Type())
					}
					b := a
					switch x := a.Interface().(type) {
					case *gotables.Table:
						if x == tb {
							a = reflect.Zero(tableType)
							b = a
						} else if x != nil {
							must(t, x.SetStructShape(false), "SetStructShape") // Which a copy does not have.
							y, err := x.CopyDeep()
							must(t, err, "CopyDeep")
							b = reflect.ValueOf(y)
						}
					case []byte:
						b = reflect.ValueOf(slices.Clone(x)).Convert(a.Type())
					case string:
						if otherTyp.In(i).Kind() == reflect.Int {
							b = reflect.ValueOf(index(x))
						}
					case []string:
						if otherTyp.In(i) == reflect.TypeOf([]int{}) {
							var is []int
							for _, s := range x {
								is = append(is, index(s))
							}
							b = reflect.ValueOf(is)
						}
					}
					args[0], args[1] = append(args[0], a), append(args[1], b)
				}
				log = append(log, fmt.Sprintf("%s%s and %s%s", name, showArgs(args[0]), other, showArgs(args[1])))
				c.Key("%s: %s", m, strings.Join(log, "; "))
				c.Class("forms")
				for j, name := range []string{name, other} {
					var out []reflect.Value
					answers[j], out = request(wordless{t}, reflect.ValueOf(two[j]), name, args[j], false)
					if k := len(out); k > 0 && out[k-1].Type() == reflect.TypeOf((*error)(nil)).Elem() {
						if !out[k-1].IsNil() {
							failed = true
							if answers[j] = "cannot be done"; kind == 3 {
								answers[j] = "panic"
							}
						} else {
							answers[j] = strings.TrimSuffix(answers[j], "\nnil")
						}
					}
				}
			}
			for j := range two {
				answers[j] += "\nthen: " + tellTable(t, two[j], 5)
			}
			if answers[0] != answers[1] {
				t.Fatalf("asked in two ways, the answers or the tables differ: %s\ntable: %s\nrequests: %s", firstDiff(answers[0], answers[1]), m, strings.Join(log, ";\n"))
			}
			if !failed {
				done++
			}
		}
		c.NonTrivial(done >= 3)
	})
}

var tableNameRegexp = regexp.MustCompile(`(?m)^\[(\w+)\]|"tableName": ?"(\w*)"`)

// One document read in every way there is.
func TestC35_readings(t *testing.T) {
	dir := t.TempDir()
	runCheck(t, "the text or the JSON of a set of 0-4 tables, half of them with 1-4 random changes, read in every way: as a set or a table, by name or by index, from a string or a file, with an error or a panic; non-trivial = a set that is read, or refused after a change", 12000, 400000, func(t *rapid.T, c *Case) {
		asJSON := rapid.Bool().Draw(t, "asJSON")
		write := func(what string) string {
			if asJSON {
				s := genSet(tableOpts{types: []string{"int", "string", "bool", "[]byte", "uint8"}, minCols: 0, maxCols: 3, minRows: 0, maxRows: 3}, 0, 4, false).Draw(t, what)
				doc, err := buildSet(t, s).GetTableSetAsJSON()
				must(t, err, "GetTableSetAsJSON of %s", s)
				return doc
			}
			return buildSet(t, genSet(tableOpts{types: []string{"int", "string", "bool", "[]byte", "float64"}, minCols: 0, maxCols: 3, minRows: 0, maxRows: 3}, 0, 4, true).Draw(t, what)).String()
		}
		doc := write("set")
		changed := rapid.Bool().Draw(t, "changed")
		if changed {
			if asJSON {
				doc = mutateDoc(t, doc, write("other"), jsonTokens)
			} else {
				doc = mutateText(t, doc, write("other"))
			}
		}
		c.Key("%q", doc)
		var sets [2]*gotables.TableSet
		var err [2]error
		if asJSON {
			sets[0], err[0] = gotables.NewTableSetFromJSON(doc)
			sets[1], err[1] = gotables.NewTableSetFromJSON(doc)
		} else {
			sets[0], err[0] = gotables.NewTableSetFromString(doc)
			fileName := filepath.Join(dir, "doc.got")
			must(t, os.WriteFile(fileName, []byte(doc), 0600), "WriteFile")
			sets[1], err[1] = gotables.NewTableSetFromFile(fileName)
		}
		fileName := filepath.Join(dir, "doc.got")
		if (err[0] == nil) != (err[1] == nil) {
			t.Fatalf("the set is read one way with %v, the other way with %v: %q", err[0], err[1], doc)
		}
		set := sets[0]
		c.NonTrivial(err[0] != nil && changed || set != nil && set.TableCount() > 0)
		if err[0] == nil {
			c.Class("read")
		} else {
			c.Class("refused")
		}
		names := []string{"", "no"}
		for _, m := range tableNameRegexp.FindAllStringSubmatch(doc, 6) {
			names = append(names, m[1]+m[2])
		}
		// agree: got is what the set has, or there is an error if it has none.
		agree := func(way string, got *gotables.Table, gotErr error, want *gotables.Table) {
			t.Helper()
			if (gotErr == nil) != (want != nil) || (got == nil) != (want == nil) {
				t.Fatalf("%s gives %v, %v of a set read with %v: %q", way, got, gotErr, err[0], doc)
			}
			if want != nil {
				if a, b := tellTable(t, want, 5), tellTable(t, got, 5); a != b {
					t.Fatalf("%s gives another table than the set has: %s\nof %q", way, firstDiff(a, b), doc)
				}
			}
		}
		for _, name := range names {
			var want *gotables.Table
			if set != nil {
				want, _ = set.GetTable(name)
			}
			if asJSON {
				tb, err := gotables.NewTableFromJSONByTableName(doc, name)
				agree("NewTableFromJSONByTableName", tb, err, want)
				continue
			}
			tb, err := gotables.NewTableFromStringByTableName(doc, name)
			agree("NewTableFromStringByTableName", tb, err, want)
			tb, err = gotables.NewTableFromFileByTableName(fileName, name)
			agree("NewTableFromFileByTableName", tb, err, want)
		}
		var only *gotables.Table
		for i := -1; i <= 4; i++ {
			var want *gotables.Table
			if set != nil {
				if want, _ = set.GetTableByTableIndex(i); set.TableCount() == 1 && want != nil {
					only = want
				}
			}
			if !asJSON {
				tb, err := gotables.NewTableFromStringByTableIndex(doc, i)
				agree("NewTableFromStringByTableIndex", tb, err, want)
			}
			if want != nil {
				other, err := sets[1].GetTable(want.Name())
				agree("the other reading", other, err, want)
			}
		}
		if !asJSON {
			tb, err := gotables.NewTableFromString(doc)
			agree("NewTableFromString", tb, err, only)
			tb, err = gotables.NewTableFromFile(fileName)
			agree("NewTableFromFile", tb, err, only)
			tb, err = nil, nil
			if msg := try(func() { tb = gotables.NewTableFromStringMustMake(doc) }); msg != "" {
				err = errors.New(msg)
			}
			agree("NewTableFromStringMustMake", tb, err, only)
		}
	})
}

// tellSet: all there is in a set.
func tellSet(t fataler, set *gotables.TableSet) string {
	out := fmt.Sprintf("[[%s]] %d", set.Name(), set.TableCount())
	for i := 0; i < set.TableCount(); i++ {
		tb, err := set.GetTableByTableIndex(i)
		must(t, err, "GetTableByTableIndex(%d)", i)
		out += "\n" + tellTable(t, tb, 4)
	}
	return out
}

func TestC35_sets(t *testing.T) {
	runCheck(t, "two sets of 0-4 tables that hold the same, then 2-14 times something asked of both, of the second in another way: tables added, deleted, renamed, found, copied, compared, written and read as a set or one by one; non-trivial = at least 3 done without error in a set that has tables", 8000, 250000, func(t *rapid.T, c *Case) {
		m := genSet(tableOpts{types: []string{"int", "string", "bool", "[]byte", "uint8", "int64"}, minCols: 0, maxCols: 3, minRows: 0, maxRows: 4}, 0, 4, false).Draw(t, "set")
		w := &world{t: t}
		sets := [2]*gotables.TableSet{buildSet(t, m), buildSet(t, m)}
		var log []string
		done := 0
		names := func() (out []string) {
			for i := 0; i < sets[0].TableCount(); i++ {
				tb, err := sets[0].GetTableByTableIndex(i)
				must(t, err, "GetTableByTableIndex(%d)", i)
				out = append(out, tb.Name())
			}
			return
		}
		for n := rapid.IntRange(2, 14).Draw(t, "requests"); n > 0; n-- {
			have := names()
			name := rapid.SampledFrom(append(have, "no", "a", "T", "")).Draw(t, "name")
			at := slices.Index(have, name) // -1 if there is none.
			var what string
			var ways [2]func(set *gotables.TableSet) (string, error)
			nothing := func(f func(set *gotables.TableSet) error) func(set *gotables.TableSet) (string, error) {
				return func(set *gotables.TableSet) (string, error) { return "", f(set) }
			}
			table := func(tb *gotables.Table, err error) (string, error) {
				if err != nil {
					return "", err
				}
				return tellTable(t, tb, 4), nil
			}
			// each table of a set by itself, put together again.
			oneByOne := func(set *gotables.TableSet, f func(tb *gotables.Table) (*gotables.Table, error)) (string, error) {
				other, err := gotables.NewTableSet(set.Name())
				must(t, err, "NewTableSet")
				for i := 0; i < set.TableCount(); i++ {
					tb, err := set.GetTableByTableIndex(i)
					must(t, err, "GetTableByTableIndex")
					if tb, err = f(tb); err != nil {
						return "", err
					}
					must(t, other.Append(tb), "Append")
				}
				return tellSet(t, other), nil
			}
			whole := func(set *gotables.TableSet, err error) (string, error) {
				if err != nil {
					return "", err
				}
				return tellSet(t, set), nil
			}
			switch rapid.IntRange(0, 9).Draw(t, "way") {
			case 0, 1:
				x := w.table()
				what = fmt.Sprintf("a table added: %s", x)
				ways[0] = nothing(func(set *gotables.TableSet) error { return set.Append(build(t, x)) })
				ways[1] = nothing(func(set *gotables.TableSet) error { return set.AppendTable(build(t, x)) })
			case 2:
				what = fmt.Sprintf("%q deleted, by name and by index", name)
				ways[0] = nothing(func(set *gotables.TableSet) error { return set.DeleteTable(name) })
				ways[1] = nothing(func(set *gotables.TableSet) error { return set.DeleteTableByTableIndex(at) })
			case 3:
				to := rapid.SampledFrom([]string{"N", "new", "b", "x y", ""}).Draw(t, "to")
				if slices.Contains(have, to) {
					continue
				}
				what = fmt.Sprintf("%q renamed to %q in the set and alone", name, to)
				ways[0] = nothing(func(set *gotables.TableSet) error { return set.RenameTable(name, to) })
				ways[1] = nothing(func(set *gotables.TableSet) error {
					tb, err := set.GetTable(name)
					if err != nil {
						return err
					}
					return tb.SetName(to)
				})
			case 4:
				what = fmt.Sprintf("%q by name and by index", name)
				ways[0] = func(set *gotables.TableSet) (string, error) { return table(set.GetTable(name)) }
				ways[1] = func(set *gotables.TableSet) (string, error) { return table(set.GetTableByTableIndex(at)) }
			case 5:
				what = fmt.Sprintf("whether there is %q, and where", name)
				ways[0] = func(set *gotables.TableSet) (string, error) {
					has, err := set.HasTable(name)
					return fmt.Sprint(has), err
				}
				ways[1] = func(set *gotables.TableSet) (string, error) {
					i, err := set.TableIndex(name)
					return fmt.Sprint(i >= 0), err
				}
			case 6:
				what = "a copy of the set, and of each table"
				ways[0] = func(set *gotables.TableSet) (string, error) { return whole(set.Copy()) }
				ways[1] = func(set *gotables.TableSet) (string, error) {
					return oneByOne(set, func(tb *gotables.Table) (*gotables.Table, error) { return tb.Copy() })
				}
			case 7:
				what = "the set through JSON, and each table"
				ways[0] = func(set *gotables.TableSet) (string, error) {
					s, err := set.GetTableSetAsJSON()
					if err != nil {
						return "", err
					}
					return whole(gotables.NewTableSetFromJSON(s))
				}
				ways[1] = func(set *gotables.TableSet) (string, error) {
					return oneByOne(set, func(tb *gotables.Table) (*gotables.Table, error) {
						s, err := tb.GetTableAsJSON()
						if err != nil {
							return nil, err
						}
						return gotables.NewTableFromJSON(s)
					})
				}
			case 8:
				what = "the set through Gob, and each table"
				ways[0] = func(set *gotables.TableSet) (string, error) {
					b, err := set.GobEncode()
					if err != nil {
						return "", err
					}
					return whole(gotables.GobDecodeTableSet(b))
				}
				ways[1] = func(set *gotables.TableSet) (string, error) {
					return oneByOne(set, func(tb *gotables.Table) (*gotables.Table, error) {
						b, err := tb.GobEncode()
						if err != nil {
							return nil, err
						}
						return gotables.GobDecodeTable(b)
					})
				}
			case 9:
				what = "the set through text, and each table"
				ways[0] = func(set *gotables.TableSet) (string, error) {
					return whole(gotables.NewTableSetFromString(set.StringUnpadded()))
				}
				ways[1] = func(set *gotables.TableSet) (string, error) {
					return oneByOne(set, func(tb *gotables.Table) (*gotables.Table, error) { return gotables.NewTableFromString(tb.String()) })
				}
			}
			log = append(log, what)
			c.Key("%s: %s", m, strings.Join(log, "; "))
			var answers [2]string
			var errs [2]error
			for i := range ways {
				answers[i], errs[i] = ways[i](sets[i])
			}
			if (errs[0] == nil) != (errs[1] == nil) {
				t.Fatalf("one way it gives %v, the other way %v\nset: %s\nrequests: %s", errs[0], errs[1], m, strings.Join(log, ";\n"))
			}
			if errs[0] != nil {
				answers = [2]string{}
			} else {
				done++
				c.Class("done")
			}
			for i := range sets {
				answers[i] += "\nthen: " + tellSet(t, sets[i])
			}
			if answers[0] != answers[1] {
				t.Fatalf("asked in two ways, the answers or the sets differ: %s\nset: %s\nrequests: %s", firstDiff(answers[0], answers[1]), m, strings.Join(log, ";\n"))
			}
		}
		c.NonTrivial(done >= 3 && sets[0].TableCount() > 0)
	})
}
