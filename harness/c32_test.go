package gtverif

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C32: any requests at all on a few tables and a set of them.

// parts of a table.
const (
	partName = iota
	partShape
	partCols
	partRows // how many
	partCells
	partKeys
	partParent
	nParts
)

var partNames = []string{"name", "shape", "columns", "number of rows", "cells", "sort keys", "parent"}

type snapshot [nParts]string

// shot says all there is to see in a table itself, tables in its cells by which they are.
func shot(t fataler, tb *gotables.Table) (s snapshot) {
	isNil, _ := tb.IsNilTable()
	isStruct, _ := tb.IsStructShape()
	s[partName] = fmt.Sprintf("%q nil=%v", tb.Name(), isNil)
	s[partParent] = fmt.Sprintf("in %p", tb.ParentTable())
	s[partShape] = fmt.Sprintf("struct=%v", isStruct)
	s[partRows] = fmt.Sprint(tb.RowCount())
	if isNil {
		if s[partCols] = "[] []"; tb.ColCount() != 0 || tb.SortKeyCount() != 0 {
			t.Fatalf("a NilTable has %d columns and %d sort keys", tb.ColCount(), tb.SortKeyCount())
		}
		return
	}
	names, types, err := tb.GetColInfoAsSlices()
	must(t, err, "GetColInfoAsSlices")
	s[partCols] = fmt.Sprintf("%q %q", names, types)
	var b strings.Builder
	for r := 0; r < tb.RowCount(); r++ {
		b.WriteString(" |")
		for c := range names {
			v, err := tb.GetValByColIndex(c, r)
			must(t, err, "GetValByColIndex(%d,%d)", c, r)
			switch x := v.(type) {
			case *gotables.Table:
				fmt.Fprintf(&b, " table@%p", x)
			case float32:
				fmt.Fprintf(&b, " %08x", math.Float32bits(x))
			case float64:
				fmt.Fprintf(&b, " %016x", math.Float64bits(x))
			case time.Time:
				b.WriteString(" " + x.Format(time.RFC3339Nano))
			default:
				fmt.Fprintf(&b, " %T:%q", v, fmt.Sprint(v))
			}
			if got, want := fmt.Sprintf("%T", v), types[c]; canonType(strings.TrimPrefix(strings.Replace(got, "*gotables.", "*", 1), "")) != canonType(want) {
				t.Fatalf("cell (%d,%d) of a column of type %s holds %s", c, r, want, got)
			}
		}
	}
	if n := tb.SortKeyCount(); n > 0 {
		kt, err := tb.GetSortKeysAsTable()
		must(t, err, "GetSortKeysAsTable")
		s[partKeys] = kt.StringUnpadded()
	}
	s[partCells] = b.String()
	return
}

func (s snapshot) String() string { return strings.Join(s[:], " ") }

// mayChange: the parts of its table that a method is asked to change.
func mayChange(method string) (parts []int) {
	has := func(list ...string) bool {
		return slices.ContainsFunc(list, func(s string) bool { return strings.HasPrefix(method, s) })
	}
	switch {
	case has("SetName", "RenameTable"):
		return []int{partName}
	case has("SetStructShape"):
		return []int{partShape}
	case has("SetSortKeys", "AppendSortKey", "DeleteSortKey", "SortUnique", "Merge"):
		return []int{partKeys}
	case has("SortKeyCount"):
		return nil
	case has("Sort"):
		return []int{partKeys, partCells}
	case has("AppendCol", "SwapCols", "OrderCols", "ReorderCols"):
		return []int{partCols, partCells}
	case has("DeleteCol"):
		return []int{partCols, partCells, partKeys}
	case has("RenameCol"):
		return []int{partCols, partKeys}
	case has("AppendRow", "DeleteRow"):
		return []int{partRows, partCells}
	case has("Nest"):
		return []int{partCols, partCells, partKeys}
	case has("Set", "Reverse", "Shuffle"):
		return []int{partCells}
	}
	return nil
}

// withNested: the tables and those nested in them.
func withNested(t fataler, tables []*gotables.Table) (out []*gotables.Table) {
	for _, tb := range tables {
		if slices.Contains(out, tb) {
			continue
		}
		out = append(out, tb)
		for c := 0; c < tb.ColCount(); c++ {
			typ, err := tb.ColTypeByColIndex(c)
			must(t, err, "ColTypeByColIndex")
			for r := 0; typ == "*Table" && r < tb.RowCount() && len(out) < 20; r++ {
				x, err := tb.GetTableByColIndex(c, r)
				must(t, err, "GetTableByColIndex")
				for _, y := range withNested(t, []*gotables.Table{x}) {
					if !slices.Contains(out, y) {
						out = append(out, y)
					}
				}
			}
		}
	}
	return
}

func shotSet(t fataler, ts *gotables.TableSet) string {
	s := fmt.Sprintf("%q %q", ts.Name(), ts.FileName())
	for i := 0; i < ts.TableCount(); i++ {
		tb, err := ts.GetTableByTableIndex(i)
		must(t, err, "GetTableByTableIndex")
		s += fmt.Sprintf(" %p", tb)
	}
	return s
}

// nestedTwice: some table is met twice going down from tb.
func nestedTwice(t fataler, tb *gotables.Table, seen map[*gotables.Table]bool) bool {
	if seen[tb] {
		return true
	}
	seen[tb] = true
	for c := 0; c < tb.ColCount(); c++ {
		typ, err := tb.ColTypeByColIndex(c)
		must(t, err, "ColTypeByColIndex")
		for r := 0; typ == "*Table" && r < tb.RowCount(); r++ {
			x, err := tb.GetTableByColIndex(c, r)
			must(t, err, "GetTableByColIndex")
			if nestedTwice(t, x, seen) {
				return true
			}
		}
	}
	return false
}

// typeOfMethod: the type of columns a method such as SetInt16ByColIndex is for.
func typeOfMethod(name string) string {
	name = strings.TrimPrefix(strings.TrimPrefix(name, "Get"), "Set")
	for _, s := range []string{"MustGet", "MustSet", "ByColIndex"} {
		name = strings.TrimSuffix(name, s)
	}
	switch name {
	case "Time":
		return "time.Time"
	case "Table":
		return "*Table"
	case "ByteSlice":
		return "[]byte"
	case "Uint8Slice":
		return "[]uint8"
	}
	if name = strings.ToLower(name); slices.Contains(allTypes, name) {
		return name
	}
	return ""
}

type world struct {
	t      *rapid.T
	tables []*gotables.Table
	set    *gotables.TableSet
}

var c32Names = []string{"a", "b", "c", "A", "T1", "T2", "T3"}

// arg draws an argument of a method of tb (nil for methods of the set).
func (w *world) arg(tb *gotables.Table, method string, typ reflect.Type, wantCol *int) reflect.Value {
	t := w.t
	v := func(x any) reflect.Value { return reflect.ValueOf(x).Convert(typ) }
	col := func() int {
		if tb == nil || tb.ColCount() == 0 {
			return -1
		}
		if *wantCol >= 0 {
			return *wantCol
		}
		return rapid.IntRange(0, tb.ColCount()-1).Draw(t, "col")
	}
	switch typ {
	case reflect.TypeOf((*gotables.Table)(nil)):
		switch rapid.IntRange(0, 7).Draw(t, "tableArg") {
		case 0:
			return reflect.Zero(typ)
		case 1, 2, 3: // One of those there are: not into itself, or one nested in it.
			if !strings.Contains(method, "SetTable") {
				return reflect.ValueOf(w.tables[rapid.IntRange(0, len(w.tables)-1).Draw(t, "table")])
			}
		}
		return reflect.ValueOf(build(t, w.table()))
	case reflect.TypeOf(gotables.WalkSafe{}):
		return reflect.ValueOf(make(gotables.WalkSafe))
	case reflect.TypeOf(time.Time{}):
		return reflect.ValueOf(genTime().Draw(t, "time"))
	case reflect.TypeOf(os.FileMode(0)):
		return v(0644)
	}
	switch typ.Kind() {
	case reflect.String:
		if strings.HasSuffix(method, "WriteFile") {
			return v("no/such/directory")
		}
		if i := col(); i >= 0 && rapid.IntRange(0, 9).Draw(t, "colName") < 7 {
			name, err := tb.ColNameByColIndex(i)
			must(t, err, "ColNameByColIndex(%d)", i)
			return v(name)
		}
		if rapid.Bool().Draw(t, "typeName") {
			return v(rapid.SampledFrom(allTypes).Draw(t, "type"))
		}
		return v(rapid.SampledFrom(append([]string{"", "x y", "no", "é"}, c32Names...)).Draw(t, "s"))
	case reflect.Bool:
		return v(rapid.Bool().Draw(t, "bool"))
	case reflect.Int:
		if i := col(); i >= 0 && *wantCol >= 0 && strings.Contains(method, "ByColIndex") {
			*wantCol = -1
			return v(i)
		}
		n := 3
		if tb != nil {
			n = max(tb.ColCount(), tb.RowCount())
		}
		return v(rapid.IntRange(-1, n).Draw(t, "n"))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return v(rapid.IntRange(0, 3).Draw(t, "number"))
	case reflect.Interface:
		if i := col(); i >= 0 && rapid.IntRange(0, 3).Draw(t, "fits") > 0 {
			ct, err := tb.ColTypeByColIndex(i)
			must(t, err, "ColTypeByColIndex(%d)", i)
			if isKeyType(ct) {
				return reflect.ValueOf(smallVal(ct).Draw(t, "v"))
			}
		}
		x := genVal(rapid.SampledFrom(allTypes).Draw(t, "anyType"), histVal).Draw(t, "any")
		if m, ok := x.(*MT); ok {
			x = build(t, m)
		}
		return reflect.ValueOf(x)
	case reflect.Slice:
		s := reflect.MakeSlice(typ, 0, 0)
		if tb != nil && (typ.Elem().Kind() == reflect.Int || typ.Elem().Kind() == reflect.String) && strings.Contains(method, "order") && rapid.IntRange(0, 3).Draw(t, "permutation") > 0 {
			for _, i := range rapid.Permutation(indices(tb.ColCount())).Draw(t, "perm") {
				if typ.Elem().Kind() == reflect.Int {
					s = reflect.Append(s, reflect.ValueOf(i))
				} else {
					name, _ := tb.ColNameByColIndex(i)
					s = reflect.Append(s, reflect.ValueOf(name))
				}
			}
			return s
		}
		if tb != nil && typ.Elem().Kind() == reflect.Interface && tb.SortKeyCount() > 0 && rapid.IntRange(0, 3).Draw(t, "keyValues") > 0 {
			kt, err := tb.GetSortKeysAsTable()
			must(t, err, "GetSortKeysAsTable")
			for r := 0; r < kt.RowCount(); r++ {
				ct, err := kt.GetString("colType", r)
				must(t, err, "colType")
				s = reflect.Append(s, reflect.ValueOf(smallVal(ct).Draw(t, "keyValue")))
			}
			return s
		}
		for n := rapid.IntRange(0, 3).Draw(t, "len"); n > 0; n-- {
			*wantCol = -1
			s = reflect.Append(s, w.arg(tb, method, typ.Elem(), wantCol))
		}
		return s
	}
	return reflect.Zero(typ)
}

// table: few columns, small values.
func (w *world) table() *MT {
	m := &MT{Name: rapid.SampledFrom(c32Names).Draw(w.t, "name")}
	n := rapid.IntRange(0, 5).Draw(w.t, "ncols")
	sortable := rapid.IntRange(0, 2).Draw(w.t, "sortable") == 0
	var types []string
	for i := 0; i < n; i++ {
		typ := rapid.SampledFrom(allTypes).Draw(w.t, "type")
		if sortable {
			typ = rapid.SampledFrom(keyTypes).Draw(w.t, "keyType")
		}
		types = append(types, typ)
		m.Cols = append(m.Cols, Col{c32Names[i], typ})
	}
	for r := rapid.IntRange(0, 4).Draw(w.t, "nrows"); r > 0 && n > 0; r-- {
		row := []any{}
		for _, typ := range types {
			row = append(row, smallVal(typ).Draw(w.t, "v"))
		}
		m.Rows = append(m.Rows, row)
	}
	m.Struct = rapid.IntRange(0, 5).Draw(w.t, "struct") == 0
	return m
}

// changes: a method that is asked to change its table or set.
func changes(method string) bool {
	return len(mayChange(method)) > 0 || strings.HasPrefix(method, "Set") || strings.HasPrefix(method, "Append") || strings.HasPrefix(method, "Delete")
}

func TestC32_requests(t *testing.T) {
	tableType, setType := reflect.TypeOf((*gotables.Table)(nil)), reflect.TypeOf((*gotables.TableSet)(nil))
	var askers, changers []string
	for i := 0; i < tableType.NumMethod(); i++ {
		name := tableType.Method(i).Name
		switch {
		case strings.HasPrefix(name, "NewTreeTable"):
		case changes(name):
			changers = append(changers, name)
		default:
			askers = append(askers, name)
		}
	}
	var edits []string // Those which change the columns, rows or keys.
	for _, name := range changers {
		if typeOfMethod(name) == "" {
			edits = append(edits, name)
		}
	}
	runCheck(t, "5-30 requests, each any method of a table or set with arguments mostly such as fit, on three small tables (or a NilTable) and a set of some of them, tables nested in them and tables they give; non-trivial = at least 3 requests done that change something and one refused", 6000, 600000, func(t *rapid.T, c *Case) {
		w := &world{t: t}
		var err error
		w.set, err = gotables.NewTableSet("S")
		must(t, err, "NewTableSet")
		for i := 0; i < 3; i++ {
			if rapid.IntRange(0, 9).Draw(t, "nilTable") == 0 {
				w.tables = append(w.tables, gotables.NewNilTable())
				continue
			}
			m := w.table()
			tb := build(t, m)
			if rapid.IntRange(0, 2).Draw(t, "keys") == 0 {
				for _, col := range m.Cols {
					if isKeyType(col.Type) && rapid.IntRange(0, 4).Draw(t, "isKey") > 0 {
						must(t, tb.AppendSortKey(col.Name), "AppendSortKey")
					}
				}
			}
			w.tables = append(w.tables, tb)
		}
		var log []string
		done, refused := 0, 0
		for n := rapid.IntRange(5, 30).Draw(t, "requests"); n > 0; n-- {
			which := rapid.IntRange(-1, len(w.tables)-1).Draw(t, "receiver")
			var recv reflect.Value
			var tb *gotables.Table
			var name string
			if which < 0 {
				recv = reflect.ValueOf(w.set)
				name = setType.Method(rapid.IntRange(0, setType.NumMethod()-1).Draw(t, "method")).Name
			} else {
				tb = w.tables[which]
				if inside := withNested(t, []*gotables.Table{tb}); len(inside) > 1 && rapid.IntRange(0, 2).Draw(t, "nested") == 0 {
					tb = inside[rapid.IntRange(1, len(inside)-1).Draw(t, "which")]
					log = append(log, "(nested)")
				}
				recv = reflect.ValueOf(tb)
				switch rapid.IntRange(0, 4).Draw(t, "kind") {
				case 0:
					if tb.SortKeyCount() > 0 && rapid.IntRange(0, 4).Draw(t, "search") == 0 {
						name = rapid.SampledFrom([]string{"Search", "SearchFirst", "SearchLast", "SearchRange", "NewTableFromRowsBySearchRange"}).Draw(t, "searcher")
						break
					}
					name = rapid.SampledFrom(askers).Draw(t, "asker")
				case 1:
					name = rapid.SampledFrom(changers).Draw(t, "changer")
				default:
					name = rapid.SampledFrom(edits).Draw(t, "edit")
				}
			}
			m := recv.MethodByName(name)
			wantCol := -1
			if typ := typeOfMethod(name); typ != "" && tb != nil {
				for i := 0; i < tb.ColCount(); i++ {
					if ct, _ := tb.ColTypeByColIndex(i); ct == typ {
						wantCol = i
					}
				}
			}
			var args []reflect.Value
			var argTables []*gotables.Table
			for i := 0; i < m.Type().NumIn(); i++ {
				a := w.arg(tb, name, m.Type().In(i), &wantCol)
				args = append(args, a)
				if x, ok := a.Interface().(*gotables.Table); ok && x != nil && !slices.Contains(w.tables, x) {
					argTables = append(argTables, x)
				}
			}
			log = append(log, fmt.Sprintf("%d.%s%v", which, name, showArgs(args)))
			c.Key("%s", strings.Join(log, "; "))
			all := withNested(t, append(slices.Clone(w.tables), argTables...))
			before := make([]snapshot, len(all))
			for i, x := range all {
				before[i] = shot(t, x)
			}
			setBefore := shotSet(t, w.set)
			var out []reflect.Value
			var broken any
			func() {
				defer func() {
					if p := recover(); p != nil {
						if tn := fmt.Sprintf("%T", p); strings.HasPrefix(tn, "rapid.") || strings.HasPrefix(tn, "*rapid.") {
							panic(p)
						}
						broken = p
					}
				}()
				out = call(m, args)
			}()
			fail := func(format string, a ...any) {
				t.Helper()
				t.Fatalf("%s\nrequests: %s", fmt.Sprintf(format, a...), strings.Join(log, ";\n"))
			}
			failed := broken != nil
			if _, ok := broken.(runtime.Error); ok || failed && !strings.HasSuffix(name, "MustGet") && !strings.HasSuffix(name, "MustSet") {
				fail("panic: %v", broken)
			}
			if !failed && len(out) > 0 && m.Type().Out(len(out)-1) == errType && !out[len(out)-1].IsNil() {
				failed = true
			}
			if strings.HasPrefix(name, "Has") || strings.HasPrefix(name, "Is") {
				failed = false // No is an answer.
			}
			for i, x := range all {
				after := shot(t, x)
				if strings.HasPrefix(name, "Set") && !failed && slices.ContainsFunc(args, func(a reflect.Value) bool { return a.CanInterface() && a.Interface() == any(x) }) {
					before[i][partParent] = after[partParent] // It is in a cell now.
				}
				if after == before[i] {
					continue
				}
				switch {
				case failed:
					fail("a refused request changed table %d\nfrom %s\nto   %s", i, before[i], after)
				case !changes(name):
					fail("a question changed table %d\nfrom %s\nto   %s", i, before[i], after)
				case which >= 0 && x != tb && name != "Nest" && name != "Merge":
					fail("a request to change table %d changed table %d\nfrom %s\nto   %s", which, i, before[i], after)
				case which < 0 && name != "RenameTable":
					fail("a request to a set changed table %d\nfrom %s\nto   %s", i, before[i], after)
				}
				for p := range after {
					if after[p] != before[i][p] && !slices.Contains(mayChange(name), p) {
						fail("%s changed the %s of table %d\nfrom %s\nto   %s", name, partNames[p], i, before[i][p], after[p])
					}
				}
			}
			if setAfter := shotSet(t, w.set); setAfter != setBefore && (failed || which >= 0 || !changes(name)) {
				fail("the set changed from %s to %s", setBefore, setAfter)
			}
			for i, x := range all {
				if isNil, _ := x.IsNilTable(); isNil {
					continue
				}
				if ok, err := x.IsValidTable(); !ok && !nestedTwice(t, x, map[*gotables.Table]bool{}) {
					fail("table %d is not valid: %v", i, err)
				}
			}
			if failed {
				refused++
			} else if changes(name) {
				done++
			}
			for _, o := range out { // Go on with what it gave at times.
				x, ok := o.Interface().(*gotables.Table)
				if ok && x != nil && !slices.Contains(w.tables, x) && rapid.IntRange(0, 3).Draw(t, "goOn") == 0 {
					w.tables[rapid.IntRange(0, len(w.tables)-1).Draw(t, "instead")] = x
					log = append(log, "(kept)")
				}
			}
		}
		c.NonTrivial(done >= 3 && refused > 0)
	})
}

func showArgs(args []reflect.Value) string {
	var s []string
	for _, a := range args {
		if a.Kind() == reflect.Pointer && a.IsNil() || a.Kind() == reflect.Func {
			s = append(s, "nil")
			continue
		}
		switch x := a.Interface().(type) {
		case *gotables.Table:
			s = append(s, x.Name())
		case string:
			s = append(s, fmt.Sprintf("%q", x))
		case []string:
			s = append(s, fmt.Sprintf("%q", x))
		default:
			s = append(s, fmt.Sprint(x))
		}
	}
	return "(" + strings.Join(s, ", ") + ")"
}
