package gtverif

import (
	"fmt"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C27 Questions about a table, C28 Sort keys.

// asText is the text of a cell value without delimiters.
func asText(typ string, v any) string {
	switch x := v.(type) {
	case string:
		return x
	case float32:
		return strconv.FormatFloat(float64(x), 'f', -1, 32)
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	case int32:
		if typ == "rune" {
			return string(x)
		}
		return strconv.Itoa(int(x))
	case []byte:
		s := make([]string, len(x))
		for i, b := range x {
			s[i] = strconv.Itoa(int(b))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *MT:
		return "[" + x.Name + "]"
	case time.Time:
		return x.Format(time.RFC3339Nano)
	}
	return fmt.Sprint(v)
}

var numericTypes = []string{"byte", "float32", "float64", "int", "int16", "int32", "int64", "int8", "uint", "uint16", "uint32", "uint64", "uint8"}

func askTable() *rapid.Generator[*MT] {
	return gen(func(t *rapid.T) *MT {
		m := genTable(tableOpts{types: allTypes, maxCols: 6, maxRows: 5, val: valOpts{nan: true, inf: true, anyUTF8: true, nested: 1}}).Draw(t, "table")
		m.Struct = len(m.Rows) <= 1 && rapid.IntRange(0, 3).Draw(t, "struct") == 0
		if len(m.Cols) > 0 && len(m.Rows) > 1 && oneIn(t, 4, "alike") { // Neighbours alike.
			i := rapid.IntRange(0, len(m.Cols)-1).Draw(t, "alikeCol")
			for _, row := range m.Rows {
				if typ := m.Cols[i].Type; isKeyType(typ) {
					row[i] = smallVal(typ).Draw(t, "alikeVal")
				}
			}
		}
		return m
	})
}

func TestC27_ask(t *testing.T) {
	runCheck(t, "a table of 0-6 columns (or all 20 types) and 0-5 rows; questions by name and by index, about columns, types, rows and cells that exist and that do not; non-trivial = at least 2 columns and 2 rows", 3000, 100000, func(t *rapid.T, c *Case) {
		m := askTable().Draw(t, "m")
		tb := build(t, m)
		c.Key("%s", m)
		c.NonTrivial(len(m.Cols) > 1 && len(m.Rows) > 1)
		c.ClassIf(len(m.Cols) == 0, "no columns")
		c.ClassIf(len(m.Rows) == 0, "no rows")

		if tb.Name() != m.Name || tb.ColCount() != len(m.Cols) || tb.RowCount() != len(m.Rows) {
			t.Fatalf("Name %q, ColCount %d, RowCount %d of %s", tb.Name(), tb.ColCount(), tb.RowCount(), m)
		}
		if got, err := tb.IsStructShape(); got != m.Struct || err != nil {
			t.Fatalf("IsStructShape() = %v, %v of %s", got, err, m)
		}
		if isNil, err := tb.IsNilTable(); isNil || err != nil {
			t.Fatalf("IsNilTable() = %v, %v of %s", isNil, err, m)
		}
		validTable(t, tb, "as built")
		info, err := tb.GetColInfoAsTable()
		must(t, err, "GetColInfoAsTable")
		want := &MT{Name: info.Name(), Cols: []Col{{"index", "int"}, {"colName", "string"}, {"colType", "string"}}}
		for i, col := range m.Cols {
			want.Rows = append(want.Rows, []any{i, col.Name, col.Type})
		}
		sameTable(t, want, info, "GetColInfoAsTable")
		if len(m.Cols) > 0 && m.Cols[0].Name != "renamed_info" {
			must(t, info.SetString("colName", 0, "renamed_info"), "SetString")
		}
		names, types, err := tb.GetColInfoAsSlices()
		must(t, err, "GetColInfoAsSlices")
		if len(names) != len(m.Cols) || len(types) != len(m.Cols) {
			t.Fatalf("GetColInfoAsSlices() = %q, %q of %s", names, types, m)
		}
		for i, col := range m.Cols {
			if names[i] != col.Name || types[i] != col.Type {
				t.Fatalf("GetColInfoAsSlices() = %q, %q of %s", names, types, m)
			}
			names[i], types[i] = "renamed_info", "no_type" // The answer is the caller's own.
		}

		// By index, and by the name at that index.
		r := rapid.IntRange(-2, len(m.Rows)+1).Draw(t, "row")
		i := rapid.IntRange(-2, len(m.Cols)+1).Draw(t, "col")
		colOK, rowOK := i >= 0 && i < len(m.Cols), r >= 0 && r < len(m.Rows)
		cellOK := colOK && rowOK
		name, typ := "", ""
		if colOK {
			name, typ = m.Cols[i].Name, m.Cols[i].Type
		} else {
			name = rapid.OneOf(genName(), rapid.SampledFrom([]string{"", " ", "int", "a b", "é"})).Filter(func(s string) bool { return m.colIndex(s) < 0 }).Draw(t, "unknown")
		}
		c.ClassIf(!colOK, "unknown column")
		c.ClassIf(colOK && !rowOK, "row out of range")
		yes := func(what string, want bool, got bool, err error) {
			t.Helper()
			if got != want || (err == nil) != want {
				t.Fatalf("%s (col %d %q, row %d) = %v, %v of %s", what, i, name, r, got, err, m)
			}
		}
		got, err := tb.HasCol(name)
		yes("HasCol", colOK, got, err)
		got, err = tb.HasColByColIndex(i)
		yes("HasColByColIndex", colOK, got, err)
		got, err = tb.HasRow(r)
		yes("HasRow", rowOK, got, err)
		got, err = tb.HasCell(name, r)
		yes("HasCell", cellOK, got, err)
		got, err = tb.HasCellByColIndex(i, r)
		yes("HasCellByColIndex", cellOK, got, err)
		got, err = tb.IsValidRow(r)
		yes("IsValidRow", rowOK, got, err)

		str := func(what, want, got string, ok bool, err error) {
			t.Helper()
			if (err == nil) != ok || ok && got != want {
				t.Fatalf("%s (col %d %q, row %d) = %q, %v of %s", what, i, name, r, got, err, m)
			}
		}
		s, err := tb.ColName(i)
		str("ColName", name, s, colOK, err)
		s, err = tb.ColNameByColIndex(i)
		str("ColNameByColIndex", name, s, colOK, err)
		s, err = tb.ColType(name)
		str("ColType", typ, s, colOK, err)
		s, err = tb.ColTypeByColIndex(i)
		str("ColTypeByColIndex", typ, s, colOK, err)
		idx, err := tb.ColIndex(name)
		if (err == nil) != colOK || colOK && idx != i {
			t.Fatalf("ColIndex(%q) = %d, %v of %s", name, idx, err, m)
		}
		askType := rapid.SampledFrom(append([]string{typ, typ, "", "no_type"}, allTypes...)).Draw(t, "askType")
		for k := 0; k < 2; k++ {
			got, err = tb.IsColType(name, askType)
			if k == 1 {
				got, err = tb.IsColTypeByColIndex(i, askType)
			}
			if (err == nil) != colOK || got != (colOK && askType == typ) {
				t.Fatalf("IsColType of col %d %q, %s = %v, %v of %s", i, name, askType, got, err, m)
			}
			got, err = tb.IsTableCol(name)
			if k == 1 {
				got, err = tb.IsTableColByColIndex(i)
			}
			if (err == nil) != colOK || got != (colOK && typ == "*Table") {
				t.Fatalf("IsTableCol of col %d %q = %v, %v of %s", i, name, got, err, m)
			}
		}

		// Cells and columns as text.
		text := ""
		if cellOK {
			text = asText(typ, m.Rows[r][i])
		}
		s, err = tb.GetValAsString(name, r)
		str("GetValAsString", text, s, cellOK, err)
		s, err = tb.GetValAsStringByColIndex(i, r)
		str("GetValAsStringByColIndex", text, s, cellOK, err)
		var texts []string
		if colOK {
			for _, row := range m.Rows {
				texts = append(texts, asText(typ, row[i]))
			}
		}
		sep := rapid.SampledFrom([]string{"", ",", " && ", "\n", "%s"}).Draw(t, "separator")
		col, err := tb.GetColValsAsStrings(name)
		if (err == nil) != colOK || !slices.Equal(col, texts) {
			t.Fatalf("GetColValsAsStrings(%q) = %q, %v of %s", name, col, err, m)
		}
		for k := range col {
			col[k] = "scribble"
		}
		s, err = tb.JoinColVals(name, sep)
		str("JoinColVals", strings.Join(texts, sep), s, colOK, err)
		s, err = tb.JoinColValsByColIndex(i, sep)
		str("JoinColValsByColIndex", strings.Join(texts, sep), s, colOK, err)

		// Of a column of numbers, floats and so on.
		if colOK {
			if gotables.IsNumericColType(typ) != slices.Contains(numericTypes, typ) || gotables.IsSliceColType(typ) != strings.HasPrefix(typ, "[]") || gotables.IsTableColType(typ) != (typ == "*Table") {
				t.Fatalf("type %s: numeric %v, slice %v, table %v", typ, gotables.IsNumericColType(typ), gotables.IsSliceColType(typ), gotables.IsTableColType(typ))
			}
		}
		row, err := tb.RowByRowIndex(r)
		if (err == nil) != rowOK || rowOK && (row.Table != tb || row.RowIndex != r) {
			t.Fatalf("RowByRowIndex(%d): %+v, %v of %s", r, row, err, m)
		}
		for k := 0; k < 2; k++ {
			cell, err := tb.GetCellInfo(name, r)
			if k == 1 {
				cell, err = tb.GetCellInfoByColIndex(i, r)
			}
			if (err == nil) != cellOK || cellOK && (cell.Table != tb || cell.ColIndex != i || cell.RowIndex != r || cell.ColName != name || cell.ColType != typ) {
				t.Fatalf("GetCellInfo (col %d %q, row %d) = %+v, %v of %s", i, name, r, cell, err, m)
			}
		}
		sameTable(t, m, tb, "after questions")
		shape := rapid.Bool().Draw(t, "shape")
		must(t, tb.SetStructShape(shape), "SetStructShape")
		if got, err := tb.IsStructShape(); got != shape || err != nil {
			t.Fatalf("IsStructShape() = %v, %v after SetStructShape(%v) of %s", got, err, shape, m)
		}
		if got := gotables.TypesList(); got != strings.Join(slices.Sorted(slices.Values(allTypes)), " ") {
			t.Fatalf("TypesList() = %q", got)
		}
	})
}

// anyValue: a value of any Go type, most of them types of cells.
func anyValue() *rapid.Generator[any] {
	return gen(func(t *rapid.T) any {
		typ := rapid.SampledFrom(append([]string{"other", "other"}, allTypes...)).Draw(t, "valueType")
		if typ != "other" {
			return genVal(typ, valOpts{nan: true, inf: true, anyUTF8: true, named: true}).Draw(t, "value")
		}
		type myInt int
		return rapid.SampledFrom([]any{nil, myInt(1), complex(1, 2), uintptr(3), []int{1}, []string{}, [2]byte{}, map[string]int{}, struct{}{}, func() {}, new(int), time.Second, &time.Time{}, gotables.Table{}, (*gotables.Table)(nil), (*gotables.Table)(nil)}).Draw(t, "other")
	})
}

func TestC27_values(t *testing.T) {
	runCheck(t, "a column of any type (or an unknown one) and a value of any Go type: is it valid, and can it be set; non-trivial = all", 8000, 200000, func(t *rapid.T, c *Case) {
		typ := rapid.SampledFrom(allTypes).Draw(t, "type")
		v := anyValue().Draw(t, "v")
		if rapid.IntRange(0, 3).Draw(t, "ofType") == 0 {
			v = genVal(typ, valOpts{nan: true, inf: true, anyUTF8: true, named: true}).Draw(t, "value")
		}
		m := &MT{Name: "T", Cols: []Col{{"a", typ}, {"b", "int"}}, Rows: [][]any{{zeroOf(typ), 1}}}
		tb := build(t, m)
		real := v
		if x, ok := v.(*MT); ok {
			real = build(t, x)
		}
		name := rapid.SampledFrom([]string{"a", "a", "a", "a", "c"}).Draw(t, "name")
		want := name == "a" && goType(real) == canonType(typ)
		if nilTable, ok := real.(*gotables.Table); ok && nilTable == nil {
			want = false // A cell always holds a table.
		}
		c.Key("%s %s := %T %v", name, typ, v, clip(fmt.Sprint(v), 100))
		c.NonTrivial(true)
		c.ClassIf(want, "valid")
		for k, ask := range []func(string, interface{}) (bool, error){tb.IsValidColValue, tb.IsValidCellValue} {
			got, err := ask(name, real)
			if got != want || (err == nil) != want {
				t.Fatalf("%s of col %s of type %s, %T %v = %v, %v", []string{"IsValidColValue", "IsValidCellValue"}[k], name, typ, real, real, got, err)
			}
		}
		sameTable(t, m, tb, "after questions")
		if err := tb.SetVal(name, 0, real); (err == nil) != want {
			t.Fatalf("SetVal of col %s of type %s, %T %v: %v", name, typ, real, real, err)
		}
	})
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

// methodsOf: the methods of *Table and *TableSet.
func methodsOf() []reflect.Value {
	var out []reflect.Value
	for _, v := range []reflect.Value{reflect.ValueOf((*gotables.Table)(nil)), reflect.ValueOf((*gotables.TableSet)(nil))} {
		for i := 0; i < v.NumMethod(); i++ {
			out = append(out, v.Method(i))
		}
	}
	return out
}

func methodNames() (out []string) {
	for _, v := range []reflect.Type{reflect.TypeOf((*gotables.Table)(nil)), reflect.TypeOf((*gotables.TableSet)(nil))} {
		for i := 0; i < v.NumMethod(); i++ {
			out = append(out, v.Elem().Name()+"."+v.Method(i).Name)
		}
	}
	return
}

func drawArg(t *rapid.T, typ reflect.Type) reflect.Value {
	a := func(v any) reflect.Value { return reflect.ValueOf(v).Convert(typ) }
	switch typ {
	case reflect.TypeOf((*gotables.Table)(nil)):
		if rapid.Bool().Draw(t, "nilArg") {
			return reflect.Zero(typ)
		}
		return reflect.ValueOf(build(t, &MT{Name: "arg", Cols: []Col{{"a", "int"}}, Rows: [][]any{{1}}}))
	case reflect.TypeOf(gotables.WalkSafe{}):
		return reflect.ValueOf(make(gotables.WalkSafe))
	case reflect.TypeOf(time.Time{}):
		return reflect.ValueOf(genTime().Draw(t, "time"))
	}
	switch typ.Kind() {
	case reflect.String:
		return a(rapid.SampledFrom([]string{"", "a", "b", "int", "x y"}).Draw(t, "s"))
	case reflect.Bool:
		return a(rapid.Bool().Draw(t, "bool"))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return a(rapid.IntRange(0, 3).Draw(t, "n"))
	case reflect.Interface:
		return reflect.ValueOf(rapid.SampledFrom([]any{1, "x", 2.5}).Draw(t, "any"))
	case reflect.Slice:
		s := reflect.MakeSlice(typ, 0, 0)
		for n := rapid.IntRange(0, 2).Draw(t, "len"); n > 0; n-- {
			s = reflect.Append(s, drawArg(t, typ.Elem()))
		}
		return s
	}
	return reflect.Zero(typ)
}

func callArgs(t *rapid.T, name string, typ reflect.Type) (args []reflect.Value) {
	for i := 0; i < typ.NumIn(); i++ {
		if strings.HasSuffix(name, ".WriteFile") && i == 0 {
			args = append(args, reflect.ValueOf("no/such/directory"))
			continue
		}
		args = append(args, drawArg(t, typ.In(i)))
	}
	return
}

func call(m reflect.Value, args []reflect.Value) []reflect.Value {
	if m.Type().IsVariadic() {
		return m.CallSlice(args)
	}
	return m.Call(args)
}

func TestC27_nil(t *testing.T) {
	methods, names := methodsOf(), methodNames()
	runCheck(t, "every method of a table and a set called on a nil one, or with a nil table as its argument, with arguments of any kind; non-trivial = all", 3000, 100000, func(t *rapid.T, c *Case) {
		k := rapid.IntRange(0, len(methods)-1).Draw(t, "method")
		m, name := methods[k], names[k]
		typ := m.Type()
		args := callArgs(t, name, typ)
		c.Key("%s %v", name, args)
		c.NonTrivial(true)
		var out []reflect.Value
		p := try(func() {
			out = call(m, args)
		})
		mustForm := strings.HasSuffix(name, "MustGet") || strings.HasSuffix(name, "MustSet")
		if mustForm {
			if p == "" || strings.Contains(p, "nil pointer") {
				t.Fatalf("%s of a nil table with %v: %q, expecting a panic that says why", name, args, p)
			}
			c.Class("Must form")
			return
		}
		if p != "" {
			t.Fatalf("%s of a nil table with %v: %s", name, args, p)
		}
		n := typ.NumOut()
		if n > 0 && typ.Out(n-1) == errType {
			if out[n-1].IsNil() {
				t.Fatalf("%s of a nil table with %v gives no error but %v", name, args, out)
			}
			for _, o := range out[:n-1] {
				switch o.Kind() {
				case reflect.Ptr, reflect.Slice, reflect.Map:
					if !o.IsNil() {
						t.Fatalf("%s of a nil table with %v gives an error and %v", name, args, o)
					}
				case reflect.Bool:
					if o.Bool() && name != "Table.HasCircularReference" {
						t.Fatalf("%s of a nil table with %v gives an error and true", name, args)
					}
				}
			}
		}
	})
}

// ---------------------------------------------------------------- C28

func keyList(t fataler, tb *gotables.Table) []Key {
	t.Helper()
	kt, err := tb.GetSortKeysAsTable()
	must(t, err, "GetSortKeysAsTable")
	var keys []Key
	for r := 0; r < kt.RowCount(); r++ {
		name, err := kt.GetString("colName", r)
		must(t, err, "colName")
		typ, err := kt.GetString("colType", r)
		must(t, err, "colType")
		rev, err := kt.GetBool("reverse", r)
		must(t, err, "reverse")
		i, err := kt.GetInt("index", r)
		must(t, err, "index")
		ct, err := tb.ColType(name)
		must(t, err, "ColType of sort key %q", name)
		if i != r || ct != typ {
			t.Fatalf("sort key %d is index %d col %q type %q of a column of type %q", r, i, name, typ, ct)
		}
		keys = append(keys, Key{name, rev})
	}
	if kt.RowCount() != tb.SortKeyCount() {
		t.Fatalf("SortKeyCount() = %d with %d sort keys", tb.SortKeyCount(), kt.RowCount())
	}
	return keys
}

func TestC28_keys(t *testing.T) {
	runCheck(t, "5-25 operations on the sort keys of two tables (set, append, delete, reverse, take from the other table, sort) and on the columns under them (rename, delete, move, append), valid and not, compared with lists of keys after each; non-trivial = at least 4 effective operations and 2 sort keys at some time", 4000, 120000, func(t *rapid.T, c *Case) {
		type side struct {
			cols []Col
			keys []Key
			tb   *gotables.Table
		}
		pool := []string{"a", "b", "A", "ab", "e", "_"}
		sides := make([]*side, 2)
		for i := range sides {
			s := &side{}
			for _, n := range pool[:rapid.SampledFrom([]int{1, 2, 3, 3, 4, 4, 5}).Draw(t, "ncols")] {
				s.cols = append(s.cols, Col{n, rapid.SampledFrom(append([]string{"*Table", "time.Time"}, keyTypes...)).Draw(t, "type")})
			}
			m := &MT{Name: "T", Cols: s.cols}
			for r := rapid.IntRange(0, 3).Draw(t, "nrows"); r > 0; r-- {
				row := []any{}
				for _, col := range s.cols {
					row = append(row, smallVal(col.Type).Draw(t, "v"))
				}
				m.Rows = append(m.Rows, row)
			}
			s.cols = slices.Clone(s.cols)
			s.tb = build(t, m)
			sides[i] = s
		}
		find := func(s *side, name string) int {
			return slices.IndexFunc(s.cols, func(c Col) bool { return c.Name == name })
		}
		sortable := func(s *side, name string) bool {
			i := find(s, name)
			return i >= 0 && slices.Contains(keyTypes, s.cols[i].Type)
		}
		hasKey := func(s *side, name string) bool {
			return slices.ContainsFunc(s.keys, func(k Key) bool { return k.Col == name })
		}
		var log []string
		effective, most := 0, 0
		for n := rapid.IntRange(5, 25).Draw(t, "steps"); n > 0; n-- {
			w := rapid.IntRange(0, 1).Draw(t, "side")
			s, o := sides[w], sides[1-w]
			name := rapid.SampledFrom(pool).Draw(t, "name")
			if len(s.cols) > 0 && rapid.IntRange(0, 3).Draw(t, "present") > 0 {
				name = s.cols[rapid.IntRange(0, len(s.cols)-1).Draw(t, "which")].Name
			}
			names := []string{name}
			for i := rapid.SampledFrom([]int{0, 1, 1, 2, 2, 6}).Draw(t, "more"); i > 0; i-- {
				x := rapid.SampledFrom(pool).Draw(t, "another")
				if len(s.cols) > 0 && rapid.IntRange(0, 7).Draw(t, "presentToo") > 0 {
					x = s.cols[rapid.IntRange(0, len(s.cols)-1).Draw(t, "which")].Name
				}
				if !slices.Contains(names, x) {
					names = append(names, x)
				}
			}
			ok, next, cols := true, slices.Clone(s.keys), slices.Clone(s.cols)
			var err error
			op := rapid.IntRange(0, 10).Draw(t, "op")
			switch op {
			case 0, 1:
				if rapid.IntRange(0, 7).Draw(t, "none") == 0 {
					names = nil
				}
				next = nil
				for _, x := range names {
					ok = ok && sortable(s, x)
					next = append(next, Key{x, false})
				}
				log = append(log, fmt.Sprintf("%d: SetSortKeys(%v)", w, names))
				if op == 0 || len(names) == 0 {
					err = s.tb.SetSortKeys(names...)
				} else {
					log[len(log)-1] += " by Sort"
					err = s.tb.Sort(names...)
				}
			case 2:
				if hasKey(s, name) {
					continue // A key twice means no more than once.
				}
				ok = sortable(s, name)
				next = append(next, Key{name, false})
				log = append(log, fmt.Sprintf("%d: AppendSortKey(%s)", w, name))
				err = s.tb.AppendSortKey(name)
			case 3:
				ok = hasKey(s, name)
				if i := slices.IndexFunc(next, func(k Key) bool { return k.Col == name }); i >= 0 {
					next = slices.Delete(next, i, i+1)
				}
				log = append(log, fmt.Sprintf("%d: DeleteSortKey(%s)", w, name))
				err = s.tb.DeleteSortKey(name)
			case 4, 5:
				if len(s.keys) > 0 && oneIn(t, 3, "allReversed") {
					names = nil
					for _, k := range s.keys {
						names = append(names, k.Col)
					}
				}
				for _, x := range names {
					ok = ok && hasKey(s, x)
					for i := range next {
						if next[i].Col == x {
							next[i].Reverse = true
						}
					}
				}
				log = append(log, fmt.Sprintf("%d: SetSortKeysReverse(%v)", w, names))
				err = s.tb.SetSortKeysReverse(names...)
			case 6:
				ok = len(o.keys) > 0
				for _, k := range o.keys {
					ok = ok && sortable(s, k.Col)
				}
				next = slices.Clone(o.keys)
				log = append(log, fmt.Sprintf("%d: SetSortKeysFromTable", w))
				err = s.tb.SetSortKeysFromTable(o.tb)
			case 7:
				to := rapid.SampledFrom(append([]string{"int", "1x"}, pool...)).Draw(t, "to")
				i := find(s, name)
				ok = i >= 0 && find(s, to) < 0 && to != "int" && to != "1x"
				if ok {
					cols[i].Name = to
				}
				for k := range next {
					if next[k].Col == name {
						next[k].Col = to
					}
				}
				log = append(log, fmt.Sprintf("%d: RenameCol(%s,%s)", w, name, to))
				if i < 0 || rapid.Bool().Draw(t, "byName") {
					err = s.tb.RenameCol(name, to)
				} else {
					err = s.tb.RenameColByColIndex(i, to)
				}
			case 8:
				i := find(s, name)
				ok = i >= 0
				if ok {
					cols = slices.Delete(cols, i, i+1)
				}
				next = slices.DeleteFunc(next, func(k Key) bool { return k.Col == name })
				log = append(log, fmt.Sprintf("%d: DeleteCol(%s)", w, name))
				err = s.tb.DeleteCol(name)
			case 9:
				typ := rapid.SampledFrom(keyTypes).Draw(t, "newType")
				ok = find(s, name) < 0
				cols = append(cols, Col{name, typ})
				log = append(log, fmt.Sprintf("%d: AppendCol(%s,%s)", w, name, typ))
				err = s.tb.AppendCol(name, typ)
			case 10:
				if len(cols) < 2 {
					continue
				}
				perm := rapid.Permutation(indices(len(cols))).Draw(t, "order")
				cols = nil
				for _, i := range perm {
					cols = append(cols, s.cols[i])
				}
				log = append(log, fmt.Sprintf("%d: ReorderColsByColIndex(%v)", w, perm))
				err = s.tb.ReorderColsByColIndex(perm...)
			}
			c.Key("%v %v: %s", sides[0].cols, sides[1].cols, strings.Join(log, "; "))
			if (err == nil) != ok {
				t.Fatalf("expecting success %v, got error %v\nhistory: %s", ok, err, strings.Join(log, "; "))
			}
			if ok {
				effective++
				s.keys, s.cols = next, cols
			} else {
				c.Class("an error")
			}
			most = max(most, len(s.keys))
			for i, x := range sides {
				if got := keyList(t, x.tb); !slices.Equal(got, x.keys) {
					t.Fatalf("table %d has sort keys %v, expecting %v\nhistory: %s", i, got, x.keys, strings.Join(log, "; "))
				}
				for _, n := range pool {
					is, err := x.tb.IsSortKey(n)
					if is != hasKey(x, n) || (err == nil) != (find(x, n) >= 0) {
						t.Fatalf("table %d: IsSortKey(%q) = %v, %v\nhistory: %s", i, n, is, err, strings.Join(log, "; "))
					}
				}
				wellFormed(t, x.tb, "after "+log[len(log)-1])
				validTable(t, x.tb, "after "+log[len(log)-1])
			}
		}
		// Many keys at once, from one table to another with the columns in another order.
		if oneIn(t, 3, "manyKeys") {
			names := []string{"k1", "k2", "k3", "k4", "k5", "k6", "k7"}[:rapid.IntRange(3, 7).Draw(t, "nkeys")]
			from, to := &MT{Name: "From"}, &MT{Name: "To", Cols: []Col{{"other", "*Table"}}}
			var keys []Key
			typ := map[string]string{}
			up := rapid.SampledFrom([]int{0, 1, 4}).Draw(t, "ascending") // Of eight.
			for _, n := range names {
				typ[n] = rapid.SampledFrom(keyTypes).Draw(t, "type")
				from.Cols = append(from.Cols, Col{n, typ[n]})
				keys = append(keys, Key{n, rapid.IntRange(0, 7).Draw(t, "reverse") >= up})
			}
			for _, n := range rapid.Permutation(names).Draw(t, "colOrder") {
				to.Cols = append(to.Cols, Col{n, typ[n]})
			}
			a, b := build(t, from), build(t, to)
			setKeys(t, a, keys)
			must(t, b.SetSortKeysFromTable(a), "SetSortKeysFromTable")
			sameKeys(t, keys, a, "from")
			sameKeys(t, keys, b, "to")
			c.Class("many keys from another table")
		}
		// One column as a key twice, if that is allowed: the table stays valid, also when the column goes.
		for i, s := range sides {
			if len(s.keys) == 0 {
				continue
			}
			k := s.keys[rapid.IntRange(0, len(s.keys)-1).Draw(t, "twice")].Col
			if s.tb.AppendSortKey(k) != nil {
				continue
			}
			c.Class("a key twice")
			what := fmt.Sprintf("table %d with sort key %s again", i, k)
			for step := 0; step < 3; step++ {
				switch step {
				case 1:
					must(t, s.tb.SetSortKeysReverse(k), "SetSortKeysReverse(%q)", k)
					what += " in reverse"
				case 2:
					if rapid.Bool().Draw(t, "goes") {
						must(t, s.tb.DeleteCol(k), "DeleteCol(%q)", k)
						what += ", its column deleted"
					} else {
						must(t, s.tb.RenameCol(k, "renamed"), "RenameCol(%q)", k)
						what += ", its column renamed"
					}
				}
				wellFormed(t, s.tb, what)
				validTable(t, s.tb, what)
				keyList(t, s.tb)
				if s.tb.SortKeyCount() > 0 {
					must(t, s.tb.Sort(), "Sort() of %s", what)
				}
			}
		}
		c.NonTrivial(effective >= 4 && most >= 2)
	})
}
