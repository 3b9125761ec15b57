package gtverif

import (
	"fmt"
	"reflect"
	"slices"
	"strings"
	"testing"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C34: what a table does depends on what it holds, not on how it came to hold it.

var origins = []string{"text", "unpadded text", "deep copy", "JSON", "YAML", "gob", "copy", "rows of another", "rows appended", "columns reordered", "more columns", "more rows", "file", "JSON set", "struct", "columns swapped", "sorted", "nil slices"}

// fromOrigin: a table that holds what m does, made in some way; nil if it cannot be made so.
func fromOrigin(t *rapid.T, m *MT, origin string) *gotables.Table {
	tb := build(t, m)
	set, err := gotables.NewTableSet("")
	must(t, err, "NewTableSet")
	must(t, set.Append(tb), "Append")
	last := tb.RowCount() - 1
	switch origin {
	case "text":
		tb, err = gotables.NewTableFromString(tb.String())
	case "unpadded text":
		tb, err = gotables.NewTableFromString(tb.StringUnpadded())
	case "file":
		if err = set.SetName("S"); err == nil {
			set, err = gotables.NewTableSetFromString(set.String())
		}
		if err == nil {
			tb, err = set.GetTable(m.Name)
		}
	case "struct":
		if last == 0 {
			must(t, tb.SetStructShape(true), "SetStructShape")
			tb, err = gotables.NewTableFromString(tb.String())
		}
	case "deep copy":
		tb, err = tb.CopyDeep()
	case "copy":
		if tb, err = tb.Copy(); err == nil {
			ownNested(t, tb, m)
		}
	case "JSON":
		var s string
		if s, err = tb.GetTableAsJSON(); err == nil {
			tb, err = gotables.NewTableFromJSON(s)
		}
	case "JSON set":
		var s string
		if s, err = set.GetTableSetAsJSONIndent(); err == nil {
			if set, err = gotables.NewTableSetFromJSON(s); err == nil {
				tb, err = set.GetTableByTableIndex(0)
			}
		}
	case "YAML":
		var s string
		if s, err = set.GetTableSetAsYAML(); err == nil {
			if set, err = gotables.NewTableSetFromYAML(s); err == nil {
				tb, err = set.GetTableByTableIndex(0)
			}
		}
	case "gob":
		var b []byte
		if b, err = tb.GobEncode(); err == nil {
			tb, err = gotables.GobDecodeTable(b)
		}
	case "rows of another":
		if last >= 0 {
			if tb, err = tb.NewTableFromRows(m.Name, 0, last); err == nil {
				ownNested(t, tb, m)
			}
		}
	case "rows appended":
		if last >= 0 {
			from := tb
			tb = build(t, &MT{Name: m.Name, Cols: m.Cols})
			k := rapid.IntRange(0, last).Draw(t, "half")
			if err = tb.AppendRowsFromTable(from, 0, k); err == nil && k < last {
				err = tb.AppendRowsFromTable(from, k+1, last)
			}
			if err == nil {
				ownNested(t, tb, m)
			}
		}
	case "columns reordered":
		perm := rapid.Permutation(indices(len(m.Cols))).Draw(t, "perm")
		back := make([]int, len(perm))
		for to, from := range perm {
			back[from] = to
		}
		if len(perm) > 0 {
			if err = tb.ReorderColsByColIndex(perm...); err == nil {
				err = tb.ReorderColsByColIndex(back...)
			}
		}
	case "columns swapped":
		if len(m.Cols) > 1 {
			i := rapid.IntRange(1, len(m.Cols)-1).Draw(t, "swap")
			if err = tb.SwapColsByColIndex(0, i); err == nil {
				err = tb.SwapColsByColIndex(0, i)
			}
		}
	case "more columns":
		more := m.clone()
		at := rapid.IntRange(0, len(m.Cols)).Draw(t, "at")
		more.Cols = slices.Insert(slices.Clone(more.Cols), at, Col{"more", "string"})
		for r := range more.Rows {
			more.Rows[r] = slices.Insert(slices.Clone(more.Rows[r]), at, any("x"))
		}
		tb = build(t, more)
		if len(m.Cols) > 0 {
			err = tb.DeleteCol("more")
		}
	case "more rows":
		if len(m.Cols) > 0 {
			more := m.clone()
			at := rapid.IntRange(0, len(m.Rows)).Draw(t, "at")
			row := []any{}
			for _, col := range m.Cols {
				row = append(row, smallVal(col.Type).Draw(t, "v"))
			}
			more.Struct = false
			more.Rows = slices.Insert(slices.Clone(more.Rows), at, row)
			tb = build(t, more)
			err = tb.DeleteRow(at)
		}
	case "nil slices": // An empty slice may be nil.
		for c, col := range m.Cols {
			for r := range m.Rows {
				if x, ok := m.Rows[r][c].([]byte); ok && len(x) == 0 && rapid.Bool().Draw(t, "nilSlice") {
					must(t, tb.SetValByColIndex(c, r, []byte(nil)), "SetValByColIndex of a nil %s", col.Type)
				}
			}
		}
	case "sorted":
		if len(m.Cols) > 0 {
			if name := m.Cols[0].Name; isKeyType(m.Cols[0].Type) {
				must(t, tb.SetSortKeys(name), "SetSortKeys")
				must(t, tb.SetSortKeys(), "SetSortKeys()")
			}
		}
	}
	if err != nil || tb == nil {
		return nil
	}
	if m.Struct {
		_ = tb.SetStructShape(true)
	}
	return tb
}

// ownNested gives a copy that is not deep tables of its own in its cells.
func ownNested(t fataler, tb *gotables.Table, m *MT) {
	for c := range m.Cols {
		for r := range m.Rows {
			if x, ok := m.Rows[r][c].(*MT); ok {
				must(t, tb.SetTableByColIndex(c, r, build(t, x)), "SetTableByColIndex")
			}
		}
	}
}

func TestC34_origin(t *testing.T) {
	tableType := reflect.TypeOf((*gotables.Table)(nil))
	var askers, changers, edits []string
	for i := 0; i < tableType.NumMethod(); i++ {
		name := tableType.Method(i).Name
		switch {
		case strings.HasPrefix(name, "NewTreeTable") || name == "ShuffleRandom" || strings.HasSuffix(name, "GobDecode"):
		case changes(name):
			changers = append(changers, name)
			if typeOfMethod(name) == "" {
				edits = append(edits, name)
			}
		case typeOfMethod(name) == "":
			askers = append(askers, name)
		}
	}
	runCheck(t, "a table (small, keyed or a tree) and another that holds the same but was made in one of 18 ways (text, JSON, YAML, Gob, copies, rows or columns moved and back, taken away again), then 3-18 requests (any method, arguments mostly such as fit) asked of both, and of the tables in them, and of the tables they give; non-trivial = at least 2 requests done that change something", 18000, 600000, func(t *rapid.T, c *Case) {
		w := &world{t: t}
		var m *MT
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0:
			budget := 5
			m = drawTree(t, 3, &budget)
		case 1:
			m = genTable(tableOpts{types: keyTypes, minCols: 1, maxCols: 4, minRows: 0, maxRows: 6}).Draw(t, "m")
		default:
			m = w.table()
		}
		origin := rapid.SampledFrom(origins).Draw(t, "origin")
		if origin == "nil slices" && len(m.Cols) > 0 {
			m = m.clone()
			m.Cols = append(m.Cols, Col{"bytes", rapid.SampledFrom([]string{"[]byte", "[]uint8"}).Draw(t, "bytes")})
			for r := range m.Rows {
				m.Rows[r] = append(m.Rows[r], []byte{})
			}
		}
		var log []string
		c.Key("%s of %s", origin, m)
		two := [2]*gotables.Table{build(t, m), fromOrigin(t, m, origin)}
		if two[1] == nil {
			c.Class("cannot be made so")
			return
		}
		if rapid.Bool().Draw(t, "keys") {
			for _, col := range m.Cols {
				if isKeyType(col.Type) && rapid.Bool().Draw(t, "isKey") {
					reverse := rapid.Bool().Draw(t, "reverse")
					for _, tb := range two {
						if must(t, tb.AppendSortKey(col.Name), "AppendSortKey"); reverse {
							must(t, tb.SetSortKeysReverse(col.Name), "SetSortKeysReverse")
						}
					}
				}
			}
		}
		if tellTable(t, two[0], 5) != tellTable(t, two[1], 5) {
			c.Class("not carried by " + origin) // Which is for other properties to judge.
			return
		}
		c.Class(origin)
		done := 0
		for n := rapid.IntRange(3, 18).Draw(t, "requests"); n > 0; n-- {
			all := [2][]*gotables.Table{withNested(t, two[:1]), withNested(t, two[1:])}
			which := 0
			if len(all[0]) > 1 && rapid.Bool().Draw(t, "nested") {
				which = rapid.IntRange(1, len(all[0])-1).Draw(t, "which")
			}
			tb := all[0][which]
			var name string
			switch rapid.IntRange(0, 5).Draw(t, "kind") {
			case 5:
				name = rapid.SampledFrom([]string{"Equals", "Equals", "Search", "SearchRange", "Merge", "SortUnique", "Sort", "GetTableAsJSON", "GobEncode", "CopyDeep", "String"}).Draw(t, "often")
			case 0, 1:
				name = rapid.SampledFrom(askers).Draw(t, "asker")
			case 2:
				name = rapid.SampledFrom(changers).Draw(t, "changer")
			default:
				name = rapid.SampledFrom(edits).Draw(t, "edit")
			}
			wantCol := -1
			if typ := typeOfMethod(name); typ != "" {
				for i := 0; i < tb.ColCount(); i++ {
					if ct, _ := tb.ColTypeByColIndex(i); ct == typ {
						wantCol = i
					}
				}
			}
			typ := reflect.ValueOf(tb).MethodByName(name).Type()
			var args [2][]reflect.Value
			for i := 0; i < typ.NumIn(); i++ {
				if typ.In(i) == tableType && rapid.IntRange(0, 7).Draw(t, "nil") > 0 {
					x := w.table()
					if name == "Merge" || name == "Nest" || strings.Contains(name, "FromTable") || name == "Equals" { // One like it at times.
						if rapid.Bool().Draw(t, "like") {
							x = m
						}
					}
					for j := range two {
						y := build(t, x)
						if tb.SortKeyCount() > 0 && x == m {
							_ = y.SetSortKeysFromTable(all[j][which])
						}
						args[j] = append(args[j], reflect.ValueOf(y))
					}
					continue
				}
				w.tables = []*gotables.Table{tb}
				a := w.arg(tb, name, typ.In(i), &wantCol)
				args[0] = append(args[0], a)
				switch x := a.Interface().(type) {
				case *gotables.Table:
					if x != nil {
						y, err := x.CopyDeep()
						must(t, err, "CopyDeep")
						args[0][len(args[0])-1] = reflect.ValueOf(y)
						y, err = x.CopyDeep()
						must(t, err, "CopyDeep")
						a = reflect.ValueOf(y)
					}
				case []byte:
					a = reflect.ValueOf(slices.Clone(x)).Convert(a.Type())
				}
				args[1] = append(args[1], a)
			}
			sees := rapid.Bool().Draw(t, "sees")
			log = append(log, fmt.Sprintf("%d.%s%s", which, name, showArgs(args[0])))
			c.Key("%s of %s: %s", origin, m, strings.Join(log, "; "))
			var answers [2]string
			var out [2][]reflect.Value
			for j := range two {
				answers[j], out[j] = request(wordless{t}, reflect.ValueOf(all[j][which]), name, args[j], sees)
				for _, a := range args[j] {
					if x, ok := a.Interface().(*gotables.Table); ok && x != nil {
						answers[j] += "\nits argument: " + tellTable(t, x, 5)
					}
				}
				answers[j] += "\nthen: " + tellTable(t, two[j], 5)
			}
			if answers[0] != answers[1] {
				t.Fatalf("a table made in the usual way and one that holds the same made by %s differ: %s\ntable: %s\nrequests: %s", origin, firstDiff(answers[0], answers[1]), m, strings.Join(log, ";\n"))
			}
			if k := len(out[0]); changes(name) && k > 0 && (!out[0][k-1].IsValid() || out[0][k-1].Kind() != reflect.Interface || out[0][k-1].IsNil()) {
				done++
			}
			for i := range out[0] { // Go on with what they gave at times.
				x, ok := out[0][i].Interface().(*gotables.Table)
				if ok && x != nil && rapid.IntRange(0, 2).Draw(t, "goOn") == 0 {
					two = [2]*gotables.Table{x, out[1][i].Interface().(*gotables.Table)}
					log = append(log, "(what it gave)")
				}
			}
		}
		c.NonTrivial(done >= 2)
	})
}
