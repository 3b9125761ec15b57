package gtverif

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C19: walks and circular references.

// tablesOf lists a table and all its nested tables in row and column order (nil tables included).
// The nesting must not be circular.
func tablesOf(t fataler, tb *gotables.Table) []*gotables.Table {
	t.Helper()
	out := []*gotables.Table{tb}
	for r := 0; r < tb.RowCount(); r++ {
		for c := 0; c < tb.ColCount(); c++ {
			if typ, _ := tb.ColTypeByColIndex(c); typ == "*Table" {
				nt, err := tb.GetTableByColIndex(c, r)
				must(t, err, "GetTableByColIndex(%d,%d)", c, r)
				out = append(out, tablesOf(t, nt)...)
			}
		}
	}
	return out
}

// visits is what a walk is expected to do, in order.
func visits(t fataler, tb *gotables.Table, down bool) []string {
	out := []string{fmt.Sprintf("table %p", tb)}
	for r := 0; r < tb.RowCount(); r++ {
		out = append(out, fmt.Sprintf("row %p %d", tb, r))
		for c := 0; c < tb.ColCount(); c++ {
			name, _ := tb.ColName(c)
			typ, _ := tb.ColTypeByColIndex(c)
			out = append(out, fmt.Sprintf("cell %p %d %s %s %d", tb, c, name, typ, r))
			if down && typ == "*Table" {
				nt, err := tb.GetTableByColIndex(c, r)
				must(t, err, "GetTableByColIndex")
				out = append(out, visits(t, nt, down)...)
			}
		}
	}
	return out
}

// recorder gives visitors that record what they see, failing at the visit numbered stopAt (-1: never).
type recorder struct {
	seen   []string
	stopAt int
	err    error
}

func (r *recorder) see(s string) error {
	r.seen = append(r.seen, s)
	if len(r.seen)-1 == r.stopAt {
		return r.err
	}
	return nil
}
func (r *recorder) table(tb *gotables.Table) error { return r.see(fmt.Sprintf("table %p", tb)) }
func (r *recorder) row(row gotables.Row) error {
	return r.see(fmt.Sprintf("row %p %d", row.Table, row.RowIndex))
}
func (r *recorder) cell(_ bool, ci gotables.CellInfo) error {
	return r.see(fmt.Sprintf("cell %p %d %s %s %d", ci.Table, ci.ColIndex, ci.ColName, ci.ColType, ci.RowIndex))
}

// drawTree: a random tree of tables. budget is the number of nested tables still allowed.
func drawTree(t *rapid.T, depth int, budget *int) *MT {
	m := &MT{Name: rapid.SampledFrom([]string{"a", "b", "c", "T", "Tbl_1", "_"}).Draw(t, "name")}
	nc := rapid.IntRange(0, 3).Draw(t, "ncols")
	for i := 0; i < nc; i++ {
		m.Cols = append(m.Cols, Col{fmt.Sprintf("c%d", i), rapid.SampledFrom([]string{"*Table", "*Table", "*Table", "int", "string"}).Draw(t, "type")})
	}
	if nc == 0 {
		return m
	}
	for r := rapid.IntRange(0, 3).Draw(t, "nrows"); r > 0; r-- {
		row := []any{}
		for _, c := range m.Cols {
			switch {
			case c.Type == "int":
				row = append(row, rapid.IntRange(0, 9).Draw(t, "v"))
			case c.Type == "string":
				row = append(row, rapid.SampledFrom([]string{"", "x", "y"}).Draw(t, "v"))
			case depth > 0 && *budget > 0 && rapid.IntRange(0, 2).Draw(t, "nested") > 0:
				*budget--
				row = append(row, drawTree(t, depth-1, budget))
			default:
				row = append(row, &MT{Nil: true})
			}
		}
		m.Rows = append(m.Rows, row)
	}
	return m
}

// chain: one table within another, n deep.
func chain(t *rapid.T, n int) *MT {
	m := &MT{Name: "bottom"}
	if rapid.IntRange(0, 2).Draw(t, "bytes") == 0 {
		m.Cols, m.Rows = []Col{{"b", "[]byte"}}, [][]any{{[]byte{1, 2}}}
	}
	for i := 0; i < n; i++ {
		pad := rapid.IntRange(0, 2).Draw(t, "pad")
		up := &MT{Name: fmt.Sprintf("level_%d", i)}
		row := []any{}
		for j := 0; j < pad; j++ {
			up.Cols = append(up.Cols, Col{fmt.Sprintf("p%d", j), "int"})
			row = append(row, j)
		}
		up.Cols = append(up.Cols, Col{"down", "*Table"})
		up.Rows = [][]any{append(row, m)}
		m = up
	}
	return m
}

func drawNesting(t *rapid.T, c *Case) (*MT, *gotables.Table) {
	var m *MT
	if rapid.IntRange(0, 5).Draw(t, "chain") == 0 {
		m = chain(t, rapid.IntRange(1, 35).Draw(t, "depth"))
		c.Class("chain")
		if rapid.IntRange(0, 2).Draw(t, "twins") == 0 { // Alike all the way down: only the cells they are in tell them apart.
			m.Cols[0].Name = "first"
			for n := rapid.IntRange(1, 3).Draw(t, "copies"); n > 0; n-- {
				m.Rows = append(m.Rows, m.clone().Rows[0])
			}
			up := &MT{Name: rapid.SampledFrom([]string{"a", "level_0", "a_long_name_for_a_table_with_others_in_it"}).Draw(t, "top"), Cols: []Col{{"left", "*Table"}, {"right", "*Table"}}}
			up.Rows = [][]any{{m, m.clone()}}
			m = up
			c.Class("twins")
		}
	} else {
		budget := 14
		m = drawTree(t, rapid.IntRange(0, 4).Draw(t, "maxDepth"), &budget)
	}
	return m, build(t, m)
}

func TestC19_walk(t *testing.T) {
	runCheck(t, "an acyclic nesting (random tree to depth 4, or a chain to depth 35), walked as a table and as part of a set, nested and not, with all or some visitors, to the end or to an error at any visit; non-trivial = at least 2 nested tables", 5000, 120000, func(t *rapid.T, c *Case) {
		m, tb := drawNesting(t, c)
		c.Key("%s", m)
		all := tablesOf(t, tb)
		c.NonTrivial(len(all) > 2)
		what := "acyclic nesting"
		for _, x := range all[:min(len(all), 6)] {
			has, err := x.HasCircularReference()
			if has || err != nil {
				t.Fatalf("%s: HasCircularReference of [%s] = %v, %v", what, x.Name(), has, err)
			}
			ok, err := x.IsValidTableNesting()
			if !ok || err != nil {
				t.Fatalf("%s: IsValidTableNesting of [%s] = %v, %v", what, x.Name(), ok, err)
			}
		}
		validTable(t, tb, what)
		for _, down := range []bool{true, false} {
			want := visits(t, tb, down)
			stop := -1
			var stopErr error
			if rapid.Bool().Draw(t, "stops") {
				stop = rapid.IntRange(0, len(want)-1).Draw(t, "stopAt")
				stopErr = errors.New("visitor stops here")
				want = want[:stop+1]
			}
			rec := &recorder{stopAt: stop, err: stopErr}
			err := tb.Walk(down, make(gotables.WalkSafe), rec.table, rec.row, rec.cell)
			if !errors.Is(err, stopErr) {
				t.Fatalf("Walk gave %v, expecting %v", err, stopErr)
			}
			compareVisits(t, want, rec.seen, "Walk")
			// Walking again gives the same, whatever happened before.
			rec = &recorder{stopAt: -1}
			must(t, tb.Walk(down, make(gotables.WalkSafe), rec.table, rec.row, rec.cell), "second Walk")
			compareVisits(t, visits(t, tb, down), rec.seen, "second Walk")
			// Only cells; nil visitors are skipped.
			cells := &recorder{stopAt: -1}
			must(t, tb.Walk(down, make(gotables.WalkSafe), nil, nil, cells.cell), "Walk with only a cell visitor")
			var wantCells []string
			for _, v := range visits(t, tb, down) {
				if v[:4] == "cell" {
					wantCells = append(wantCells, v)
				}
			}
			compareVisits(t, wantCells, cells.seen, "Walk of cells")
			// Any one or two of the visitors.
			some := rapid.IntRange(1, 6).Draw(t, "visitors")
			part := &recorder{stopAt: -1}
			var vt func(*gotables.Table) error
			var vr func(gotables.Row) error
			var vc func(bool, gotables.CellInfo) error
			if some&1 != 0 {
				vt = part.table
			}
			if some&2 != 0 {
				vr = part.row
			}
			if some&4 != 0 {
				vc = part.cell
			}
			must(t, tb.Walk(down, make(gotables.WalkSafe), vt, vr, vc), "Walk with some visitors")
			var wantPart []string
			for _, v := range visits(t, tb, down) {
				if v[:2] == "ta" && vt != nil || v[:2] == "ro" && vr != nil || v[:2] == "ce" && vc != nil {
					wantPart = append(wantPart, v)
				}
			}
			compareVisits(t, wantPart, part.seen, "Walk with some visitors")
		}
		// A set walks its tables in order: also one with rows and no columns, and one which holds a nested table of the first.
		set, err := gotables.NewTableSet("s")
		must(t, err, "NewTableSet")
		inSet := []*gotables.Table{tb, build(t, &MT{Name: m.Name + "_2", Cols: []Col{{"i", "int"}}, Rows: [][]any{{1}}})}
		if rapid.Bool().Draw(t, "noCols") {
			x := build(t, &MT{Name: m.Name + "_3"})
			must(t, x.AppendRows(rapid.IntRange(1, 3).Draw(t, "rows")), "AppendRows of a table without columns")
			inSet = append(inSet, x)
			c.Class("set: rows without columns")
		}
		if len(all) > 1 && rapid.Bool().Draw(t, "shares") {
			x := build(t, &MT{Name: m.Name + "_4", Cols: []Col{{"n", "*Table"}}, Rows: [][]any{{&MT{Nil: true}}}})
			must(t, x.SetTable("n", 0, all[rapid.IntRange(1, len(all)-1).Draw(t, "which")]), "SetTable")
			inSet = append(inSet, x)
			c.Class("set: two tables share a nested table")
		}
		if rapid.IntRange(0, 2).Draw(t, "nests") == 0 {
			x := build(t, &MT{Name: m.Name + "_5", Cols: []Col{{"n", "*Table"}}, Rows: [][]any{{&MT{Nil: true}}}})
			must(t, x.SetTable("n", 0, inSet[rapid.IntRange(0, len(inSet)-1).Draw(t, "nested")]), "SetTable")
			at := rapid.IntRange(0, len(inSet)).Draw(t, "at")
			inSet = append(append(append([]*gotables.Table{}, inSet[:at]...), x), inSet[at:]...)
			c.Class("set: a table nests another of the set")
		}
		for _, x := range inSet {
			must(t, set.AppendTable(x), "AppendTable")
		}
		if ok, err := set.IsValidTableSet(); !ok || err != nil {
			t.Fatalf("IsValidTableSet of acyclic nestings = %v, %v", ok, err)
		}
		down := rapid.IntRange(0, 3).Draw(t, "setDown") > 0
		var want []string
		for _, x := range inSet {
			want = append(want, visits(t, x, down)...)
		}
		rec := &recorder{stopAt: -1}
		var setErr error
		if how := rapid.IntRange(0, 5).Draw(t, "setStops"); how == 0 {
			setErr, want = errors.New("visitor of the set stops here"), nil
		} else if how < 3 {
			rec.stopAt, rec.err = rapid.IntRange(0, len(want)-1).Draw(t, "setStopAt"), errors.New("visitor stops here")
			want = want[:rec.stopAt+1]
		}
		sets := 0
		err = set.Walk(down, func(s *gotables.TableSet) error {
			if s != set {
				t.Fatalf("Walk visits another set")
			}
			sets++
			return setErr
		}, rec.table, rec.row, rec.cell)
		switch {
		case setErr != nil:
			if !errors.Is(err, setErr) {
				t.Fatalf("TableSet.Walk gave %v, expecting %v", err, setErr)
			}
		case !errors.Is(err, rec.err):
			t.Fatalf("TableSet.Walk gave %v, expecting %v", err, rec.err)
		}
		if sets != 1 {
			t.Fatalf("the set was visited %d times", sets)
		}
		compareVisits(t, want, rec.seen, "TableSet.Walk")
		sameTable(t, m, tb, "after walks")

		// Cell information.
		if len(m.Cols) > 0 {
			i := rapid.IntRange(0, len(m.Cols)-1).Draw(t, "infoCol")
			if len(m.Rows) > 0 {
				r := rapid.IntRange(0, len(m.Rows)-1).Draw(t, "infoRow")
				for k := 0; k < 2; k++ {
					ci, err := tb.GetCellInfoByColIndex(i, r)
					if k == 1 {
						ci, err = tb.GetCellInfo(m.Cols[i].Name, r)
					}
					must(t, err, "GetCellInfo")
					if ci.Table != tb || ci.ColIndex != i || ci.RowIndex != r || ci.ColName != m.Cols[i].Name || ci.ColType != m.Cols[i].Type {
						t.Fatalf("GetCellInfo(%d,%d) = %+v", i, r, ci)
					}
				}
			}
		}
		for _, bad := range []int{-1, len(m.Cols)} {
			if ci, err := tb.GetCellInfoByColIndex(bad, 0); err == nil {
				t.Fatalf("GetCellInfoByColIndex(%d,0) of %d columns = %+v, nil", bad, len(m.Cols), ci)
			}
		}
		if _, err := tb.GetCellInfo("no_such_column_here", 0); err == nil {
			t.Fatalf("GetCellInfo of an unknown column gave no error")
		}
	})
}

func compareVisits(t fataler, want, got []string, what string) {
	t.Helper()
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "nothing", "nothing"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			t.Fatalf("%s: visit %d is %s, expecting %s", what, i, g, w)
		}
	}
}

// repeats: does some non-nil table occur twice in what can be reached from tb?
func repeats(t fataler, tb *gotables.Table, seen map[*gotables.Table]bool) bool {
	if isNil, _ := tb.IsNilTable(); isNil {
		return false
	}
	if seen[tb] {
		return true
	}
	seen[tb] = true
	for r := 0; r < tb.RowCount(); r++ {
		for c := 0; c < tb.ColCount(); c++ {
			if typ, _ := tb.ColTypeByColIndex(c); typ == "*Table" {
				nt, err := tb.GetTableByColIndex(c, r)
				must(t, err, "GetTableByColIndex")
				if repeats(t, nt, seen) {
					return true
				}
			}
		}
	}
	return false
}

// cyclic: does some table hold itself, or another that holds it, and so on?
func cyclic(t fataler, tb *gotables.Table, within map[*gotables.Table]bool) bool {
	if isNil, _ := tb.IsNilTable(); isNil {
		return false
	}
	if within[tb] {
		return true
	}
	within[tb] = true
	defer delete(within, tb)
	for r := 0; r < tb.RowCount(); r++ {
		for c := 0; c < tb.ColCount(); c++ {
			if typ, _ := tb.ColTypeByColIndex(c); typ == "*Table" {
				nt, err := tb.GetTableByColIndex(c, r)
				must(t, err, "GetTableByColIndex")
				if cyclic(t, nt, within) {
					return true
				}
			}
		}
	}
	return false
}

// circError: err says that there is a circular reference, and to which table.
func circError(t fataler, root *gotables.Table, err error, what string) {
	t.Helper()
	if !gotables.HasCircRefError(err) || gotables.GetCircRefError(err) == nil {
		t.Fatalf("the error of %s is no circular reference error: %v", what, err)
	}
	circ := gotables.GetCircRefError(err).CircTable()
	times := 0
	seen := map[*gotables.Table]bool{}
	var count func(tb *gotables.Table)
	count = func(tb *gotables.Table) {
		if tb == circ {
			times++
		}
		if seen[tb] {
			return
		}
		seen[tb] = true
		for r := 0; r < tb.RowCount(); r++ {
			for c := 0; c < tb.ColCount(); c++ {
				if typ, _ := tb.ColTypeByColIndex(c); typ == "*Table" {
					nt, err := tb.GetTableByColIndex(c, r)
					must(t, err, "GetTableByColIndex")
					count(nt)
				}
			}
		}
	}
	count(root)
	if times < 2 {
		t.Fatalf("%s says that [%s] is repeated (%v), but it is not", what, circ.Name(), err)
	}
	// However often it is wrapped.
	wrapped := err
	for _, format := range []string{"%w", "in that: %w", "%w and more"} {
		wrapped = fmt.Errorf(format, wrapped)
		if !gotables.HasCircRefError(wrapped) || gotables.GetCircRefError(wrapped) != gotables.GetCircRefError(err) {
			t.Fatalf("the wrapped error of %s is no circular reference error: %v", what, wrapped)
		}
	}
	if top := gotables.GetCircRefError(err).RootTable(); top == nil || !seen[top] {
		t.Fatalf("%s blames a table that is not of this nesting (%v)", what, err)
	}
}

// nestedOrder: a model and the models nested in it, each before those nested in it, column by column.
func nestedOrder(m *MT) []*MT {
	out := []*MT{m}
	for i, col := range m.Cols {
		if col.Type == "*Table" {
			for _, row := range m.Rows {
				out = append(out, nestedOrder(row[i].(*MT))...)
			}
		}
	}
	return out
}

var wayNames = []string{"a parsed text", "a deep copy", "JSON", "YAML", "gob"}

// anotherWay: the table made again by other means; nil if that is not possible.
func anotherWay(t fataler, tb *gotables.Table, way int) *gotables.Table {
	var out *gotables.Table
	var err error
	set, err := gotables.NewTableSet("")
	must(t, err, "NewTableSet")
	must(t, set.Append(tb), "Append")
	switch way {
	case 0:
		out, err = gotables.NewTableFromString(tb.String())
	case 1:
		out, err = tb.CopyDeep()
	case 2:
		js, err := tb.GetTableAsJSON()
		if err != nil {
			return nil // Not everything is JSON.
		}
		out, err = gotables.NewTableFromJSON(js)
		must(t, err, "NewTableFromJSON")
	case 3:
		ym, err := set.GetTableSetAsYAML()
		if err != nil {
			return nil
		}
		set, err = gotables.NewTableSetFromYAML(ym)
		must(t, err, "NewTableSetFromYAML")
		out, err = set.GetTableByTableIndex(0)
		must(t, err, "GetTableByTableIndex")
	case 4:
		b, err := tb.GobEncode()
		if err != nil {
			return nil
		}
		out, err = gotables.GobDecodeTable(b)
		must(t, err, "GobDecodeTable")
	}
	must(t, err, "%s", wayNames[way])
	return out
}

func TestC19_text(t *testing.T) {
	runCheck(t, "the nested text of an acyclic nesting (random tree to depth 4, or a chain to depth 35): every table of it once, under a name of its own that starts with its name, readable as a set; also whose cell each table is in, before and after failed moves; non-trivial = at least 2 nested tables", 3000, 80000, func(t *rapid.T, c *Case) {
		m, tb := drawNesting(t, c)
		c.Key("%s", m)
		order := nestedOrder(m)
		c.NonTrivial(len(order) > 2)
		text := tb.StringNested()
		left := text
		names := map[string]bool{}
		for i, x := range order {
			end := strings.Index(left, "]\n")
			if !strings.HasPrefix(left, "[") || end < 0 {
				t.Fatalf("table %d [%s] is missing in the nested text of %s\n%s", i, x.Name, m, text)
			}
			y := x.clone()
			y.Nil = false
			y.Name = left[1:end]
			if !strings.HasPrefix(y.Name, x.Name) || i == 0 && y.Name != x.Name || names[y.Name] {
				t.Fatalf("table %d [%s] is [%s] in the nested text of %s\n%s", i, x.Name, y.Name, m, text)
			}
			names[y.Name] = true
			want := build(t, y).String() + "\n"
			if !strings.HasPrefix(left, want) {
				t.Fatalf("table %d [%s] is not next in the nested text of %s\n%s\nexpecting\n%s", i, x.Name, m, text, want)
			}
			left = left[len(want):]
		}
		if left != "" {
			t.Fatalf("more than the tables in the nested text of %s: %q\n%s", m, left, text)
		}
		ts, err := gotables.NewTableSetFromString(text)
		must(t, err, "parsing the nested text of %s\n%s", m, text)
		if ts.TableCount() != len(order) {
			t.Fatalf("%d tables in the nested text of %d", ts.TableCount(), len(order))
		}
		sameTable(t, m, tb, "after StringNested")
		if again := tb.StringNested(); again != text {
			t.Fatalf("StringNested() of %s gives %q, at first %q", m, again, text)
		}

		// Parents.
		if tb.ParentTable() != nil {
			t.Fatalf("the table has a parent table [%s]", tb.ParentTable().Name())
		}
		all := tablesOf(t, tb)
		parentsOf := func(all []*gotables.Table, what string) {
			for _, x := range all {
				for r := 0; r < x.RowCount(); r++ {
					for i := 0; i < x.ColCount(); i++ {
						if typ, _ := x.ColTypeByColIndex(i); typ == "*Table" {
							nt, err := x.GetTableByColIndex(i, r)
							must(t, err, "GetTableByColIndex")
							if nt.ParentTable() != x {
								t.Fatalf("%s: the parent of [%s] in cell (%d,%d) of [%s] is %v", what, nt.Name(), r, i, x.Name(), nt.ParentTable())
							}
						}
					}
				}
			}
		}
		parents := func(what string) { parentsOf(all, what) }
		// However a table was made.
		for way := range wayNames {
			tb2 := anotherWay(t, tb, way)
			if tb2 == nil {
				continue
			}
			c.Class("parents of " + wayNames[way])
			if tb2.ParentTable() != nil {
				t.Fatalf("%s: the table has a parent table [%s]", wayNames[way], tb2.ParentTable().Name())
			}
			parentsOf(tablesOf(t, tb2), wayNames[way])
		}
		// However it is used for other tables, which share its cells.
		cp, err := tb.Copy()
		must(t, err, "Copy")
		if len(m.Rows) > 0 {
			last := len(m.Rows) - 1
			_, err = tb.NewTableFromRows("from_rows", 0, last)
			must(t, err, "NewTableFromRows")
			must(t, cp.AppendRowsFromTable(tb, 0, last), "AppendRowsFromTable")
		}
		if i := m.colIndex("c0"); i >= 0 && m.Cols[i].Type != "*Table" {
			must(t, tb.SetSortKeys("c0"), "SetSortKeys")
			other, err := tb.Copy()
			must(t, err, "Copy")
			_, err = tb.Merge(other)
			must(t, err, "Merge")
			c.Class("merged")
			must(t, tb.SetSortKeys(), "SetSortKeys")
		}
		if tb.ParentTable() != nil {
			t.Fatalf("the table has a parent table [%s]", tb.ParentTable().Name())
		}
		parents("the original")
		parents("as built")
		// Moved to a cell of another table, and perhaps back.
		if len(all) > 1 {
			k := rapid.IntRange(1, len(all)-1).Draw(t, "nested")
			x := all[k]
			owner := x.ParentTable()
			other := build(t, &MT{Name: "other", Cols: []Col{{"n", "*Table"}, {"m", "*Table"}}, Rows: [][]any{{&MT{Nil: true}, &MT{Nil: true}}}})
			name := rapid.SampledFrom([]string{"n", "m"}).Draw(t, "otherCol")
			if rapid.Bool().Draw(t, "setVal") {
				must(t, other.SetVal(name, 0, x), "SetVal")
			} else {
				must(t, other.SetTable(name, 0, x), "SetTable")
			}
			if x.ParentTable() != other {
				t.Fatalf("[%s] was set in a cell of another table, and its parent is %v", x.Name(), x.ParentTable())
			}
			for r := 0; r < owner.RowCount(); r++ {
				for i := 0; i < owner.ColCount(); i++ {
					if typ, _ := owner.ColTypeByColIndex(i); typ == "*Table" {
						if nt, err := owner.GetTableByColIndex(i, r); err == nil && nt == x {
							must(t, owner.SetTableByColIndex(i, r, x), "SetTableByColIndex")
						}
					}
				}
			}
			parents("after a table was moved and moved back")
		}
		from := all[rapid.IntRange(0, len(all)-1).Draw(t, "moved")]
		into := all[rapid.IntRange(0, len(all)-1).Draw(t, "into")]
		bad := rapid.SampledFrom([]string{"row", "-1", "col", "type"}).Draw(t, "bad")
		switch bad {
		case "row":
			err = into.SetTableByColIndex(0, into.RowCount(), from)
		case "-1":
			err = into.SetTableByColIndex(0, -1, from)
		case "col":
			err = into.SetTable("no_such", 0, from)
		case "type":
			i := 0
			for i < into.ColCount() {
				if typ, _ := into.ColTypeByColIndex(i); typ != "*Table" {
					break
				}
				i++
			}
			err = into.SetTableByColIndex(i, 0, from)
		}
		if err == nil {
			t.Fatalf("SetTable with a bad %s gives no error", bad)
		}
		parents("after a failed SetTable (" + bad + ")")
		if tb.ParentTable() != nil {
			t.Fatalf("after a failed SetTable (%s) the table has a parent table", bad)
		}
	})
}

func TestC19_cycle(t *testing.T) {
	runCheck(t, "a nesting in which one table cell anywhere is made to hold a table from anywhere in the nesting (itself, an ancestor, or one elsewhere), by SetTable or SetVal; every table of it checked; non-trivial = the root reaches a table twice and has at least 3 tables", 6000, 150000, func(t *rapid.T, c *Case) {
		m, tb := drawNesting(t, c)
		all := tablesOf(t, tb)
		type cellAt struct {
			tb   *gotables.Table
			c, r int
		}
		var cells []cellAt
		var named []*gotables.Table
		for _, x := range all {
			if isNil, _ := x.IsNilTable(); isNil {
				continue
			}
			named = append(named, x)
			for r := 0; r < x.RowCount(); r++ {
				for col := 0; col < x.ColCount(); col++ {
					if typ, _ := x.ColTypeByColIndex(col); typ == "*Table" {
						cells = append(cells, cellAt{x, col, r})
					}
				}
			}
		}
		if len(cells) == 0 {
			c.Key("%s", m)
			return
		}
		at := cells[rapid.IntRange(0, len(cells)-1).Draw(t, "cell")]
		ti := rapid.IntRange(0, len(named)-1).Draw(t, "target")
		target := named[ti]
		old, err := at.tb.GetTableByColIndex(at.c, at.r)
		must(t, err, "GetTableByColIndex")
		c.Key("%s: cell (%d,%d) of [%s] holds table %d [%s]", m, at.r, at.c, at.tb.Name(), ti, target.Name())
		if rapid.Bool().Draw(t, "setVal") {
			must(t, at.tb.SetValByColIndex(at.c, at.r, target), "SetValByColIndex")
		} else {
			must(t, at.tb.SetTableByColIndex(at.c, at.r, target), "SetTableByColIndex")
		}
		rootRepeats := repeats(t, tb, map[*gotables.Table]bool{})
		c.NonTrivial(rootRepeats && len(named) >= 3)
		c.ClassIf(target == at.tb, "holds itself")
		c.ClassIf(target == tb, "holds the root")
		c.ClassIf(!rootRepeats, "no repeat")
		check := func(x *gotables.Table) {
			want := repeats(t, x, map[*gotables.Table]bool{})
			has, err := x.HasCircularReference()
			if has != want || (err != nil) != want {
				t.Fatalf("HasCircularReference of [%s] = %v, %v, expecting %v", x.Name(), has, err, want)
			}
			ok, err := x.IsValidTableNesting()
			if ok == want || (err != nil) != want {
				t.Fatalf("IsValidTableNesting of [%s] = %v, %v, expecting %v", x.Name(), ok, err, !want)
			}
			if want {
				circError(t, x, err, "IsValidTableNesting")
				said := gotables.GetCircRefError(err)
				_, err = x.HasCircularReference()
				circError(t, x, err, "HasCircularReference")
				if says := gotables.GetCircRefError(err); says.RootTable() != said.RootTable() || says.CircTable() != said.CircTable() {
					t.Fatalf("HasCircularReference of [%s] blames [%s] in [%s], IsValidTableNesting [%s] in [%s]", x.Name(), says.CircTable().Name(), says.RootTable().Name(), said.CircTable().Name(), said.RootTable().Name())
				}
			}
			if ok, err := x.IsValidTable(); ok == want || (err != nil) != want {
				t.Fatalf("IsValidTable of [%s] = %v, %v, expecting %v", x.Name(), ok, err, !want)
			}
			seen := map[*gotables.Table]int{}
			err = x.Walk(true, make(gotables.WalkSafe), func(v *gotables.Table) error {
				if isNil, _ := v.IsNilTable(); !isNil {
					seen[v]++
				}
				return nil
			}, nil, nil)
			if (err != nil) != want {
				t.Fatalf("Walk of [%s] = %v, with a repeated table: %v", x.Name(), err, want)
			}
			if want {
				circError(t, x, err, "Walk")
			}
			nested := x.StringNested() // Ends.
			if !cyclic(t, x, map[*gotables.Table]bool{}) {
				// Every cell's table is there, also where two cells hold one table.
				all := 0
				for _, y := range tablesOf(t, x) {
					if isNil, _ := y.IsNilTable(); !isNil {
						all++
					}
				}
				if shown := strings.Count("\n"+nested, "\n["); shown < all {
					t.Fatalf("%d of %d tables are shown in the nested text of [%s]\n%s", shown, all, x.Name(), nested)
				}
			}
			for v, n := range seen {
				if n > 1 {
					t.Fatalf("Walk visited [%s] %d times", v.Name(), n)
				}
			}
			if cp, err := x.Copy(); (err != nil) != want {
				t.Fatalf("Copy of [%s] = %v, %v, with a repeated table: %v", x.Name(), cp != nil, err, want)
			}
			if cp, err := x.CopyDeep(); (err != nil) != want {
				t.Fatalf("CopyDeep of [%s] = %v, %v, with a repeated table: %v", x.Name(), cp != nil, err, want)
			}
		}
		check(tb)
		for i := 0; i < 3; i++ {
			check(named[rapid.IntRange(0, len(named)-1).Draw(t, "checked")])
		}
		// A set of some tables of the nesting, and others.
		set, err := gotables.NewTableSet("")
		must(t, err, "NewTableSet")
		wantSet := false
		inSet := map[string]bool{}
		for i := rapid.IntRange(1, 4).Draw(t, "inSet"); i > 0; i-- {
			x := named[rapid.IntRange(0, len(named)-1).Draw(t, "tableInSet")]
			if oneIn(t, 4, "another") {
				x = build(t, &MT{Name: "another", Cols: []Col{{"i", "int"}}, Rows: [][]any{{i}}})
			}
			if inSet[x.Name()] {
				continue
			}
			inSet[x.Name()] = true
			must(t, set.AppendTable(x), "AppendTable")
			wantSet = wantSet || repeats(t, x, map[*gotables.Table]bool{})
		}
		if ok, err := set.IsValidTableSet(); ok == wantSet || (err != nil) != wantSet {
			t.Fatalf("IsValidTableSet of %d tables, circular: %v = %v, %v", set.TableCount(), wantSet, ok, err)
		} else if wantSet && !gotables.HasCircRefError(err) {
			t.Fatalf("the error of IsValidTableSet is no circular reference error: %v", err)
		}
		// Put back what was there: the nesting is a tree again.
		must(t, at.tb.SetTableByColIndex(at.c, at.r, old), "SetTableByColIndex")
		check(tb)
		sameTable(t, m, tb, "after the repeated table was removed")
	})
}
