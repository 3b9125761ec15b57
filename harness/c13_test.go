package gtverif

import (
	"bytes"
	"fmt"
	"math"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C13 equality, C14 copies.

// Values for equality: no NaN (its equality is left open).
var eqVal = valOpts{inf: true, anyUTF8: true, nested: 2}

// libEq: cell equality as the library documents it: times by instant, columns of nested tables in any order.
func libEq(a, b any) bool {
	switch x := a.(type) {
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case *MT:
		y, ok := b.(*MT)
		return ok && tablesEq(x, y)
	}
	return valEq(a, b)
}

// tablesEq: same name, columns (in any order), and rows.
func tablesEq(a, b *MT) bool {
	if a.Nil || b.Nil {
		return a.Nil == b.Nil
	}
	if a.Name != b.Name || len(a.Cols) != len(b.Cols) || len(a.Rows) != len(b.Rows) {
		return false
	}
	for i, c := range a.Cols {
		j := b.colIndex(c.Name)
		if j < 0 || b.Cols[j].Type != c.Type {
			return false
		}
		for r := range a.Rows {
			if !libEq(a.Rows[r][i], b.Rows[r][j]) {
				return false
			}
		}
	}
	return true
}

func (m *MT) hasNaN() bool {
	for _, r := range m.Rows {
		for _, v := range r {
			switch x := v.(type) {
			case float32:
				if x != x {
					return true
				}
			case float64:
				if x != x {
					return true
				}
			case *MT:
				if x.hasNaN() {
					return true
				}
			}
		}
	}
	return false
}

// shuffleCols permutes the columns of a table and of its nested tables.
func shuffleCols(t *rapid.T, m *MT) *MT {
	if m.Nil {
		return m
	}
	p := permuteCols(m, rapid.Permutation(indices(len(m.Cols))).Draw(t, "colOrder"))
	for r := range p.Rows {
		for c, v := range p.Rows[r] {
			if n, ok := v.(*MT); ok {
				p.Rows[r][c] = shuffleCols(t, n)
			}
		}
	}
	return p
}

// mutate makes one difference somewhere in a copy of m and says what. "" when none was possible.
func mutate(t *rapid.T, m *MT) (*MT, string) {
	m2 := m.clone()
	if m2.Nil {
		return &MT{Name: "was_nil"}, "nil table became a table"
	}
	// Go down into a nested table in some cases.
	var nested [][2]int
	for r := range m2.Rows {
		for c, col := range m2.Cols {
			if col.Type == "*Table" {
				nested = append(nested, [2]int{r, c})
			}
		}
	}
	if len(nested) > 0 && rapid.Bool().Draw(t, "down") {
		at := rapid.SampledFrom(nested).Draw(t, "at")
		n, what := mutate(t, m2.Rows[at[0]][at[1]].(*MT))
		if what == "" {
			return nil, ""
		}
		m2.Rows[at[0]][at[1]] = n
		return m2, "nested: " + what
	}
	switch rapid.IntRange(0, 7).Draw(t, "mutation") {
	case 0, 1, 2: // one cell
		if len(m2.Rows) == 0 || len(m2.Cols) == 0 {
			return nil, ""
		}
		r, c := rapid.IntRange(0, len(m2.Rows)-1).Draw(t, "row"), rapid.IntRange(0, len(m2.Cols)-1).Draw(t, "col")
		old := m2.Rows[r][c]
		v := genVal(m2.Cols[c].Type, eqVal).Draw(t, "newVal")
		if b, ok := old.([]byte); ok && len(b) > 0 && rapid.Bool().Draw(t, "oneByte") {
			nb := append([]byte{}, b...)
			nb[rapid.IntRange(0, len(b)-1).Draw(t, "byteAt")]++
			v = nb
		}
		if tm, ok := old.(time.Time); ok && rapid.Bool().Draw(t, "oneNano") {
			v = tm.Add(1)
		}
		if near := nearVals(m2.Cols[c].Type, old); len(near) > 0 && rapid.IntRange(0, 2).Draw(t, "near") > 0 {
			v = rapid.SampledFrom(near).Draw(t, "nearVal")
		}
		if libEq(old, v) {
			return nil, ""
		}
		m2.Rows[r][c] = v
		return m2, fmt.Sprintf("cell (%d,%s %s): %s to %s", r, m2.Cols[c].Name, m2.Cols[c].Type, fmtVal(old), fmtVal(v))
	case 3: // column name
		if len(m2.Cols) == 0 {
			return nil, ""
		}
		c := rapid.IntRange(0, len(m2.Cols)-1).Draw(t, "col")
		n := genName().Draw(t, "newName")
		if m2.colIndex(n) >= 0 {
			return nil, ""
		}
		m2.Cols[c].Name = n
		return m2, "column name"
	case 4: // column type
		if len(m2.Cols) == 0 {
			return nil, ""
		}
		c := rapid.IntRange(0, len(m2.Cols)-1).Draw(t, "col")
		typ := rapid.SampledFrom(allTypes).Draw(t, "newType")
		if typ == m2.Cols[c].Type {
			return nil, ""
		}
		same := canonType(typ) == canonType(m2.Cols[c].Type)
		m2.Cols[c].Type = typ
		for r := range m2.Rows {
			if !same {
				m2.Rows[r][c] = zeroOf(typ)
			}
		}
		return m2, "column type"
	case 5: // row count
		if len(m2.Rows) > 0 && rapid.Bool().Draw(t, "fewer") {
			r := rapid.IntRange(0, len(m2.Rows)-1).Draw(t, "row")
			m2.Rows = append(m2.Rows[:r], m2.Rows[r+1:]...)
			return m2, "a row less"
		}
		if len(m2.Cols) == 0 {
			return nil, ""
		}
		row := []any{}
		for _, c := range m2.Cols {
			row = append(row, zeroOf(c.Type))
		}
		m2.Rows = append(m2.Rows, row)
		return m2, "a row more"
	case 6: // table name
		n := genName().Draw(t, "newName")
		if n == m2.Name {
			return nil, ""
		}
		m2.Name = n
		return m2, "table name"
	case 7: // two rows swapped
		if len(m2.Rows) < 2 {
			return nil, ""
		}
		i := rapid.IntRange(0, len(m2.Rows)-2).Draw(t, "row")
		m2.Rows[i], m2.Rows[i+1] = m2.Rows[i+1], m2.Rows[i]
		if tablesEq(m, m2) {
			return nil, ""
		}
		return m2, "rows swapped"
	}
	return nil, ""
}

// nearVals: values which differ from v as little as can be.
func nearVals(typ string, v any) (near []any) {
	switch x := v.(type) {
	case string:
		if x == "" {
			return nil
		}
		near = []any{strings.ToUpper(x), strings.ToLower(x), strings.TrimSpace(x), x + " ", x + "\x00", x[1:], x[:len(x)-1], x[:len(x)-1] + string(x[len(x)-1]^1), string(x[0]^0x20) + x[1:]}
	case float64:
		near = []any{math.Nextafter(x, math.Inf(1)), math.Nextafter(x, math.Inf(-1)), float64(float32(x)), -x}
	case float32:
		near = []any{math.Nextafter32(x, float32(math.Inf(1))), math.Nextafter32(x, float32(math.Inf(-1))), -x}
	case int64:
		near = []any{x ^ 1, x ^ 1<<32, x ^ math.MinInt64}
	case uint64:
		near = []any{x ^ 1, x ^ 1<<32, x ^ 1<<63}
	case int:
		near = []any{x ^ 1, x ^ 1<<32, x ^ math.MinInt}
	case uint:
		near = []any{x ^ 1, x ^ 1<<32, x ^ 1<<63}
	case int32:
		if typ == "rune" {
			return nil // The neighbour might be no rune.
		}
		near = []any{x ^ 1, x ^ 1<<16, x ^ math.MinInt32}
	case uint32:
		near = []any{x ^ 1, x ^ 1<<16, x ^ 1<<31}
	case int16:
		near = []any{x ^ 1, x ^ 1<<8, x ^ math.MinInt16}
	case uint16:
		near = []any{x ^ 1, x ^ 1<<8, x ^ 1<<15}
	case int8:
		near = []any{x ^ 1, x ^ math.MinInt8}
	case uint8:
		near = []any{x ^ 1, x ^ 1<<7}
	case time.Time:
		near = []any{x.Add(1), x.Add(-1), x.Add(time.Second), x.Add(1 << 32)}
	case []byte:
		if len(x) > 0 {
			near = []any{append([]byte{0}, x...), append(slices.Clone(x), 0), slices.Clone(x[1:]), slices.Clone(x[:len(x)-1])}
		}
	}
	return near
}

func wantEquals(t fataler, a, b *gotables.Table, want bool, what string) {
	t.Helper()
	for i := 0; i < 2; i++ {
		got, err := a.Equals(b)
		if got != want || (err == nil) != want {
			t.Fatalf("%s: Equals = %v, %v, expecting %v", what, got, err, want)
		}
		a, b = b, a
	}
}

func genEqTable() *rapid.Generator[*MT] {
	return genTable(tableOpts{types: allTypes, maxCols: 5, maxRows: 4, val: eqVal})
}

func TestC13_table(t *testing.T) {
	runCheck(t, "a table with nested tables to depth 2 and without NaN, a twin (columns possibly in another order at every depth), and a table with one difference at any depth; both directions compared; non-trivial = a difference was made in a table with at least one row", 10000, 300000, func(t *rapid.T, c *Case) {
		m := genEqTable().Draw(t, "table")
		a := build(t, m)
		wantEquals(t, a, a, true, "itself")
		twin := m
		if rapid.Bool().Draw(t, "otherColOrder") {
			twin = shuffleCols(t, m)
			c.Class("columns in another order")
		}
		c.Key("%s twin %s", m, twin)
		b := build(t, twin)
		if rapid.Bool().Draw(t, "sorted") && len(m.Cols) > 0 && isKeyType(m.Cols[0].Type) {
			// Sort keys and shape are no part of the data compared.
			must(t, b.SetSortKeys(m.Cols[0].Name), "SetSortKeys")
			must(t, b.SetStructShape(true), "SetStructShape")
		}
		wantEquals(t, a, b, true, "twin")
		m2, what := mutate(t, twin)
		if what != "" {
			c.Key("%s against %s: %s", m, m2, what)
			c.NonTrivial(len(m.Rows) > 0)
			c.Class("difference " + firstWords(what))
			wantEquals(t, a, build(t, m2), false, what)
		}
		sameTable(t, m, a, "after Equals")
		sameTable(t, twin, b, "after Equals")
	})
}

func firstWords(s string) string {
	nested := ""
	for len(s) > 8 && s[:8] == "nested: " {
		nested, s = "nested ", s[8:]
	}
	if len(s) > 6 && s[:6] == "cell (" {
		s = "cell"
	}
	return nested + s
}

func TestC13_set(t *testing.T) {
	runCheck(t, "a set of 0-4 tables, its twin, and a set with one difference (a table's, one table more or less, two swapped); non-trivial = a difference in a set of at least 2 tables", 6000, 150000, func(t *rapid.T, c *Case) {
		names := rapid.SliceOfNDistinct(genName(), 0, 4, rapid.ID[string]).Draw(t, "names")
		var ms []*MT
		for _, n := range names {
			m := genTable(tableOpts{types: allTypes, maxCols: 3, maxRows: 2, val: valOpts{inf: true, nested: 1}}).Draw(t, "table")
			m.Name = n
			ms = append(ms, m)
		}
		ms = append(ms, moreTables(t)...)
		mk := func(ms []*MT) *gotables.TableSet {
			s, err := gotables.NewTableSet("s")
			must(t, err, "NewTableSet")
			for _, m := range ms {
				must(t, s.AppendTable(build(t, m)), "AppendTable")
			}
			return s
		}
		c.Key("%v", ms)
		want := func(a, b *gotables.TableSet, want bool, what string) {
			for i := 0; i < 2; i++ {
				got, err := a.Equals(b)
				if got != want || (err == nil) != want {
					t.Fatalf("set %s: Equals = %v, %v, expecting %v", what, got, err, want)
				}
				a, b = b, a
			}
		}
		a := mk(ms)
		want(a, a, true, "itself")
		want(a, mk(ms), true, "twin")
		ms2 := append([]*MT{}, ms...)
		what := ""
		switch rapid.IntRange(0, 4).Draw(t, "how") {
		case 0:
			ms2, what = append(ms2, &MT{Name: "one_more_table"}), "one more"
		case 1:
			if len(ms) > 0 {
				i := rapid.IntRange(0, len(ms)-1).Draw(t, "less")
				ms2, what = append(ms2[:i], ms2[i+1:]...), "one less"
			}
		case 2:
			if len(ms) > 1 {
				i := rapid.IntRange(0, len(ms)-2).Draw(t, "swap")
				ms2[i], ms2[i+1] = ms2[i+1], ms2[i]
				what = "swapped"
			}
		default:
			if len(ms) > 0 {
				i := rapid.IntRange(0, len(ms)-1).Draw(t, "which")
				m2, w := mutate(t, ms[i])
				if w != "" {
					dup := false
					for j := range ms {
						dup = dup || j != i && ms[j].Name == m2.Name
					}
					if !dup {
						ms2[i], what = m2, w
					}
				}
			}
		}
		if what != "" {
			c.Key("%v against %v: %s", ms, ms2, what)
			c.NonTrivial(len(ms) >= 2)
			c.Class("difference " + firstWords(what))
			want(a, mk(ms2), false, what)
		}
	})
}

func TestC13_bytes(t *testing.T) {
	runCheck(t, "two byte slices, equal, different in one byte, or one a prefix of the other; non-trivial = not empty", 20000, 400000, func(t *rapid.T, c *Case) {
		a := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "a")
		if len(a) > 0 && oneIn(t, 8, "long") {
			a = bytes.Repeat(a, rapid.IntRange(2, 200).Draw(t, "repeat"))
		}
		b := append([]byte{}, a...)
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 1:
			if len(b) > 0 {
				b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
			}
		case 2:
			b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(t, "more")...)
		case 3:
			b = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "b")
		}
		c.Key("%v %v", a, b)
		c.NonTrivial(len(a) > 0 && len(b) > 0)
		want := string(a) == string(b)
		for i := 0; i < 2; i++ {
			got, err := gotables.Uint8SliceEquals(a, b)
			if got != want || (err == nil) != want {
				t.Fatalf("Uint8SliceEquals(%v,%v) = %v, %v", a, b, got, err)
			}
			a, b = b, a
		}
	})
}

// ---------------------------------------------------------------- C14

// drawHistStart: a table for hist with its sort keys.
func histStart(t *rapid.T, c *Case) *hist {
	h := &hist{t: t, c: c, m: &MT{Name: "original"}}
	for _, n := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a", "b", "c", "d", "E"}), 1, 5, rapid.ID[string]).Draw(t, "startCols") {
		h.m.Cols = append(h.m.Cols, Col{n, h.typ()})
	}
	for r := rapid.IntRange(0, 6).Draw(t, "startRows"); r > 0; r-- {
		row := []any{}
		for _, col := range h.m.Cols {
			row = append(row, h.val(col.Type))
		}
		h.m.Rows = append(h.m.Rows, row)
	}
	h.keys = drawKeys(t, h.m)
	h.step("start %s keys %v", h.m, h.keys)
	h.tb = build(t, h.m)
	setKeys(t, h.tb, h.keys)
	return h
}

func TestC14_copy(t *testing.T) {
	runCheck(t, "a table with sort keys, a way to copy it (Copy, CopyCols, CopyDeep, NewTableFromRows, NewTableReorderCols, set Copy), then 1-15 random edits on one or the other side, each compared with its own model; non-trivial = at least 3 edits took effect on a table with rows", 8000, 200000, func(t *rapid.T, c *Case) {
		h := histStart(t, c)
		want := h.m.clone()
		var cp *gotables.Table
		var err error
		whole := true
		how := rapid.IntRange(0, 5).Draw(t, "how")
		names := []string{"Copy", "CopyCols", "CopyDeep", "NewTableFromRows", "NewTableReorderCols", "TableSet.Copy"}
		if how == 3 && len(h.m.Rows) == 0 {
			how = 0
		}
		h.step("%s", names[how])
		c.Class(names[how])
		switch how {
		case 0:
			cp, err = h.tb.Copy()
		case 1:
			cp, err = h.tb.CopyCols()
			want.Rows = nil
		case 2:
			cp, err = h.tb.CopyDeep()
		case 3:
			first, last := 0, len(h.m.Rows)-1
			if rapid.Bool().Draw(t, "someRows") {
				first = rapid.IntRange(0, last).Draw(t, "first")
				last = rapid.IntRange(first, last).Draw(t, "last")
				c.Class("some of the rows")
			}
			want.Rows = want.Rows[first : last+1]
			whole = len(want.Rows) == len(h.m.Rows)
			cp, err = h.tb.NewTableFromRows(h.m.Name, first, last)
		case 4:
			cp, err = h.tb.NewTableReorderCols(colNames(h.m)...)
		case 5:
			var set, set2 *gotables.TableSet
			set, err = gotables.NewTableSet("set")
			must(t, err, "NewTableSet")
			must(t, set.AppendTable(h.tb), "AppendTable")
			set.SetFileName("a_file")
			set2, err = set.Copy()
			must(t, err, "TableSet.Copy")
			if set2.Name() != "set" || set2.FileName() != "a_file" || set2.TableCount() != 1 {
				t.Fatalf("copy of a set of 1: name %q, file %q, %d tables", set2.Name(), set2.FileName(), set2.TableCount())
			}
			cp, err = set2.GetTable("original")
			if err == nil {
				// The registers are independent.
				must(t, set2.AppendTable(build(t, &MT{Name: "extra"})), "AppendTable")
				must(t, set2.SetName("other_set"), "SetName")
				if set.TableCount() != 1 || set.Name() != "set" {
					t.Fatalf("editing the copy of a set changed the set: %d tables, name %q", set.TableCount(), set.Name())
				}
				must(t, set.DeleteTable("original"), "DeleteTable")
				if set2.TableCount() != 2 {
					t.Fatalf("deleting from a set changed its copy")
				}
			}
		}
		must(t, err, "%s", names[how])
		if cp == h.tb {
			t.Fatalf("%s returned the table itself", names[how])
		}
		sameTable(t, want, cp, names[how])
		h.check() // the original is unchanged
		if how != 1 && whole && !want.hasNaN() {
			wantEquals(t, h.tb, cp, true, names[how])
		}
		// A history on either side; each side compared with its own model after every edit.
		other := &hist{t: t, c: c, m: want, tb: cp, keys: keysOf(t, cp)}
		other.m.Struct, err = cp.IsStructShape()
		must(t, err, "IsStructShape")
		sides := [2]*hist{h, other}
		if how != 2 { // All but a deep copy share the nested tables.
			h.shared, other.shared = true, true
		}
		for i := rapid.IntRange(1, 15).Draw(t, "edits"); i > 0; i-- {
			side := rapid.IntRange(0, 1).Draw(t, "side")
			h.log = append(h.log, []string{"original:", "copy:"}[side])
			other.log = h.log
			sides[side].log = h.log
			sides[side].run(1)
			h.log = sides[side].log
			other.log = h.log
			h.check()
			other.check()
		}
		c.NonTrivial(h.ok+other.ok >= 3 && len(want.Rows)+len(h.m.Rows) > 0)
	})
}

// editNested changes something in the table or in one of its nested tables, in both the real table and the model.
func editNested(t *rapid.T, tb *gotables.Table, m *MT) string {
	for c, col := range m.Cols {
		if col.Type != "*Table" {
			continue
		}
		for r := range m.Rows {
			n := m.Rows[r][c].(*MT)
			if !n.Nil && len(n.Cols) > 0 && rapid.IntRange(0, 2).Draw(t, "into") > 0 {
				nt, err := tb.GetTableByColIndex(c, r)
				must(t, err, "GetTableByColIndex")
				return fmt.Sprintf("(%d,%d) ", r, c) + editNested(t, nt, n)
			}
		}
	}
	switch op := rapid.IntRange(0, 4).Draw(t, "edit"); {
	case op == 0:
		must(t, tb.SetName("renamed_by_edit"), "SetName")
		m.Name = "renamed_by_edit"
		return "SetName"
	case op == 1 && len(m.Cols) > 0:
		must(t, tb.AppendRow(), "AppendRow")
		row := []any{}
		for _, c := range m.Cols {
			row = append(row, zeroOf(c.Type))
		}
		m.Rows = append(m.Rows, row)
		return "AppendRow"
	case op == 2 && len(m.Rows) > 0:
		must(t, tb.DeleteRow(0), "DeleteRow")
		m.Rows = m.Rows[1:]
		return "DeleteRow"
	case op == 3 && m.colIndex("new_by_edit") < 0:
		must(t, tb.AppendCol("new_by_edit", "int"), "AppendCol")
		m.Cols = append(m.Cols, Col{"new_by_edit", "int"})
		for r := range m.Rows {
			m.Rows[r] = append(m.Rows[r], 0)
		}
		return "AppendCol"
	case len(m.Rows) > 0 && len(m.Cols) > 0:
		r, c := rapid.IntRange(0, len(m.Rows)-1).Draw(t, "row"), rapid.IntRange(0, len(m.Cols)-1).Draw(t, "col")
		if b, ok := m.Rows[r][c].([]byte); ok && len(b) > 0 && rapid.Bool().Draw(t, "inPlace") {
			v, err := tb.GetValByColIndex(c, r)
			must(t, err, "GetValByColIndex")
			v.([]byte)[0]++
			b[0]++
			return fmt.Sprintf("byte of cell (%d,%d) in place", r, c)
		}
		must(t, tb.SetCellToZeroValueByColIndex(c, r), "zero")
		m.Rows[r][c] = zeroOf(m.Cols[c].Type)
		return fmt.Sprintf("zero (%d,%d)", r, c)
	}
	return "nothing"
}

func TestC14_deep(t *testing.T) {
	runCheck(t, "a table with nested tables to depth 3 (or a chain to depth 20), deep-copied; then 1-8 edits at any depth on either side; non-trivial = there is a nested table and something was edited", 8000, 200000, func(t *rapid.T, c *Case) {
		m := genTable(tableOpts{types: []string{"*Table", "int", "string", "[]byte", "*Table", "float64", "time.Time"}, minCols: 1, maxCols: 4, minRows: 0, maxRows: 3, val: valOpts{inf: true, nan: true, nested: 3}}).Draw(t, "table")
		if rapid.IntRange(0, 7).Draw(t, "chain") == 0 {
			m = chain(t, rapid.IntRange(1, 20).Draw(t, "depth"))
			c.Class("chain")
		}
		tb := build(t, m)
		c.Key("%s", m)
		cp, err := tb.CopyDeep()
		must(t, err, "CopyDeep")
		sameTable(t, m, tb, "original after CopyDeep")
		sameTable(t, m, cp, "CopyDeep")
		if !m.hasNaN() {
			wantEquals(t, tb, cp, true, "CopyDeep")
		}
		validTable(t, cp, "CopyDeep")
		// No table is shared.
		orig := map[*gotables.Table]bool{}
		for _, x := range tablesOf(t, tb) {
			orig[x] = true
		}
		for _, x := range tablesOf(t, cp) {
			if orig[x] {
				t.Fatalf("CopyDeep shares table [%s] with the original", x.Name())
			}
		}
		m1, m2 := m.clone(), m.clone()
		log := ""
		for i := rapid.IntRange(1, 8).Draw(t, "edits"); i > 0; i-- {
			if rapid.Bool().Draw(t, "side") {
				log += " original:" + editNested(t, tb, m1)
			} else {
				log += " copy:" + editNested(t, cp, m2)
			}
			c.Key("%s edits%s", m, log)
			sameTable(t, m1, tb, "original after"+log)
			sameTable(t, m2, cp, "copy after"+log)
		}
		c.NonTrivial(len(orig) > 1 && log != "")
	})
}

func TestC14_set(t *testing.T) {
	runCheck(t, "a set of 0-4 tables with a name and a file name, named or not, copied; then 1-6 edits of the tables, names and membership of one side; each side against its own model; non-trivial = at least one table and one edit that took effect", 4000, 100000, func(t *rapid.T, c *Case) {
		s := &MSet{}
		if rapid.Bool().Draw(t, "named") {
			s.Name = genName().Draw(t, "setName")
		}
		file := rapid.SampledFrom([]string{"", "a.got", "/x/y z"}).Draw(t, "file")
		names := rapid.SliceOfNDistinct(genName(), 0, 4, rapid.ID[string]).Draw(t, "names")
		for _, n := range names {
			m := genTable(tableOpts{types: allTypes, maxCols: 3, maxRows: 2, val: valOpts{nan: true, inf: true, anyUTF8: true, named: true}}).Draw(t, "table")
			m.Name = n
			s.Tables = append(s.Tables, m)
		}
		s.Tables = append(s.Tables, moreTables(t)...)
		c.Key("%s %s", file, s)
		ts := buildSet(t, s)
		ts.SetFileName(file)
		cp, err := ts.Copy()
		must(t, err, "Copy of %s", s)
		sides := []*gotables.TableSet{ts, cp}
		models := []*MSet{s, {Name: s.Name}}
		files := []string{file, file}
		for _, m := range s.Tables {
			models[1].Tables = append(models[1].Tables, m.clone())
		}
		same := func(what string) {
			t.Helper()
			for i, side := range []string{"the set", "the copy"} {
				sameSet(t, models[i], sides[i], what+": "+side)
				if sides[i].FileName() != files[i] {
					t.Fatalf("%s: %s has file name %q, want %q", what, side, sides[i].FileName(), files[i])
				}
			}
		}
		same("just copied")
		edits := 0
		for n := rapid.IntRange(1, 6).Draw(t, "edits"); n > 0; n-- {
			i := rapid.IntRange(0, 1).Draw(t, "side")
			set, m := sides[i], models[i]
			what := ""
			switch k := rapid.IntRange(0, 5).Draw(t, "edit"); {
			case k == 0:
				what = "SetName"
				m.Name = genName().Draw(t, "newName")
				must(t, set.SetName(m.Name), "SetName")
			case k == 1:
				what = "SetFileName"
				files[i] = rapid.SampledFrom([]string{"", "b.got"}).Draw(t, "newFile")
				set.SetFileName(files[i])
			case k == 2 || len(m.Tables) == 0:
				x := &MT{Name: fmt.Sprintf("extra__%d", n), Cols: []Col{{"x", "int"}}, Rows: [][]any{{n}}}
				what = "AppendTable"
				m.Tables = append(m.Tables, x)
				must(t, set.AppendTable(build(t, x)), "AppendTable")
			case k == 3:
				j := rapid.IntRange(0, len(m.Tables)-1).Draw(t, "deleted")
				what = "DeleteTableByTableIndex"
				must(t, set.DeleteTableByTableIndex(j), "DeleteTableByTableIndex")
				m.Tables = append(append([]*MT{}, m.Tables[:j]...), m.Tables[j+1:]...)
			default:
				j := rapid.IntRange(0, len(m.Tables)-1).Draw(t, "edited")
				tb, err := set.GetTableByTableIndex(j)
				must(t, err, "GetTableByTableIndex")
				switch {
				case k == 4:
					what = "RenameTable"
					name := fmt.Sprintf("renamed__%d", n)
					must(t, tb.RenameTable(name), "RenameTable")
					m.Tables[j].Name = name
				case len(m.Tables[j].Rows) > 0:
					what = "DeleteRow"
					must(t, tb.DeleteRow(0), "DeleteRow")
					m.Tables[j].Rows = m.Tables[j].Rows[1:]
				default:
					what = "AppendCol"
					col := Col{fmt.Sprintf("added__%d", n), "string"}
					must(t, tb.AppendCol(col.Name, col.Type), "AppendCol")
					m.Tables[j].Cols = append(append([]Col{}, m.Tables[j].Cols...), col)
				}
			}
			edits++
			c.Class(what)
			same(what)
		}
		c.NonTrivial(len(names) > 0 && edits > 0)
	})
}
