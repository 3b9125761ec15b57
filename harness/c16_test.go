package gtverif

import (
	"fmt"
	"testing"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C16 column rearrangement, C18 row rearrangement.

func rowsTable(t *rapid.T, minCols int) *MT {
	return genTable(tableOpts{types: allTypes, minCols: minCols, maxCols: 6, minRows: 0, maxRows: 5, val: valOpts{nan: true, inf: true, anyUTF8: true, named: true}}).Draw(t, "table")
}

// drawKeys picks sort keys among the table's sortable columns.
func drawKeys(t *rapid.T, m *MT) []Key {
	var cols []string
	for _, c := range m.Cols {
		if isKeyType(c.Type) {
			cols = append(cols, c.Name)
		}
	}
	keys := []Key{}
	if len(cols) == 0 {
		return keys
	}
	for _, c := range rapid.Permutation(cols).Draw(t, "keyCols")[:rapid.IntRange(0, min(3, len(cols))).Draw(t, "nkeys")] {
		keys = append(keys, Key{c, rapid.Bool().Draw(t, "reverse")})
	}
	return keys
}

func colNames(m *MT) []string {
	var s []string
	for _, c := range m.Cols {
		s = append(s, c.Name)
	}
	return s
}

func TestC16_rearrange(t *testing.T) {
	runCheck(t, "a table (any column types, 0-5 rows), sort keys, and 1-4 rearrangements in sequence (swap or reorder by name or index, in place or new, by sort keys); non-trivial = at least 2 columns, 1 row and one real move", 12000, 300000, func(t *rapid.T, c *Case) {
		m := rowsTable(t, 1)
		keys := drawKeys(t, m)
		tb := build(t, m)
		setKeys(t, tb, keys)
		n := len(m.Cols)
		key := fmt.Sprintf("%s keys %v", m, keys)
		moved := false
		for i := rapid.IntRange(1, 4).Draw(t, "nops"); i > 0; i-- {
			op := rapid.IntRange(0, 6).Draw(t, "op")
			perm := rapid.Permutation(indices(n)).Draw(t, "perm")
			want := permuteCols(m, perm)
			names := colNames(want)
			var err error
			switch op {
			case 0, 1: // swap
				a, b := rapid.IntRange(0, n-1).Draw(t, "a"), rapid.IntRange(0, n-1).Draw(t, "b")
				key += fmt.Sprintf(" swap %d %d", a, b)
				c.Key("%s", key)
				if op == 0 {
					err = tb.SwapColsByColIndex(a, b)
				} else {
					err = tb.SwapCols(m.Cols[a].Name, m.Cols[b].Name)
				}
				if a == b { // Documented nowhere; today an error. Either way nothing may change.
					sameTable(t, m, tb, "after swapping a column with itself")
					sameKeys(t, keys, tb, "after swapping a column with itself")
					continue
				}
				must(t, err, "swap %d %d", a, b)
				perm = indices(n)
				perm[a], perm[b] = b, a
				want = permuteCols(m, perm)
			case 2:
				key += fmt.Sprintf(" ReorderCols %q", names)
				c.Key("%s", key)
				must(t, tb.ReorderCols(names...), "ReorderCols(%q)", names)
			case 3:
				key += fmt.Sprintf(" ReorderColsByColIndex %v", perm)
				c.Key("%s", key)
				must(t, tb.ReorderColsByColIndex(perm...), "ReorderColsByColIndex(%v)", perm)
			case 4, 5:
				key += fmt.Sprintf(" NewTableReorderCols(op %d) %v", op, perm)
				c.Key("%s", key)
				var nt *gotables.Table
				if op == 4 {
					nt, err = tb.NewTableReorderCols(names...)
				} else {
					nt, err = tb.NewTableReorderColsByColIndex(perm...)
				}
				must(t, err, "NewTableReorderCols")
				if nt == tb {
					t.Fatalf("NewTableReorderCols returned the table itself")
				}
				sameTable(t, m, tb, "original after NewTableReorderCols")
				sameKeys(t, keys, tb, "original after NewTableReorderCols")
				sameTable(t, want, nt, "NewTableReorderCols")
				// The new table is independent.
				if len(m.Rows) > 0 {
					must(t, nt.DeleteRow(0), "DeleteRow")
				}
				must(t, nt.SetColCellsToZeroValueByColIndex(0), "zero")
				must(t, nt.DeleteColByColIndex(n-1), "DeleteCol")
				sameTable(t, m, tb, "original after edits of its reordered copy")
				continue
			case 6:
				key += " OrderColsBySortKeys"
				c.Key("%s", key)
				must(t, tb.OrderColsBySortKeys(), "OrderColsBySortKeys")
				perm = nil
				used := map[int]bool{}
				for _, k := range keys {
					perm = append(perm, m.colIndex(k.Col))
					used[m.colIndex(k.Col)] = true
				}
				for i := range m.Cols {
					if !used[i] {
						perm = append(perm, i)
					}
				}
				want = permuteCols(m, perm)
			}
			c.Class(fmt.Sprintf("op %d", op))
			for i := range perm {
				moved = moved || perm[i] != i
			}
			sameTable(t, want, tb, fmt.Sprintf("after op %d", op))
			sameKeys(t, keys, tb, fmt.Sprintf("after op %d", op))
			validTable(t, tb, fmt.Sprintf("after op %d", op))
			m = want
		}
		c.Key("%s", key)
		c.NonTrivial(moved && len(m.Rows) > 0)
		// The sort keys still find their columns.
		if len(keys) > 0 {
			must(t, tb.Sort(), "Sort")
			checkSorted(t, m, read(t, tb), keys, "Sort after rearranging")
		}
	})
}

func TestC16_invalid(t *testing.T) {
	runCheck(t, "a table and an invalid rearrangement (too few, too many, duplicate, unknown or out-of-range columns); non-trivial = at least 2 columns and 1 row", 8000, 200000, func(t *rapid.T, c *Case) {
		m := rowsTable(t, 1)
		keys := drawKeys(t, m)
		tb := build(t, m)
		setKeys(t, tb, keys)
		n := len(m.Cols)
		perm := rapid.Permutation(indices(n)).Draw(t, "perm")
		names := colNames(permuteCols(m, perm))
		how := rapid.IntRange(0, 3).Draw(t, "how")
		at := rapid.IntRange(0, n-1).Draw(t, "at")
		switch how {
		case 0:
			perm, names = append([]int{}, perm[1:]...), append([]string{}, names[1:]...)
		case 1:
			perm, names = append(perm, perm[at]), append(names, names[at])
		case 2:
			if n < 2 {
				t.Skip("needs 2 columns")
			}
			other := (at + 1 + rapid.IntRange(0, n-2).Draw(t, "other")) % n
			perm[at], names[at] = perm[other], names[other]
		case 3:
			perm[at] = rapid.SampledFrom([]int{-1, n, n + 1, 1 << 40}).Draw(t, "badIndex")
			names[at] = rapid.SampledFrom([]string{"", "no_such_column", "int"}).Draw(t, "badName")
		}
		op := rapid.IntRange(0, 6).Draw(t, "op")
		if op == 6 && len(keys) > 0 {
			// A key repeated, which sorting allows, cannot be a column order.
			names := []string{}
			for _, k := range keys {
				names = append(names, k.Col)
			}
			again := rapid.SampledFrom(names).Draw(t, "again")
			i := rapid.IntRange(0, len(names)).Draw(t, "where")
			names = append(names[:i:i], append([]string{again}, names[i:]...)...)
			c.Key("%s keys %q OrderColsBySortKeys", m, names)
			c.NonTrivial(n >= 2 && len(m.Rows) > 0)
			c.Class("repeated key")
			if err := tb.SetSortKeys(names...); err != nil {
				return // Refusing the keys in the first place would do too.
			}
			before := keysOf(t, tb)
			err := tb.OrderColsBySortKeys()
			if err == nil {
				t.Fatalf("OrderColsBySortKeys with keys %q gave no error", names)
			}
			sameTable(t, m, tb, "after a failed OrderColsBySortKeys")
			sameKeys(t, before, tb, "after a failed OrderColsBySortKeys")
			return
		}
		op %= 6
		c.Key("%s op %d how %d %v %q", m, op, how, perm, names)
		c.NonTrivial(n >= 2 && len(m.Rows) > 0)
		c.Class(fmt.Sprintf("op %d how %d", op, how))
		var err error
		switch op {
		case 0:
			err = tb.ReorderCols(names...)
		case 1:
			err = tb.ReorderColsByColIndex(perm...)
		case 2:
			_, err = tb.NewTableReorderCols(names...)
		case 3:
			_, err = tb.NewTableReorderColsByColIndex(perm...)
		case 4:
			bad := rapid.SampledFrom([]int{-1, n, n + 1}).Draw(t, "badSwap")
			if rapid.Bool().Draw(t, "left") {
				err = tb.SwapColsByColIndex(bad, at)
			} else {
				err = tb.SwapColsByColIndex(at, bad)
			}
		case 5:
			if rapid.Bool().Draw(t, "left") {
				err = tb.SwapCols("no_such_column", m.Cols[at].Name)
			} else {
				err = tb.SwapCols(m.Cols[at].Name, "no_such_column")
			}
		}
		if err == nil {
			t.Fatalf("invalid rearrangement (op %d, how %d: %v %q) gave no error", op, how, perm, names)
		}
		sameTable(t, m, tb, "after an invalid rearrangement")
		sameKeys(t, keys, tb, "after an invalid rearrangement")
	})
}

// ---------------------------------------------------------------- C18

func TestC18_reverse(t *testing.T) {
	runCheck(t, "a table of 0-14 rows of any types (or up to 300, at times 10000, of one column); non-trivial = at least 2 different rows", 10000, 250000, func(t *rapid.T, c *Case) {
		m := genTable(tableOpts{types: allTypes, minCols: 1, maxCols: 4, maxRows: 14, val: valOpts{nan: true, inf: true, anyUTF8: true, named: true}}).Draw(t, "table")
		if rapid.IntRange(0, 19).Draw(t, "tall") == 0 {
			m = &MT{Name: "tall", Cols: []Col{{"i", "int"}}}
			height := rapid.IntRange(15, 300)
			if oneIn(t, 20, "taller") {
				height = rapid.IntRange(300, 10000)
			}
			for i := height.Draw(t, "height"); i > 0; i-- {
				m.Rows = append(m.Rows, []any{i})
			}
			c.Class("a tall table")
		}
		op := rapid.IntRange(0, 2).Draw(t, "op")
		keys := drawKeys(t, m)
		c.Key("%s op %d", m, op)
		c.Class(fmt.Sprintf("op %d", op))
		for _, r := range m.Rows {
			c.NonTrivial(rowKey(r) != rowKey(m.Rows[0]))
		}
		tb := build(t, m)
		setKeys(t, tb, keys)
		switch op {
		case 0:
			must(t, tb.Reverse(), "Reverse")
			want := m.clone()
			for i, r := range m.Rows {
				want.Rows[len(m.Rows)-1-i] = r
			}
			sameTable(t, want, tb, "after Reverse")
			sameKeys(t, keys, tb, "after Reverse")
			must(t, tb.Reverse(), "Reverse")
			sameTable(t, m, tb, "after Reverse twice")
		case 1:
			must(t, tb.ShuffleRandom(), "ShuffleRandom")
			after := read(t, tb)
			sameRowsAnyOrder(t, m.Rows, after.Rows, "ShuffleRandom")
			after.Rows = m.Rows
			if d := diffMT(m, after); d != "" {
				t.Fatalf("ShuffleRandom changed more than the rows' order: %s", d)
			}
			if n := len(m.Rows); n > 60 && m.Name == "tall" {
				// A row stays where it is with chance 1/n, in eight shuffles with chance 1/n^8.
				stayed := make([]bool, n)
				for i := range stayed {
					stayed[i] = true
				}
				for k := 0; k < 8; k++ {
					one := build(t, m)
					must(t, one.ShuffleRandom(), "ShuffleRandom")
					for i, r := range read(t, one).Rows {
						stayed[i] = stayed[i] && rowKey(r) == rowKey(m.Rows[i])
					}
				}
				for i, s := range stayed {
					if s {
						t.Fatalf("ShuffleRandom of %d rows never moved row %d in 8 shuffles", n, i)
					}
				}
				c.Class("shuffled 8 times")
			}
		case 2:
			// A table of the same size always shuffles into the same order.
			twin := &MT{Name: "twin", Cols: []Col{{"i", "int"}}}
			for i := range m.Rows {
				twin.Rows = append(twin.Rows, []any{i})
			}
			tw := build(t, twin)
			if rapid.Bool().Draw(t, "grown") { // The same rows, come about in another way.
				var err error
				tw, err = gotables.NewTableFromMetadata(twin.Name, []string{"i"}, []string{"int"})
				must(t, err, "NewTableFromMetadata")
				extra := rapid.IntRange(0, 30).Draw(t, "extra")
				must(t, tw.AppendRows(len(m.Rows)+extra), "AppendRows")
				for i := 0; i < extra; i++ {
					must(t, tw.DeleteRow(rapid.IntRange(0, tw.RowCount()-1).Draw(t, "delete")), "DeleteRow")
				}
				for i := range m.Rows {
					must(t, tw.SetInt("i", i, i), "SetInt")
				}
				c.Class("a grown twin")
			}
			must(t, tw.ShufflePseudorandom(), "ShufflePseudorandom")
			if rapid.Bool().Draw(t, "between") {
				must(t, build(t, twin).ShuffleRandom(), "ShuffleRandom")
			}
			must(t, tb.ShufflePseudorandom(), "ShufflePseudorandom")
			order := read(t, tw)
			sameRowsAnyOrder(t, twin.Rows, order.Rows, "ShufflePseudorandom")
			want := m.clone()
			want.Rows = nil
			for _, r := range order.Rows {
				want.Rows = append(want.Rows, m.Rows[r[0].(int)])
			}
			sameTable(t, want, tb, "after ShufflePseudorandom")
		}
		wellFormed(t, tb, "after row rearrangement")
		sameKeys(t, keys, tb, "after row rearrangement")
		validTable(t, tb, "after row rearrangement")
	})
}

func TestC18_ranges(t *testing.T) {
	runCheck(t, "a table, a row range (valid, empty or out of range) and either a new table or a receiving table with the same columns in another order plus more columns (or lacking one, or with another type); non-trivial = a valid range that is not the whole table", 12000, 300000, func(t *rapid.T, c *Case) {
		m := rowsTable(t, 1)
		tb := build(t, m)
		n := len(m.Rows)
		var first, last int
		valid := n > 0 && rapid.IntRange(0, 3).Draw(t, "valid") > 0
		if valid {
			first = rapid.IntRange(0, n-1).Draw(t, "first")
			last = rapid.IntRange(first, n-1).Draw(t, "last")
		} else {
			first = rapid.IntRange(-2, n+2).Draw(t, "first")
			last = rapid.IntRange(-2, n+2).Draw(t, "last")
		}
		outOfRange := first <= last && (first < 0 || last > n-1)
		valid = first <= last && !outOfRange
		c.ClassIf(valid, "valid range")
		c.ClassIf(outOfRange, "out of range")
		c.ClassIf(first > last, "empty range")
		c.NonTrivial(valid && last-first+1 < n)
		if rapid.Bool().Draw(t, "newTable") {
			c.Key("%s NewTableFromRows %d %d", m, first, last)
			c.Class("NewTableFromRows")
			nt, err := tb.NewTableFromRows("fresh", first, last)
			sameTable(t, m, tb, "after NewTableFromRows")
			switch {
			case outOfRange:
				if err == nil {
					t.Fatalf("NewTableFromRows(%d,%d) of %d rows gave no error", first, last, n)
				}
			case valid:
				must(t, err, "NewTableFromRows(%d,%d) of %d rows", first, last, n)
				want := &MT{Name: "fresh", Cols: m.Cols, Rows: m.Rows[first : last+1]}
				sameTable(t, want, nt, "NewTableFromRows")
			case err == nil: // An empty range: nothing to copy.
				sameTable(t, &MT{Name: "fresh", Cols: m.Cols}, nt, "NewTableFromRows of an empty range")
			}
			return
		}
		c.Class("AppendRowsFromTable")
		// The receiving table: the same columns rearranged, other columns before or after, existing rows.
		to := permuteCols(m, rapid.Permutation(indices(len(m.Cols))).Draw(t, "perm"))
		to.Name = "receiver"
		to.Rows = nil
		how := rapid.IntRange(0, 5).Draw(t, "how") // 0: lacks a column; 1: a column of another type
		compatible := true
		switch how {
		case 0:
			to.Cols = to.Cols[1:]
			compatible = false
		case 1:
			was := to.Cols[0].Type
			to.Cols[0].Type = rapid.SampledFrom(allTypes).Filter(func(s string) bool { return canonType(s) != canonType(was) }).Draw(t, "otherType")
			compatible = false
		case 2, 3:
			to.Cols = append(to.Cols, Col{"an_extra_column", rapid.SampledFrom(allTypes).Draw(t, "extraType")})
		}
		nto := rapid.IntRange(0, 2).Draw(t, "toRows")
		if len(to.Cols) == 0 {
			nto = 0
		}
		for i := 0; i < nto; i++ {
			var row []any
			for _, col := range to.Cols {
				row = append(row, genVal(col.Type, valOpts{nan: true, named: true}).Draw(t, "v"))
			}
			to.Rows = append(to.Rows, row)
		}
		self := how == 5
		rt := build(t, to)
		if self {
			to, rt = m.clone(), tb
		}
		c.Key("%s AppendRowsFromTable %d %d to %s", m, first, last, to)
		err := rt.AppendRowsFromTable(tb, first, last)
		if !self {
			sameTable(t, m, tb, "source after AppendRowsFromTable")
		}
		want := to.clone()
		switch {
		case valid && compatible:
			must(t, err, "AppendRowsFromTable(%d,%d) of %d rows", first, last, n)
			for i := first; i <= last; i++ {
				row := make([]any, len(to.Cols))
				for j, col := range to.Cols {
					if k := m.colIndex(col.Name); k >= 0 {
						row[j] = m.Rows[i][k]
					} else {
						row[j] = zeroOf(col.Type)
					}
				}
				want.Rows = append(want.Rows, row)
			}
		case first <= last:
			if err == nil {
				t.Fatalf("AppendRowsFromTable(%d,%d) of %d rows to %v gave no error", first, last, n, to.Cols)
			}
		}
		what := "receiver after AppendRowsFromTable"
		if len(to.Cols) > 0 || (valid && compatible) {
			sameTable(t, want, rt, what)
		} else if rt.RowCount() != 0 {
			t.Fatalf("%s: %d rows in a table without columns", what, rt.RowCount())
		}
	})
}
