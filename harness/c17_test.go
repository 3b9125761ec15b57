package gtverif

import (
	"fmt"
	"math"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C17 Merge and SortUnique, C25 Nest.

// missing: 0 a real value, 1 the zero value of its type, 2 NaN.
func missing(v any) int {
	switch x := v.(type) {
	case float32:
		if x != x {
			return 2
		}
		if x == 0 {
			return 1
		}
		return 0
	case float64:
		if x != x {
			return 2
		}
		if x == 0 {
			return 1
		}
		return 0
	case []byte:
		if len(x) == 0 {
			return 1
		}
		return 0
	case time.Time:
		if x.IsZero() {
			return 1
		}
		return 0
	case *MT:
		if x.Nil {
			return 1
		}
		return 0
	case string:
		if x == "" {
			return 1
		}
		return 0
	case bool:
		if !x {
			return 1
		}
		return 0
	}
	if fmt.Sprint(v) == "0" {
		return 1
	}
	return 0
}

// genMergeCell: often a zero value, sometimes NaN.
func genMergeCell(t *rapid.T, typ string) any {
	switch rapid.IntRange(0, 5).Draw(t, "kind") {
	case 0, 1:
		return zeroOf(typ)
	case 2:
		if typ == "float32" || typ == "float64" {
			return nanOf(typ)
		}
		if typ == "*Table" {
			return &MT{Nil: true}
		}
		if typ == "time.Time" {
			return rapid.SampledFrom([]time.Time{time.Unix(0, 0).UTC(), time.Unix(0, 1).UTC(), time.Time{}.Add(1), time.Time{}.In(time.FixedZone("", 3600))}).Draw(t, "early")
		}
	}
	return genVal(typ, valOpts{nan: true, inf: true, anyUTF8: true, named: true}).Draw(t, "v")
}

func genKeyCell(t *rapid.T, typ string, small bool) any {
	if typ == "float32" || typ == "float64" {
		if rapid.IntRange(0, 7).Draw(t, "keyNaN") == 0 {
			return nanOf(typ)
		}
		if rapid.IntRange(0, 7).Draw(t, "keyNegZero") == 0 {
			if typ == "float32" {
				return float32(math.Copysign(0, -1))
			}
			return math.Copysign(0, -1)
		}
	}
	if typ == "string" && rapid.IntRange(0, 3).Draw(t, "piece") == 0 {
		// Several keys put one after another must not be taken for others.
		return rapid.SampledFrom([]string{"", " ", "a", "b", "ab", "a b", "aa", "1", "11", "b c", "b,c", "b|c", "b\x00c", "b\tc", "b\nc", "b-c", "b_c", "b:c", "b/c", `b"c`}).Draw(t, "key")
	}
	if small {
		return smallVal(typ).Draw(t, "key")
	}
	return genVal(typ, valOpts{inf: true, anyUTF8: true}).Draw(t, "key")
}

type mergePair struct {
	a, b   *MT
	keys   []Key
	shared map[string]bool
}

// fill gives m rows, taking some keys from the rows of other.
func fill(t *rapid.T, m, other *MT, keys []Key, maxRows int, small bool) {
	n := rapid.IntRange(0, maxRows).Draw(t, "nrows")
	for r := 0; r < n; r++ {
		row := make([]any, len(m.Cols))
		var from *MT
		var fromRow int
		if other != nil && len(other.Rows) > 0 && rapid.Bool().Draw(t, "otherKey") {
			from, fromRow = other, rapid.IntRange(0, len(other.Rows)-1).Draw(t, "otherRow")
		} else if r > 0 && rapid.IntRange(0, 3).Draw(t, "dupKey") == 0 {
			from, fromRow = m, rapid.IntRange(0, r-1).Draw(t, "dupRow")
		}
		for c, col := range m.Cols {
			isKey := false
			for _, k := range keys {
				isKey = isKey || k.Col == col.Name
			}
			switch {
			case isKey && from != nil:
				row[c] = from.Rows[fromRow][from.colIndex(col.Name)]
			case isKey:
				row[c] = genKeyCell(t, col.Type, small)
			default:
				row[c] = genMergeCell(t, col.Type)
			}
		}
		if from != nil && rapid.IntRange(0, 2).Draw(t, "shift") == 0 {
			shiftKeys(m, row, keys)
		}
		m.Rows = append(m.Rows, row)
	}
}

// shiftKeys moves text from the second key that is a string to the first: the keys differ, but not if joined with a separator.
func shiftKeys(m *MT, row []any, keys []Key) {
	var at []int
	for _, k := range keys {
		if c := m.colIndex(k.Col); c >= 0 && m.Cols[c].Type == "string" {
			at = append(at, c)
		}
	}
	if len(at) < 2 {
		return
	}
	a, b := row[at[0]].(string), row[at[1]].(string)
	if i := strings.IndexAny(b, " ,|\x00\t\n-_:/\""); i >= 0 {
		row[at[0]], row[at[1]] = a+b[i:i+1]+b[:i], b[i+1:]
	} else if b != "" && b[0] < 0x80 {
		row[at[0]], row[at[1]] = a+b[:1], b[1:]
	}
}

func genMergePair() *rapid.Generator[mergePair] {
	return gen(func(t *rapid.T) mergePair {
		nk := rapid.IntRange(1, 3).Draw(t, "nkeys")
		ns := rapid.IntRange(0, 3).Draw(t, "nshared")
		np1 := rapid.IntRange(0, 2).Draw(t, "nprivate1")
		np2 := rapid.IntRange(0, 2).Draw(t, "nprivate2")
		names := rapid.SliceOfNDistinct(rapid.OneOf(genIdent(), genIdent(), rapid.SampledFrom([]string{"_TABLE_", "_DELETE_", "_TABLE__"})),
			nk+ns+np1+np2, nk+ns+np1+np2, rapid.ID[string]).Draw(t, "names")
		p := mergePair{a: &MT{Name: genName().Draw(t, "name1")}, b: &MT{Name: genName().Draw(t, "name2")}, shared: map[string]bool{}}
		strs := nk > 1 && rapid.IntRange(0, 7).Draw(t, "stringKeys") == 0
		for i, n := range names {
			typ := rapid.SampledFrom(allTypes).Draw(t, "type")
			if i < nk {
				typ = rapid.SampledFrom(keyTypes).Draw(t, "keyType")
				if strs {
					typ = "string"
				}
				p.keys = append(p.keys, Key{n, rapid.Bool().Draw(t, "reverse")})
			}
			col := Col{n, typ}
			if i < nk+ns || i < nk+ns+np1 {
				p.a.Cols = append(p.a.Cols, col)
			}
			if i < nk+ns || i >= nk+ns+np1 {
				p.b.Cols = append(p.b.Cols, col)
			}
			p.shared[n] = i < nk+ns
		}
		p.a = permuteCols(p.a, rapid.Permutation(indices(len(p.a.Cols))).Draw(t, "perm1"))
		p.b = permuteCols(p.b, rapid.Permutation(indices(len(p.b.Cols))).Draw(t, "perm2"))
		p.keys = rapid.Permutation(p.keys).Draw(t, "keyOrder")
		small := rapid.IntRange(0, 3).Draw(t, "small") > 0
		max := rapid.SampledFrom([]int{2, 5, 12, 20}).Draw(t, "maxRows")
		fill(t, p.a, nil, p.keys, max, small)
		fill(t, p.b, p.a, p.keys, max, small)
		maybeTall(t, p.a, 20, 60)
		maybeTall(t, p.b, 20, 60)
		return p
	})
}

// cmpKeys compares a row of table m with a row of table n by the key columns both have.
func cmpKeys(m *MT, a []any, n *MT, b []any, keys []Key) int {
	for _, k := range keys {
		if c := cmpCell(a[m.colIndex(k.Col)], b[n.colIndex(k.Col)]); c != 0 {
			return c
		}
	}
	return 0
}

// checkMerged: got must be the merge of the tables in order of precedence.
func checkMerged(t fataler, in []*MT, got *MT, keys []Key, what string) (conflicts, filled int) {
	t.Helper()
	cols := map[string]string{}
	for _, m := range in {
		for _, c := range m.Cols {
			cols[c.Name] = c.Type
		}
	}
	if len(got.Cols) != len(cols) {
		t.Fatalf("%s: %d columns %v, want the %d columns of both tables %v", what, len(got.Cols), got.Cols, len(cols), cols)
	}
	for _, c := range got.Cols {
		if cols[c.Name] != c.Type {
			t.Fatalf("%s: column %v, want type %q", what, c, cols[c.Name])
		}
	}
	for i := 1; i < len(got.Rows); i++ {
		c := cmpRows(got, keys, got.Rows[i-1], got.Rows[i], true)
		if c == 0 {
			t.Fatalf("%s: rows %d and %d have the same key: %s and %s", what, i-1, i, rowKey(got.Rows[i-1]), rowKey(got.Rows[i]))
		}
		if c > 0 {
			t.Fatalf("%s: rows %d and %d out of order by %v: %s then %s", what, i-1, i, keys, rowKey(got.Rows[i-1]), rowKey(got.Rows[i]))
		}
	}
	// Every key of an input is in the result.
	for _, m := range in {
		for _, r := range m.Rows {
			found := false
			for _, g := range got.Rows {
				found = found || cmpKeys(m, r, got, g, keys) == 0
			}
			if !found {
				t.Fatalf("%s: lost the row of %q with key %s", what, m.Name, rowKey(r))
			}
		}
	}
	for _, g := range got.Rows {
		for c, col := range got.Cols {
			var real []any // the values the cell may have, of the first table which has one
			var all []any
			zero, nan, rows := false, false, 0
			for _, m := range in {
				i := m.colIndex(col.Name)
				for _, r := range m.Rows {
					if cmpKeys(m, r, got, g, keys) != 0 {
						continue
					}
					rows++
					if i < 0 {
						continue
					}
					switch missing(r[i]) {
					case 0:
						all = append(all, r[i])
					case 1:
						zero = true
					case 2:
						nan = true
					}
				}
				if real == nil {
					real = all
				} else if len(all) > len(real) {
					conflicts++
				}
			}
			if rows == 0 {
				t.Fatalf("%s: row %s has a key which neither table has", what, rowKey(g))
			}
			switch {
			case len(real) > 0:
				ok := false
				for _, v := range real {
					ok = ok || valEq(v, g[c])
				}
				if !ok {
					t.Fatalf("%s: column %q of row %s is %s, want one of %s", what, col.Name, rowKey(g), fmtVal(g[c]), rowKey(real))
				}
				if zero || nan {
					filled++
				}
			case zero:
				if missing(g[c]) != 1 {
					t.Fatalf("%s: column %q of row %s is %s, want the zero value", what, col.Name, rowKey(g), fmtVal(g[c]))
				}
			case nan:
				if missing(g[c]) != 2 {
					t.Fatalf("%s: column %q of row %s is %s, want NaN", what, col.Name, rowKey(g), fmtVal(g[c]))
				}
			default: // The table with this key has no such column.
				if missing(g[c]) == 0 {
					t.Fatalf("%s: column %q of row %s is %s, from nowhere", what, col.Name, rowKey(g), fmtVal(g[c]))
				}
			}
		}
	}
	return
}

// scribble changes every cell of a table which it can, to show that it shares nothing with another.
func scribble(t fataler, tb *gotables.Table) {
	t.Helper()
	names, types, err := tb.GetColInfoAsSlices()
	must(t, err, "GetColInfoAsSlices")
	for r := 0; r < tb.RowCount(); r++ {
		for c := range names {
			if types[c] != "*Table" {
				must(t, tb.SetVal(names[c], r, zeroOf(types[c])), "SetVal")
			}
		}
	}
	if tb.RowCount() > 0 {
		must(t, tb.DeleteRow(0), "DeleteRow")
	}
}

// searchAll: every row is found by its keys, without setting them again.
func searchAll(t fataler, m *MT, tb *gotables.Table, keys []Key, what string) {
	t.Helper()
	sameKeys(t, keys, tb, what)
	for r, row := range m.Rows {
		var vals []any
		for _, k := range keys {
			v := row[m.colIndex(k.Col)]
			vals = append(vals, v)
		}
		first, last, err := tb.SearchRange(vals...)
		if err != nil || first != r || last != r {
			t.Fatalf("%s: SearchRange of row %d %s = %d, %d, %v", what, r, rowKey(row), first, last, err)
		}
	}
}

func TestC17_merge(t *testing.T) {
	runCheck(t, "two tables with 1-3 shared key columns, shared and private columns of any type, 0-20 rows each with overlapping and duplicate keys and many zero and NaN cells, keys set in either or both; non-trivial = a key in both tables and a cell where one fills in or overrides the other", 9000, 250000, func(t *rapid.T, c *Case) {
		p := genMergePair().Draw(t, "pair")
		a, b := build(t, p.a), build(t, p.b)
		keys := p.keys
		which := rapid.IntRange(0, 5).Draw(t, "keysIn")
		switch which {
		case 4: // The same keys in another order, or another direction.
			setKeys(t, a, keys)
			other := append([]Key{}, rapid.Permutation(keys).Draw(t, "order")...)
			for i := range other {
				other[i].Reverse = rapid.Bool().Draw(t, "reverse")
			}
			setKeys(t, b, other)
		case 5: // As many keys, or not, of other columns.
			setKeys(t, a, keys)
			var other []Key
			for _, i := range rapid.Permutation(indices(len(p.b.Cols))).Draw(t, "cols") {
				if len(other) < len(keys)+1 && slices.Contains(keyTypes, p.b.Cols[i].Type) {
					other = append(other, Key{p.b.Cols[i].Name, rapid.Bool().Draw(t, "reverse")})
				}
			}
			if len(other) > len(keys) && rapid.Bool().Draw(t, "asMany") {
				other = other[:len(keys)]
			}
			setKeys(t, b, other)
		case 0:
			setKeys(t, a, keys)
		case 1:
			setKeys(t, b, keys)
		case 2:
			setKeys(t, a, keys)
			setKeys(t, b, keys)
		case 3: // table1's keys are the ones used.
			setKeys(t, a, keys)
			var names []string
			for i := len(keys) - 1; i >= 0; i-- {
				names = append(names, keys[i].Col)
			}
			must(t, b.SetSortKeys(names...), "SetSortKeys")
		}
		c.Key("%s MERGE %s keys %v in %d", p.a, p.b, keys, which)
		merged, err := a.Merge(b)
		must(t, err, "Merge of %s\nand %s\nkeys %v", p.a, p.b, keys)
		if merged == a || merged == b {
			t.Fatalf("Merge returned one of its arguments")
		}
		sameTable(t, p.a, a, "table1 after Merge")
		sameTable(t, p.b, b, "table2 after Merge")
		got := read(t, merged)
		wellFormed(t, merged, "merged")
		validTable(t, merged, "merged")
		conflicts, filled := checkMerged(t, []*MT{p.a, p.b}, got, keys, "Merge")
		searchAll(t, got, merged, keys, "Merge")
		overlap := len(got.Rows) < len(p.a.Rows)+len(p.b.Rows)
		c.NonTrivial(overlap && conflicts+filled > 0)
		c.ClassIf(overlap, "equal keys")
		c.ClassIf(!overlap && len(got.Rows) > 0, "no equal keys")
		c.ClassIf(len(p.a.Rows) == 0 || len(p.b.Rows) == 0, "an empty table")
		c.ClassIf(conflicts > 0, "conflicting values")
		c.ClassIf(filled > 0, "missing values filled in")
		scribble(t, merged)
		sameTable(t, p.a, a, "table1 after changing the merged table")
		sameTable(t, p.b, b, "table2 after changing the merged table")
	})
}

func TestC17_cannot(t *testing.T) {
	runCheck(t, "two tables which cannot be merged: no keys in either, a key column missing from one, a shared column of different types, or a nil table; non-trivial = both tables have rows", 4000, 80000, func(t *rapid.T, c *Case) {
		p := genMergePair().Draw(t, "pair")
		how := rapid.IntRange(0, 3).Draw(t, "how")
		keys := p.keys
		swap := rapid.Bool().Draw(t, "swap")
		k := rapid.SampledFrom(keys).Draw(t, "key").Col
		switch how {
		case 1: // one table lacks a key column
			i := p.b.colIndex(k)
			if len(p.b.Cols) == 1 {
				p.b.Cols[0].Name = "some_other_column"
			} else {
				var perm []int
				for j := range p.b.Cols {
					if j != i {
						perm = append(perm, j)
					}
				}
				p.b = permuteCols(p.b, perm)
			}
		case 2: // a shared column (key or not) differs in type
			var names []string
			for _, n := range sortedKeys(p.shared) {
				if p.shared[n] {
					names = append(names, n)
				}
			}
			i := p.b.colIndex(rapid.SampledFrom(names).Draw(t, "col"))
			was := p.b.Cols[i].Type
			p.b.Cols[i].Type = rapid.SampledFrom(allTypes).Filter(func(s string) bool { return canonType(s) != canonType(was) }).Draw(t, "otherType")
			for r := range p.b.Rows {
				p.b.Rows[r][i] = genMergeCell(t, p.b.Cols[i].Type)
			}
		}
		a, b := build(t, p.a), build(t, p.b)
		if how != 0 {
			setKeys(t, a, keys)
		}
		c.Key("%s MERGE %s keys %v how %d swap %v", p.a, p.b, keys, how, swap)
		c.Class([]string{"no keys", "missing key column", "different types", "nil table"}[how])
		c.NonTrivial(len(p.a.Rows) > 0 && len(p.b.Rows) > 0)
		var err error
		var merged *gotables.Table
		x, y := a, b
		if how == 3 {
			y = nil
		}
		if swap {
			x, y = y, x
		}
		if pan := try(func() { merged, err = x.Merge(y) }); pan != "" {
			t.Fatalf("Merge: %s", pan)
		}
		if err == nil {
			t.Fatalf("Merge gave no error but %s", read(t, merged))
		}
		sameTable(t, p.a, a, "table1 after a failed Merge")
		sameTable(t, p.b, b, "table2 after a failed Merge")
	})
}

func TestC17_unique(t *testing.T) {
	runCheck(t, "a table with 1-3 key columns and other columns of any type, 0-20 rows with duplicate keys and many zero and NaN cells, keys set before or passed as arguments; non-trivial = duplicate keys where one row fills in another", 6000, 150000, func(t *rapid.T, c *Case) {
		p := genMergePair().Draw(t, "pair")
		m := p.b
		tb := build(t, m)
		keys := append([]Key{}, p.keys...)
		var got *gotables.Table
		var err error
		if rapid.Bool().Draw(t, "args") {
			var names []string
			for i := range keys {
				names = append(names, keys[i].Col)
				keys[i].Reverse = false
			}
			if rapid.Bool().Draw(t, "otherKeysBefore") {
				setKeys(t, tb, p.keys)
			}
			got, err = tb.SortUnique(names...)
			c.Class("keys as arguments")
		} else {
			if rapid.IntRange(0, 19).Draw(t, "noKeys") == 0 {
				if _, err := tb.SortUnique(); err == nil {
					t.Fatalf("SortUnique with no keys gave no error")
				}
			}
			setKeys(t, tb, keys)
			got, err = tb.SortUnique()
			c.Class("keys set before")
		}
		c.Key("%s unique by %v", m, keys)
		must(t, err, "SortUnique of %s by %v", m, keys)
		sameTable(t, m, tb, "the table after SortUnique")
		if got == tb {
			t.Fatalf("SortUnique returned the table itself")
		}
		g := read(t, got)
		if g.Name != m.Name {
			t.Fatalf("SortUnique gave a table named %q, want %q", g.Name, m.Name)
		}
		wellFormed(t, got, "SortUnique")
		validTable(t, got, "SortUnique")
		_, filled := checkMerged(t, []*MT{m}, g, keys, "SortUnique")
		searchAll(t, g, got, keys, "SortUnique")
		c.NonTrivial(filled > 0)
		c.ClassIf(len(g.Rows) < len(m.Rows), "duplicate keys")
		if oneIn(t, 3, "withEmpty") {
			// Merged with a table without columns, on either side, it is the same.
			empty := build(t, &MT{Name: "empty"})
			c.Class("merged with a table without columns")
			x, y := tb, empty
			if rapid.Bool().Draw(t, "emptyFirst") {
				x, y = y, x
			}
			setKeys(t, tb, keys)
			merged, err := x.Merge(y)
			must(t, err, "Merge of %s and a table without columns", m)
			if merged == tb || merged == empty {
				t.Fatalf("Merge with a table without columns returned one of its arguments")
			}
			checkMerged(t, []*MT{m}, read(t, merged), keys, "Merge with a table without columns")
			scribble(t, merged)
			sameTable(t, m, tb, "the table after changing the merged one")
			sameTable(t, &MT{Name: "empty"}, empty, "the table without columns after Merge")
		}
		// Once more changes nothing.
		setKeys(t, got, keys)
		again, err := got.SortUnique()
		must(t, err, "SortUnique again")
		g2 := read(t, again)
		for i := range g.Cols {
			if j := g2.colIndex(g.Cols[i].Name); j != i && j >= 0 {
				g2 = permuteCols(g2, colPerm(g, g2))
				break
			}
		}
		if d := diffMT(g, g2); d != "" {
			t.Fatalf("SortUnique twice differs from once: %s", d)
		}
		scribble(t, got)
		sameTable(t, m, tb, "the table after changing the unique one")
	})
}

func colPerm(want, got *MT) []int {
	var p []int
	for _, c := range want.Cols {
		if i := got.colIndex(c.Name); i >= 0 {
			p = append(p, i)
		}
	}
	return p
}

// ---------------------------------------------------------------- C25

func textTypes() []string {
	var s []string
	for _, t := range allTypes {
		if t != "*Table" {
			s = append(s, t)
		}
	}
	return s
}

func genNestPair() *rapid.Generator[mergePair] {
	return gen(func(t *rapid.T) mergePair {
		p := genMergePair().Draw(t, "pair")
		// The nested tables are kept as text, and text carries no nested tables.
		for i := range p.b.Cols {
			if p.b.Cols[i].Type == "*Table" {
				p.b.Cols[i].Type = "string"
				for r := range p.b.Rows {
					p.b.Rows[r][i] = ""
				}
			}
			for r := range p.b.Rows {
				switch x := p.b.Rows[r][i].(type) {
				case string:
					// Nor strings which are not UTF-8.
					p.b.Rows[r][i] = toUTF8(x)
				}
			}
		}
		for i := range p.a.Cols {
			for r := range p.a.Rows {
				if x, ok := p.a.Rows[r][i].(string); ok {
					p.a.Rows[r][i] = toUTF8(x)
				}
			}
		}
		return p
	})
}

func toUTF8(s string) string { return string([]rune(s)) }

func TestC25_nest(t *testing.T) {
	runCheck(t, "two tables with 1-3 shared key columns and other columns of any type, 0-20 rows each with matching, duplicate and unmatched keys, keys set in either or both; non-trivial = a row with at least 2 nested rows and a row with a different number", 6000, 150000, func(t *rapid.T, c *Case) {
		p := genNestPair().Draw(t, "pair")
		a, b := build(t, p.a), build(t, p.b)
		keys := p.keys
		which := rapid.IntRange(0, 5).Draw(t, "keysIn")
		switch which {
		case 4: // The same keys in another order, or another direction.
			setKeys(t, a, keys)
			other := append([]Key{}, rapid.Permutation(keys).Draw(t, "order")...)
			for i := range other {
				other[i].Reverse = rapid.Bool().Draw(t, "reverse")
			}
			setKeys(t, b, other)
		case 5: // As many keys, or not, of other columns.
			setKeys(t, a, keys)
			var other []Key
			for _, i := range rapid.Permutation(indices(len(p.b.Cols))).Draw(t, "cols") {
				if len(other) < len(keys)+1 && slices.Contains(keyTypes, p.b.Cols[i].Type) {
					other = append(other, Key{p.b.Cols[i].Name, rapid.Bool().Draw(t, "reverse")})
				}
			}
			if len(other) > len(keys) && rapid.Bool().Draw(t, "asMany") {
				other = other[:len(keys)]
			}
			setKeys(t, b, other)
		case 0:
			setKeys(t, a, keys)
		case 1:
			setKeys(t, b, keys)
		case 2:
			setKeys(t, a, keys)
			setKeys(t, b, keys)
		case 3:
			setKeys(t, a, keys)
			must(t, b.SetSortKeys(keys[0].Col), "SetSortKeys")
		}
		nestName := "nested_here"
		c.Key("%s NEST %s keys %v in %d", p.a, p.b, keys, which)
		must(t, a.Nest(b, nestName), "Nest %s\ninto %s\nby %v", p.b, p.a, keys)
		// The nestable table still has its rows.
		gb := read(t, b)
		sameRowsAnyOrder(t, p.b.Rows, gb.Rows, "the nestable table after Nest")
		// The table has all it had, and the new column at the right.
		ga := read(t, a)
		wellFormed(t, a, "after Nest")
		validTable(t, a, "after Nest")
		if len(ga.Cols) != len(p.a.Cols)+1 || ga.Cols[len(p.a.Cols)] != (Col{nestName, "string"}) {
			t.Fatalf("columns after Nest: %v, before: %v", ga.Cols, p.a.Cols)
		}
		rest := permuteCols(ga, indices(len(p.a.Cols)))
		rest.Name = ga.Name
		h, g := p.a.clone(), rest.clone()
		h.Rows, g.Rows = nil, nil
		if d := diffMT(h, g); d != "" {
			t.Fatalf("Nest changed the other columns: %s", d)
		}
		sameRowsAnyOrder(t, p.a.Rows, rest.Rows, "the other columns after Nest")
		for i := 1; i < len(ga.Rows); i++ {
			if cmpRows(ga, keys, ga.Rows[i-1], ga.Rows[i], true) > 0 {
				t.Fatalf("after Nest rows %d and %d are out of order by %v", i-1, i, keys)
			}
		}
		counts := map[int]bool{}
		big := false
		for i, r := range ga.Rows {
			s := r[len(p.a.Cols)].(string)
			nt, err := gotables.NewTableFromString(s)
			must(t, err, "reading the nested table %q", s)
			n := read(t, nt)
			if n.Name != nestName {
				t.Fatalf("nested table is named %q", n.Name)
			}
			if fmt.Sprint(n.Cols) != fmt.Sprint(p.b.Cols) {
				t.Fatalf("nested table has columns %v, want %v", n.Cols, p.b.Cols)
			}
			var want [][]any
			for _, br := range p.b.Rows {
				if cmpKeys(p.a, rest.Rows[i], p.b, br, keys) == 0 {
					want = append(want, br)
				}
			}
			sameRowsAnyOrder(t, want, n.Rows, fmt.Sprintf("rows nested in row %d (%s)", i, rowKey(rest.Rows[i])))
			counts[len(want)] = true
			big = big || len(want) > 1
			c.ClassIf(len(want) == 0, "a row with no match")
			c.ClassIf(len(want) > 1, "a row with several matches")
		}
		c.NonTrivial(big && len(counts) > 1)
		c.ClassIf(len(ga.Rows) == 0, "no rows")
		c.Class(fmt.Sprintf("keys set in %s", []string{"table", "nestable", "both", "both, fewer in nestable", "both, in another order", "both, of other columns"}[which]))
	})
}

func TestC25_cannot(t *testing.T) {
	runCheck(t, "a nesting which cannot be done: no keys, a key column missing or of another type, a column name in use or invalid, or a nil table; non-trivial = the table has at least 2 rows not in key order", 4000, 80000, func(t *rapid.T, c *Case) {
		p := genNestPair().Draw(t, "pair")
		how := rapid.IntRange(0, 5).Draw(t, "how")
		keys := p.keys
		k := rapid.SampledFrom(keys).Draw(t, "key").Col
		nestName := "nested_here"
		inTable := rapid.Bool().Draw(t, "inTable")
		side := p.b
		if rapid.Bool().Draw(t, "side") {
			side = p.a
		}
		switch how {
		case 1:
			side.Cols[side.colIndex(k)].Name = "some_other_column"
			if side == p.a {
				inTable = false
			} else {
				inTable = true
			}
		case 2:
			if len(p.a.Rows) == 0 { // With no rows there is nothing to match.
				how = 0
				break
			}
			i := p.b.colIndex(k)
			was := p.b.Cols[i].Type
			p.b.Cols[i].Type = rapid.SampledFrom(keyTypes).Filter(func(s string) bool { return s != was }).Draw(t, "otherType")
			for r := range p.b.Rows {
				p.b.Rows[r][i] = smallVal(p.b.Cols[i].Type).Draw(t, "v")
			}
		case 3:
			nestName = rapid.SampledFrom(p.a.Cols).Draw(t, "inUse").Name
		case 4:
			nestName = rapid.SampledFrom([]string{"", " ", "1x", "a b", "int", "*Table", "é\x00", "[x]", "a-b"}).Draw(t, "badName")
		}
		a, b := build(t, p.a), build(t, p.b)
		keysA := []Key{}
		if how != 0 {
			if inTable {
				setKeys(t, a, keys)
				keysA = keys
			} else {
				setKeys(t, b, keys)
			}
		}
		c.Key("%s NEST %s %q keys %v how %d", p.a, p.b, nestName, keys, how)
		c.Class([]string{"no keys", "missing key column", "different key types", "name in use", "invalid name", "nil table"}[how])
		if how != 1 || side != p.a {
			for i := 1; i < len(p.a.Rows); i++ {
				c.NonTrivial(cmpRows(p.a, keys, p.a.Rows[i-1], p.a.Rows[i], true) > 0)
			}
		}
		x, y := a, b
		if how == 5 {
			if rapid.Bool().Draw(t, "nilReceiver") {
				x = nil
			} else {
				y = nil
			}
		}
		var err error
		if pan := try(func() { err = x.Nest(y, nestName) }); pan != "" {
			t.Fatalf("Nest: %s", pan)
		}
		if err == nil {
			t.Fatalf("Nest gave no error but %s", read(t, a))
		}
		sameTable(t, p.a, a, "the table after a failed Nest")
		sameKeys(t, keysA, a, "the table after a failed Nest")
		sameRowsAnyOrder(t, p.b.Rows, read(t, b).Rows, "the nestable table after a failed Nest")
	})
}
