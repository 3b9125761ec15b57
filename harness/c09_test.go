package gtverif

import (
	"bytes"
	"cmp"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C09 Sort, C10 Search.

// Key is a sort key of the model.
type Key struct {
	Col     string
	Reverse bool
}

// cmpCell orders two cells of a sortable column: numbers by value with NaN first, false before true,
// strings alphabetically ignoring case and then upper case before lower case.
func cmpCell(a, b any) int {
	switch x := a.(type) {
	case bool:
		y := b.(bool)
		switch {
		case x == y:
			return 0
		case !x:
			return -1
		}
		return 1
	case string:
		y := b.(string)
		if c := strings.Compare(strings.ToLower(x), strings.ToLower(y)); c != 0 {
			return c
		}
		return strings.Compare(x, y)
	case float32:
		return cmp.Compare(x, b.(float32))
	case float64:
		return cmp.Compare(x, b.(float64))
	case int:
		return cmp.Compare(x, b.(int))
	case int8:
		return cmp.Compare(x, b.(int8))
	case int16:
		return cmp.Compare(x, b.(int16))
	case int32:
		return cmp.Compare(x, b.(int32))
	case int64:
		return cmp.Compare(x, b.(int64))
	case uint:
		return cmp.Compare(x, b.(uint))
	case uint8:
		return cmp.Compare(x, b.(uint8))
	case uint16:
		return cmp.Compare(x, b.(uint16))
	case uint32:
		return cmp.Compare(x, b.(uint32))
	case uint64:
		return cmp.Compare(x, b.(uint64))
	}
	panic(fmt.Sprintf("cmpCell %T", a))
}

func cmpRows(m *MT, keys []Key, a, b []any, useReverse bool) int {
	for _, k := range keys {
		i := m.colIndex(k.Col)
		c := cmpCell(a[i], b[i])
		if k.Reverse && useReverse {
			c = -c
		}
		if c != 0 {
			return c
		}
	}
	return 0
}

// keysOf reads a table's sort keys.
func keysOf(t fataler, tb *gotables.Table) []Key {
	t.Helper()
	kt, err := tb.GetSortKeysAsTable()
	must(t, err, "GetSortKeysAsTable")
	keys := []Key{}
	for r := 0; r < kt.RowCount(); r++ {
		idx, err := kt.GetInt("index", r)
		must(t, err, "sort key index")
		if idx != r {
			t.Fatalf("sort key %d has index %d", r, idx)
		}
		name, err := kt.GetString("colName", r)
		must(t, err, "sort key colName")
		rev, err := kt.GetBool("reverse", r)
		must(t, err, "sort key reverse")
		typ, err := kt.GetString("colType", r)
		must(t, err, "sort key colType")
		if ct, err := tb.ColType(name); err != nil || ct != typ {
			t.Fatalf("sort key %q has type %q but the column has type %q, %v", name, typ, ct, err)
		}
		keys = append(keys, Key{name, rev})
	}
	if tb.SortKeyCount() != len(keys) {
		t.Fatalf("SortKeyCount %d but %d keys", tb.SortKeyCount(), len(keys))
	}
	return keys
}

func sameKeys(t fataler, want []Key, tb *gotables.Table, what string) {
	t.Helper()
	if got := keysOf(t, tb); fmt.Sprint(got) != fmt.Sprint(append([]Key{}, want...)) {
		t.Fatalf("%s: sort keys: want %v got %v", what, want, got)
	}
}

func setKeys(t fataler, tb *gotables.Table, keys []Key) {
	t.Helper()
	var names, rev []string
	for _, k := range keys {
		names = append(names, k.Col)
		if k.Reverse {
			rev = append(rev, k.Col)
		}
	}
	must(t, tb.SetSortKeys(names...), "SetSortKeys(%q)", names)
	must(t, tb.SetSortKeysReverse(rev...), "SetSortKeysReverse(%q)", rev)
}

func isKeyType(typ string) bool {
	for _, k := range keyTypes {
		if k == typ {
			return true
		}
	}
	return false
}

// rowKey renders a row so that equal rows render equally.
func rowKey(row []any) string {
	var b bytes.Buffer
	for _, v := range row {
		s := fmtVal(v)
		if s == "-0" {
			s = "0"
		}
		fmt.Fprintf(&b, "%T:%s|", v, s)
	}
	return b.String()
}

func multiset(rows [][]any) []string {
	var s []string
	for _, r := range rows {
		s = append(s, rowKey(r))
	}
	sort.Strings(s)
	return s
}

func sameRowsAnyOrder(t fataler, want, got [][]any, what string) {
	t.Helper()
	a, b := multiset(want), multiset(got)
	if len(a) != len(b) {
		t.Fatalf("%s: %d rows before, %d after", what, len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			t.Fatalf("%s: rows are not a permutation: %s against %s", what, a[i], b[i])
		}
	}
}

// genKeyed: a table with some sortable columns (few distinct values, or any) and any other columns,
// and a sequence of sort keys with directions.
func genKeyed(minKeys int) *rapid.Generator[keyed] {
	return gen(func(t *rapid.T) keyed {
		m := &MT{Name: genIdent().Draw(t, "tableName")}
		nk := rapid.IntRange(minKeys, 4).Draw(t, "nKeyCols")
		if oneIn(t, 8, "manyKeys") {
			nk = rapid.IntRange(5, 8).Draw(t, "nKeyCols")
		}
		np := rapid.IntRange(0, 2).Draw(t, "nOther")
		names := rapid.SliceOfNDistinct(genIdent(), nk+np, nk+np, rapid.ID[string]).Draw(t, "names")
		small := []bool{}
		for i := 0; i < nk+np; i++ {
			if i < nk {
				m.Cols = append(m.Cols, Col{names[i], rapid.SampledFrom(keyTypes).Draw(t, "keyType")})
			} else {
				m.Cols = append(m.Cols, Col{names[i], rapid.SampledFrom(allTypes).Draw(t, "type")})
			}
			small = append(small, i < nk && (nk > 4 || rapid.IntRange(0, 3).Draw(t, "small") > 0))
		}
		// Long strings that differ only at their ends.
		stem := ""
		if oneIn(t, 6, "long") {
			stem = rapid.StringMatching(`[a-zA-Z0-9 é]{4,40}`).Draw(t, "stem")
		}
		maxRows := rapid.SampledFrom([]int{3, 8, 14, 40}).Draw(t, "maxRows")
		nr := rapid.IntRange(0, maxRows).Draw(t, "nrows")
		if len(m.Cols) == 0 {
			nr = 0
		}
		nan := rapid.IntRange(0, 3).Draw(t, "nan") == 0
		for r := 0; r < nr; r++ {
			row := make([]any, len(m.Cols))
			for c, col := range m.Cols {
				if small[c] {
					row[c] = smallVal(col.Type).Draw(t, "v")
					if s, ok := row[c].(string); ok && stem != "" {
						row[c] = stem + s
					}
					if nan && (col.Type == "float32" || col.Type == "float64") && rapid.IntRange(0, 3).Draw(t, "isNaN") == 0 {
						row[c] = nanOf(col.Type)
					}
				} else {
					row[c] = genVal(col.Type, valOpts{nan: nan, inf: true, anyUTF8: true, named: true}).Draw(t, "v")
				}
			}
			m.Rows = append(m.Rows, row)
		}
		k := keyed{m: m}
		if nk > 0 {
			order := rapid.Permutation(names[:nk]).Draw(t, "keyOrder")
			n := rapid.IntRange(minKeys, nk).Draw(t, "nKeys")
			for i := 0; i < n; i++ {
				k.keys = append(k.keys, Key{order[i], rapid.Bool().Draw(t, "reverse")})
			}
		}
		// Mix the key columns in among the others.
		if perm := rapid.Permutation(indices(len(m.Cols))).Draw(t, "colOrder"); len(perm) > 1 {
			k.m = permuteCols(m, perm)
		}
		return k
	})
}

type keyed struct {
	m    *MT
	keys []Key
}

func indices(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

// permuteCols: column i of the result is column perm[i] of m.
func permuteCols(m *MT, perm []int) *MT {
	p := &MT{Name: m.Name, Struct: m.Struct}
	for _, i := range perm {
		p.Cols = append(p.Cols, m.Cols[i])
	}
	for _, r := range m.Rows {
		row := []any{}
		for _, i := range perm {
			row = append(row, r[i])
		}
		p.Rows = append(p.Rows, row)
	}
	return p
}

func hasTies(m *MT, keys []Key) bool {
	for i := range m.Rows {
		for j := i + 1; j < len(m.Rows); j++ {
			if cmpRows(m, keys, m.Rows[i], m.Rows[j], false) == 0 {
				return true
			}
		}
	}
	return false
}

func checkSorted(t fataler, before, after *MT, keys []Key, what string) {
	t.Helper()
	sameRowsAnyOrder(t, before.Rows, after.Rows, what)
	for i := 1; i < len(after.Rows); i++ {
		if cmpRows(after, keys, after.Rows[i-1], after.Rows[i], true) > 0 {
			t.Fatalf("%s: rows %d and %d out of order by %v: %s then %s", what, i-1, i, keys, rowKey(after.Rows[i-1]), rowKey(after.Rows[i]))
		}
	}
	h := before.clone()
	h.Rows = nil
	g := after.clone()
	g.Rows = nil
	if d := diffMT(h, g); d != "" {
		t.Fatalf("%s changed more than the rows' order: %s", what, d)
	}
}

const sortRule = "a table with 1-8 sortable and 0-2 other columns, 0-40 rows with many equal keys, and 1-8 keys with directions; non-trivial = at least 3 rows, two of them with equal keys and two with different"

func nontrivSort(k keyed) bool {
	if len(k.m.Rows) < 3 || !hasTies(k.m, k.keys) {
		return false
	}
	for _, r := range k.m.Rows {
		if cmpRows(k.m, k.keys, r, k.m.Rows[0], false) != 0 {
			return true
		}
	}
	return false
}

func TestC09_sort(t *testing.T) {
	runCheck(t, sortRule, 12000, 400000, func(t *rapid.T, c *Case) {
		k := genKeyed(1).Draw(t, "keyed")
		mode := rapid.IntRange(0, 2).Draw(t, "mode")
		c.Key("%s keys %v mode %d", k.m, k.keys, mode)
		c.NonTrivial(nontrivSort(k))
		for _, key := range k.keys {
			c.Class("key " + k.m.Cols[k.m.colIndex(key.Col)].Type)
			c.ClassIf(key.Reverse, "reversed key")
		}
		c.ClassIf(len(k.keys) > 1, "several keys")
		c.ClassIf(len(k.m.Rows) > 12, "over 12 rows")
		tb := build(t, k.m)
		var names []string
		for _, key := range k.keys {
			names = append(names, key.Col)
		}
		keys := append([]Key{}, k.keys...)
		if mode > 0 && oneIn(t, 3, "keysBefore") { // Sort by names starts from nothing.
			setKeys(t, tb, k.keys)
			c.Class("other keys before")
		}
		switch mode {
		case 0:
			setKeys(t, tb, keys)
			must(t, tb.Sort(), "Sort()")
		case 1:
			for i := range keys {
				keys[i].Reverse = false
			}
			must(t, tb.Sort(names...), "Sort(%q)", names)
		case 2:
			for i := range keys {
				keys[i].Reverse = false
			}
			must(t, tb.SortSimple(names...), "SortSimple(%q)", names)
		}
		after := read(t, tb)
		checkSorted(t, k.m, after, keys, "Sort")
		sameKeys(t, keys, tb, "after Sort")
		wellFormed(t, tb, "after Sort")
		validTable(t, tb, "after Sort")

		// A sort of sorted rows is still sorted; sorting by the reversed keys turns the order round.
		must(t, tb.Sort(), "Sort() again")
		again := read(t, tb)
		checkSorted(t, after, again, keys, "second Sort")

		// CompareRows agrees with the keys.
		// It goes by the values or by the order of the keys: one or the other.
		byValue, byOrder := true, true
		if n := len(again.Rows); n > 0 {
			for i := 0; i < 4; i++ {
				a, b := rapid.IntRange(0, n-1).Draw(t, "row1"), rapid.IntRange(0, n-1).Draw(t, "row2")
				got, err := tb.CompareRows(a, b)
				must(t, err, "CompareRows(%d,%d)", a, b)
				back, err := tb.CompareRows(b, a)
				must(t, err, "CompareRows(%d,%d)", b, a)
				want := cmpRows(again, keys, again.Rows[a], again.Rows[b], false)
				byValue = byValue && got == want
				byOrder = byOrder && got == cmpRows(again, keys, again.Rows[a], again.Rows[b], true)
				if !byValue && !byOrder {
					t.Fatalf("CompareRows(%d,%d) = %d, expecting %d by value", a, b, got, want)
				}
				if (got == 0) != (want == 0) || got != -back {
					t.Fatalf("CompareRows(%d,%d) = %d and swapped %d, rows equal: %v", a, b, got, back, want == 0)
				}
			}
			bad := rapid.SampledFrom([]int{-1, n, n + 1}).Draw(t, "badRow")
			if got, err := tb.CompareRows(bad, 0); err == nil {
				t.Fatalf("CompareRows(%d,0) of %d rows = %d, nil", bad, n, got)
			}
			if got, err := tb.CompareRows(0, bad); err == nil {
				t.Fatalf("CompareRows(0,%d) of %d rows = %d, nil", bad, n, got)
			}
		}
	})
}

// Larger tables reach the other phases of the library's sort.
// largeTable: a table of 50-600 rows of patterned keys, and 1-3 keys.
func largeTable(t *rapid.T, c *Case) (*MT, []Key) {
	n := rapid.IntRange(50, 600).Draw(t, "n")
	types := []string{rapid.SampledFrom(keyTypes).Draw(t, "t0"), rapid.SampledFrom(keyTypes).Draw(t, "t1"), "int"}
	m := &MT{Name: "t", Cols: []Col{{"a", types[0]}, {"b", types[1]}, {"n", "int"}}}
	vals := [2][]any{}
	for i := 0; i < 2; i++ {
		vals[i] = rapid.SliceOfN(smallVal(types[i]), 2, 12).Draw(t, "vals")
	}
	seed := rapid.Uint64().Draw(t, "seed")
	pattern := rapid.IntRange(0, 4).Draw(t, "pattern")
	for i := 0; i < n; i++ {
		seed = seed*6364136223846793005 + 1442695040888963407
		r := int(seed >> 33)
		num := i
		switch pattern {
		case 1:
			num = n - i
		case 2:
			if i > n/2 {
				num = n - i
			}
		case 3:
			num = r
		case 4:
			num = 7
		}
		m.Rows = append(m.Rows, []any{vals[0][r%len(vals[0])], vals[1][(r>>8)%len(vals[1])], num})
	}
	keys := []Key{}
	for _, i := range rapid.SliceOfNDistinct(rapid.IntRange(0, 2), 1, 3, rapid.ID[int]).Draw(t, "keys") {
		keys = append(keys, Key{m.Cols[i].Name, rapid.Bool().Draw(t, "reverse")})
	}
	c.Key("%d rows of (%s,%s,int) pattern %d seed %d keys %v", n, types[0], types[1], pattern, seed, keys)
	c.NonTrivial(true)
	return m, keys
}

func TestC09_large(t *testing.T) {
	runCheck(t, "a table of 50-600 rows of patterned keys (constant, sorted, reversed, organ pipe, random) with a unique row number, sorted by 1-3 keys; non-trivial = every case", 400, 12000, func(t *rapid.T, c *Case) {
		m, keys := largeTable(t, c)
		tb := build(t, m)
		setKeys(t, tb, keys)
		must(t, tb.Sort(), "Sort")
		checkSorted(t, m, read(t, tb), keys, "Sort")
	})
}

func TestC10_large(t *testing.T) {
	runCheck(t, "a sorted table of 50-600 rows as for C09 and values searched: those of ten rows and some altered ones; non-trivial = every case", 400, 12000, func(t *rapid.T, c *Case) {
		m, keys := largeTable(t, c)
		tb := build(t, m)
		setKeys(t, tb, keys)
		must(t, tb.Sort(), "Sort")
		after := read(t, tb)
		for i := 0; i < 10; i++ {
			vals := keyVals(after, keys, after.Rows[rapid.IntRange(0, len(after.Rows)-1).Draw(t, "probe")])
			if i > 6 {
				j := rapid.IntRange(0, len(vals)-1).Draw(t, "alter")
				vals[j] = smallVal(after.Cols[after.colIndex(keys[j].Col)].Type).Draw(t, "searchVal")
			}
			n := checkSearch(t, tb, after, keys, vals)
			c.ClassIf(n == 0, "absent")
			c.ClassIf(n > 50, "more than 50 matches")
		}
		sameTable(t, after, tb, "after searches")
	})
}

func TestC09_errors(t *testing.T) {
	runCheck(t, "a table and an invalid sort: unknown or unsortable key first, last or in the middle, no keys, bad reverse keys; non-trivial = the table has at least two rows", 6000, 150000, func(t *rapid.T, c *Case) {
		k := genKeyed(1).Draw(t, "keyed")
		tb := build(t, k.m)
		had := rapid.Bool().Draw(t, "hadKeys")
		before := []Key{}
		if had {
			setKeys(t, tb, k.keys)
			before = k.keys
		}
		bad := "no_such_column"
		unsortable := false
		for _, col := range k.m.Cols {
			if !isKeyType(col.Type) && rapid.Bool().Draw(t, "useUnsortable") {
				bad = col.Name
				unsortable = true
			}
		}
		var names []string
		for _, key := range k.keys {
			names = append(names, key.Col)
		}
		at := rapid.IntRange(0, len(names)).Draw(t, "badAt")
		args := append(append(append([]string{}, names[:at]...), bad), names[at:]...)
		op := rapid.IntRange(0, 6).Draw(t, "op")
		c.Key("%s keys %v op %d args %q", k.m, before, op, args)
		c.NonTrivial(len(k.m.Rows) >= 2)
		c.ClassIf(unsortable, "unsortable key")
		c.Class(fmt.Sprintf("op %d", op))
		var err error
		switch op {
		case 0:
			err = tb.Sort(args...)
		case 1:
			err = tb.SortSimple(args...)
		case 2:
			err = tb.SetSortKeys(args...)
		case 3:
			err = tb.SetSortKeysReverse(args...)
		case 4:
			err = tb.SortSimple()
		case 5:
			if had {
				must(t, tb.SetSortKeys(), "SetSortKeys()")
				before = nil
			}
			err = tb.Sort()
		case 6:
			err = tb.AppendSortKey(bad)
		}
		if err == nil {
			t.Fatalf("invalid sort (op %d, %q) gave no error", op, args)
		}
		sameTable(t, k.m, tb, "after a failed sort")
		sameKeys(t, before, tb, "after a failed sort")
	})
}

// ---------------------------------------------------------------- C10

func keyVals(m *MT, keys []Key, row []any) []any {
	var v []any
	for _, k := range keys {
		v = append(v, row[m.colIndex(k.Col)])
	}
	return v
}

// checkSearch compares every search with a linear scan of the model. Reports the number of matches.
func checkSearch(t fataler, tb *gotables.Table, m *MT, keys []Key, vals []any) int {
	t.Helper()
	first, last, n := -1, -1, 0
	for i, row := range m.Rows {
		eq := true
		for j, k := range keys {
			eq = eq && cmpCell(row[m.colIndex(k.Col)], vals[j]) == 0
		}
		if eq {
			if first < 0 {
				first = i
			}
			last = i
			n++
		}
	}
	check := func(what string, got, want int, err error) {
		t.Helper()
		if (err == nil) != (n > 0) || got != want {
			t.Fatalf("%s(%v) by %v = %d, %v; a linear scan finds %d row(s), %d to %d", what, vals, keys, got, err, n, first, last)
		}
	}
	got, err := tb.SearchFirst(vals...)
	check("SearchFirst", got, first, err)
	got, err = tb.Search(vals...)
	check("Search", got, first, err)
	got, err = tb.SearchLast(vals...)
	check("SearchLast", got, last, err)
	f, l, err := tb.SearchRange(vals...)
	check("SearchRange first", f, first, err)
	check("SearchRange last", l, last, err)
	nt, err := tb.NewTableFromRowsBySearchRange("found", vals...)
	if (err == nil) != (n > 0) {
		t.Fatalf("NewTableFromRowsBySearchRange(%v): %v; a linear scan finds %d", vals, err, n)
	}
	if n > 0 {
		want := &MT{Name: "found", Cols: m.Cols, Rows: m.Rows[first : last+1]}
		sameTable(t, want, nt, "NewTableFromRowsBySearchRange")
	}
	return n
}

func TestC10_search(t *testing.T) {
	runCheck(t, "a sorted table (0-40 rows, many equal keys, 1-4 keys with directions) and searched values taken from a row, altered in one key, or arbitrary; non-trivial = at least 3 rows and the values match some but not all rows, or none while some key of them does", 12000, 400000, func(t *rapid.T, c *Case) {
		k := genKeyed(1).Draw(t, "keyed")
		tb := build(t, k.m)
		setKeys(t, tb, k.keys)
		must(t, tb.Sort(), "Sort")
		m := read(t, tb)
		key := fmt.Sprintf("%s keys %v", m, k.keys)
		nontriv := false
		for i := 0; i < 3; i++ {
			var vals []any
			draw := func(col string) any {
				typ := m.Cols[m.colIndex(col)].Type
				return rapid.OneOf(smallVal(typ), smallVal(typ), genVal(typ, valOpts{nan: true, inf: true, anyUTF8: true})).Draw(t, "searchVal")
			}
			how := rapid.IntRange(0, 3).Draw(t, "how")
			if len(m.Rows) == 0 {
				how = 3
			}
			switch how {
			case 0, 1, 2:
				vals = keyVals(m, k.keys, m.Rows[rapid.IntRange(0, len(m.Rows)-1).Draw(t, "fromRow")])
				if how == 2 {
					j := rapid.IntRange(0, len(vals)-1).Draw(t, "alter")
					vals[j] = draw(k.keys[j].Col)
				}
			case 3:
				for _, key := range k.keys {
					vals = append(vals, draw(key.Col))
				}
			}
			key += fmt.Sprintf(" search %v", vals)
			c.Key("%s", key)
			n := checkSearch(t, tb, m, k.keys, vals)
			c.ClassIf(n == 0, "absent")
			c.ClassIf(n == 1, "one match")
			c.ClassIf(n > 1, "several matches")
			c.ClassIf(len(m.Rows) == 0, "empty table")
			if len(m.Rows) >= 3 && (n > 0 && n < len(m.Rows) || n == 0 && how == 2) {
				nontriv = true
			}
		}
		c.NonTrivial(nontriv)
		sameTable(t, m, tb, "after searches")
		sameKeys(t, k.keys, tb, "after searches")
	})
}

func TestC10_badargs(t *testing.T) {
	runCheck(t, "a sorted table and a search with the wrong number of values, a value of another type, nil, or without sort keys; non-trivial = the table has rows", 5000, 120000, func(t *rapid.T, c *Case) {
		k := genKeyed(1).Draw(t, "keyed")
		tb := build(t, k.m)
		setKeys(t, tb, k.keys)
		must(t, tb.Sort(), "Sort")
		m := read(t, tb)
		var vals []any
		for _, key := range k.keys {
			vals = append(vals, smallVal(m.Cols[m.colIndex(key.Col)].Type).Draw(t, "val"))
		}
		how := rapid.IntRange(0, 4).Draw(t, "how")
		j := rapid.IntRange(0, len(vals)-1).Draw(t, "at")
		keys := k.keys
		switch how {
		case 0:
			vals = vals[:j]
		case 1:
			vals = append(vals, vals[j])
		case 2:
			was := m.Cols[m.colIndex(k.keys[j].Col)].Type
			other := rapid.SampledFrom(keyTypes).Filter(func(s string) bool { return s != was }).Draw(t, "otherType")
			vals[j] = smallVal(other).Draw(t, "otherVal")
		case 3:
			vals[j] = nil
		case 4:
			must(t, tb.SetSortKeys(), "SetSortKeys()")
			keys = nil
		}
		c.Key("%s keys %v bad search %v", m, k.keys, vals)
		c.NonTrivial(len(m.Rows) > 0)
		c.Class(fmt.Sprintf("how %d", how))
		if i, err := tb.Search(vals...); err == nil {
			t.Fatalf("Search(%v) by %v = %d, nil", vals, keys, i)
		}
		if i, err := tb.SearchFirst(vals...); err == nil {
			t.Fatalf("SearchFirst(%v) by %v = %d, nil", vals, keys, i)
		}
		if i, err := tb.SearchLast(vals...); err == nil {
			t.Fatalf("SearchLast(%v) by %v = %d, nil", vals, keys, i)
		}
		if f, l, err := tb.SearchRange(vals...); err == nil {
			t.Fatalf("SearchRange(%v) by %v = %d,%d, nil", vals, keys, f, l)
		}
		if _, err := tb.NewTableFromRowsBySearchRange("x", vals...); err == nil {
			t.Fatalf("NewTableFromRowsBySearchRange(%v) by %v: no error", vals, keys)
		}
		sameTable(t, m, tb, "after failed searches")
		sameKeys(t, keys, tb, "after failed searches")
	})
}

func TestC10_binary(t *testing.T) {
	runCheck(t, "a length 0-1000 (or up to the largest int) and a monotonic predicate; SearchFirst and SearchLast against a linear scan, and every probe within range; non-trivial = the predicate is true for some but not all", 20000, 500000, func(t *rapid.T, c *Case) {
		n := rapid.OneOf(rapid.IntRange(0, 9), rapid.IntRange(0, 1000), rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 1, math.MaxInt/2 + 1, math.MaxInt / 2, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt32, math.MaxInt32 + 1}), rapid.IntRange(0, math.MaxInt)).Draw(t, "n")
		k := rapid.OneOf(rapid.IntRange(0, n), rapid.IntRange(0, n), rapid.Just(n), rapid.IntRange(max(0, n-3), n)).Draw(t, "k")
		c.ClassIf(n > 1000, "longer than any table")
		c.Key("n %d k %d", n, k)
		c.NonTrivial(k > 0 && k < n)
		probe := func(i int) {
			if i < 0 || i >= n {
				t.Fatalf("predicate called with %d of %d", i, n)
			}
		}
		// False below k, true from k on: the first true is k (n when none).
		if got := gotables.SearchFirst(n, func(i int) bool { probe(i); return i >= k }); got != k {
			t.Fatalf("SearchFirst(%d, i >= %d) = %d", n, k, got)
		}
		// True below k, false from k on: the last true is k-1 (-1 when none).
		if got := gotables.SearchLast(n, func(i int) bool { probe(i); return i < k }); got != k-1 {
			t.Fatalf("SearchLast(%d, i < %d) = %d", n, k, got)
		}
	})
}
