package gtverif

import (
	"fmt"
	"strings"
	"testing"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C01: text round trip.

func textOpts() tableOpts {
	return tableOpts{types: allTypes, minCols: 0, maxCols: 6, maxRows: 5, val: valOpts{nan: true, inf: true, anyUTF8: true, named: true}}
}

const textRule = "random tables: 0-6 columns of random types (one in six has all 20 types), 0-5 rows, boundary-heavy values; non-trivial = at least one row and one column; distinct by the table's full rendering"

func nontrivTable(m *MT) bool { return len(m.Rows) > 0 && len(m.Cols) > 0 }

func classify(c *Case, m *MT) {
	c.ClassIf(len(m.Cols) == 0, "no-columns")
	c.ClassIf(len(m.Rows) == 0, "no-rows")
	c.ClassIf(len(m.Rows) > 1, "several-rows")
	c.ClassIf(len(m.Cols) >= 20, "all-types")
	if len(m.Rows) > 0 {
		for _, col := range m.Cols {
			c.Class("type " + col.Type)
		}
	}
}

func textRoundTrip(t *rapid.T, m *MT, tb *gotables.Table, s string, what string) {
	t.Helper()
	got, err := gotables.NewTableFromString(s)
	must(t, err, "%s: NewTableFromString(%q)", what, s)
	sameTable(t, m, got, what+" round trip of "+s)
	sameTable(t, m, tb, what+" writer changed its table")
	if isStruct, err := got.IsStructShape(); err != nil || (isStruct != m.Struct && len(m.Cols) > 0) {
		t.Fatalf("%s round trip: struct shape %v, want %v (%v)", what, isStruct, m.Struct, err)
	}
	if got.String() != tb.String() {
		t.Fatalf("%s: the table parsed back prints differently:\n%s\n%s", what, tb.String(), got.String())
	}
}

func TestC01_padded(t *testing.T) {
	runCheck(t, textRule, 40000, 1000000, func(t *rapid.T, c *Case) {
		m := genTable(textOpts()).Draw(t, "table")
		c.Key("%s", m)
		c.NonTrivial(nontrivTable(m))
		classify(c, m)
		tb := build(t, m)
		textRoundTrip(t, m, tb, tb.String(), "padded")
		if tb.StringPadded() != tb.String() {
			t.Fatalf("StringPadded() and String() differ:\n%s\n%s", tb.StringPadded(), tb.String())
		}
	})
}

func TestC01_unpadded(t *testing.T) {
	runCheck(t, textRule, 40000, 1000000, func(t *rapid.T, c *Case) {
		m := genTable(textOpts()).Draw(t, "table")
		c.Key("%s", m)
		c.NonTrivial(nontrivTable(m))
		classify(c, m)
		tb := build(t, m)
		textRoundTrip(t, m, tb, tb.StringUnpadded(), "unpadded")
	})
}

func TestC01_struct(t *testing.T) {
	runCheck(t, textRule+"; struct shape, at most one row", 40000, 1000000, func(t *rapid.T, c *Case) {
		o := textOpts()
		o.maxRows = 1
		m := genTable(o).Draw(t, "table")
		m.Struct = true
		c.Key("%s", m)
		c.NonTrivial(nontrivTable(m))
		classify(c, m)
		tb := build(t, m)
		textRoundTrip(t, m, tb, tb.String(), "struct")
		textRoundTrip(t, m, tb, tb.StringUnpadded(), "struct unpadded")
	})
}

// Larger tables: many rows, so that column widths and alignment interact.
func TestC01_tall(t *testing.T) {
	runCheck(t, "tables of 1-3 columns and up to 60 rows; non-trivial = at least 10 rows", 4000, 100000, func(t *rapid.T, c *Case) {
		o := textOpts()
		o.minCols, o.maxCols, o.maxRows = 1, 3, 60
		m := genTable(o).Draw(t, "table")
		c.Key("%s", m)
		c.NonTrivial(len(m.Rows) >= 10)
		classify(c, m)
		tb := build(t, m)
		textRoundTrip(t, m, tb, tb.String(), "padded")
		textRoundTrip(t, m, tb, tb.StringUnpadded(), "unpadded")
	})
}

// MSet is the model of a table set.
type MSet struct {
	Name   string
	Tables []*MT
}

func (s *MSet) String() string {
	var p []string
	for _, m := range s.Tables {
		p = append(p, m.String())
	}
	return fmt.Sprintf("[[%s]] %s", s.Name, strings.Join(p, " ;; "))
}

func genSet(o tableOpts, minTables, maxTables int, structs bool) *rapid.Generator[*MSet] {
	return gen(func(t *rapid.T) *MSet {
		s := &MSet{}
		if rapid.Bool().Draw(t, "named") {
			s.Name = genName().Draw(t, "setName")
		}
		n := rapid.IntRange(minTables, maxTables).Draw(t, "ntables")
		names := genNames(n).Draw(t, "tableNames")
		for i := 0; i < n; i++ {
			m := genTable(o).Draw(t, "table")
			m.Name = names[i]
			if structs && len(m.Rows) <= 1 && len(m.Cols) > 0 {
				m.Struct = rapid.Bool().Draw(t, "struct")
			}
			s.Tables = append(s.Tables, m)
		}
		if maxTables >= 2 {
			s.Tables = append(s.Tables, moreTables(t)...)
		}
		return s
	})
}

// moreTables: one set in fifty has many more (small) tables.
func moreTables(t *rapid.T) (ms []*MT) {
	if rapid.IntRange(1, 50).Draw(t, "many") < 50 {
		return nil
	}
	for i := rapid.IntRange(6, 40).Draw(t, "more"); i > 0; i-- {
		m := &MT{Name: fmt.Sprintf("more_%d", i), Cols: []Col{{"i", "int"}}}
		if i%3 > 0 {
			m.Rows = [][]any{{i}}
		}
		ms = append(ms, m)
	}
	return ms
}

func buildSet(t fataler, s *MSet) *gotables.TableSet {
	t.Helper()
	ts, err := gotables.NewTableSet(s.Name)
	must(t, err, "NewTableSet(%q)", s.Name)
	for _, m := range s.Tables {
		must(t, ts.AppendTable(build(t, m)), "AppendTable")
	}
	return ts
}

func sameSet(t fataler, want *MSet, ts *gotables.TableSet, what string) {
	t.Helper()
	if ts.Name() != want.Name {
		t.Fatalf("%s: set name %q, want %q", what, ts.Name(), want.Name)
	}
	if ts.TableCount() != len(want.Tables) {
		t.Fatalf("%s: %d tables, want %d", what, ts.TableCount(), len(want.Tables))
	}
	for i, m := range want.Tables {
		tb, err := ts.GetTableByTableIndex(i)
		must(t, err, "%s: GetTableByTableIndex(%d)", what, i)
		sameTable(t, m, tb, fmt.Sprintf("%s: table %d", what, i))
		byName, err := ts.GetTable(m.Name)
		must(t, err, "%s: GetTable(%q)", what, m.Name)
		if byName != tb {
			t.Fatalf("%s: GetTable(%q) is not table %d", what, m.Name, i)
		}
	}
}

// nearNames: names which no table of the set has, but nearly.
func nearNames(s *MSet) []string {
	names := []string{"", " ", "no_such_table"}
	for _, m := range s.Tables {
		names = append(names, m.Name+" ", " "+m.Name, m.Name+"_", m.Name[:len(m.Name)-1], strings.ToUpper(m.Name), strings.ToLower(m.Name), "["+m.Name+"]")
	}
	for i := 0; i < len(names); i++ {
		for _, m := range s.Tables {
			if names[i] == m.Name {
				names = append(names[:i], names[i+1:]...)
				i--
				break
			}
		}
	}
	return names
}

func TestC01_set(t *testing.T) {
	runCheck(t, "sets of 0-4 tables, named or not, tabular and struct shapes mixed; non-trivial = at least two tables with rows", 20000, 500000, func(t *rapid.T, c *Case) {
		o := textOpts()
		o.maxCols, o.maxRows = 4, 3
		s := genSet(o, 0, 4, true).Draw(t, "set")
		c.Key("%s", s)
		n := 0
		for _, m := range s.Tables {
			if nontrivTable(m) {
				n++
			}
		}
		c.NonTrivial(n >= 2)
		c.ClassIf(s.Name != "", "named set")
		c.ClassIf(len(s.Tables) == 0, "empty set")
		ts := buildSet(t, s)
		for _, x := range []struct{ what, s string }{{"padded", ts.String()}, {"unpadded", ts.StringUnpadded()}} {
			got, err := gotables.NewTableSetFromString(x.s)
			must(t, err, "%s set: NewTableSetFromString(%q)", x.what, x.s)
			sameSet(t, s, got, x.what+" set round trip")
			for i, m := range s.Tables {
				tb, _ := got.GetTableByTableIndex(i)
				if isStruct, err := tb.IsStructShape(); err != nil || (isStruct != m.Struct && len(m.Cols) > 0) {
					t.Fatalf("%s set round trip: table %d struct shape %v, want %v (%v)", x.what, i, isStruct, m.Struct, err)
				}
			}
			if len(s.Tables) > 0 {
				i := rapid.IntRange(0, len(s.Tables)-1).Draw(t, "pick")
				one, err := gotables.NewTableFromStringByTableName(x.s, s.Tables[i].Name)
				must(t, err, "NewTableFromStringByTableName")
				sameTable(t, s.Tables[i], one, "NewTableFromStringByTableName")
				one, err = gotables.NewTableFromStringByTableIndex(x.s, i)
				must(t, err, "NewTableFromStringByTableIndex")
				sameTable(t, s.Tables[i], one, "NewTableFromStringByTableIndex")
			}
			if i := rapid.SampledFrom([]int{-1, len(s.Tables), len(s.Tables) + 1}).Draw(t, "noIndex"); true {
				if one, err := gotables.NewTableFromStringByTableIndex(x.s, i); err == nil || one != nil {
					t.Fatalf("NewTableFromStringByTableIndex(%d) of %d tables: %v, %v", i, len(s.Tables), one, err)
				}
			}
			if name := rapid.SampledFrom(nearNames(s)).Draw(t, "nearName"); true {
				if one, err := gotables.NewTableFromStringByTableName(x.s, name); err == nil || one != nil {
					t.Fatalf("NewTableFromStringByTableName(%q) of %s: %v, %v", name, s, one, err)
				}
			}
			_, err = gotables.NewTableFromString(x.s)
			if (err == nil) != (len(s.Tables) == 1) {
				t.Fatalf("NewTableFromString of %d tables: error %v", len(s.Tables), err)
			}
		}
		sameSet(t, s, ts, "writing changed the set")
	})
}
