package gtverif

import (
	"fmt"
	"strings"
	"testing"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C15: histories of a table set.

func TestC15_set(t *testing.T) {
	runCheck(t, "1-30 set operations with valid and invalid arguments on up to 7 table names (at times after 5-60 tables more), all lookups compared with an ordered list after each; non-trivial = at least 4 effective operations with a delete or rename among them", 12000, 300000, func(t *rapid.T, c *Case) {
		set, err := gotables.NewTableSet("set_name")
		must(t, err, "NewTableSet")
		setName, fileName := "set_name", ""
		type ent struct {
			name string
			tb   *gotables.Table
		}
		var list []ent
		find := func(n string) int {
			for i, e := range list {
				if e.name == n {
					return i
				}
			}
			return -1
		}
		pool := []string{"a", "b", "c", "A", "t_1", "_x", "Bb"}
		many := 0
		if oneIn(t, 10, "many") {
			many = rapid.IntRange(5, 60).Draw(t, "tables")
		}
		var log []string
		effective, removed := 0, false
		step := func(f string, a ...any) {
			log = append(log, fmt.Sprintf(f, a...))
			c.Key("%s", strings.Join(log, "; "))
		}
		expect := func(err error, ok bool) bool {
			t.Helper()
			if (err == nil) != ok {
				t.Fatalf("expecting success %v, got error %v\nhistory: %s", ok, err, strings.Join(log, "; "))
			}
			if ok {
				effective++
			}
			return ok
		}
		for i := 0; i < many; i++ {
			n := fmt.Sprintf("n%d", i)
			tb := build(t, &MT{Name: n, Cols: []Col{{"x", "int"}}, Rows: [][]any{{i}}})
			must(t, set.AppendTable(tb), "AppendTable(%s)", n)
			list = append(list, ent{n, tb})
		}
		if many > 0 {
			step("append n0 to n%d", many-1)
		}
		for i := rapid.IntRange(1, 30).Draw(t, "steps"); i > 0; i-- {
			n := rapid.SampledFrom(pool).Draw(t, "name")
			if len(list) > 0 && rapid.Bool().Draw(t, "present") {
				n = list[rapid.IntRange(0, len(list)-1).Draw(t, "which")].name
			}
			idx := rapid.IntRange(-1, len(list)+1).Draw(t, "idx")
			switch op := rapid.IntRange(0, 10).Draw(t, "op"); op {
			case 0, 1, 2:
				tb := build(t, &MT{Name: n, Cols: []Col{{"x", "int"}}, Rows: [][]any{{len(log)}}})
				step("append %s", n)
				if op == 0 {
					err = set.Append(tb)
				} else {
					err = set.AppendTable(tb)
				}
				if expect(err, find(n) < 0) {
					list = append(list, ent{n, tb})
				}
			case 3:
				step("delete %s", n)
				if expect(set.DeleteTable(n), find(n) >= 0) {
					k := find(n)
					list = append(append([]ent{}, list[:k]...), list[k+1:]...)
					removed = true
				}
			case 4:
				step("delete #%d", idx)
				if expect(set.DeleteTableByTableIndex(idx), idx >= 0 && idx < len(list)) {
					list = append(append([]ent{}, list[:idx]...), list[idx+1:]...)
					removed = true
				}
			case 5, 6:
				to := rapid.SampledFrom(append(pool, "", "a b", "1x", "é")).Draw(t, "to")
				valid, _ := gotables.IsValidTableName(to)
				step("rename %s to %q", n, to)
				err := set.RenameTable(n, to)
				if n == to && find(n) >= 0 {
					break // Refused or not, nothing changes.
				}
				if expect(err, find(n) >= 0 && find(to) < 0 && valid) {
					list[find(n)].name = to
					removed = true
				}
			case 7:
				valid := true
				if oneIn(t, 4, "odd name") {
					n = rapid.SampledFrom([]string{"", "a b", "1x", "é", "[[a]]"}).Draw(t, "oddName")
					valid = n == ""
				}
				step("SetName %q", n)
				if expect(set.SetName(n), valid) {
					setName = n
				}
			case 8:
				step("SetFileName %s", n)
				set.SetFileName(n)
				fileName = n
			case 9:
				step("append nil")
				expect(set.AppendTable(nil), false)
			case 10:
				if len(list) == 0 {
					continue
				}
				e := list[rapid.IntRange(0, len(list)-1).Draw(t, "again")]
				step("append %s again", e.name)
				if rapid.Bool().Draw(t, "appendTable") {
					err = set.AppendTable(e.tb)
				} else {
					err = set.Append(e.tb)
				}
				expect(err, false)
			}
			// Everything agrees.
			what := strings.Join(log, "; ")
			if set.Name() != setName || set.FileName() != fileName || set.TableCount() != len(list) {
				t.Fatalf("after %s: name %q, file %q, %d tables; expecting %q, %q, %d", what, set.Name(), set.FileName(), set.TableCount(), setName, fileName, len(list))
			}
			for k, e := range list {
				tb, err := set.GetTable(e.name)
				must(t, err, "after %s: GetTable(%q)", what, e.name)
				tb2, err := set.GetTableByTableIndex(k)
				must(t, err, "after %s: GetTableByTableIndex(%d)", what, k)
				ti, err := set.TableIndex(e.name)
				must(t, err, "after %s: TableIndex(%q)", what, e.name)
				has, err := set.HasTable(e.name)
				must(t, err, "after %s: HasTable(%q)", what, e.name)
				if tb != e.tb || tb2 != e.tb || ti != k || !has || tb.Name() != e.name {
					t.Fatalf("after %s: table %d %q: GetTable ok %v, by index ok %v, TableIndex %d, HasTable %v, name %q", what, k, e.name, tb == e.tb, tb2 == e.tb, ti, has, tb.Name())
				}
			}
			for _, k := range []int{-1, len(list), len(list) + 1} {
				if tb, err := set.GetTableByTableIndex(k); err == nil || tb != nil {
					t.Fatalf("after %s: GetTableByTableIndex(%d) of %d = %v, %v", what, k, len(list), tb, err)
				}
			}
			others := append([]string{"nosuch", ""}, pool...)
			if len(list) > 0 {
				near := &MSet{}
				for _, k := range []int{0, len(list) - 1} {
					near.Tables = append(near.Tables, &MT{Name: list[k].name})
				}
				others = append(others, nearNames(near)...)
			}
			for i, p := range others {
				if find(p) >= 0 {
					continue
				}
				if i >= 2+len(pool) {
					if err := set.DeleteTable(p); err == nil {
						t.Fatalf("after %s: DeleteTable(%q) found a table", what, p)
					}
					if err := set.RenameTable(p, "new_name"); err == nil {
						t.Fatalf("after %s: RenameTable(%q, ...) found a table", what, p)
					}
				}
				if tb, err := set.GetTable(p); err == nil || tb != nil {
					t.Fatalf("after %s: GetTable(%q) found a table", what, p)
				}
				if k, err := set.TableIndex(p); err == nil || k != -1 {
					t.Fatalf("after %s: TableIndex(%q) = %d, %v", what, p, k, err)
				}
				if has, err := set.HasTable(p); err == nil || has {
					t.Fatalf("after %s: HasTable(%q) = %v, %v", what, p, has, err)
				}
			}
			if ok, err := set.IsValidTableSet(); !ok || err != nil {
				t.Fatalf("after %s: IsValidTableSet = %v, %v", what, ok, err)
			}
		}
		c.NonTrivial(effective >= 4 && removed)
	})
}
