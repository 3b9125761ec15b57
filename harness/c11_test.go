package gtverif

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C11: histories of edits against a list-of-rows model.

type hist struct {
	seen   []string // Columns there ever were.
	t      *rapid.T
	c      *Case
	m      *MT
	keys   []Key
	tb     *gotables.Table
	log    []string
	ok     int  // operations that changed something
	bad    int  // operations refused
	cols   int  // structural column operations that succeeded
	shared bool // Its nested tables are in another table as well, as after a shallow copy.
}

var histVal = valOpts{nan: true, inf: true, anyUTF8: true, named: true}

func (h *hist) val(typ string) any {
	if rapid.Bool().Draw(h.t, "smallVal") && isKeyType(typ) {
		return smallVal(typ).Draw(h.t, "v")
	}
	return genVal(typ, histVal).Draw(h.t, "v")
}

func (h *hist) typ() string {
	if rapid.IntRange(0, 1).Draw(h.t, "sortableType") == 0 {
		return rapid.SampledFrom(keyTypes).Draw(h.t, "type")
	}
	return rapid.SampledFrom(allTypes).Draw(h.t, "type")
}

// name: a short list, so that names come back after deletes and renames.
func (h *hist) name() string {
	return rapid.SampledFrom([]string{"a", "b", "c", "d", "E", "f_1", "_g", "A", "e"}).Draw(h.t, "name")
}

func (h *hist) anyCol() (int, string, bool) {
	if len(h.m.Cols) == 0 || rapid.IntRange(0, 9).Draw(h.t, "badCol") == 0 {
		i := rapid.SampledFrom([]int{-1, len(h.m.Cols), len(h.m.Cols) + 3, 1 << 40}).Draw(h.t, "noCol")
		n := rapid.SampledFrom([]string{"", "nosuch", "int", "a b", "B"}).Draw(h.t, "noName")
		return i, n, false
	}
	i := rapid.IntRange(0, len(h.m.Cols)-1).Draw(h.t, "col")
	return i, h.m.Cols[i].Name, true
}

func (h *hist) anyRow() (int, bool) {
	if len(h.m.Rows) == 0 || rapid.IntRange(0, 9).Draw(h.t, "badRow") == 0 {
		return rapid.SampledFrom([]int{-1, len(h.m.Rows), len(h.m.Rows) + 3, 1 << 40}).Draw(h.t, "noRow"), false
	}
	return rapid.IntRange(0, len(h.m.Rows)-1).Draw(h.t, "row"), true
}

// step records the operation about to happen.
func (h *hist) step(format string, a ...any) {
	h.log = append(h.log, fmt.Sprintf(format, a...))
	h.c.Key("%s", strings.Join(h.log, "; "))
}

// expect: the operation must have succeeded exactly when ok; change is applied to the model if it did.
func (h *hist) expect(err error, ok bool, change func()) {
	h.t.Helper()
	if ok && err != nil {
		h.t.Fatalf("valid operation refused: %v\nhistory: %s", err, strings.Join(h.log, "; "))
	}
	if !ok && err == nil {
		h.t.Fatalf("invalid operation gave no error\nhistory: %s", strings.Join(h.log, "; "))
	}
	if ok {
		if change != nil {
			change()
		}
		h.ok++
	} else {
		h.bad++
	}
}

func (h *hist) zeroRow() []any {
	row := make([]any, len(h.m.Cols))
	for i, c := range h.m.Cols {
		row[i] = zeroOf(c.Type)
	}
	return row
}

func (h *hist) key(name string) int {
	for i, k := range h.keys {
		if k.Col == name {
			return i
		}
	}
	return -1
}

func (h *hist) dropCol(i int) {
	name := h.m.Cols[i].Name
	h.m.Cols = append(append([]Col{}, h.m.Cols[:i]...), h.m.Cols[i+1:]...)
	for r, row := range h.m.Rows {
		h.m.Rows[r] = append(append([]any{}, row[:i]...), row[i+1:]...)
	}
	if k := h.key(name); k >= 0 {
		h.keys = append(append([]Key{}, h.keys[:k]...), h.keys[k+1:]...)
	}
	h.cols++
}

// The operations. Each draws its arguments, calls the library and updates the model.
var histOps = []struct {
	name string
	do   func(h *hist)
}{
	{"AppendRow", func(h *hist) {
		h.step("AppendRow")
		h.expect(h.tb.AppendRow(), true, func() { h.m.Rows = append(h.m.Rows, h.zeroRow()) })
	}},
	{"AppendRows", func(h *hist) {
		n := rapid.IntRange(-1, 3).Draw(h.t, "n")
		if len(h.m.Rows) < 60 && rapid.IntRange(0, 24).Draw(h.t, "many") == 0 {
			n = rapid.IntRange(20, 140).Draw(h.t, "n")
		}
		h.step("AppendRows(%d)", n)
		h.expect(h.tb.AppendRows(n), n >= 0, func() {
			for i := 0; i < n; i++ {
				h.m.Rows = append(h.m.Rows, h.zeroRow())
			}
		})
	}},
	{"DeleteRow", func(h *hist) {
		r, ok := h.anyRow()
		h.step("DeleteRow(%d)", r)
		h.expect(h.tb.DeleteRow(r), ok, func() { h.m.Rows = append(append([][]any{}, h.m.Rows[:r]...), h.m.Rows[r+1:]...) })
	}},
	{"DeleteRows", func(h *hist) {
		a, ok1 := h.anyRow()
		b, ok2 := h.anyRow()
		h.step("DeleteRows(%d,%d)", a, b)
		h.expect(h.tb.DeleteRows(a, b), ok1 && ok2 && a <= b, func() { h.m.Rows = append(append([][]any{}, h.m.Rows[:a]...), h.m.Rows[b+1:]...) })
	}},
	{"DeleteRowsAll", func(h *hist) {
		if rapid.IntRange(0, 3).Draw(h.t, "really") > 0 {
			return
		}
		h.step("DeleteRowsAll")
		h.expect(h.tb.DeleteRowsAll(), true, func() { h.m.Rows = nil })
	}},
	{"AppendCol", func(h *hist) {
		n, typ, ok := h.name(), h.typ(), true
		switch rapid.IntRange(0, 9).Draw(h.t, "badArg") {
		case 0:
			n, ok = rapid.SampledFrom([]string{"", "int", "a b", "1a", "é", "a-b"}).Draw(h.t, "badName"), false
		case 1:
			typ, ok = rapid.SampledFrom([]string{"", "Int", "complex64", "[]int", "interface{}", "*table"}).Draw(h.t, "badType"), false
		}
		h.step("AppendCol(%q,%q)", n, typ)
		ok = ok && h.m.colIndex(n) < 0
		h.expect(h.tb.AppendCol(n, typ), ok, func() {
			h.m.Cols = append(h.m.Cols, Col{n, typ})
			for r := range h.m.Rows {
				h.m.Rows[r] = append(append([]any{}, h.m.Rows[r]...), zeroOf(typ))
			}
			h.cols++
		})
	}},
	{"DeleteCol", func(h *hist) {
		i, n, ok := h.anyCol()
		if rapid.Bool().Draw(h.t, "byIndex") {
			h.step("DeleteColByColIndex(%d)", i)
			h.expect(h.tb.DeleteColByColIndex(i), ok, func() { h.dropCol(i) })
		} else {
			h.step("DeleteCol(%q)", n)
			ok = h.m.colIndex(n) >= 0
			h.expect(h.tb.DeleteCol(n), ok, func() { h.dropCol(h.m.colIndex(n)) })
		}
	}},
	{"RenameCol", func(h *hist) {
		i, old, ok := h.anyCol()
		n := h.name()
		if rapid.IntRange(0, 6).Draw(h.t, "badArg") == 0 {
			n = rapid.SampledFrom([]string{"", "int", "a b", "1a", "é", "a-b"}).Draw(h.t, "badName")
			ok = false
		}
		byIndex := rapid.Bool().Draw(h.t, "byIndex")
		if !byIndex {
			ok = ok && h.m.colIndex(old) >= 0
		}
		var err error
		if byIndex {
			h.step("RenameColByColIndex(%d,%q)", i, n)
			err = h.tb.RenameColByColIndex(i, n)
		} else {
			h.step("RenameCol(%q,%q)", old, n)
			err = h.tb.RenameCol(old, n)
		}
		if ok && old == n { // To its own name: refused or not, nothing changes.
			return
		}
		h.expect(err, ok && h.m.colIndex(n) < 0, func() {
			h.m.Cols[i].Name = n
			if k := h.key(old); k >= 0 {
				h.keys[k].Col = n
			}
			h.cols++
		})
	}},
	{"SetName", func(h *hist) {
		n, ok := h.name(), true
		if rapid.IntRange(0, 3).Draw(h.t, "badArg") == 0 {
			n, ok = rapid.SampledFrom([]string{"", "a b", "1a", "é", "a-b"}).Draw(h.t, "badName"), false
		}
		h.step("SetName(%q)", n)
		var err error
		if rapid.Bool().Draw(h.t, "rename") {
			err = h.tb.RenameTable(n)
		} else {
			err = h.tb.SetName(n)
		}
		h.expect(err, ok, func() { h.m.Name = n })
	}},
	{"SetVal", histSetVal}, {"SetVal", histSetVal}, {"SetVal", histSetVal}, {"SetVal", histSetVal},
	{"SetTable", func(h *hist) {
		i, n, ok := h.anyCol()
		r, rok := h.anyRow()
		v := genVal("*Table", histVal).Draw(h.t, "table").(*MT)
		nt := build(h.t, v)
		byIndex := rapid.Bool().Draw(h.t, "byIndex")
		var err error
		if byIndex {
			h.step("SetTableByColIndex(%d,%d,%s)", i, r, v)
			err = h.tb.SetTableByColIndex(i, r, nt)
		} else {
			h.step("SetTable(%q,%d,%s)", n, r, v)
			err = h.tb.SetTable(n, r, nt)
		}
		ok = ok && rok && h.m.Cols[i].Type == "*Table"
		h.expect(err, ok, func() { h.m.Rows[r][i] = v })
	}},
	{"Zero", func(h *hist) {
		i, n, ok := h.anyCol()
		r, rok := h.anyRow()
		if rapid.IntRange(0, 1).Draw(h.t, "byIndex") == 0 {
			ok = ok && h.m.colIndex(n) >= 0
			i = h.m.colIndex(n)
		}
		zeroCell := func() { h.m.Rows[r][i] = zeroOf(h.m.Cols[i].Type) }
		zeroCol := func() {
			for r := range h.m.Rows {
				h.m.Rows[r][i] = zeroOf(h.m.Cols[i].Type)
			}
		}
		switch op := rapid.IntRange(0, 4).Draw(h.t, "op"); op {
		case 0:
			h.step("SetCellToZeroValue(%q,%d)", n, r)
			h.expect(h.tb.SetCellToZeroValue(n, r), ok && rok, zeroCell)
		case 1:
			h.step("SetCellToZeroValueByColIndex(%d,%d)", i, r)
			h.expect(h.tb.SetCellToZeroValueByColIndex(i, r), ok && rok, zeroCell)
		case 2:
			h.step("SetColCellsToZeroValue(%q)", n)
			h.expect(h.tb.SetColCellsToZeroValue(n), ok, zeroCol)
		case 3:
			h.step("SetColCellsToZeroValueByColIndex(%d)", i)
			h.expect(h.tb.SetColCellsToZeroValueByColIndex(i), ok, zeroCol)
		case 4:
			h.step("SetRowCellsToZeroValue(%d)", r)
			h.expect(h.tb.SetRowCellsToZeroValue(r), rok, func() { h.m.Rows[r] = h.zeroRow() })
		}
	}},
	{"NaN", func(h *hist) {
		i, n, ok := h.anyCol()
		r, rok := h.anyRow()
		isFloat := func(i int) bool { return h.m.Cols[i].Type == "float32" || h.m.Cols[i].Type == "float64" }
		for j := range h.m.Cols {
			if isFloat(j) {
				if rapid.Bool().Draw(h.t, "preferFloat") {
					i, n, ok = j, h.m.Cols[j].Name, true
				}
			}
		}
		if !ok {
			i, n = -1, "nosuch"
		}
		nanCell := func() { h.m.Rows[r][i] = nanOf(h.m.Cols[i].Type) }
		nanCol := func() {
			for r := range h.m.Rows {
				h.m.Rows[r][i] = nanOf(h.m.Cols[i].Type)
			}
		}
		good := ok && isFloat(i)
		switch op := rapid.IntRange(0, 5).Draw(h.t, "op"); op {
		case 0:
			h.step("SetFloatCellToNaN(%q,%d)", n, r)
			h.expect(h.tb.SetFloatCellToNaN(n, r), good && rok, nanCell)
		case 1:
			h.step("SetFloatCellToNaNByColIndex(%d,%d)", i, r)
			h.expect(h.tb.SetFloatCellToNaNByColIndex(i, r), good && rok, nanCell)
		case 2:
			h.step("SetColFloatCellsToNaN(%q)", n)
			h.expect(h.tb.SetColFloatCellsToNaN(n), good, nanCol)
		case 3:
			h.step("SetColFloatCellsToNaNByColIndex(%d)", i)
			h.expect(h.tb.SetColFloatCellsToNaNByColIndex(i), good, nanCol)
		case 4:
			h.step("SetRowFloatCellsToNaN(%d)", r)
			h.expect(h.tb.SetRowFloatCellsToNaN(r), rok, func() {
				for j := range h.m.Cols {
					if isFloat(j) {
						h.m.Rows[r][j] = nanOf(h.m.Cols[j].Type)
					}
				}
			})
		case 5:
			h.step("SetAllFloatCellsToNaN")
			h.expect(h.tb.SetAllFloatCellsToNaN(), true, func() {
				for r := range h.m.Rows {
					for j := range h.m.Cols {
						if isFloat(j) {
							h.m.Rows[r][j] = nanOf(h.m.Cols[j].Type)
						}
					}
				}
			})
		}
	}},
	{"SetSortKeys", histSetKeys}, {"SetSortKeys", histSetKeys},
	{"SetSortKeysReverse", func(h *hist) {
		names := []string{}
		ok := true
		for i := rapid.IntRange(0, 2).Draw(h.t, "n"); i > 0; i-- {
			if len(h.keys) > 0 && rapid.IntRange(0, 5).Draw(h.t, "badKey") > 0 {
				names = append(names, h.keys[rapid.IntRange(0, len(h.keys)-1).Draw(h.t, "key")].Col)
			} else {
				_, n, _ := h.anyCol()
				names = append(names, n)
				ok = ok && h.key(n) >= 0
			}
		}
		h.step("SetSortKeysReverse(%q)", names)
		h.expect(h.tb.SetSortKeysReverse(names...), ok, func() {
			for _, n := range names {
				h.keys[h.key(n)].Reverse = true
			}
		})
	}},
	{"AppendSortKey", func(h *hist) {
		_, n, _ := h.anyCol()
		if h.key(n) >= 0 {
			return // Twice the same key: left open.
		}
		i := h.m.colIndex(n)
		h.step("AppendSortKey(%q)", n)
		h.expect(h.tb.AppendSortKey(n), i >= 0 && isKeyType(h.m.Cols[i].Type), func() { h.keys = append(h.keys, Key{n, false}) })
	}},
	{"DeleteSortKey", func(h *hist) {
		_, n, _ := h.anyCol()
		if len(h.keys) > 0 && rapid.Bool().Draw(h.t, "present") {
			n = h.keys[rapid.IntRange(0, len(h.keys)-1).Draw(h.t, "key")].Col
		}
		h.step("DeleteSortKey(%q)", n)
		k := h.key(n)
		h.expect(h.tb.DeleteSortKey(n), k >= 0, func() { h.keys = append(append([]Key{}, h.keys[:k]...), h.keys[k+1:]...) })
	}},
	{"Sort", histSort}, {"Sort", histSort},
	{"Swap", func(h *hist) {
		i, n1, ok1 := h.anyCol()
		j, n2, ok2 := h.anyCol()
		var err error
		if rapid.Bool().Draw(h.t, "byIndex") {
			h.step("SwapColsByColIndex(%d,%d)", i, j)
			err = h.tb.SwapColsByColIndex(i, j)
		} else {
			h.step("SwapCols(%q,%q)", n1, n2)
			err = h.tb.SwapCols(n1, n2)
			if !ok1 {
				i, ok1 = h.m.colIndex(n1), h.m.colIndex(n1) >= 0
			}
			if !ok2 {
				j, ok2 = h.m.colIndex(n2), h.m.colIndex(n2) >= 0
			}
		}
		if ok1 && ok2 && i == j {
			return
		}
		h.expect(err, ok1 && ok2, func() {
			perm := indices(len(h.m.Cols))
			perm[i], perm[j] = j, i
			h.m = permuteCols(h.m, perm)
			h.cols++
		})
	}},
	{"ReorderCols", func(h *hist) {
		perm := rapid.Permutation(indices(len(h.m.Cols))).Draw(h.t, "perm")
		want := permuteCols(h.m, perm)
		h.step("ReorderCols(%v)", perm)
		var err error
		if rapid.Bool().Draw(h.t, "byIndex") {
			err = h.tb.ReorderColsByColIndex(perm...)
		} else {
			err = h.tb.ReorderCols(colNames(want)...)
		}
		h.expect(err, true, func() { h.m = want; h.cols++ })
	}},
	{"OrderColsBySortKeys", func(h *hist) {
		h.step("OrderColsBySortKeys")
		h.expect(h.tb.OrderColsBySortKeys(), true, func() {
			var perm []int
			for _, k := range h.keys {
				perm = append(perm, h.m.colIndex(k.Col))
			}
			for i, c := range h.m.Cols {
				if h.key(c.Name) < 0 {
					perm = append(perm, i)
				}
			}
			h.m = permuteCols(h.m, perm)
			h.cols++
		})
	}},
	{"Reverse", func(h *hist) {
		h.step("Reverse")
		h.expect(h.tb.Reverse(), true, func() {
			for l, r := 0, len(h.m.Rows)-1; l < r; l, r = l+1, r-1 {
				h.m.Rows[l], h.m.Rows[r] = h.m.Rows[r], h.m.Rows[l]
			}
		})
	}},
	{"Nested", func(h *hist) { // Edit a table in a cell.
		var cells [][2]int
		for i, c := range h.m.Cols {
			for r := 0; c.Type == "*Table" && r < len(h.m.Rows); r++ {
				cells = append(cells, [2]int{r, i})
			}
		}
		if len(cells) == 0 || h.shared {
			return
		}
		at := cells[rapid.IntRange(0, len(cells)-1).Draw(h.t, "cell")]
		r, i := at[0], at[1]
		nt, err := h.tb.GetTableByColIndex(i, r)
		must(h.t, err, "GetTableByColIndex(%d,%d)", i, r)
		x := h.m.Rows[r][i].(*MT).clone()
		put := func() {
			h.m.Rows[r] = append([]any{}, h.m.Rows[r]...)
			h.m.Rows[r][i] = x
		}
		for n := rapid.IntRange(1, 4).Draw(h.t, "edits"); n > 0; n-- {
			switch rapid.IntRange(0, 3).Draw(h.t, "edit") {
			case 0, 1:
				if !x.Nil && rapid.Bool().Draw(h.t, "keepName") {
					continue
				}
				name := h.name()
				h.step("(%d,%d).SetName(%q)", i, r, name)
				h.expect(nt.SetName(name), true, func() { x.Name, x.Nil = name, false; put() })
			case 2:
				name, typ := h.name(), h.typ()
				h.step("(%d,%d).AppendCol(%q,%q)", i, r, name, typ)
				h.expect(nt.AppendCol(name, typ), !x.Nil && x.colIndex(name) < 0, func() {
					x.Cols = append(x.Cols, Col{name, typ})
					for r := range x.Rows {
						x.Rows[r] = append(append([]any{}, x.Rows[r]...), zeroOf(typ))
					}
					put()
				})
			case 3:
				h.step("(%d,%d).AppendRow()", i, r)
				h.expect(nt.AppendRow(), !x.Nil, func() {
					row := make([]any, len(x.Cols))
					for i, c := range x.Cols {
						row[i] = zeroOf(c.Type)
					}
					x.Rows = append(x.Rows, row)
					put()
				})
			}
		}
	}},
	{"StructShape", func(h *hist) {
		b := rapid.Bool().Draw(h.t, "struct")
		h.step("SetStructShape(%v)", b)
		h.expect(h.tb.SetStructShape(b), true, func() { h.m.Struct = b })
	}},
	{"AppendColsFromTable", func(h *hist) {
		from := h.other()
		h.step("AppendColsFromTable(%v)", from.Cols)
		ok := true
		for _, c := range from.Cols {
			if i := h.m.colIndex(c.Name); i >= 0 && h.m.Cols[i].Type != c.Type {
				ok = false
			}
		}
		ft := build(h.t, from)
		h.expect(h.tb.AppendColsFromTable(ft), ok, func() {
			for _, c := range from.Cols {
				if h.m.colIndex(c.Name) < 0 {
					h.m.Cols = append(h.m.Cols, c)
					for r := range h.m.Rows {
						h.m.Rows[r] = append(append([]any{}, h.m.Rows[r]...), zeroOf(c.Type))
					}
				}
			}
			h.cols++
		})
		sameTable(h.t, from, ft, "source of AppendColsFromTable")
	}},
	{"AppendRowsFromTable", func(h *hist) {
		from := h.other()
		if len(from.Rows) == 0 {
			return
		}
		a := rapid.IntRange(0, len(from.Rows)-1).Draw(h.t, "first")
		b := rapid.IntRange(a, len(from.Rows)-1).Draw(h.t, "last")
		ok := true
		if rapid.IntRange(0, 7).Draw(h.t, "badRange") == 0 {
			b, ok = len(from.Rows)+rapid.IntRange(0, 2).Draw(h.t, "over"), false
		}
		for _, c := range from.Cols {
			if i := h.m.colIndex(c.Name); i < 0 || canonType(h.m.Cols[i].Type) != canonType(c.Type) {
				ok = false
			}
		}
		h.step("AppendRowsFromTable(%s,%d,%d)", from, a, b)
		ft := build(h.t, from)
		h.expect(h.tb.AppendRowsFromTable(ft, a, b), ok, func() {
			for _, row := range from.Rows[a : b+1] {
				nr := h.zeroRow()
				for i, c := range from.Cols {
					nr[h.m.colIndex(c.Name)] = row[i]
				}
				h.m.Rows = append(h.m.Rows, nr)
			}
		})
		sameTable(h.t, from, ft, "source of AppendRowsFromTable")
	}},
	{"AppendRowsFromTable itself", func(h *hist) {
		if len(h.m.Rows) == 0 {
			return
		}
		for _, c := range h.m.Cols {
			if c.Type == "*Table" { // One table in two cells is an invalid nesting.
				return
			}
		}
		a := rapid.IntRange(0, len(h.m.Rows)-1).Draw(h.t, "first")
		b := rapid.IntRange(a, min(a+5, len(h.m.Rows)-1)).Draw(h.t, "last")
		h.step("AppendRowsFromTable(itself,%d,%d)", a, b)
		h.expect(h.tb.AppendRowsFromTable(h.tb, a, b), true, func() {
			for _, row := range h.m.Rows[a : b+1] {
				h.m.Rows = append(h.m.Rows, append([]any{}, row...))
			}
		})
	}},
	{"SetSortKeysFromTable", func(h *hist) {
		from := h.other()
		keys := drawKeys(h.t, from)
		ok := len(keys) > 0
		for _, k := range keys {
			i := h.m.colIndex(k.Col)
			ok = ok && i >= 0 && isKeyType(h.m.Cols[i].Type)
		}
		h.step("SetSortKeysFromTable(%v %v)", from.Cols, keys)
		ft := build(h.t, from)
		setKeys(h.t, ft, keys)
		h.expect(h.tb.SetSortKeysFromTable(ft), ok, func() { h.keys = keys })
	}},
}

func histSetVal(h *hist) {
	i, n, ok := h.anyCol()
	r, rok := h.anyRow()
	typ := h.typ()
	if ok && rapid.IntRange(0, 5).Draw(h.t, "wrongType") > 0 {
		typ = h.m.Cols[i].Type
	}
	v := h.val(typ)
	arg := asCell(h.t, v)
	byIndex := rapid.Bool().Draw(h.t, "byIndex")
	var err error
	if byIndex {
		h.step("SetValByColIndex(%d,%d,%s %s)", i, r, typ, fmtVal(v))
		err = h.tb.SetValByColIndex(i, r, arg)
	} else {
		h.step("SetVal(%q,%d,%s %s)", n, r, typ, fmtVal(v))
		err = h.tb.SetVal(n, r, arg)
		i = h.m.colIndex(n)
		ok = i >= 0
	}
	ok = ok && rok && canonType(h.m.Cols[i].Type) == canonType(typ)
	h.expect(err, ok, func() { h.m.Rows[r][i] = v })
}

func histSetKeys(h *hist) {
	keys := drawKeys(h.t, h.m)
	names := []string{}
	for i := range keys {
		keys[i].Reverse = false
		names = append(names, keys[i].Col)
	}
	ok := true
	if rapid.IntRange(0, 6).Draw(h.t, "badKey") == 0 {
		_, n, _ := h.anyCol()
		if h.m.colIndex(n) < 0 || !isKeyType(h.m.Cols[h.m.colIndex(n)].Type) {
			at := rapid.IntRange(0, len(names)).Draw(h.t, "badAt")
			names = append(append(append([]string{}, names[:at]...), n), names[at:]...)
			ok = false
		}
	}
	h.step("SetSortKeys(%q)", names)
	h.expect(h.tb.SetSortKeys(names...), ok, func() { h.keys = keys })
}

func histSort(h *hist) {
	h.step("Sort")
	err := h.tb.Sort()
	h.expect(err, len(h.keys) > 0, func() {
		after := read(h.t, h.tb)
		checkSorted(h.t, h.m, after, h.keys, "Sort")
		if len(after.Rows) > 0 {
			row := after.Rows[rapid.IntRange(0, len(after.Rows)-1).Draw(h.t, "probe")]
			checkSearch(h.t, h.tb, after, h.keys, keyVals(after, h.keys, row))
		}
		h.m.Rows = after.Rows
	})
}

// other: a table that shares some column names (often with their types) with the table under test.
func (h *hist) other() *MT {
	m := &MT{Name: "other"}
	match := rapid.IntRange(0, 3).Draw(h.t, "match") > 0
	for _, n := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a", "b", "c", "d", "E", "f_1", "_g"}), 0, 4, rapid.ID[string]).Draw(h.t, "otherCols") {
		typ := h.typ()
		i := h.m.colIndex(n)
		if i >= 0 && match {
			typ = h.m.Cols[i].Type
		}
		if i < 0 && match && rapid.IntRange(0, 2).Draw(h.t, "onlyShared") > 0 {
			continue
		}
		m.Cols = append(m.Cols, Col{n, typ})
	}
	if len(m.Cols) > 0 {
		for r := rapid.IntRange(0, 3).Draw(h.t, "otherRows"); r > 0; r-- {
			row := []any{}
			for _, c := range m.Cols {
				row = append(row, h.val(c.Type))
			}
			m.Rows = append(m.Rows, row)
		}
	}
	return m
}

func (h *hist) check() {
	h.t.Helper()
	what := "after " + strings.Join(h.log, "; ")
	sameTable(h.t, h.m, h.tb, what)
	if s, err := h.tb.IsStructShape(); err != nil || s != h.m.Struct {
		h.t.Fatalf("%s: IsStructShape = %v, %v", what, s, err)
	}
	sameKeys(h.t, h.keys, h.tb, what)
	validTable(h.t, h.tb, what)
	// What was answered before does not linger.
	for _, col := range h.m.Cols {
		if !slices.Contains(h.seen, col.Name) {
			h.seen = append(h.seen, col.Name)
		}
	}
	for _, name := range h.seen {
		want := slices.IndexFunc(h.m.Cols, func(col Col) bool { return col.Name == name })
		has, _ := h.tb.HasCol(name)
		if i, err := h.tb.ColIndex(name); i != want || (err == nil) != (want >= 0) || has != (want >= 0) {
			h.t.Fatalf("%s: column %q is number %d, %v, and HasCol is %v, expecting number %d", what, name, i, err, has, want)
		}
		if typ, err := h.tb.ColType(name); (err == nil) != (want >= 0) || want >= 0 && typ != h.m.Cols[want].Type {
			h.t.Fatalf("%s: column %q is of type %q, %v", what, name, typ, err)
		}
		if r := len(h.m.Rows) - 1; r >= 0 {
			if has, _ := h.tb.HasCell(name, r); has != (want >= 0) {
				h.t.Fatalf("%s: HasCell(%q, %d) is %v", what, name, r, has)
			}
		}
	}
}

func TestC11_history(t *testing.T) {
	runCheck(t, "1-40 operations (one in eight or so with invalid arguments) on a table starting empty or with random columns and rows, the whole table compared with the model after each; non-trivial = at least 5 operations that took effect, with rows and a column operation among them", 12000, 300000, func(t *rapid.T, c *Case) {
		h := &hist{t: t, c: c, m: &MT{Name: "history"}}
		if rapid.IntRange(0, 3).Draw(t, "startFilled") > 0 {
			for _, n := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a", "b", "c", "d", "E"}), 1, 5, rapid.ID[string]).Draw(t, "startCols") {
				h.m.Cols = append(h.m.Cols, Col{n, h.typ()})
			}
			if oneIn(t, 10, "startWide") {
				for i := rapid.IntRange(8, 40).Draw(t, "more"); i > 0; i-- {
					h.m.Cols = append(h.m.Cols, Col{fmt.Sprintf("w%d", i), h.typ()})
				}
			}
			for r := rapid.IntRange(0, 6).Draw(t, "startRows"); r > 0; r-- {
				row := []any{}
				for _, col := range h.m.Cols {
					row = append(row, h.val(col.Type))
				}
				h.m.Rows = append(h.m.Rows, row)
			}
			if oneIn(t, 40, "startTall") {
				maybeTall(t, h.m, 1, 700)
			} else {
				maybeTall(t, h.m, 12, 30)
			}
		}
		h.step("start %s", h.m)
		h.tb = h.start()
		sawRows := h.run(rapid.IntRange(1, 40).Draw(t, "steps"))
		c.NonTrivial(h.ok >= 5 && sawRows && h.cols > 0)
		c.ClassIf(h.bad > 0, "some operation refused")
	})
}

// start builds the table, at times from slices of names and types that change afterwards.
func (h *hist) start() *gotables.Table {
	if !oneIn(h.t, 3, "metadata") {
		return build(h.t, h.m)
	}
	h.c.Class("NewTableFromMetadata")
	names, types := make([]string, 0, 50), make([]string, 0, 50)
	for _, c := range h.m.Cols {
		names, types = append(names, c.Name), append(types, c.Type)
	}
	tb, err := gotables.NewTableFromMetadata(h.m.Name, names, types)
	must(h.t, err, "NewTableFromMetadata(%q,%q,%q)", h.m.Name, names, types)
	twin, err := gotables.NewTableFromMetadata("twin", names, types)
	must(h.t, err, "NewTableFromMetadata(%q,%q,%q)", "twin", names, types)
	for r := range h.m.Rows {
		must(h.t, tb.AppendRow(), "AppendRow")
		for i := range h.m.Cols {
			must(h.t, tb.SetValByColIndex(i, r, asCell(h.t, h.m.Rows[r][i])), "SetValByColIndex")
		}
	}
	if len(names) > 0 {
		must(h.t, twin.RenameColByColIndex(0, "renamed_twin"), "RenameColByColIndex")
		must(h.t, twin.AppendCol("more_of_twin", "bool"), "AppendCol")
		must(h.t, twin.DeleteColByColIndex(0), "DeleteColByColIndex")
	}
	for i, c := range h.m.Cols {
		if names[i] != c.Name || types[i] != c.Type {
			h.t.Fatalf("a table changed the slices it was made from: %q %q, were %v", names, types, h.m.Cols)
		}
		names[i], types[i] = "scribbled", "string"
	}
	sameTable(h.t, h.m, tb, "made by NewTableFromMetadata")
	return tb
}

// run performs n random operations, comparing with the model after each.
func (h *hist) run(n int) (sawRows bool) {
	for i := 0; i < n; i++ {
		op := histOps[rapid.IntRange(0, len(histOps)-1).Draw(h.t, "op")]
		before := len(h.log)
		op.do(h)
		if len(h.log) > before {
			h.c.Class(op.name)
			h.check()
		}
		sawRows = sawRows || len(h.m.Rows) > 1
		if len(h.m.Rows) > 40 {
			break
		}
	}
	return
}
