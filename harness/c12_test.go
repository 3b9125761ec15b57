package gtverif

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C12: typed and untyped cell access.

// accessors: the method-name part of each typed accessor and the column type it serves.
var accessors = []struct{ method, typ string }{
	{"Bool", "bool"}, {"Byte", "byte"}, {"ByteSlice", "[]byte"}, {"Float32", "float32"}, {"Float64", "float64"},
	{"Int", "int"}, {"Int16", "int16"}, {"Int32", "int32"}, {"Int64", "int64"}, {"Int8", "int8"}, {"Rune", "rune"},
	{"String", "string"}, {"Table", "*Table"}, {"Time", "time.Time"}, {"Uint", "uint"}, {"Uint16", "uint16"},
	{"Uint32", "uint32"}, {"Uint64", "uint64"}, {"Uint8", "uint8"}, {"Uint8Slice", "[]uint8"},
}

func accessVal(typ string) *rapid.Generator[any] {
	return genVal(typ, valOpts{nan: true, inf: true, anyUTF8: true, named: true})
}

// asCell turns a model value into the Go value a caller would pass.
func asCell(t fataler, v any) any {
	if m, ok := v.(*MT); ok {
		return build(t, m)
	}
	return v
}

func sameCell(t fataler, want, got any) bool {
	if m, ok := want.(*MT); ok {
		gt, ok := got.(*gotables.Table)
		if !ok || gt == nil {
			return false
		}
		return valEq(m, read(t, gt))
	}
	return valEq(want, got)
}

// callM calls a method by name; a panic comes back as text.
func callM(tb *gotables.Table, method string, args ...any) (out []any, panicked string) {
	m := reflect.ValueOf(tb).MethodByName(method)
	if !m.IsValid() {
		panic("no method " + method)
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	panicked = try(func() {
		for _, v := range m.Call(in) {
			out = append(out, v.Interface())
		}
	})
	return
}

func errOf(out []any) error {
	if len(out) == 0 {
		return nil
	}
	if e, ok := out[len(out)-1].(error); ok {
		return e
	}
	return nil
}

// drawTable: a table that has at least one column, with columns of many types.
func drawAccessTable(t *rapid.T) *MT {
	o := tableOpts{types: allTypes, minCols: 1, maxCols: 6, minRows: 0, maxRows: 4, val: valOpts{nan: true, inf: true, anyUTF8: true, named: true}}
	return genTable(o).Draw(t, "table")
}

type position struct {
	col, row     int
	name         string
	colOK, rowOK bool
}

func drawPosition(t *rapid.T, m *MT, typ string) position {
	var p position
	p.colOK = rapid.IntRange(0, 7).Draw(t, "colOK") > 0
	p.rowOK = len(m.Rows) > 0 && rapid.IntRange(0, 7).Draw(t, "rowOK") > 0
	if p.colOK {
		// Half of the time prefer a column of the accessor's own type.
		var same []int
		for i, c := range m.Cols {
			if canonType(c.Type) == canonType(typ) {
				same = append(same, i)
			}
		}
		if len(same) > 0 && rapid.IntRange(0, 3).Draw(t, "preferSame") > 0 {
			p.col = rapid.SampledFrom(same).Draw(t, "col")
		} else {
			p.col = rapid.IntRange(0, len(m.Cols)-1).Draw(t, "col")
		}
		p.name = m.Cols[p.col].Name
	} else {
		p.col = rapid.SampledFrom([]int{-1, len(m.Cols), len(m.Cols) + 1, -1 << 62, 1 << 62}).Draw(t, "badCol")
		p.name = rapid.SampledFrom([]string{"", "no_such_col", " ", "int", m.Cols[0].Name + "x"}).Draw(t, "badName")
		if m.colIndex(p.name) >= 0 {
			p.name = "absent_column_name"
		}
	}
	if p.rowOK {
		p.row = rapid.IntRange(0, len(m.Rows)-1).Draw(t, "row")
	} else {
		p.row = rapid.SampledFrom([]int{-1, len(m.Rows), len(m.Rows) + 1, -1 << 62, 1 << 62}).Draw(t, "badRow")
	}
	return p
}

const accessRule = "a random table, an accessor, a position (one in eight columns or rows invalid) and a value; non-trivial = valid position"

// drawTypedTable: the table to access has a column of typ in most cases.
func drawTypedTable(t *rapid.T, typ string) *MT {
	m := drawAccessTable(t)
	if rapid.IntRange(0, 3).Draw(t, "withType") > 0 {
		i := rapid.IntRange(0, len(m.Cols)-1).Draw(t, "typedCol")
		m.Cols[i].Type = typ
		for r := range m.Rows {
			m.Rows[r][i] = accessVal(typ).Draw(t, "typedVal")
		}
	}
	return m
}

func TestC12_typed(t *testing.T) {
	runCheck(t, accessRule, 60000, 1500000, func(t *rapid.T, c *Case) {
		acc := rapid.SampledFrom(accessors).Draw(t, "accessor")
		m := drawTypedTable(t, acc.typ)
		p := drawPosition(t, m, acc.typ)
		v := accessVal(acc.typ).Draw(t, "val")
		byIndex := rapid.Bool().Draw(t, "byIndex")
		mustForm := rapid.Bool().Draw(t, "must")
		c.Key("%s set %s at (%d %q,%d) byIndex=%v must=%v val=%s", m, acc.method, p.col, p.name, p.row, byIndex, mustForm, fmtVal(v))
		c.Class("accessor " + acc.method)
		tb := build(t, m)
		posOK := p.colOK && p.rowOK
		ok := posOK && canonType(m.Cols[p.col].Type) == canonType(acc.typ)
		c.NonTrivial(posOK)
		c.ClassIf(ok, "accepted")
		c.ClassIf(posOK && !ok, "wrong type")

		suffix, where := "", any(p.name)
		if byIndex {
			suffix, where = "ByColIndex", p.col
		}
		must1, must2 := "", ""
		if mustForm {
			must1, must2 = "MustSet", "MustGet"
		}
		cell := asCell(t, v)
		out, pan := callM(tb, "Set"+acc.method+suffix+must1, where, p.row, cell)
		if mustForm {
			if (pan == "") != ok {
				t.Fatalf("Set%s%s%s: panic %q, should succeed: %v", acc.method, suffix, must1, pan, ok)
			}
		} else if pan != "" {
			t.Fatalf("Set%s%s panicked: %s", acc.method, suffix, pan)
		} else if (errOf(out) == nil) != ok {
			t.Fatalf("Set%s%s: error %v, should succeed: %v", acc.method, suffix, errOf(out), ok)
		}
		want := m.clone()
		if ok {
			want.Rows[p.row][p.col] = v
		}
		sameTable(t, want, tb, "after Set"+acc.method)

		// Every way of getting it back.
		for _, g := range accessors {
			gOK := posOK && canonType(m.Cols[p.col].Type) == canonType(g.typ)
			for _, suffix := range []string{"", "ByColIndex"} {
				where := any(p.name)
				if suffix != "" {
					where = p.col
				}
				out, pan := callM(tb, "Get"+g.method+suffix+must2, where, p.row)
				gotOK := pan == "" && errOf(out) == nil
				if !mustForm && pan != "" {
					t.Fatalf("Get%s%s panicked: %s", g.method, suffix, pan)
				}
				if gotOK != gOK {
					t.Fatalf("Get%s%s%s(%v,%d): %v %s, should succeed: %v", g.method, suffix, must2, where, p.row, errOf(out), pan, gOK)
				}
				if gOK && !sameCell(t, want.Rows[p.row][p.col], out[0]) {
					t.Fatalf("Get%s%s(%v,%d) = %v, want %s", g.method, suffix, where, p.row, out[0], fmtVal(want.Rows[p.row][p.col]))
				}
			}
		}
		sameTable(t, want, tb, "after gets")
	})
}

func TestC12_untyped(t *testing.T) {
	runCheck(t, accessRule+"; SetVal and GetVal families, values of every Go type and some no column can hold", 40000, 1000000, func(t *rapid.T, c *Case) {
		acc := rapid.SampledFrom(accessors).Draw(t, "accessor")
		m := drawTypedTable(t, acc.typ)
		p := drawPosition(t, m, acc.typ)
		var v any
		foreign := rapid.IntRange(0, 9).Draw(t, "foreign") == 0
		if foreign {
			n := 1
			v = rapid.SampledFrom([]any{nil, (*gotables.Table)(nil), complex(1, 2), &n, []int{1}, struct{}{}, [2]byte{1, 2}, time.Second, time.UTC, gotables.Table{}, fmt.Errorf("x"), []string{"a"}, uintptr(3), map[string]int{}}).Draw(t, "foreignVal")
		} else {
			v = accessVal(acc.typ).Draw(t, "val")
		}
		byIndex := rapid.Bool().Draw(t, "byIndex")
		c.Key("%s set %s at (%d %q,%d) byIndex=%v val=%T", m, acc.method, p.col, p.name, p.row, byIndex, v)
		posOK := p.colOK && p.rowOK
		ok := posOK && !foreign && canonType(m.Cols[p.col].Type) == canonType(acc.typ)
		c.NonTrivial(posOK)
		c.ClassIf(ok, "accepted")
		c.ClassIf(foreign, "foreign value")
		tb := build(t, m)
		var err error
		var cell any = v
		if !foreign {
			cell = asCell(t, v)
		}
		pan := try(func() {
			if byIndex {
				err = tb.SetValByColIndex(p.col, p.row, cell)
			} else {
				err = tb.SetVal(p.name, p.row, cell)
			}
		})
		if pan != "" {
			t.Fatalf("SetVal %s", pan)
		}
		if (err == nil) != ok {
			t.Fatalf("SetVal of %T into %v: error %v, should succeed: %v", v, p, err, ok)
		}
		want := m.clone()
		if ok {
			want.Rows[p.row][p.col] = v
		}
		sameTable(t, want, tb, "after SetVal")

		// Gets, existence checks and zeroing at the same position.
		check := func(what string, got any, err error, pan string) {
			t.Helper()
			if (err == nil && pan == "") != posOK {
				t.Fatalf("%s at %+v: %v %s, should succeed: %v", what, p, err, pan, posOK)
			}
			if posOK && !sameCell(t, want.Rows[p.row][p.col], got) {
				t.Fatalf("%s at %+v = %v, want %s", what, p, got, fmtVal(want.Rows[p.row][p.col]))
			}
		}
		got, err := tb.GetVal(p.name, p.row)
		check("GetVal", got, err, "")
		got, err = tb.GetValByColIndex(p.col, p.row)
		check("GetValByColIndex", got, err, "")
		pan = try(func() { got = tb.GetValMustGet(p.name, p.row) })
		check("GetValMustGet", got, nil, pan)
		pan = try(func() { got = tb.GetValByColIndexMustGet(p.col, p.row) })
		check("GetValByColIndexMustGet", got, nil, pan)
		has := func(what string, has bool, err error, want bool) {
			t.Helper()
			if has != want || (err == nil) != want {
				t.Fatalf("%s at %+v = %v, %v; want %v", what, p, has, err, want)
			}
		}
		b, err := tb.HasCell(p.name, p.row)
		has("HasCell", b, err, posOK)
		b, err = tb.HasCellByColIndex(p.col, p.row)
		has("HasCellByColIndex", b, err, posOK)
		b, err = tb.HasCol(p.name)
		has("HasCol", b, err, p.colOK)
		b, err = tb.HasColByColIndex(p.col)
		has("HasColByColIndex", b, err, p.colOK)
		b, err = tb.HasRow(p.row)
		has("HasRow", b, err, p.rowOK)
		for _, a := range accessors {
			b, err = tb.IsColType(p.name, a.typ)
			if wantIs := p.colOK && m.Cols[p.col].Type == a.typ; b != wantIs || (err == nil) != p.colOK {
				t.Fatalf("IsColType(%q,%q) = %v, %v", p.name, a.typ, b, err)
			}
			b, err = tb.IsColTypeByColIndex(p.col, a.typ)
			if wantIs := p.colOK && m.Cols[p.col].Type == a.typ; b != wantIs || (err == nil) != p.colOK {
				t.Fatalf("IsColTypeByColIndex(%d,%q) = %v, %v", p.col, a.typ, b, err)
			}
		}
		sameTable(t, want, tb, "after looking")
	})
}

// Setting to the zero value, and floats to NaN: cell, row, column, all.
func TestC12_reset(t *testing.T) {
	runCheck(t, accessRule+"; the operations that reset a cell, row, column or all cells", 40000, 1000000, func(t *rapid.T, c *Case) {
		acc := rapid.SampledFrom(accessors).Draw(t, "accessor")
		m := drawTypedTable(t, acc.typ)
		p := drawPosition(t, m, acc.typ)
		op := rapid.SampledFrom([]string{"cellZero", "cellZeroIdx", "rowZero", "colZero", "colZeroIdx", "cellNaN", "cellNaNIdx", "rowNaN", "colNaN", "colNaNIdx", "allNaN"}).Draw(t, "op")
		c.Key("%s %s at (%d %q,%d)", m, op, p.col, p.name, p.row)
		c.Class(op)
		tb := build(t, m)
		want := m.clone()
		isF := func(col int) bool { return m.Cols[col].Type == "float32" || m.Cols[col].Type == "float64" }
		zero := func(col, row int) { want.Rows[row][col] = zeroOf(m.Cols[col].Type) }
		nan := func(col, row int) {
			if isF(col) {
				want.Rows[row][col] = nanOf(m.Cols[col].Type)
			}
		}
		posOK := p.colOK && p.rowOK
		var ok bool
		var err error
		pan := try(func() {
			switch op {
			case "cellZero":
				ok, err = posOK, tb.SetCellToZeroValue(p.name, p.row)
				if ok {
					zero(p.col, p.row)
				}
			case "cellZeroIdx":
				ok, err = posOK, tb.SetCellToZeroValueByColIndex(p.col, p.row)
				if ok {
					zero(p.col, p.row)
				}
			case "rowZero":
				ok, err = p.rowOK, tb.SetRowCellsToZeroValue(p.row)
				if ok {
					for i := range m.Cols {
						zero(i, p.row)
					}
				}
			case "colZero", "colZeroIdx":
				ok = p.colOK
				if op == "colZero" {
					err = tb.SetColCellsToZeroValue(p.name)
				} else {
					err = tb.SetColCellsToZeroValueByColIndex(p.col)
				}
				if ok {
					for r := range m.Rows {
						zero(p.col, r)
					}
				}
			case "cellNaN", "cellNaNIdx":
				ok = posOK && isF(p.col)
				if op == "cellNaN" {
					err = tb.SetFloatCellToNaN(p.name, p.row)
				} else {
					err = tb.SetFloatCellToNaNByColIndex(p.col, p.row)
				}
				if ok {
					nan(p.col, p.row)
				}
			case "rowNaN":
				ok, err = p.rowOK, tb.SetRowFloatCellsToNaN(p.row)
				if ok {
					for i := range m.Cols {
						nan(i, p.row)
					}
				}
			case "colNaN", "colNaNIdx":
				ok = p.colOK && isF(p.col)
				if op == "colNaN" {
					err = tb.SetColFloatCellsToNaN(p.name)
				} else {
					err = tb.SetColFloatCellsToNaNByColIndex(p.col)
				}
				if ok {
					for r := range m.Rows {
						nan(p.col, r)
					}
				}
			case "allNaN":
				ok, err = true, tb.SetAllFloatCellsToNaN()
				for r := range m.Rows {
					for i := range m.Cols {
						nan(i, r)
					}
				}
			}
		})
		if pan != "" {
			t.Fatalf("%s at %+v: %s", op, p, pan)
		}
		c.NonTrivial(ok && len(m.Rows) > 0)
		if (err == nil) != ok {
			t.Fatalf("%s at %+v: error %v, should succeed: %v", op, p, err, ok)
		}
		sameTable(t, want, tb, "after "+op)
	})
}
