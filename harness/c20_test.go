package gtverif

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"io"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C20 CSV.

// readCSV is a strict RFC 4180 reader which keeps line ends within fields as they are. An empty line is no record.
func readCSV(s string) (recs [][]string, err error) {
	i := 0
	for i < len(s) {
		if s[i] == '\n' {
			i++
			continue
		}
		var rec []string
		for {
			var f strings.Builder
			if i < len(s) && s[i] == '"' {
				i++
				for {
					if i >= len(s) {
						return nil, fmt.Errorf("quoted field without an end")
					}
					if s[i] == '"' {
						if i+1 < len(s) && s[i+1] == '"' {
							f.WriteByte('"')
							i += 2
							continue
						}
						i++
						break
					}
					f.WriteByte(s[i])
					i++
				}
				if i < len(s) && s[i] != ',' && s[i] != '\n' && s[i] != '\r' {
					return nil, fmt.Errorf("text after the end of a quoted field")
				}
			} else {
				for i < len(s) && s[i] != ',' && s[i] != '\n' {
					if s[i] == '"' || s[i] == '\r' {
						return nil, fmt.Errorf("bare %q in a field", s[i])
					}
					f.WriteByte(s[i])
					i++
				}
			}
			rec = append(rec, f.String())
			if i < len(s) && s[i] == ',' {
				i++
				continue
			}
			break
		}
		if i < len(s) && s[i] == '\r' {
			i++
		}
		if i >= len(s) || s[i] != '\n' {
			return nil, fmt.Errorf("a record without a line end")
		}
		i++
		recs = append(recs, rec)
	}
	return recs, nil
}

// csvCell: does the field denote the cell's value? "" or what is wrong.
func csvCell(typ string, v any, field string) string {
	var got any
	var err error
	switch typ {
	case "string":
		got = field
	case "bool":
		switch field {
		case "true":
			got = true
		case "false":
			got = false
		}
	case "float32":
		if field == "" {
			got = nanOf(typ)
		} else {
			var f float64
			f, err = strconv.ParseFloat(field, 32)
			got = float32(f)
			if x := v.(float32); x != x {
				return "NaN is not an empty field"
			}
		}
	case "float64":
		if field == "" {
			got = nanOf(typ)
		} else {
			got, err = strconv.ParseFloat(field, 64)
			if x := v.(float64); x != x {
				return "NaN is not an empty field"
			}
		}
	case "rune":
		if r := []rune(field); len(r) == 1 && string(r) == field {
			got = r[0]
		}
	case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte":
		if field == fmt.Sprintf("%d", v) {
			got = v
		}
	case "[]byte", "[]uint8":
		b := []byte{}
		if len(field) < 2 || field[0] != '[' || field[len(field)-1] != ']' {
			return "not in brackets"
		}
		for _, w := range strings.Fields(field[1 : len(field)-1]) {
			n, e := strconv.ParseUint(w, 10, 8)
			if e != nil {
				err = e
			}
			b = append(b, byte(n))
		}
		got = b
	case "time.Time":
		got, err = time.Parse(time.RFC3339Nano, field)
	case "*Table":
		m := v.(*MT)
		if field == "["+m.Name+"]" {
			got = v
		}
	}
	if err != nil {
		return err.Error()
	}
	if !valEq(v, got) {
		return fmt.Sprintf("denotes %s", fmtVal(got))
	}
	return ""
}

func TestC20_csv(t *testing.T) {
	runCheck(t, "a table of 1-6 columns of any types and 0-8 rows with awkward strings, and its own or substitute headings; non-trivial = at least 1 row with a field which needs quotes, or an empty one", 12000, 300000, func(t *rapid.T, c *Case) {
		m := genTable(tableOpts{types: allTypes, minCols: 1, maxCols: 6, maxRows: 8, val: valOpts{nan: true, inf: true, anyUTF8: true, named: true}}).Draw(t, "table")
		if rapid.IntRange(0, 3).Draw(t, "single") == 0 && len(m.Cols) > 1 {
			m = permuteCols(m, []int{0})
		}
		tb := build(t, m)
		var heads []string
		want := colNames(m)
		if rapid.Bool().Draw(t, "substitute") {
			for i := range m.Cols {
				h := ""
				if rapid.Bool().Draw(t, "subst") {
					h = genStringAny().Draw(t, "heading")
				}
				heads = append(heads, h)
				if h != "" {
					want[i] = h
				}
			}
			c.Class("substitute headings")
		}
		c.Key("%s headings %q", m, heads)
		s, err := tb.GetTableAsCSV(heads...)
		must(t, err, "GetTableAsCSV")
		sameTable(t, m, tb, "the table after GetTableAsCSV")
		recs, err := readCSV(s)
		must(t, err, "reading CSV %q", s)
		if len(recs) != len(m.Rows)+1 {
			t.Fatalf("%d records, want a heading and %d rows: %q", len(recs), len(m.Rows), s)
		}
		if fmt.Sprintf("%q", recs[0]) != fmt.Sprintf("%q", want) {
			t.Fatalf("headings %q, want %q", recs[0], want)
		}
		for r, row := range m.Rows {
			if len(recs[r+1]) != len(row) {
				t.Fatalf("row %d has %d fields, want %d: %q", r, len(recs[r+1]), len(row), s)
			}
			for i, v := range row {
				f := recs[r+1][i]
				if d := csvCell(m.Cols[i].Type, v, f); d != "" {
					t.Fatalf("cell (%d,%s %s) is %s but its field %q %s", r, m.Cols[i].Name, m.Cols[i].Type, fmtVal(v), f, d)
				}
				c.NonTrivial(f == "" || strings.ContainsAny(f, "\",\r\n"))
				c.ClassIf(f == "", "empty field")
				c.ClassIf(strings.Contains(f, "\""), "quote in field")
				c.ClassIf(strings.Contains(f, "\n"), "line end in field")
			}
		}
		c.ClassIf(len(m.Cols) == 1, "one column")
		// The standard library's reader sees the same (it reads a \r\n within a field as \n).
		rd := csv.NewReader(strings.NewReader(s))
		for i := 0; ; i++ {
			rec, err := rd.Read()
			if err == io.EOF {
				if i != len(recs) {
					t.Fatalf("encoding/csv reads %d records, want %d: %q", i, len(recs), s)
				}
				break
			}
			must(t, err, "encoding/csv reading %q", s)
			for j := range rec {
				if i < len(recs) && rec[j] != strings.ReplaceAll(recs[i][j], "\r\n", "\n") {
					t.Fatalf("encoding/csv reads record %d as %q, want %q", i, rec, recs[i])
				}
			}
		}
	})
}

func TestC20_cannot(t *testing.T) {
	runCheck(t, "a table (or nil, or a nil table) and a wrong number of substitute headings; non-trivial = a named table with rows", 2000, 40000, func(t *rapid.T, c *Case) {
		m := rowsTable(t, 1)
		n := rapid.IntRange(1, len(m.Cols)+3).Draw(t, "n")
		var tb *gotables.Table
		kind := rapid.IntRange(0, 5).Draw(t, "kind")
		switch kind {
		case 0:
		case 1:
			tb = gotables.NewNilTable()
		default:
			if n == len(m.Cols) {
				n++
			}
			tb = build(t, m)
		}
		c.Key("%s kind %d headings %d", m, kind, n)
		c.NonTrivial(kind > 1 && len(m.Rows) > 0)
		heads := make([]string, n)
		for i := range heads {
			heads[i] = fmt.Sprintf("h%d", i)
		}
		if kind < 2 && rapid.Bool().Draw(t, "none") {
			heads = nil
		}
		var s string
		var err error
		if p := try(func() { s, err = tb.GetTableAsCSV(heads...) }); p != "" {
			t.Fatalf("GetTableAsCSV: %s", p)
		}
		if err == nil || s != "" {
			t.Fatalf("GetTableAsCSV with %d headings for %d columns gave %q, %v", n, len(m.Cols), s, err)
		}
		if kind > 1 {
			sameTable(t, m, tb, "the table after GetTableAsCSV failed")
		}
	})
}

var _ = bytes.Equal
