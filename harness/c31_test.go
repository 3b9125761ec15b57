package gtverif

import (
	"math"
	"slices"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C31: what written tables look like.

// cellAt is a cell of a line of text: where it starts and ends, in characters.
type cellAt struct {
	text       string
	start, end int
}

// cellsOf finds the cells of a line.
func cellsOf(line string) (cells []cellAt) {
	rs := []rune(line)
	for i := 0; i < len(rs); {
		if rs[i] == ' ' {
			i++
			continue
		}
		from := i
		var end rune
		switch rs[i] {
		case '"', '\'':
			end = rs[i]
		case '[':
			if i+1 < len(rs) {
				end = ']'
			}
		}
		i++
		for i < len(rs) {
			if end == 0 && rs[i] == ' ' {
				break
			}
			if rs[i] == '\\' && end != ']' && end != 0 {
				i++
			} else if rs[i] == end && end != 0 {
				i++
				break
			}
			i++
		}
		for i < len(rs) && rs[i] != ' ' { // []byte
			i++
		}
		i = min(i, len(rs))
		cells = append(cells, cellAt{string(rs[from:i]), from, i})
	}
	return
}

func isFloatType(typ string) bool { return typ == "float32" || typ == "float64" }

func isWholeType(typ string) bool {
	return strings.HasPrefix(typ, "int") || strings.HasPrefix(typ, "uint") || typ == "byte"
}

// samePaddedCell: the cell of padded text is that of unpadded text, but for zeros at the end of a fraction.
func samePaddedCell(typ, padded, unpadded string) bool {
	if padded == unpadded {
		return true
	}
	trim := func(s string) string {
		if strings.Contains(s, ".") {
			s = strings.TrimSuffix(strings.TrimRight(s, "0"), ".")
		}
		return s
	}
	return isFloatType(typ) && strings.Contains(padded, ".") && trim(padded) == trim(unpadded)
}

func wantStruct(m *MT) bool { return m.Struct && len(m.Rows) <= 1 }

// looksRight checks padded and unpadded text of a table.
func looksRight(t fataler, m *MT, padded, unpadded string) {
	for _, s := range []string{padded, unpadded} {
		if !strings.HasSuffix(s, "\n") || strings.Contains(s, "\n\n") {
			t.Fatalf("text of %s does not end with one end of line: %q", m, s)
		}
	}
	lines, plain := strings.Split(strings.TrimSuffix(padded, "\n"), "\n"), strings.Split(strings.TrimSuffix(unpadded, "\n"), "\n")
	name := "[" + m.Name + "]"
	if lines[0] != name || plain[0] != name {
		t.Fatalf("text of [%s] starts %q padded, %q unpadded", m.Name, lines[0], plain[0])
	}
	for i, l := range append(append([]string{}, lines...), plain...) {
		if strings.TrimRight(l, " \t\r") != l {
			t.Fatalf("line %d of the text of %s ends in white space: %q", i%len(lines)+1, m, l)
		}
	}
	if wantStruct(m) {
		if padded != unpadded || len(lines) != 1+len(m.Cols) {
			t.Fatalf("text of struct %s: %q padded, %q unpadded", m, padded, unpadded)
		}
		for i, col := range m.Cols {
			want := col.Name + " " + col.Type
			if l := lines[i+1]; l != want && len(m.Rows) == 0 || len(m.Rows) > 0 && !strings.HasPrefix(l, want+" = ") {
				t.Fatalf("line %d of struct %s: %q", i+1, m, l)
			}
		}
		return
	}
	wantLines := 3 + len(m.Rows)
	if len(m.Cols) == 0 {
		wantLines = 1
	}
	if len(lines) != wantLines || len(plain) != wantLines {
		t.Fatalf("text of %s has %d lines padded and %d unpadded, expecting %d\n%s\n%s", m, len(lines), len(plain), wantLines, padded, unpadded)
	}
	if len(m.Cols) == 0 {
		return
	}
	var grid [][]cellAt
	for i := 1; i < wantLines; i++ {
		cells, bare := cellsOf(lines[i]), cellsOf(plain[i])
		if len(cells) != len(m.Cols) || len(bare) != len(m.Cols) {
			t.Fatalf("line %d of the text of %s has %d cells padded and %d unpadded\n%q\n%q", i+1, m, len(cells), len(bare), lines[i], plain[i])
		}
		for c, col := range m.Cols {
			typ := col.Type
			if i < 3 {
				typ = "string"
			}
			if !samePaddedCell(typ, cells[c].text, bare[c].text) {
				t.Fatalf("line %d of the text of %s: %q padded, %q unpadded", i+1, m, cells[c].text, bare[c].text)
			}
			if c > 0 && (bare[c].start != bare[c-1].end+1 || bare[c-1].start > bare[c].start) || c == 0 && bare[c].start != 0 {
				t.Fatalf("line %d of the unpadded text of %s is not separated by single spaces: %q", i+1, m, plain[i])
			}
		}
		grid = append(grid, cells)
	}
	right := -1 // the right edge of the column before
	for c, col := range m.Cols {
		left, edge := math.MaxInt, 0
		for _, row := range grid {
			left, edge = min(left, row[c].start), max(edge, row[c].end)
		}
		if left <= right {
			t.Fatalf("column %s of %s starts before the one before it ends\n%s", col.Name, m, padded)
		}
		point := -1
		for r, row := range grid {
			x := row[c]
			dot := -1
			if isFloatType(col.Type) && r >= 2 {
				dot = strings.IndexByte(x.text, '.')
			}
			switch {
			case dot >= 0:
				if point >= 0 && point != x.start+dot {
					t.Fatalf("the points of column %s of %s are not under each other\n%s", col.Name, m, padded)
				}
				point = x.start + dot
			case isFloatType(col.Type) && r >= 2 && strings.Trim(x.text, "0123456789-") == "" && point >= 0:
				t.Fatalf("cell %q of column %s of %s has no point, others have\n%s", x.text, col.Name, m, padded)
			case isFloatType(col.Type) || isWholeType(col.Type):
				if x.end != edge {
					t.Fatalf("cell %q of column %s of %s does not end at its right edge\n%s", x.text, col.Name, m, padded)
				}
			case x.start != left:
				t.Fatalf("cell %q of column %s of %s does not start at its left edge\n%s", x.text, col.Name, m, padded)
			}
		}
		right = edge
	}
}

func TestC31_table(t *testing.T) {
	runCheck(t, textRule+", tabular and struct shapes, near values in a column at times", 20000, 500000, func(t *rapid.T, c *Case) {
		o := textOpts()
		m := genTable(o).Draw(t, "table")
		if rapid.IntRange(0, 2).Draw(t, "numbers") == 0 { // Columns of floats of few digits.
			for i, col := range m.Cols {
				if !isFloatType(col.Type) {
					continue
				}
				for r := range m.Rows {
					s := rapid.SampledFrom([]string{"0", "1", "-1", "10", "1.5", "-2.25", "100.125", "0.001", "1000", "12345678.5", "NaN", "+Inf", "-Inf", "-0", "3e8"}).Draw(t, "number")
					f, _ := strconv.ParseFloat(s, 64)
					m.Rows[r][i] = f
					if col.Type == "float32" {
						m.Rows[r][i] = float32(f)
					}
				}
			}
		}
		if len(m.Rows) <= 1 || rapid.IntRange(0, 4).Draw(t, "tallStruct") == 0 {
			m.Struct = rapid.Bool().Draw(t, "struct")
		}
		c.Key("%s", m)
		c.NonTrivial(nontrivTable(m) && !wantStruct(m))
		classify(c, m)
		tb := build(t, m)
		if m.Struct {
			must(t, tb.SetStructShape(true), "SetStructShape")
		}
		looksRight(t, m, tb.StringPadded(), tb.StringUnpadded())
		if a, b := tb.String(), tb.StringPadded(); a != b {
			t.Fatalf("String and StringPadded of %s differ:\n%s\n%s", m, a, b)
		}
	})
}

func TestC31_set(t *testing.T) {
	runCheck(t, "sets of 0-4 tables (one in fifty has up to 44), named or not, tabular and struct shapes mixed; non-trivial = at least two tables", 8000, 200000, func(t *rapid.T, c *Case) {
		o := textOpts()
		o.maxCols, o.maxRows = 4, 3
		s := genSet(o, 0, 4, true).Draw(t, "set")
		c.Key("%s", s)
		c.NonTrivial(len(s.Tables) > 1)
		ts := buildSet(t, s)
		var padded, unpadded []string
		for i := range s.Tables {
			tb, err := ts.GetTableByTableIndex(i)
			must(t, err, "GetTableByTableIndex")
			padded, unpadded = append(padded, tb.StringPadded()), append(unpadded, tb.StringUnpadded())
		}
		head := ""
		if s.Name != "" {
			head = "[[" + s.Name + "]]\n\n"
		}
		for _, x := range []struct{ what, got, want string }{
			{"StringPadded", ts.StringPadded(), head + strings.Join(padded, "\n")},
			{"String", ts.String(), head + strings.Join(padded, "\n")},
			{"StringUnpadded", ts.StringUnpadded(), head + strings.Join(unpadded, "\n")},
		} {
			if x.got != x.want {
				t.Fatalf("%s of set %s:\n%q\nis not its name and the texts of its tables:\n%q", x.what, s, x.got, x.want)
			}
		}
	})
}

// The text of a nested table's cell is its name, at any depth, and lists of types line up too.
func TestC31_info(t *testing.T) {
	runCheck(t, "the tables of column information and of sort keys of random tables; non-trivial = at least two columns", 3000, 60000, func(t *rapid.T, c *Case) {
		m := genTable(textOpts()).Draw(t, "table")
		c.Key("%v", m.Cols)
		c.NonTrivial(len(m.Cols) > 1)
		tb := build(t, m)
		var keys []string
		for _, col := range m.Cols {
			if slices.Contains(keyTypes, col.Type) {
				keys = append(keys, col.Name)
			}
		}
		must(t, tb.SetSortKeys(keys...), "SetSortKeys")
		for _, f := range []func() (*gotables.Table, error){tb.GetColInfoAsTable, tb.GetSortKeysAsTable} {
			info, err := f()
			must(t, err, "information about %s", m)
			x := read(t, info)
			if n := utf8.RuneCountInString(info.String()); n < len(x.Name)+3 {
				t.Fatalf("text of the information about %s has %d characters", m, n)
			}
			looksRight(t, x, info.StringPadded(), info.StringUnpadded())
		}
	})
}
