package gtverif

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C02, C03, C04, C23: reading gotables text. The texts are written here, not by the library.

// litOf writes a value as a literal, in one of its spellings.
func litOf(t *rapid.T, typ string, v any) string {
	pick := func(s ...string) string { return s[rapid.IntRange(0, len(s)-1).Draw(t, "spelling")] }
	switch x := v.(type) {
	case string:
		return litString(t, x)
	case bool:
		return strconv.FormatBool(x)
	case []byte:
		p := make([]string, len(x))
		for i, b := range x {
			p[i] = uintSpelling(t, uint64(b))
		}
		return "[" + strings.Join(p, " ") + "]"
	case int:
		return intSpelling(t, int64(x))
	case int8:
		return intSpelling(t, int64(x))
	case int16:
		return intSpelling(t, int64(x))
	case int32:
		if typ == "rune" {
			return litRune(t, x)
		}
		return intSpelling(t, int64(x))
	case int64:
		return intSpelling(t, x)
	case uint:
		return uintSpelling(t, uint64(x))
	case uint8:
		return uintSpelling(t, uint64(x))
	case uint16:
		return uintSpelling(t, uint64(x))
	case uint32:
		return uintSpelling(t, uint64(x))
	case uint64:
		return uintSpelling(t, x)
	case float32:
		return floatSpelling(t, float64(x), 32)
	case float64:
		return floatSpelling(t, x, 64)
	case time.Time:
		if x.Nanosecond() == 0 {
			return x.Format(pick(time.RFC3339, time.RFC3339Nano, "2006-01-02T15:04:05.0Z07:00"))
		}
		return x.Format(pick(time.RFC3339Nano, "2006-01-02T15:04:05.000000000Z07:00"))
	case *MT:
		if x.Nil {
			return "[]"
		}
		return "[" + x.Name + "]"
	}
	panic(fmt.Sprintf("litOf %T", v))
}

func intSpelling(t *rapid.T, v int64) string {
	if v >= 0 && rapid.IntRange(0, 2).Draw(t, "asUint") == 0 {
		return uintSpelling(t, uint64(v))
	}
	s := strconv.FormatInt(v, 10)
	switch rapid.IntRange(0, 5).Draw(t, "spelling") {
	case 0:
		if v >= 0 {
			return "+" + s
		}
	case 1: // signed octal
		s = strconv.FormatInt(v, 8)
		if v < 0 {
			return "-0" + s[1:]
		}
		return "+0" + s
	}
	return s
}

func uintSpelling(t *rapid.T, v uint64) string {
	zeros := strings.Repeat("0", max(0, rapid.IntRange(-6, 3).Draw(t, "zeros")))
	switch rapid.IntRange(0, 11).Draw(t, "base") {
	case 0:
		return "0x" + zeros + strconv.FormatUint(v, 16)
	case 1:
		return "0X" + zeros + strings.ToUpper(strconv.FormatUint(v, 16))
	case 2:
		return "0b" + zeros + strconv.FormatUint(v, 2)
	case 3:
		return "0B" + zeros + strconv.FormatUint(v, 2)
	case 4:
		return "0o" + zeros + strconv.FormatUint(v, 8)
	case 5:
		return "0O" + zeros + strconv.FormatUint(v, 8)
	case 6:
		return "0" + zeros + strconv.FormatUint(v, 8)
	case 7:
		return "+" + strconv.FormatUint(v, 10)
	}
	return strconv.FormatUint(v, 10)
}

func floatSpelling(t *rapid.T, f float64, bits int) string {
	if math.IsNaN(f) {
		return "NaN"
	}
	if math.IsInf(f, 1) {
		return "+Inf"
	}
	if math.IsInf(f, -1) {
		return "-Inf"
	}
	var s string
	switch rapid.IntRange(0, 4).Draw(t, "spelling") {
	case 0:
		s = strconv.FormatFloat(f, 'e', -1, bits)
	case 1:
		s = strconv.FormatFloat(f, 'E', -1, bits)
	case 2:
		s = strconv.FormatFloat(f, 'f', -1, bits)
	case 3: // many digits
		s = strconv.FormatFloat(f, 'e', 25, bits)
	default:
		s = strconv.FormatFloat(f, 'g', -1, bits)
	}
	if f >= 0 && !strings.HasPrefix(s, "-") && rapid.IntRange(0, 5).Draw(t, "plus") == 0 {
		s = "+" + s
	}
	if !strings.ContainsAny(s, ".eE") {
		switch rapid.IntRange(0, 3).Draw(t, "point") {
		case 0:
			s += "."
		case 1:
			s += ".0"
		}
	} else if i := strings.Index(s, "0."); (i == 0 || (i == 1 && !('0' <= s[0] && s[0] <= '9'))) && rapid.IntRange(0, 3).Draw(t, "noZero") == 0 && len(s) > i+2 && s[i+2] >= '0' && s[i+2] <= '9' {
		s = s[:i] + s[i+1:]
	}
	return s
}

// escapeByte writes a byte in a string literal (never literally).
func escapeByte(t *rapid.T, b byte) string {
	if rapid.Bool().Draw(t, "octal") {
		return fmt.Sprintf(`\%03o`, b)
	}
	return fmt.Sprintf(`\x%02x`, b)
}

var namedEscapes = map[rune]string{7: `\a`, 8: `\b`, 12: `\f`, 10: `\n`, 13: `\r`, 9: `\t`, 11: `\v`, '\\': `\\`}

func escapeRune(t *rapid.T, r rune, quote rune) string {
	if r == quote {
		return `\` + string(quote)
	}
	if s, ok := namedEscapes[r]; ok && rapid.Bool().Draw(t, "named") {
		return s
	}
	if r > 0xffff || rapid.IntRange(0, 3).Draw(t, "long") == 0 {
		return fmt.Sprintf(`\U%08x`, r)
	}
	return fmt.Sprintf(`\u%04X`, r)
}

// litString writes a Go string literal in double quotes.
func litString(t *rapid.T, s string) string {
	if rapid.Bool().Draw(t, "quoted") {
		return strconv.Quote(s)
	}
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			b.WriteString(escapeByte(t, s[i]))
		case r == '"' || r == '\\' || r < ' ' || rapid.IntRange(0, 4).Draw(t, "escape") == 0:
			if r < 0x80 && r != '"' && r != '\\' && rapid.Bool().Draw(t, "asByte") {
				b.WriteString(escapeByte(t, byte(r)))
			} else {
				b.WriteString(escapeRune(t, r, '"'))
			}
		default:
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	b.WriteByte('"')
	return b.String()
}

// litRune writes a Go rune literal.
func litRune(t *rapid.T, r rune) string {
	switch k := rapid.IntRange(0, 3).Draw(t, "spelling"); {
	case k == 0:
		return strconv.QuoteRune(r)
	case k == 1 && r < 0x100:
		if rapid.Bool().Draw(t, "octal") {
			return fmt.Sprintf(`'\%03o'`, r)
		}
		return fmt.Sprintf(`'\x%02x'`, r)
	case k == 2 && r >= ' ' && r != '\'' && r != '\\' && r != 0x7f:
		return "'" + string(r) + "'"
	}
	return "'" + escapeRune(t, r, '\'') + "'"
}

// ---------------------------------------------------------------- documents

// tline is a line of a document: tokens, with what they are.
type tline struct {
	kind  string // set, name, names, types, row, struct, blank, comment
	table int
	toks  []string
}

type tdoc struct{ lines []tline }

// docOf writes the lines of a document that means the set. (The layout is decided by render.)
func docOf(t *rapid.T, s *MSet, structs, setFirst bool) *tdoc {
	d := &tdoc{}
	setAt := -1 // The name of the set may stand where the name of a table may.
	if s.Name != "" {
		setAt = 0
		if !setFirst {
			setAt = max(0, rapid.IntRange(-2, len(s.Tables)-1).Draw(t, "setAt"))
		}
		if len(s.Tables) == 0 {
			d.lines = append(d.lines, tline{"set", -1, []string{"[[" + s.Name + "]]"}})
		}
	}
	for i, m := range s.Tables {
		if i > 0 {
			d.lines = append(d.lines, tline{"blank", i, nil})
		}
		if i == setAt {
			d.lines = append(d.lines, tline{"set", -1, []string{"[[" + s.Name + "]]"}})
		}
		d.lines = append(d.lines, tline{"name", i, []string{"[" + m.Name + "]"}})
		if len(m.Cols) == 0 {
			continue
		}
		lits := make([][]string, len(m.Rows))
		for r := range m.Rows {
			for c := range m.Cols {
				lits[r] = append(lits[r], litOf(t, m.Cols[c].Type, m.Rows[r][c]))
			}
		}
		if structs && len(m.Rows) <= 1 && rapid.Bool().Draw(t, "asStruct") {
			for c := range m.Cols {
				toks := []string{m.Cols[c].Name, m.Cols[c].Type}
				if len(m.Rows) == 1 {
					toks = append(toks, "=", lits[0][c])
				}
				d.lines = append(d.lines, tline{"struct", i, toks})
			}
			continue
		}
		var names, types []string
		for _, c := range m.Cols {
			names, types = append(names, c.Name), append(types, c.Type)
		}
		d.lines = append(d.lines, tline{"names", i, names}, tline{"types", i, types})
		for r := range m.Rows {
			d.lines = append(d.lines, tline{"row", i, lits[r]})
		}
	}
	return d
}

// genWhite: spaces and tabs, at least min of them.
func genWhite(t *rapid.T, min int) string {
	return rapid.SampledFrom([]string{"", "", " ", " ", " ", "  ", "\t", "\t\t", " \t ", "        "}[2*min:]).Draw(t, "white")
}

// genEdge: white space of any kind at an end of a line.
func genEdge(t *rapid.T) string {
	if rapid.IntRange(0, 11).Draw(t, "oddWhite") == 0 {
		return rapid.SampledFrom([]string{"\f", "\v", " \f ", "\v\t", "\r"}).Draw(t, "edge")
	}
	return genWhite(t, 0)
}

var commentLines = []string{"#", "# a comment", "#[t]", "# [[x]]", "#\"", "##  a b c", "# int string", "#\t1 2 3", "# é 日本 \\n", "#=", "# x int = 1"}

// render lays the document out in a random way. lineOf gives the line number (from 1) of each of its lines.
func (d *tdoc) render(t *rapid.T) (s string, lineOf []int) {
	var b strings.Builder
	plain := rapid.IntRange(0, 4).Draw(t, "plainLayout") == 0
	crlf := !plain && rapid.IntRange(0, 3).Draw(t, "crlf") == 0
	n := 0
	end := func() {
		n++
		if crlf && rapid.IntRange(0, 5).Draw(t, "lf") > 0 {
			b.WriteString("\r\n")
		} else {
			b.WriteString("\n")
		}
	}
	extra := func(k int, what func()) {
		if plain {
			return
		}
		for i := max(0, rapid.IntRange(-4, k).Draw(t, "extraLines")); i > 0; i-- {
			what()
		}
	}
	blank := func() { b.WriteString(genEdge(t)); end() }
	comment := func() {
		b.WriteString(genEdge(t) + rapid.SampledFrom(commentLines).Draw(t, "comment"))
		end()
	}
	extra(2, blank)
	for i, l := range d.lines {
		extra(2, comment)
		lineOf = append(lineOf, n+1)
		if l.kind == "blank" {
			if plain {
				end()
			} else {
				blank()
			}
			extra(2, blank)
			continue
		}
		if plain {
			b.WriteString(strings.Join(l.toks, " "))
		} else {
			b.WriteString(genEdge(t))
			for j, tok := range l.toks {
				if j > 0 {
					b.WriteString(genWhite(t, 1))
				}
				b.WriteString(tok)
			}
			b.WriteString(genEdge(t))
		}
		if i == len(d.lines)-1 && rapid.IntRange(0, 3).Draw(t, "noFinalNewline") == 0 {
			return b.String(), lineOf
		}
		end()
		if l.kind == "set" {
			extra(2, blank)
		}
	}
	extra(2, comment)
	extra(2, blank)
	if !plain && rapid.IntRange(0, 5).Draw(t, "lastLine") == 0 { // Without its line end.
		b.WriteString(genEdge(t))
		if rapid.Bool().Draw(t, "lastComment") {
			b.WriteString(rapid.SampledFrom(commentLines).Draw(t, "comment"))
		}
	}
	return b.String(), lineOf
}

// genDocSet: sets of tables that text can carry (nested tables only as names).
func genDocSet(maxTables, maxCols, maxRows int) *rapid.Generator[*MSet] {
	o := textOpts()
	o.maxCols, o.maxRows = maxCols, maxRows
	return genSet(o, 0, maxTables, false)
}

func TestC02_layout(t *testing.T) {
	runCheck(t, "documents for generated sets of 0-3 tables, literals in random spellings, tabular or struct shape, random white space, blank lines, comments, line ends; non-trivial = at least one row of at least two cells", 40000, 800000, func(t *rapid.T, c *Case) {
		s := genDocSet(3, 5, 3).Draw(t, "set")
		d := docOf(t, s, true, false)
		text, _ := d.render(t)
		c.Key("%q", text)
		for _, m := range s.Tables {
			c.NonTrivial(len(m.Rows) > 0 && len(m.Cols) > 1)
		}
		for _, l := range d.lines {
			c.ClassIf(l.kind == "struct", "struct line")
		}
		c.ClassIf(strings.Contains(text, "\r\n"), "CRLF")
		c.ClassIf(strings.Contains(text, "#"), "comment")
		c.ClassIf(!strings.HasSuffix(text, "\n"), "no final newline")
		ts, err := gotables.NewTableSetFromString(text)
		must(t, err, "parsing %q", text)
		sameSet(t, s, ts, "layout")
		if ok, err := ts.IsValidTableSet(); !ok || err != nil {
			t.Fatalf("IsValidTableSet of what was parsed: %v, %v", ok, err)
		}
		// Another layout of the same document parses to the same.
		text2, _ := d.render(t)
		ts2, err := gotables.NewTableSetFromString(text2)
		must(t, err, "parsing %q", text2)
		if ts2.StringUnpadded() != ts.StringUnpadded() {
			t.Fatalf("two layouts of one document differ:\n%q gives\n%s\n%q gives\n%s", text, ts.StringUnpadded(), text2, ts2.StringUnpadded())
		}
	})
}

// badLiterals: for each type, texts that are not one of its literals and have no white space outside quotes.
func badLiteral(t *rapid.T, typ string) string {
	var no []string
	ints := []string{`"1"`, "'1'", "x", "true", "NaN", "-", "+", "1.5", "1e3", ".5", "0x", "0b", "0o", "0b2", "0o8", "08", "0xG", "1_000", "--1", "+-1", "1,2", "[1]", "[]", "[t]", "1L", "0x1.8p1", "1=", "=1", "1#", "١", "99999999999999999999999", "-99999999999999999999999", "2020-01-02T03:04:05Z", "1/2", "1:2", "(1)", "0x-1", "0b+1"}
	switch typ {
	case "string":
		no = []string{`x`, `1`, `'a'`, `"abc`, `abc"`, "`abc`", `"\q"`, `"\x1"`, `"\400"`, `"\ud800"`, `"\U00110000"`, `"a"b`, `"a""b"`, `"\'"`, `true`, `[]`, `[t]`, `""x`, `"`, `"\"`, `"a"'b'`, `“a”`, `nil`}
	case "bool":
		no = []string{"True", "TRUE", "1", "0", "t", "f", "yes", `"true"`, "truefalse", "true1", "falsey", "nil", "true,", "true.", "tru", "[]", "'t'", "!true"}
	case "[]byte", "[]uint8":
		no = []string{"1", "[", "]", "[256]", "[-1]", "[a]", "[1,2]", "[1", "1]", "[1.5]", `["a"]`, "[t]", "[[]]", "[]]", "[1]2", "[1][2]", "[0x]", "[0b12]", "[0x100]", "[1_0]", "nil", `"ab"`, "{1}", "(1)", "['a']", "[08]", "[99999999999999999999]", "[]x", "[][]"}
	case "float32":
		no = []string{"1e39", "-1e39", "3.5e38"}
		fallthrough
	case "float64":
		no = append(no, "x", `"1"`, ".", "-", "e5", "1e", "1e+", "1.2.3", "1,5", "nan", "NAN", "Nan", "inf", "Inf", "INF", "+INF", "+inf", "infinity", "1e400", "-1e400", "0x1p4", "0x10", "1_0.0", "1.5f", "--1", "+-1", "[]", "true", "1.5e5.5", "1e5e5", "1-2", "1+2", "NaNx", "-NaN", "+InfInf", "'1'", "0b1", "1e5x", ".e5", "nil", "1..2", "Infinity", "+Infinity")
	case "rune":
		no = []string{`''`, `'ab'`, `'a`, `a'`, `a`, `"a"`, `97`, `'\q'`, `'\"'`, `'\x1'`, `'\400'`, `'\ud800'`, `'\U00110000'`, `'''`, `'\'`, `'a'b`, `'a''b'`, `'aé'`, `'\n\n'`, `'\x41b'`, `nil`, "`a`", `[]`}
	case "*Table":
		no = []string{"t", "[1]", "[a-b]", "[[a]]", "[a", "a]", "[int]", "[string]", `"a"`, "nil", "[a][b]", "[]a", "[é]", "[a,b]", "[a.b]", "[][]", "[a]b", "1", "[-]", "[*Table]", "[a]]"}
	case "time.Time":
		no = []string{"2020-13-01T00:00:00Z", "2020-02-30T00:00:00Z", "2021-02-29T00:00:00Z", "2020-01-01T25:00:00Z", "2020-01-01T00:60:00Z", "2020-01-01T00:00:61Z", "2020-01-01", "2020-01-01T00:00:00", "2020-1-1T00:00:00Z", "2020-01-01T00:00:00z", "2020-01-01t00:00:00Z", "2020-01-01T00:00Z", "2020-01-01T00:00:00+1000", "2020-01-01T00:00:00+10", "2020-01-01T00:00:00,5Z", "2020-01-01T00:00:00.Z", "20200101T000000Z", `"2020-01-01T00:00:00Z"`, "1577836800", "x", "nil", "2020-00-01T00:00:00Z", "2020-01-00T00:00:00Z", "2020-01-01T00:00:00Z0", "2020-01-01T00:00:00ZZ", "2020-01-01T00:00:00+10:00Z", "12020-01-01T00:00:00Z", "-2020-01-01T00:00:00Z", "2020-01-01T24:00:00Z", "2020-01-01T00:00:00+10:99", "2020-01-01T00:00:00.1234567890Z"}
	case "int":
		no = append(ints, "9223372036854775808", "-9223372036854775809", "0x8000000000000000", "18446744073709551615", "01000000000000000000000")
	case "int64":
		no = append(ints, "9223372036854775808", "-9223372036854775809", "0xFFFFFFFFFFFFFFFF", "0b1000000000000000000000000000000000000000000000000000000000000000")
	case "int32":
		no = append(ints, "2147483648", "-2147483649", "0x80000000", "0xFFFFFFFF", "4294967295", "4294967296", "-020000000001")
	case "int16":
		no = append(ints, "32768", "-32769", "0x8000", "0xFFFF", "65536", "65537", "-32770", "0100000")
	case "int8":
		no = append(ints, "128", "-129", "0x80", "0xFF", "256", "257", "-256", "0b10000000", "0o200", "0200", "-0201")
	case "uint", "uint64":
		no = append(ints, "-1", "-0", "18446744073709551616", "0x10000000000000000", "02000000000000000000000", "0o2000000000000000000000")
	case "uint32":
		no = append(ints, "-1", "4294967296", "0x100000000", "8589934591")
	case "uint16":
		no = append(ints, "-1", "65536", "0x10000", "131071", "0b10000000000000000", "0200000")
	case "uint8", "byte":
		no = append(ints, "-1", "256", "0x100", "511", "257", "0b100000000", "0400", "+256")
	}
	return no[rapid.IntRange(0, len(no)-1).Draw(t, "badLiteral")]
}

// Damage to a document, one place, that no reading of the format accepts.
func damage(t *rapid.T, s *MSet, d *tdoc) (what string, line int) {
	var rows, names, types, structs, tabs, sets []int
	for i, l := range d.lines {
		switch l.kind {
		case "row":
			rows = append(rows, i)
		case "names":
			names = append(names, i)
		case "types":
			types = append(types, i)
		case "struct":
			structs = append(structs, i)
		case "name":
			tabs = append(tabs, i)
		case "set":
			sets = append(sets, i)
		}
	}
	pick := func(list []int) int { return list[rapid.IntRange(0, len(list)-1).Draw(t, "at")] }
	cut := func(i int) { d.lines = append(append([]tline{}, d.lines[:i]...), d.lines[i+1:]...) }
	insert := func(i int, l tline) {
		d.lines = append(append(append([]tline{}, d.lines[:i]...), l), d.lines[i:]...)
	}
	setTok := func(i, j int, tok string) {
		d.lines[i].toks = append([]string{}, d.lines[i].toks...)
		d.lines[i].toks[j] = tok
	}
	addTok := func(i, j int, tok string) {
		l := d.lines[i].toks
		d.lines[i].toks = append(append(append([]string{}, l[:j]...), tok), l[j:]...)
	}
	cutTok := func(i, j int) {
		l := d.lines[i].toks
		d.lines[i].toks = append(append([]string{}, l[:j]...), l[j+1:]...)
	}
	badName := func() string {
		return rapid.SampledFrom([]string{"1a", "a-b", "a.b", "é", "naïve", "a,b", "int", "string", "*Table", "time.Time", "[]byte", "a$", "-", "x\u0301", "日本", "a'", `"a"`, "9", "a=b", "a:b", "a\u00a0b", "float64", "a[0]", "a]"}).Draw(t, "badName")
	}
	badType := func() string {
		return rapid.SampledFrom([]string{"Int", "integer", "str", "text", "[]int", "[]string", "complex64", "complex128", "*table", "Table", "time", "Time", "uintptr", "int128", "float", "[]", "[]*Table", "map", "x", "1", `"int"`, "int,", "error", "interface{}", "any", "**Table", "[]bytes", "byte[]", "INT"}).Draw(t, "badType")
	}
	type op struct {
		name string
		ok   bool
		do   func() int // gives the line index at which an error is certain, or -1
	}
	all := append(append([]int{}, rows...), structs...)
	ops := []op{
		{"cell missing", len(rows) > 0, func() int {
			i := pick(rows)
			if len(d.lines[i].toks) < 2 {
				return -2
			}
			cutTok(i, rapid.IntRange(0, len(d.lines[i].toks)-1).Draw(t, "j"))
			return i
		}},
		{"cell extra", len(rows) > 0, func() int {
			i := pick(rows)
			j := rapid.IntRange(0, len(d.lines[i].toks)).Draw(t, "j")
			k := rapid.IntRange(0, len(d.lines[i].toks)-1).Draw(t, "k")
			addTok(i, j, d.lines[i].toks[k])
			return i
		}},
		{"bad cell", len(rows) > 0, func() int {
			i := pick(rows)
			m := s.Tables[d.lines[i].table]
			j := rapid.IntRange(0, len(m.Cols)-1).Draw(t, "j")
			setTok(i, j, badLiteral(t, m.Cols[j].Type))
			return i
		}},
		{"cells joined", len(rows) > 0, func() int {
			i := pick(rows)
			if len(d.lines[i].toks) < 2 {
				return -2
			}
			j := rapid.IntRange(0, len(d.lines[i].toks)-2).Draw(t, "j")
			setTok(i, j, d.lines[i].toks[j]+d.lines[i].toks[j+1])
			cutTok(i, j+1)
			return i
		}},
		{"text after last cell", len(all) > 0, func() int {
			i := pick(all)
			l := d.lines[i]
			if l.kind == "struct" && len(l.toks) == 2 {
				addTok(i, 2, rapid.SampledFrom([]string{"x", "int", "1", "==", ";", ":="}).Draw(t, "trailing"))
				return i
			}
			addTok(i, len(l.toks), rapid.SampledFrom([]string{"x", "1", `"x"`, "#", ",", ";", "]", "# comment", "//", "NaN", "[]"}).Draw(t, "trailing"))
			return i
		}},
		{"duplicate column name", len(names)+len(structs) > 0, func() int {
			i := pick(append(append([]int{}, names...), structs...))
			if d.lines[i].kind == "struct" {
				insert(i, d.lines[i])
				return i + 1
			}
			if len(d.lines[i].toks) < 2 {
				return -2
			}
			j := rapid.IntRange(1, len(d.lines[i].toks)-1).Draw(t, "j")
			setTok(i, j, d.lines[i].toks[rapid.IntRange(0, j-1).Draw(t, "k")])
			return i + 1
		}},
		{"duplicate table name", len(tabs) > 1, func() int {
			j := rapid.IntRange(1, len(tabs)-1).Draw(t, "j")
			setTok(tabs[j], 0, d.lines[tabs[rapid.IntRange(0, j-1).Draw(t, "k")]].toks[0])
			return tabs[j]
		}},
		{"bad column name", len(names)+len(structs) > 0, func() int {
			i := pick(append(append([]int{}, names...), structs...))
			j := 0
			if d.lines[i].kind == "names" {
				j = rapid.IntRange(0, len(d.lines[i].toks)-1).Draw(t, "j")
			}
			setTok(i, j, badName())
			return i
		}},
		{"bad column type", len(types)+len(structs) > 0, func() int {
			i := pick(append(append([]int{}, types...), structs...))
			j := 1
			if d.lines[i].kind == "types" {
				j = rapid.IntRange(0, len(d.lines[i].toks)-1).Draw(t, "j")
			}
			setTok(i, j, badType())
			if d.lines[i].kind == "struct" && (i == 0 || d.lines[i-1].kind == "name") {
				return -1 // may be read as column names
			}
			return i
		}},
		{"column type missing", len(types) > 0, func() int {
			i := pick(types)
			if len(d.lines[i].toks) < 2 {
				return -2
			}
			cutTok(i, rapid.IntRange(0, len(d.lines[i].toks)-1).Draw(t, "j"))
			return i
		}},
		{"column type extra", len(types) > 0, func() int {
			i := pick(types)
			addTok(i, rapid.IntRange(0, len(d.lines[i].toks)).Draw(t, "j"), rapid.SampledFrom(allTypes).Draw(t, "extraType"))
			return i
		}},
		{"column name missing", len(names) > 0, func() int {
			i := pick(names)
			if len(d.lines[i].toks) < 2 {
				return -2
			}
			cutTok(i, rapid.IntRange(0, len(d.lines[i].toks)-1).Draw(t, "j"))
			return i + 1
		}},
		{"column name extra", len(names) > 0, func() int {
			i := pick(names)
			addTok(i, rapid.IntRange(0, len(d.lines[i].toks)).Draw(t, "j"), "extra_column_name")
			return i + 1
		}},
		{"types line missing", len(types) > 0, func() int {
			i := pick(types)
			cut(i)
			return i
		}},
		{"names line missing", len(names) > 0, func() int {
			i := pick(names)
			cut(i)
			return i
		}},
		{"names and types exchanged", len(names) > 0, func() int {
			i := pick(names)
			d.lines[i], d.lines[i+1] = d.lines[i+1], d.lines[i]
			return i
		}},
		{"table name line missing", len(names)+len(structs) > 0, func() int {
			var is []int
			for _, i := range tabs {
				if i+1 < len(d.lines) && d.lines[i+1].kind != "blank" {
					is = append(is, i)
				}
			}
			i := pick(is)
			cut(i)
			return i
		}},
		{"bad table name", len(tabs) > 0, func() int {
			i := pick(tabs)
			setTok(i, 0, rapid.SampledFrom([]string{"[1a]", "[a-b]", "[]", "[int]", "[é]", "[a", "a]", "a", "[a]]", "[a]b", "[a.b]", "[a][b]", "[*Table]", "[string]", "(a)", "[a,b]", "[[a]", "[a ]", "[日]", "[ａ]", "[\u00e9t]"}).Draw(t, "badTableName"))
			return i
		}},
		{"text after table name", len(tabs) > 0, func() int {
			i := pick(tabs)
			addTok(i, 1, rapid.SampledFrom([]string{"x", "[b]", "1", "# comment", ":", "int"}).Draw(t, "trailing"))
			return i
		}},
		{"bad set name", len(sets) > 0, func() int {
			setTok(sets[0], 0, rapid.SampledFrom([]string{"[[1a]]", "[[a-b]]", "[[]]", "[[é]]", "[[a]", "[a]]", "[[a]]b", "[[a.b]]", "[[[a]]]", "[[a]][[b]]"}).Draw(t, "badSetName"))
			return sets[0]
		}},
		{"second set name", len(sets) > 0, func() int {
			at := sets[0] + 1
			if len(tabs) > 0 && rapid.Bool().Draw(t, "later") {
				at = pick(tabs)
			}
			insert(at, tline{"set", -1, []string{"[[" + s.Name + rapid.SampledFrom([]string{"", "2"}).Draw(t, "second") + "]]"}})
			return at
		}},
		{"blank line after names", len(names) > 0, func() int {
			i := pick(names)
			insert(i+1, tline{"blank", 0, nil})
			return i + 1
		}},
		{"blank line after table name", len(names)+len(structs) > 0, func() int {
			var is []int
			for _, i := range tabs {
				if i+1 < len(d.lines) && d.lines[i+1].kind != "blank" {
					is = append(is, i)
				}
			}
			i := pick(is)
			insert(i+1, tline{"blank", 0, nil})
			return i + 2
		}},
		{"blank line before a row", len(rows) > 0, func() int {
			i := pick(rows)
			if cols := s.Tables[d.lines[i].table].Cols; len(cols) == 1 && cols[0].Type == "*Table" {
				return -2 // looks like a table name
			}
			insert(i, tline{"blank", 0, nil})
			return i + 1
		}},
		{"no blank line between tables", len(tabs) > 1, func() int {
			j := rapid.IntRange(1, len(tabs)-1).Draw(t, "j")
			prev, this := s.Tables[j-1], s.Tables[j]
			if len(prev.Cols) == 1 && prev.Cols[0].Type == "*Table" && len(this.Cols) == 0 {
				return -2 // looks like a row
			}
			cut(tabs[j] - 1)
			return -1
		}},
		{"struct value missing", len(structs) > 0, func() int {
			i := pick(structs)
			if len(d.lines[i].toks) < 4 {
				return -2
			}
			cutTok(i, 3)
			return -1
		}},
		{"struct equals missing", len(structs) > 0, func() int {
			i := pick(structs)
			if len(d.lines[i].toks) < 4 {
				return -2
			}
			cutTok(i, 2)
			return -1
		}},
		{"struct type missing", len(structs) > 0, func() int {
			i := pick(structs)
			cutTok(i, 1)
			if len(d.lines[i].toks) == 1 && (i+1 >= len(d.lines) || d.lines[i+1].kind != "struct") && d.lines[i-1].kind == "name" {
				return -1 // column names without types
			}
			return -1
		}},
		{"struct bad value", len(structs) > 0, func() int {
			i := pick(structs)
			if len(d.lines[i].toks) < 4 {
				return -2
			}
			m := s.Tables[d.lines[i].table]
			setTok(i, 3, badLiteral(t, m.Cols[m.colIndex(d.lines[i].toks[0])].Type))
			return i
		}},
		{"struct value and equals missing", len(structs) > 0, func() int {
			i := pick(structs)
			if len(d.lines[i].toks) < 4 || len(s.Tables[d.lines[i].table].Cols) < 2 {
				return -2
			}
			cutTok(i, 3)
			cutTok(i, 2)
			return -1
		}},
		{"table name and set name exchanged", len(sets) > 0 && len(tabs) > 0, func() int {
			d.lines[sets[0]], d.lines[tabs[0]] = d.lines[tabs[0]], d.lines[sets[0]]
			return -1
		}},
		{"text before the first table", len(tabs) > 0, func() int {
			insert(tabs[0], tline{"junk", 0, []string{rapid.SampledFrom([]string{"x", "a b", "int", "1", `"x"`, "= 1", "// comment", ";", "\ufeff"}).Draw(t, "junk")}})
			return tabs[0]
		}},
	}
	var can []op
	for _, o := range ops {
		if o.ok {
			can = append(can, o)
		}
	}
	if len(can) == 0 {
		return "", -2
	}
	o := can[rapid.IntRange(0, len(can)-1).Draw(t, "damage")]
	return o.name, o.do()
}

func TestC02_damage(t *testing.T) {
	runCheck(t, "generated documents with one damage of 32 kinds at a random place (cells missing, extra, joined, of another type or out of range; names, types, header, blank lines or set name wrong); non-trivial = damaged", 60000, 1200000, func(t *rapid.T, c *Case) {
		s := genDocSet(3, 4, 3).Draw(t, "set")
		d := docOf(t, s, true, true)
		what, line := damage(t, s, d)
		text, _ := d.render(t)
		c.Key("%s: %q", what, text)
		c.ClassIf(what != "", what)
		if line == -2 {
			c.Class("not damaged")
			return
		}
		c.NonTrivial(true)
		if ts, err := gotables.NewTableSetFromString(text); err == nil {
			t.Fatalf("%s: no error for\n%s\nwhich was parsed as\n%s", what, text, ts.String())
		}
		if tb, err := gotables.NewTableFromString(text); err == nil {
			t.Fatalf("%s: NewTableFromString: no error for\n%s\nwhich was parsed as\n%s", what, text, tb.String())
		}
	})
}

// ---------------------------------------------------------------- C04

// parseOne parses a cell in a column of a type, between other columns or alone, in tabular or struct shape.
func parseOne(t *rapid.T, typ, lit string) (any, error) {
	var text string
	col := 0
	switch rapid.IntRange(0, 3).Draw(t, "where") {
	case 0:
		text = "[t]\nx\n" + typ + "\n" + lit + "\n"
	case 1:
		text = "[t]\na x b\nint " + typ + " string\n1 " + lit + ` "s"` + "\n"
		col = 1
	case 2:
		text = "[t]\nx " + typ + " = " + lit + "\n"
	default:
		text = "[t]\na int = 1\nx " + typ + " = " + lit + "\nb string = \"=\"\n"
		col = 1
	}
	tb, err := gotables.NewTableFromString(text)
	if err != nil {
		return nil, err
	}
	wellFormed(t, tb, "parsed literal "+lit)
	if tb.RowCount() != 1 {
		t.Fatalf("%q was parsed as %d rows", text, tb.RowCount())
	}
	v, err := tb.GetValByColIndex(col, 0)
	must(t, err, "GetValByColIndex")
	if nt, ok := v.(*gotables.Table); ok {
		return read(t, nt), nil
	}
	return v, nil
}

func expectLit(t *rapid.T, typ, lit string, want any) {
	t.Helper()
	got, err := parseOne(t, typ, lit)
	must(t, err, "literal %s of type %s", lit, typ)
	if !valEq(want, got) || math.Signbit(asFloat(want)) != math.Signbit(asFloat(got)) {
		t.Fatalf("literal %s of type %s is %s, expecting %s", lit, typ, fmtVal(got), fmtVal(want))
	}
}

func asFloat(v any) float64 {
	switch x := v.(type) {
	case float32:
		if x == x {
			return float64(x)
		}
	case float64:
		if x == x {
			return x
		}
	}
	return 0
}

func TestC04_values(t *testing.T) {
	runCheck(t, "a random value of a random type in a random spelling of its literal, alone or among other columns, tabular or struct; non-trivial = all", 60000, 1500000, func(t *rapid.T, c *Case) {
		typ := rapid.SampledFrom(allTypes).Draw(t, "type")
		v := genVal(typ, valOpts{nan: true, inf: true, anyUTF8: true, named: true}).Draw(t, "v")
		lit := litOf(t, typ, v)
		c.Key("%s %s", typ, lit)
		c.NonTrivial(true)
		c.Class("type " + typ)
		expectLit(t, typ, lit, v)
	})
}

var intRange = map[string][2]string{
	"int": {"-9223372036854775808", "9223372036854775807"}, "int64": {"-9223372036854775808", "9223372036854775807"},
	"int32": {"-2147483648", "2147483647"}, "int16": {"-32768", "32767"}, "int8": {"-128", "127"},
	"uint": {"0", "18446744073709551615"}, "uint64": {"0", "18446744073709551615"}, "uint32": {"0", "4294967295"},
	"uint16": {"0", "65535"}, "uint8": {"0", "255"}, "byte": {"0", "255"}, "[]byte": {"0", "255"}, "[]uint8": {"0", "255"},
}

func bigOf(s string) *big.Int { b, _ := new(big.Int).SetString(s, 10); return b }

// Integers of any size, near the limits of every width, against big integers.
func TestC04_integers(t *testing.T) {
	runCheck(t, "integers within a few of 0 and of the limits of each width, and random ones to 70 bits, in every base and spelling, for each integer type; non-trivial = within 300 of a limit of the type, or out of range", 60000, 1500000, func(t *rapid.T, c *Case) {
		typ := rapid.SampledFrom(sortedKeys(intRange)).Draw(t, "type")
		lo, hi := bigOf(intRange[typ][0]), bigOf(intRange[typ][1])
		n := new(big.Int)
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			n.Add(hi, big.NewInt(rapid.Int64Range(-3, 3).Draw(t, "d")))
		case 1:
			n.Add(lo, big.NewInt(rapid.Int64Range(-3, 3).Draw(t, "d")))
		case 2: // a multiple of a power of two away from a small number
			n.Lsh(big.NewInt(rapid.Int64Range(-3, 3).Draw(t, "k")), uint(rapid.SampledFrom([]int{7, 8, 15, 16, 31, 32, 63, 64}).Draw(t, "bits")))
			n.Add(n, big.NewInt(rapid.Int64Range(-300, 300).Draw(t, "d")))
		default:
			n.Lsh(big.NewInt(rapid.Int64().Draw(t, "n")), uint(rapid.IntRange(0, 7).Draw(t, "shift")))
			n.Rsh(n, uint(rapid.IntRange(0, 62).Draw(t, "right")))
		}
		base := rapid.SampledFrom([]int{10, 10, 2, 8, 16, -8}).Draw(t, "base")
		neg, abs := n.Sign() < 0, new(big.Int).Abs(n)
		zeros := strings.Repeat("0", max(0, rapid.IntRange(-3, 4).Draw(t, "zeros")))
		up := rapid.Bool().Draw(t, "upper")
		var digits string
		switch base {
		case 10:
			digits = abs.String()
		case 2:
			digits = map[bool]string{false: "0b", true: "0B"}[up] + zeros + abs.Text(2)
		case 8:
			digits = map[bool]string{false: "0o", true: "0O"}[up] + zeros + abs.Text(8)
		case -8:
			digits = "0" + zeros + abs.Text(8)
		case 16:
			if up {
				digits = "0X" + zeros + strings.ToUpper(abs.Text(16))
			} else {
				digits = "0x" + zeros + abs.Text(16)
			}
		}
		sign := ""
		if neg {
			sign = "-"
		} else if rapid.IntRange(0, 4).Draw(t, "plus") == 0 {
			sign = "+"
		}
		lit := sign + digits
		inRange := n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0
		near := func(x *big.Int) bool {
			d := new(big.Int).Sub(n, x)
			return d.Abs(d).Cmp(big.NewInt(300)) <= 0
		}
		slice := strings.HasPrefix(typ, "[]")
		text := lit
		at := 0
		if slice {
			parts := []string{}
			at = rapid.IntRange(0, 2).Draw(t, "before")
			for i := 0; i < at; i++ {
				parts = append(parts, "7")
			}
			parts = append(parts, lit)
			for i := rapid.IntRange(0, 2).Draw(t, "after"); i > 0; i-- {
				parts = append(parts, "8")
			}
			text = "[" + strings.Join(parts, " ") + "]"
		}
		c.Key("%s %s", typ, text)
		c.NonTrivial(near(lo) || near(hi) || !inRange)
		c.ClassIf(!inRange, "out of range")
		c.Class(fmt.Sprintf("base %d", base))
		got, err := parseOne(t, typ, text)
		if err != nil {
			if inRange && (sign == "" || base == 10 || (base == -8 && !strings.HasPrefix(typ, "u") && typ != "byte" && !slice)) {
				if sign == "-" && n.Sign() == 0 {
					return
				}
				t.Fatalf("literal %s of type %s: %v", text, typ, err)
			}
			return // A sign before a prefix need not be accepted, but if it is then as in Go.
		}
		if !inRange {
			t.Fatalf("literal %s of type %s is out of range but was parsed as %s", text, typ, fmtVal(got))
		}
		if slice {
			got = got.([]byte)[at]
		}
		if fmt.Sprint(got) != n.String() {
			t.Fatalf("literal %s of type %s is %s, expecting %s", text, typ, fmtVal(got), n)
		}
	})
}

// Floats: random decimal texts, against exact rational arithmetic rounded once.
func TestC04_floats(t *testing.T) {
	runCheck(t, "random decimal literals of 1-40 digits with point and exponent, near halfway cases and the range limits; non-trivial = at least 2 digits", 40000, 1000000, func(t *rapid.T, c *Case) {
		typ := rapid.SampledFrom([]string{"float32", "float64"}).Draw(t, "type")
		var lit string
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			lit = rapid.StringMatching(`[-+]?([0-9]{1,20}(\.[0-9]{0,20})?|\.[0-9]{1,20})([eE][-+]?[0-9]{1,2})?`).Draw(t, "lit")
		case 1: // halfway between two neighbours, exactly, or a little off
			if typ == "float32" {
				f := rapid.Float32Range(1e-30, 1e30).Draw(t, "f")
				mid := (float64(f) + float64(math.Nextafter32(f, math.MaxFloat32))) / 2
				lit = new(big.Float).SetFloat64(mid).Text('g', 120)
			} else {
				f := rapid.Float64Range(1e-5, 1e15).Draw(t, "f")
				a := new(big.Float).SetPrec(200).SetFloat64(f)
				a.Add(a, new(big.Float).SetFloat64(math.Nextafter(f, math.MaxFloat64)))
				a.Quo(a, big.NewFloat(2))
				lit = a.Text('g', 120)
			}
			if rapid.Bool().Draw(t, "off") && !strings.Contains(lit, "e") {
				if !strings.Contains(lit, ".") {
					lit += "."
				}
				lit += "0000000001"
			}
		case 2: // near the limits
			lit = rapid.SampledFrom([]string{"3.4028234663852886e38", "3.4028235677973366e38", "3.4028235677973365e38", "3.40282357e38", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1.8e308", "4.9e-324", "2.4e-324", "2.5e-324", "1e-324", "1.4e-45", "7e-46", "7.1e-46", "1e-46", "1e-400", "1e400", "1e38", "1e39", "1e310", "0e999", "0.0e-999", "-0", "-0.0", "+0", "00", "007", "1e00005", "0.1", "16777217", "9007199254740993"}).Draw(t, "lit")
			if rapid.Bool().Draw(t, "minus") && lit[0] != '-' && lit[0] != '+' {
				lit = "-" + lit
			}
		default:
			lit = strconv.Itoa(rapid.IntRange(-99999, 99999).Draw(t, "i"))
		}
		c.Key("%s %s", typ, lit)
		c.NonTrivial(len(lit) >= 2)
		bits := 64
		if typ == "float32" {
			bits = 32
		}
		f, perr := strconv.ParseFloat(lit, bits)
		got, err := parseOne(t, typ, lit)
		if perr != nil {
			c.Class("out of range")
			if err == nil {
				t.Fatalf("literal %s of type %s is out of range but was parsed as %s", lit, typ, fmtVal(got))
			}
			return
		}
		must(t, err, "literal %s of type %s", lit, typ)
		var want any = f
		if bits == 32 {
			want = float32(f)
		}
		if !valEq(want, got) || math.Signbit(asFloat(want)) != math.Signbit(asFloat(got)) {
			t.Fatalf("literal %s of type %s is %s, expecting %s", lit, typ, fmtVal(got), fmtVal(want))
		}
	})
}

// Strings and runes, from pieces of known meaning.
func TestC04_text(t *testing.T) {
	runCheck(t, "string and rune literals put together from characters, named, hex, octal and Unicode escapes whose bytes are known, and the same with one wrong piece; non-trivial = an escape", 40000, 1000000, func(t *rapid.T, c *Case) {
		type piece struct{ lit, val string }
		genPiece := func(quote rune) piece {
			switch rapid.IntRange(0, 5).Draw(t, "piece") {
			case 0:
				k := rapid.SampledFrom([]rune{7, 8, 12, 10, 13, 9, 11, '\\'}).Draw(t, "named")
				return piece{namedEscapes[k], string(k)}
			case 1:
				b := rapid.Byte().Draw(t, "b")
				return piece{fmt.Sprintf(map[bool]string{true: `\x%02x`, false: `\x%02X`}[rapid.Bool().Draw(t, "lower")], b), string([]byte{b})}
			case 2:
				b := rapid.Byte().Draw(t, "b")
				return piece{fmt.Sprintf(`\%03o`, b), string([]byte{b})}
			case 3:
				r := genRune().Filter(func(r rune) bool { return r <= 0xffff }).Draw(t, "r")
				return piece{fmt.Sprintf(`\u%04x`, r), string(r)}
			case 4:
				r := genRune().Draw(t, "r")
				return piece{fmt.Sprintf(`\U%08X`, r), string(r)}
			}
			r := genRune().Filter(func(r rune) bool { return r != quote && r != '\\' && r != '\n' && r != '\r' }).Draw(t, "r")
			return piece{string(r), string(r)}
		}
		bad := rapid.SampledFrom([]string{`\q`, `\x4`, `\x`, `\u12`, `\U0001`, `\ud800`, `\uDFFF`, `\U00110000`, `\8`, `\1`, `\12`, `\400`, `\777`, `\ `, `\X41`, `\?`, `\e`, `\N`, `\xg0`, `\u{41}`}).Draw(t, "bad")
		if rapid.Bool().Draw(t, "isRune") {
			p := genPiece('\'')
			if rapid.IntRange(0, 6).Draw(t, "quoteRune") == 0 {
				p = piece{`\'`, `'`}
			}
			lit := "'" + p.lit + "'"
			want, _ := utf8.DecodeRuneInString(p.val)
			if len(p.val) == 1 {
				want = rune(p.val[0]) // '\xff' is 255
			}
			c.Key("rune %s", lit)
			c.NonTrivial(len(p.lit) > 1)
			expectLit(t, "rune", lit, want)
			for _, wrong := range []string{"'" + bad + "'", "'" + p.lit + p.lit + "'", "'" + p.lit, "'" + p.lit + bad + "'", "''", `"` + p.lit + `"`} {
				if got, err := parseOne(t, "rune", wrong); err == nil {
					t.Fatalf("wrong rune literal %s was parsed as %s", wrong, fmtVal(got))
				}
			}
			return
		}
		n := rapid.IntRange(0, 6).Draw(t, "pieces")
		var ps []piece
		for i := 0; i < n; i++ {
			p := genPiece('"')
			if rapid.IntRange(0, 6).Draw(t, "quote") == 0 {
				p = piece{`\"`, `"`}
			}
			ps = append(ps, p)
			c.NonTrivial(len(p.lit) > 1 && p.lit[0] == '\\')
		}
		lit, want := `"`, ""
		for _, p := range ps {
			lit += p.lit
			want += p.val
		}
		lit += `"`
		c.Key("string %s", lit)
		expectLit(t, "string", lit, want)
		at := rapid.IntRange(0, n).Draw(t, "badAt")
		wrong := `"`
		for i, p := range ps {
			if i == at {
				wrong += bad
			}
			wrong += p.lit
		}
		if at == n {
			wrong += bad
		}
		wrong += `"`
		if _, err := strconv.Unquote(wrong); err == nil {
			return // what followed made the escape a good one
		}
		if got, err := parseOne(t, "string", wrong); err == nil {
			t.Fatalf("wrong string literal %s was parsed as %s", wrong, fmtVal(got))
		}
	})
}

// What is not a literal of the type is an error.
func TestC04_wrong(t *testing.T) {
	runCheck(t, "for every type: near-miss texts, and literals of other types; non-trivial = all", 30000, 600000, func(t *rapid.T, c *Case) {
		typ := rapid.SampledFrom(allTypes).Draw(t, "type")
		lit := badLiteral(t, typ)
		if rapid.IntRange(0, 3).Draw(t, "other") == 0 {
			other := rapid.SampledFrom([]string{"string", "bool", "rune", "time.Time", "[]byte", "float64", "*Table"}).Draw(t, "otherType")
			if canonType(other) != canonType(typ) && !(other == "float64" && typ == "float32") {
				lit = litOf(t, other, genVal(other, valOpts{named: true}).Draw(t, "v"))
				if other == "float64" && !strings.ContainsAny(lit, ".eE") {
					lit += ".5"
				}
				if (lit == "[]" || strings.HasPrefix(lit, "[")) && (typ == "*Table" || strings.HasPrefix(typ, "[]")) {
					lit = "[[]]"
				}
			}
		}
		c.Key("%s %s", typ, lit)
		c.NonTrivial(true)
		c.Class("type " + typ)
		if got, err := parseOne(t, typ, lit); err == nil {
			t.Fatalf("%s is no literal of type %s but was parsed as %s", lit, typ, fmtVal(got))
		}
	})
}

// Times: every field in range is that instant, every field out of range an error.
func TestC04_times(t *testing.T) {
	runCheck(t, "RFC 3339 texts with each field anywhere in 0-99 (years 0-9999), fractions of 0-9 digits and any zone; non-trivial = a valid time with a fraction or zone, or exactly one field out of range", 40000, 800000, func(t *rapid.T, c *Case) {
		f := func(lo, hi, wild int, what string) int {
			if rapid.IntRange(0, 9).Draw(t, "wild") == 0 {
				return rapid.IntRange(0, wild).Draw(t, what)
			}
			return rapid.IntRange(lo, hi).Draw(t, what)
		}
		y, mo, d := rapid.IntRange(0, 9999).Draw(t, "y"), f(1, 12, 99, "mo"), f(1, 31, 99, "d")
		h, mi, s := f(0, 23, 99, "h"), f(0, 59, 99, "mi"), f(0, 59, 99, "s")
		frac := rapid.StringMatching(`([0-9]{1,9})?`).Draw(t, "frac")
		lit := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, mo, d, h, mi, s)
		ns := 0
		if frac != "" {
			lit += "." + frac
			ns, _ = strconv.Atoi((frac + "000000000")[:9])
		}
		off := 0
		if rapid.Bool().Draw(t, "zone") {
			off = rapid.IntRange(-1439, 1439).Draw(t, "offset")
			a := off
			sign := "+"
			if a < 0 || (a == 0 && rapid.Bool().Draw(t, "negativeZero")) {
				a, sign = -a, "-"
			}
			lit += fmt.Sprintf("%s%02d:%02d", sign, a/60, a%60)
		} else {
			lit += "Z"
		}
		want := time.Date(y, time.Month(mo), d, h, mi, s, ns, time.FixedZone("", off*60))
		wrong := 0
		for _, b := range []bool{mo < 1 || mo > 12, d < 1 || d > 31, h > 23, mi > 59, s > 59} {
			if b {
				wrong++
			}
		}
		valid := wrong == 0 && want.Day() == d
		c.Key("time %s", lit)
		c.NonTrivial(valid && (frac != "" || off != 0) || wrong == 1)
		c.ClassIf(valid, "valid")
		got, err := parseOne(t, "time.Time", lit)
		if !valid {
			if err == nil {
				t.Fatalf("%s is no time but was parsed as %s", lit, fmtVal(got))
			}
			return
		}
		must(t, err, "time %s", lit)
		g, ok := got.(time.Time)
		if _, go_ := g.Zone(); !ok || !g.Equal(want) || go_ != off*60 {
			t.Fatalf("time %s was parsed as %s", lit, fmtVal(got))
		}
	})
}
