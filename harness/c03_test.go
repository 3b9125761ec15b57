package gtverif

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C03: parsing any text ends with a valid result or an error.

// totalParse parses a text and checks what must hold whatever the text is. It reports whether it was accepted.
func totalParse(t fataler, text string) (accepted bool, tables int, cells int) {
	t.Helper()
	var ts *gotables.TableSet
	var err error
	if p := try(func() { ts, err = gotables.NewTableSetFromString(text) }); p != "" {
		t.Fatalf("NewTableSetFromString(%q): %s", text, p)
	}
	var one *gotables.Table
	var err1 error
	if p := try(func() { one, err1 = gotables.NewTableFromString(text) }); p != "" {
		t.Fatalf("NewTableFromString(%q): %s", text, p)
	}
	if len(text)%8 == 0 { // The form that panics.
		var made *gotables.Table
		p := try(func() { made = gotables.NewTableFromStringMustMake(text) })
		if (p != "") != (err1 != nil) || err1 != nil && !strings.Contains(p, err1.Error()) {
			t.Fatalf("NewTableFromStringMustMake(%q): %q; NewTableFromString: %v", text, p, err1)
		}
		if err1 == nil {
			sameTable(t, read(t, one), made, "NewTableFromStringMustMake and NewTableFromString")
		}
	}
	if err != nil {
		if err1 == nil {
			t.Fatalf("NewTableFromString accepts what NewTableSetFromString rejects (%v): %q", err, text)
		}
		if ts != nil {
			t.Fatalf("an error (%v) and a table set from %q", err, text)
		}
		return false, 0, 0
	}
	if ok, err := ts.IsValidTableSet(); !ok || err != nil {
		t.Fatalf("parsed set is not valid: %v, %v: %q", ok, err, text)
	}
	if (err1 == nil) != (ts.TableCount() == 1) || (err1 != nil && one != nil) {
		t.Fatalf("NewTableFromString of %d tables: %v", ts.TableCount(), err1)
	}
	s := &MSet{Name: ts.Name()}
	for i := 0; i < ts.TableCount(); i++ {
		tb, err := ts.GetTableByTableIndex(i)
		must(t, err, "GetTableByTableIndex")
		wellFormed(t, tb, "parsed table")
		validTable(t, tb, "parsed table")
		m := read(t, tb)
		cells += len(m.Rows) * len(m.Cols)
		s.Tables = append(s.Tables, m)
	}
	for _, out := range []string{ts.String(), ts.StringUnpadded()} {
		again, err := gotables.NewTableSetFromString(out)
		must(t, err, "parsing what was written after parsing %q: %q", text, out)
		sameSet(t, s, again, fmt.Sprintf("%q written as %q and parsed again", text, out))
		if again.String() != ts.String() || again.StringUnpadded() != ts.StringUnpadded() {
			t.Fatalf("parsing and writing again is not stable:\n%q\n%q\nfrom %q", ts.String(), again.String(), text)
		}
	}
	if one != nil {
		sameTable(t, s.Tables[0], one, "NewTableFromString and NewTableSetFromString")
	}
	return true, ts.TableCount(), cells
}

var soupTokens = []string{"[t]", "[u]", "[[s]]", "x", "y", "int", "string", "bool", "float64", "rune", "[]byte", "*Table", "time.Time", "1", "-2", "3.5", "NaN", "+Inf", "-Inf", "true", "false", `"a"`, `""`, `"\n"`, `'a'`, `'\''`, `'\\'`, `'"'`, `"'"`, "[]", "[1 2]", "[v]", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05.5+10:00", "=", "#", "# c", "0x1F", "0b1", "017", "\n", "\n", "\n", "\n\n", "\r\n", "\t", " ", "\\", `"`, "'", "[", "]", "\x00", "\u00a0", "\ufeff", "é", "\v", "\f", "\u2028", "\u0085", "x int = 1", "s string = \"q\"", "f float64", "[t]\nx int\n", "[t]\nx y\nint string\n", "1 \"a\"\n"}

func genSoup() *rapid.Generator[string] {
	return gen(func(t *rapid.T) string {
		var b strings.Builder
		for _, k := range rapid.SliceOfN(rapid.SampledFrom(soupTokens), 1, 14).Draw(t, "soup") {
			b.WriteString(k)
			b.WriteString(rapid.SampledFrom([]string{" ", "\n", " ", "\n", ""}).Draw(t, "sep"))
		}
		return b.String()
	})
}

// mutateText makes 1-4 random changes to a text.
func mutateText(t *rapid.T, s, other string) string {
	for n := rapid.IntRange(1, 4).Draw(t, "mutations"); n > 0; n-- {
		at := rapid.IntRange(0, len(s)).Draw(t, "at")
		to := min(len(s), at+rapid.IntRange(0, 8).Draw(t, "len"))
		switch rapid.IntRange(0, 7).Draw(t, "mutation") {
		case 0:
			s = s[:at] + s[to:]
		case 1:
			s = s[:at] + rapid.SampledFrom(soupTokens).Draw(t, "token") + s[at:]
		case 2:
			s = s[:at] + string([]byte{rapid.Byte().Draw(t, "byte")}) + s[min(len(s), at+1):]
		case 3: // repeat
			s = s[:to] + s[at:to] + s[to:]
		case 4: // splice
			o := rapid.IntRange(0, len(other)).Draw(t, "from")
			s = s[:at] + other[o:]
		case 5: // cut short
			s = s[:at]
		case 6: // change white space
			i := strings.IndexAny(s[at:], " \n")
			if i >= 0 {
				s = s[:at+i] + rapid.SampledFrom([]string{"\n", " ", "", "\n\n", "\t", "#", "\n#"}).Draw(t, "white") + s[at+i+1:]
			}
		case 7: // exchange two lines
			l := strings.Split(s, "\n")
			i, j := rapid.IntRange(0, len(l)-1).Draw(t, "i"), rapid.IntRange(0, len(l)-1).Draw(t, "j")
			l[i], l[j] = l[j], l[i]
			s = strings.Join(l, "\n")
		}
	}
	return s
}

func TestC03_mutated(t *testing.T) {
	runCheck(t, "generated documents after 1-4 random changes (bytes, tokens, spans, lines, splices, truncation); non-trivial = accepted with cells, or rejected", 40000, 1500000, func(t *rapid.T, c *Case) {
		s := genDocSet(2, 4, 2).Draw(t, "set")
		text, _ := docOf(t, s, true, false).render(t)
		s2 := genDocSet(1, 3, 1).Draw(t, "set2")
		other, _ := docOf(t, s2, true, false).render(t)
		text = mutateText(t, text, other)
		c.Key("%q", text)
		ok, _, cells := totalParse(t, text)
		c.NonTrivial(!ok || cells > 0)
		c.ClassIf(ok, "accepted")
		c.ClassIf(ok && cells > 0, "accepted with cells")
	})
}

func TestC03_soup(t *testing.T) {
	runCheck(t, "random sequences of format tokens, and random bytes; non-trivial = accepted with a table, or rejected", 60000, 2000000, func(t *rapid.T, c *Case) {
		text := rapid.OneOf(genSoup(), genSoup(), genSoup(),
			rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 40), func(b []byte) string { return string(b) }),
			rapid.StringMatching(`(\[[a-z]\]|\[\[[a-z]\]\])\n([a-z ]{0,6}\n){0,3}[\x00-\x7f]{0,20}`),
			rapid.String()).Draw(t, "text")
		c.Key("%q", text)
		ok, n, cells := totalParse(t, text)
		c.NonTrivial(!ok || n > 0)
		c.ClassIf(ok, "accepted")
		c.ClassIf(ok && cells > 0, "accepted with cells")
	})
}

// A row of random tokens under random column types: what is accepted must be stable.
func TestC03_rows(t *testing.T) {
	runCheck(t, "a header of 1-3 random types with rows of random or near-miss tokens; non-trivial = accepted with cells", 50000, 1500000, func(t *rapid.T, c *Case) {
		n := rapid.IntRange(1, 3).Draw(t, "ncols")
		types := make([]string, n)
		for i := range types {
			types[i] = rapid.SampledFrom(allTypes).Draw(t, "type")
		}
		text := "[t]\n" + strings.Join([]string{"a", "b", "c"}[:n], " ") + "\n" + strings.Join(types, " ") + "\n"
		for r := rapid.IntRange(1, 2).Draw(t, "nrows"); r > 0; r-- {
			for i := 0; i < n; i++ {
				switch rapid.IntRange(0, 9).Draw(t, "cell") {
				case 0:
					text += rapid.SampledFrom(soupTokens).Draw(t, "token")
				case 1:
					text += badLiteral(t, types[i])
				case 2:
					text += mutateText(t, litOf(t, types[i], genVal(types[i], valOpts{nan: true, inf: true, anyUTF8: true, named: true}).Draw(t, "v")), `"a" 1`)
				default:
					text += litOf(t, types[i], genVal(types[i], valOpts{nan: true, inf: true, anyUTF8: true, named: true}).Draw(t, "v"))
				}
				if rapid.IntRange(0, 30).Draw(t, "gap") > 0 {
					text += " "
				}
			}
			text += "\n"
		}
		c.Key("%q", text)
		ok, _, cells := totalParse(t, text)
		c.NonTrivial(ok && cells > 0)
		c.ClassIf(ok, "accepted")
	})
}

// ---------------------------------------------------------------- C22

var nameRe = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*$`)

func genAnyName() *rapid.Generator[string] {
	return rapid.OneOf(genName(), genName(),
		rapid.SampledFrom(allTypes),
		rapid.SampledFrom([]string{"", "1", "1a", "a-b", "a.b", "é", "aé", "a b", " a", "a ", "a\n", "\n", "#a", "a#", "[a]", "[[a]]", "=", "a=", "日本", "ａ", "a\u0301", "a\x00", "\x00", "a\xff", "K", "ſ", "a,b", `"a"`, "'a'", "*a", "-", "$", "a$", "complex128", "Int", "INT", "Table", "*table", "[]int", "time", "[]", "__", "_1", "nil", "\ufeffa", "a\u00a0", "\u00a0", "a\tb", "a\r", "٣", "a٣", "²", "a²", "ª", "_é", "uint8_", "float", "[]string", "*", "a]", "[a", "a.", "time.Timer", "time.", "byte1", "1byte"}),
		rapid.StringMatching(`[a-zA-Z_0-9é\-\.\[\]\*]{1,5}`),
		rapid.StringN(0, 4, -1))
}

func validName(s string) bool {
	return nameRe.MatchString(s) && !strings.HasSuffix(s, "\n") && !reservedNames[s]
}

func noWhite(s string) bool {
	return s != "" && len(strings.Fields(s)) == 1 && strings.Fields(s)[0] == s && !strings.ContainsAny(s, "\x00")
}

func TestC22_names(t *testing.T) {
	runCheck(t, "any string as a table name, column name and set name, through every entry point that takes one and through text; non-trivial = an invalid name of at least one character, or a valid one beyond the simplest", 20000, 400000, func(t *rapid.T, c *Case) {
		n := genAnyName().Draw(t, "name")
		c.Key("%q", n)
		want := validName(n)
		c.NonTrivial((!want && n != "") || len(n) > 1)
		c.ClassIf(want, "valid")
		agree := func(what string, accepted bool) {
			t.Helper()
			if accepted != want {
				t.Fatalf("%s: name %q accepted %v, expecting %v", what, n, accepted, want)
			}
		}
		ok, err := gotables.IsValidTableName(n)
		agree("IsValidTableName", ok)
		agree("IsValidTableName error", err == nil)
		ok, err = gotables.IsValidColName(n)
		agree("IsValidColName", ok)
		agree("IsValidColName error", err == nil)

		tb, err := gotables.NewTable(n)
		agree("NewTable", err == nil)
		if want && tb.Name() != n {
			t.Fatalf("NewTable(%q).Name() = %q", n, tb.Name())
		}
		base := &MT{Name: "base", Cols: []Col{{"k_0", "int"}, {"k_1", "string"}}, Rows: [][]any{{1, "a"}, {2, "b"}}}
		fresh := n != "k_0" && n != "k_1"
		step := func(what string, f func(*gotables.Table) error, change func(*MT)) {
			t.Helper()
			tb := build(t, base)
			must(t, tb.SetSortKeys("k_1"), "SetSortKeys")
			var err error
			if p := try(func() { err = f(tb) }); p != "" {
				t.Fatalf("%s(%q): %s", what, n, p)
			}
			if want && !fresh {
				return // taken
			}
			agree(what, err == nil)
			m := base.clone()
			if err == nil {
				change(m)
			}
			sameTable(t, m, tb, what)
			validTable(t, tb, what)
			back, err := gotables.NewTableFromString(tb.String())
			must(t, err, "parsing after %s(%q)", what, n)
			sameTable(t, m, back, what+" round trip")
		}
		step("SetName", func(tb *gotables.Table) error { return tb.SetName(n) }, func(m *MT) { m.Name = n })
		step("Table.RenameTable", func(tb *gotables.Table) error { return tb.RenameTable(n) }, func(m *MT) { m.Name = n })
		step("AppendCol", func(tb *gotables.Table) error { return tb.AppendCol(n, "bool") }, func(m *MT) {
			m.Cols = append(m.Cols, Col{n, "bool"})
			for i := range m.Rows {
				m.Rows[i] = append(m.Rows[i], false)
			}
		})
		step("RenameCol", func(tb *gotables.Table) error { return tb.RenameCol("k_1", n) }, func(m *MT) { m.Cols[1].Name = n })
		step("RenameColByColIndex", func(tb *gotables.Table) error { return tb.RenameColByColIndex(0, n) }, func(m *MT) { m.Cols[0].Name = n })
		step("TableSet.RenameTable", func(tb *gotables.Table) error {
			ts, err := gotables.NewTableSet("s")
			must(t, err, "NewTableSet")
			must(t, ts.AppendTable(tb), "AppendTable")
			err = ts.RenameTable("base", n)
			if n == "base" {
				return nil
			}
			if has, _ := ts.HasTable(n); has != (err == nil) {
				t.Fatalf("RenameTable to %q: %v, but HasTable %v", n, err, has)
			}
			return err
		}, func(m *MT) { m.Name = n })

		if mt, err := gotables.NewTableFromMetadata(n, []string{"a"}, []string{"int"}); true {
			agree("NewTableFromMetadata table", err == nil)
			if err == nil {
				sameTable(t, &MT{Name: n, Cols: []Col{{"a", "int"}}}, mt, "NewTableFromMetadata")
			}
		}
		if mt, err := gotables.NewTableFromMetadata("t", []string{"k_0", n}, []string{"int", "string"}); fresh {
			agree("NewTableFromMetadata column", err == nil)
			if err == nil {
				sameTable(t, &MT{Name: "t", Cols: []Col{{"k_0", "int"}, {n, "string"}}}, mt, "NewTableFromMetadata")
			}
		}
		// In text.
		if noWhite(n) {
			if tb, err := gotables.NewTableFromString("[" + n + "]\na\nint\n"); true {
				agree("text table name", err == nil)
				if err == nil && tb.Name() != n {
					t.Fatalf("text table name %q was parsed as %q", n, tb.Name())
				}
			}
			if fresh {
				for _, text := range []string{"[t]\nk_0 " + n + "\nint bool\n", "[t]\nk_0 int\n" + n + " bool\n", "[t]\nk_0 int = 1\n" + n + " bool = true\n"} {
					if n[0] == '#' && strings.Contains(text, "\n#") {
						continue // a comment
					}
					tb, err := gotables.NewTableFromString(text)
					agree(fmt.Sprintf("text column name in %q", text), err == nil)
					if err == nil {
						if name, _ := tb.ColName(1); name != n || tb.ColCount() != 2 {
							t.Fatalf("text column name %q was parsed as %q of %d", n, name, tb.ColCount())
						}
					}
				}
			}
		}
		tb, err = gotables.NewTableFromString("[]\na\nint\n")
		if err == nil {
			t.Fatalf("text with no table name was accepted: %s", tb)
		}
		// Set names may be empty or the name of a type.
		wantSet := n == "" || nameRe.MatchString(n) && !strings.HasSuffix(n, "\n")
		ts, err := gotables.NewTableSet(n)
		if (err == nil) != wantSet {
			t.Fatalf("NewTableSet(%q): %v, expecting accepted %v", n, err, wantSet)
		}
		if wantSet {
			must(t, ts.AppendTable(build(t, base)), "AppendTable")
			for _, text := range []string{ts.String(), ts.StringUnpadded()} {
				back, err := gotables.NewTableSetFromString(text)
				must(t, err, "parsing a set named %q", n)
				sameSet(t, &MSet{Name: n, Tables: []*MT{base}}, back, "set name round trip")
			}
		}
		ts, err = gotables.NewTableSet("old")
		must(t, err, "NewTableSet")
		if err := ts.SetName(n); (err == nil) != wantSet {
			t.Fatalf("TableSet.SetName(%q): %v, expecting accepted %v", n, err, wantSet)
		} else if got := ts.Name(); (err == nil && got != n) || (err != nil && got != "old") {
			t.Fatalf("TableSet.SetName(%q): %v, and the name is %q", n, err, got)
		}
		if noWhite(n) {
			ts, err := gotables.NewTableSetFromString("[[" + n + "]]\n\n[t]\na\nint\n")
			if (err == nil) != wantSet {
				t.Fatalf("text set name %q: %v, expecting accepted %v", n, err, wantSet)
			}
			if err == nil && ts.Name() != n {
				t.Fatalf("text set name %q was parsed as %q", n, ts.Name())
			}
		}
	})
}

func TestC22_types(t *testing.T) {
	runCheck(t, "any string as a column type, through every entry point and through text; non-trivial = a valid type, or an invalid one of at least one character", 20000, 300000, func(t *rapid.T, c *Case) {
		typ := rapid.OneOf(rapid.SampledFrom(allTypes), rapid.SampledFrom([]string{"", "Int", "integer", "str", "complex", "complex64", "complex128", "uintptr", "error", "[]int", "[]string", "[]rune", "[]float64", "[][]byte", "*table", "Table", "*Tables", "**Table", "Time", "time", "time.time", "time.Duration", "*time.Time", "bytes", "any", "interface{}", "map[string]int", "string ", " int", "int\n", "int,", "boolean", "float", "double", "char", "text", "[]Byte", "Uint8", "uint_8", "int128", "*int", "func()", "struct{}", "[]", "*", "nil", "[] byte", "int32rune", "[]uint16", "[4]byte", "[]*Table", "gotables.Table", "*gotables.Table"}), genAnyName()).Draw(t, "type")
		c.Key("%q", typ)
		want := reservedNames[typ]
		c.NonTrivial(typ != "")
		c.ClassIf(want, "valid")
		agree := func(what string, accepted bool) {
			t.Helper()
			if accepted != want {
				t.Fatalf("%s: type %q accepted %v, expecting %v", what, typ, accepted, want)
			}
		}
		ok, err := gotables.IsValidColType(typ)
		agree("IsValidColType", ok)
		agree("IsValidColType error", err == nil)
		numeric := want && typ != "string" && typ != "bool" && typ != "rune" && typ != "*Table" && typ != "time.Time" && !strings.HasPrefix(typ, "[]")
		if want && gotables.IsNumericColType(typ) != numeric {
			t.Fatalf("IsNumericColType(%q) = %v", typ, !numeric)
		}
		if gotables.IsSliceColType(typ) != (typ == "[]byte" || typ == "[]uint8") {
			t.Fatalf("IsSliceColType(%q) is wrong", typ)
		}
		if gotables.IsTableColType(typ) != (typ == "*Table") {
			t.Fatalf("IsTableColType(%q) is wrong", typ)
		}
		m := &MT{Name: "t", Cols: []Col{{"a", "int"}}, Rows: [][]any{{1}, {2}}}
		tb := build(t, m)
		err = tb.AppendCol("b", typ)
		agree("AppendCol", err == nil)
		if err == nil {
			m.Cols = append(m.Cols, Col{"b", typ})
			for i := range m.Rows {
				m.Rows[i] = append(m.Rows[i], zeroOf(typ))
			}
		}
		sameTable(t, m, tb, "AppendCol")
		validTable(t, tb, "AppendCol")
		mt, err := gotables.NewTableFromMetadata("t", []string{"a", "b"}, []string{"int", typ})
		agree("NewTableFromMetadata", err == nil)
		if err == nil {
			sameTable(t, &MT{Name: "t", Cols: m.Cols}, mt, "NewTableFromMetadata")
		}
		if noWhite(typ) && typ[0] != '#' {
			for _, text := range []string{"[t]\na b\nint " + typ + "\n", "[t]\nb a\n" + typ + " int\n", "[t]\na int\nb " + typ + "\n"} {
				tb, err := gotables.NewTableFromString(text)
				agree(fmt.Sprintf("text %q", text), err == nil)
				if err == nil {
					if ct, err := tb.ColType("b"); ct != typ || err != nil {
						t.Fatalf("text %q: type %q, %v", text, ct, err)
					}
				}
			}
		}
	})
}

// ---------------------------------------------------------------- C23

func TestC23_lines(t *testing.T) {
	dir := t.TempDir()
	runCheck(t, "generated documents with one bad line of 27 kinds at a random place among blank lines and comments, parsed from a file and from a string; non-trivial = the bad line is not one of the first two", 30000, 600000, func(t *rapid.T, c *Case) {
		s := genDocSet(3, 4, 3).Draw(t, "set")
		d := docOf(t, s, true, true)
		what, at := damage(t, s, d)
		text, lineOf := d.render(t)
		c.Key("%s: %q", what, text)
		if at < 0 || at >= len(d.lines) || at >= len(lineOf) {
			c.Class("no one bad line")
			return
		}
		c.Class(what)
		line := lineOf[at]
		c.NonTrivial(line > 2)
		// Where names and types disagree, either line may be the one named.
		also := -1
		if d.lines[at].kind == "types" && at > 0 {
			also = lineOf[at-1]
		}
		if d.lines[at].kind == "names" && at+1 < len(lineOf) && d.lines[at+1].kind == "types" {
			also = lineOf[at+1]
		}
		fn := filepath.Join(dir, "doc.got")
		must(t, os.WriteFile(fn, []byte(text), 0o600), "WriteFile")
		for i := 0; i < 2; i++ {
			_, err := gotables.NewTableSetFromFile(fn)
			if err == nil {
				t.Fatalf("%s: no error for\n%s", what, text)
			}
			checkLine(t, err, fn, line, also, what, text)
			_, err = gotables.NewTableFromFile(fn)
			if err == nil {
				t.Fatalf("%s: no error for\n%s", what, text)
			}
			checkLine(t, err, fn, line, also, what, text)
			_, err = gotables.NewTableSetFromString(text)
			if err == nil {
				t.Fatalf("%s: no error for\n%s", what, text)
			}
			checkLine(t, err, "", line, also, what, text)
		}
	})
}

var posRe = regexp.MustCompile(`:(\d+):`)
var alonePosRe = regexp.MustCompile(`(?:^|\s):(\d+):`)

// checkLine: the first position in the error is the line.
func checkLine(t *rapid.T, err error, file string, line, also int, what, text string) {
	t.Helper()
	e := err.Error()
	if file != "" {
		i := strings.Index(e, file)
		if i < 0 {
			t.Fatalf("%s: the error does not name the file: %s", what, e)
		}
		e = e[i+len(file):]
		if !posRe.MatchString(e) || posRe.FindStringIndex(e)[0] != 0 {
			t.Fatalf("%s: no line number after the file's name: %v", what, err)
		}
	}
	m := posRe.FindStringSubmatch(e)
	if file == "" {
		if alone := alonePosRe.FindStringSubmatch(e); alone != nil { // Not the position in Go source, if an error names one.
			m = alone
		}
	}
	if m == nil {
		t.Fatalf("%s: the error has no line number (line %d): %v\n%s", what, line, err, text)
	}
	if m[1] != fmt.Sprint(line) && m[1] != fmt.Sprint(also) {
		t.Fatalf("%s: the error names line %s, expecting %d: %v\n%s", what, m[1], line, err, text)
	}
}

type parsed struct {
	ok   bool
	text string
}

func parseResult(text string) (p parsed) {
	ts, err := gotables.NewTableSetFromString(text)
	if err != nil {
		return parsed{false, err.Error()}
	}
	return parsed{true, ts.String()}
}

func drawDoc(t *rapid.T, maxRows int) string {
	s := genDocSet(2, 3, maxRows).Draw(t, "set")
	d := docOf(t, s, true, true)
	if rapid.IntRange(0, 2).Draw(t, "damaged") > 0 {
		damage(t, s, d)
	}
	text, _ := d.render(t)
	return text
}

// A parse does not depend on the parses before it.
func TestC23_history(t *testing.T) {
	runCheck(t, "2-5 good and bad documents, each parsed first alone and then in a random order with repeats; non-trivial = both good and bad ones", 6000, 150000, func(t *rapid.T, c *Case) {
		n := rapid.IntRange(2, 5).Draw(t, "docs")
		docs := make([]string, n)
		first := make([]parsed, n)
		good := 0
		for i := range docs {
			docs[i] = drawDoc(t, 2)
			first[i] = parseResult(docs[i])
			if first[i].ok {
				good++
			}
		}
		c.Key("%q", docs)
		c.NonTrivial(good > 0 && good < n)
		for _, i := range rapid.SliceOfN(rapid.IntRange(0, n-1), 3, 10).Draw(t, "order") {
			if got := parseResult(docs[i]); got != first[i] {
				t.Fatalf("parsing %q again gives %v, at first %v", docs[i], got, first[i])
			}
		}
	})
}

// Nor on parses at the same time. (Run with the race detector.)
func TestC23_concurrent_race(t *testing.T) {
	runCheck(t, "2-8 good and bad documents parsed at the same time in as many goroutines, several times each, under the race detector; non-trivial = at least one good and one bad one", 250, 6000, func(t *rapid.T, c *Case) {
		n := rapid.IntRange(2, 8).Draw(t, "docs")
		docs := make([]string, n)
		want := make([]parsed, n)
		good := 0
		for i := range docs {
			docs[i] = drawDoc(t, 8)
			want[i] = parseResult(docs[i])
			if want[i].ok {
				good++
			}
		}
		c.Key("%q", docs)
		c.NonTrivial(good > 0 && good < n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		bad := make(chan string, n)
		for i := range docs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 4; k++ {
					if got := parseResult(docs[i]); got != want[i] {
						bad <- fmt.Sprintf("parsing %q at the same time as others gives %v, alone %v", docs[i], got, want[i])
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		select {
		case s := <-bad:
			t.Fatalf("%s", s)
		default:
		}
	})
}

// ---------------------------------------------------------------- C24

func TestC24_files(t *testing.T) {
	dir := t.TempDir()
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	runCheck(t, "sets and tables written over a missing, empty, shorter or longer file, by relative or absolute name, and read back by every file reader; non-trivial = at least one row", 12000, 250000, func(t *rapid.T, c *Case) {
		s := genDocSet(3, 4, 3).Draw(t, "set")
		for i, m := range s.Tables {
			m.Struct = len(m.Rows) <= 1 && len(m.Cols) > 0 && rapid.Bool().Draw(t, "struct")
			c.NonTrivial(len(s.Tables[i].Rows) > 0)
		}
		if len(s.Tables) > 0 && oneIn(t, 60, "big") { // A file of more than one or two buffers.
			m := s.Tables[rapid.IntRange(0, len(s.Tables)-1).Draw(t, "bigTable")]
			m.Struct = false
			c.ClassIf(maybeTall(t, m, 1, 4000), "big")
		}
		fn := rapid.SampledFrom([]string{"a.got", "b c.got", "é.txt", "./d.got", "sub/e.got", "noext", "sub/../f.got", "sub//g.got"}).Draw(t, "file")
		if rapid.Bool().Draw(t, "absolute") {
			fn = filepath.Join(dir, fn)
		}
		must(t, os.MkdirAll("sub", 0o700), "MkdirAll")
		before := rapid.SampledFrom([]string{"none", "empty", "short", "long"}).Draw(t, "before")
		c.Key("%s %s: %s", fn, before, s)
		c.Class("before: " + before)
		_ = os.Remove(fn)
		switch before {
		case "empty":
			must(t, os.WriteFile(fn, nil, 0o644), "prepare")
		case "short":
			must(t, os.WriteFile(fn, []byte("x"), 0o644), "prepare")
		case "long":
			must(t, os.WriteFile(fn, []byte(strings.Repeat("[old]\nx int = 1\n\n", 400)), 0o644), "prepare")
		default:
			if ts, err := gotables.NewTableSetFromFile(fn); err == nil || ts != nil {
				t.Fatalf("reading a missing file: %v, %v", ts, err)
			}
			if tb, err := gotables.NewTableFromFile(fn); err == nil || tb != nil {
				t.Fatalf("reading a missing file: %v, %v", tb, err)
			}
			if tb, err := gotables.NewTableFromFileByTableName(fn, "a"); err == nil || tb != nil {
				t.Fatalf("reading a missing file: %v, %v", tb, err)
			}
		}
		mode := rapid.SampledFrom([]os.FileMode{0, 0o644, 0o600, 0o666}).Draw(t, "mode")
		ts := buildSet(t, s)
		holds := func(want string) {
			t.Helper()
			b, err := os.ReadFile(fn)
			must(t, err, "ReadFile")
			if string(b) != want {
				t.Fatalf("the file holds\n%q\nexpecting\n%q", b, want)
			}
			if before == "none" && mode != 0 {
				if fi, err := os.Stat(fn); err != nil || fi.Mode().Perm() & ^mode != 0 {
					t.Fatalf("file mode %v, asked for %v (%v)", fi.Mode(), mode, err)
				}
			}
		}
		must(t, ts.WriteFile(fn, mode), "TableSet.WriteFile")
		holds(ts.String())
		sameSet(t, s, ts, "after WriteFile")
		got, err := gotables.NewTableSetFromFile(fn)
		must(t, err, "NewTableSetFromFile(%q)", fn)
		sameSet(t, s, got, "read from a file")
		if got.FileName() != fn {
			t.Fatalf("FileName() = %q after reading %q", got.FileName(), fn)
		}
		for _, m := range s.Tables {
			tb, err := gotables.NewTableFromFileByTableName(fn, m.Name)
			must(t, err, "NewTableFromFileByTableName(%q)", m.Name)
			sameTable(t, m, tb, "NewTableFromFileByTableName")
		}
		if tb, err := gotables.NewTableFromFileByTableName(fn, rapid.SampledFrom(nearNames(s)).Draw(t, "nearName")); err == nil || tb != nil {
			t.Fatalf("an unknown table was read: %v, %v", tb, err)
		}
		tb, err := gotables.NewTableFromFile(fn)
		if (err == nil) != (len(s.Tables) == 1) {
			t.Fatalf("NewTableFromFile of %d tables: %v", len(s.Tables), err)
		}
		if err == nil {
			sameTable(t, s.Tables[0], tb, "NewTableFromFile")
		}
		// One table over what is there now.
		if len(s.Tables) > 0 {
			i := rapid.IntRange(0, len(s.Tables)-1).Draw(t, "one")
			one, err := ts.GetTableByTableIndex(i)
			must(t, err, "GetTableByTableIndex")
			must(t, one.WriteFile(fn, mode), "Table.WriteFile")
			holds(one.String())
			tb, err := gotables.NewTableFromFile(fn)
			must(t, err, "NewTableFromFile")
			sameTable(t, s.Tables[i], tb, "NewTableFromFile")
			tb, err = gotables.NewTableFromFileByTableName(fn, s.Tables[i].Name)
			must(t, err, "NewTableFromFileByTableName")
			sameTable(t, s.Tables[i], tb, "NewTableFromFileByTableName")
		}
		// Nowhere to write, a directory to read.
		if err := ts.WriteFile(filepath.Join(dir, "missing", "x.got"), mode); err == nil {
			t.Fatalf("WriteFile in a missing directory gave no error")
		}
		if _, err := gotables.NewTableSetFromFile(dir); err == nil {
			t.Fatalf("reading a directory gave no error")
		}
	})
}
