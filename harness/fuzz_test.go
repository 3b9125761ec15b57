package gtverif

// Coverage-guided targets for C03 and C08, with the same oracles as the generated cases.
// The thorough tier runs them; their seeds are documents from the generators.

import (
	"bytes"
	"math"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

func FuzzC03_text(f *testing.F) {
	for _, k := range soupTokens {
		f.Add(k)
	}
	docs := gen(func(t *rapid.T) string {
		s, _ := docOf(t, genDocSet(2, 4, 2).Draw(t, "set"), true, false).render(t)
		return s
	})
	soups := genSoup()
	for i := 1; i <= 60; i++ {
		f.Add(docs.Example(i))
		f.Add(soups.Example(i))
	}
	f.Fuzz(func(t *testing.T, text string) {
		if len(text) < 3000 {
			totalParse(t, text)
		}
	})
}

func fuzzDocs(f *testing.F, format string, tokens []string) {
	for _, k := range tokens {
		f.Add(k)
	}
	docs := gen(func(t *rapid.T) string {
		return writeDoc(t, format, genPlainDoc(valOpts{nested: 1}).Draw(t, "doc"))
	})
	for i := 1; i <= 80; i++ {
		f.Add(docs.Example(i))
	}
	f.Fuzz(func(t *testing.T, doc string) {
		if len(doc) > 3000 || format == "YAML" && strings.Count(doc, "*") > 8 {
			return // Aliases of aliases expand without limit in any YAML reader.
		}
		if s, err := readDoc(t, format, doc); err == nil {
			writeBack(t, format, s, doc)
		}
	})
}

func FuzzC08_JSON(f *testing.F) { fuzzDocs(f, "JSON", jsonTokens) }

func FuzzC08_YAML(f *testing.F) { fuzzDocs(f, "YAML", yamlTokens) }

func FuzzC08_Gob(f *testing.F) {
	docs := gen(func(t *rapid.T) []byte {
		k := genGobTable(true).Filter(func(k keyed) bool { return !gobUnsupported(k.m) }).Draw(t, "table")
		tb := build(t, k.m)
		setKeys(t, tb, k.keys)
		b, err := tb.GobEncode()
		must(t, err, "GobEncode")
		return b
	})
	for i := 1; i <= 80; i++ {
		f.Add(docs.Example(i))
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		if len(b) > 3000 {
			return
		}
		if _, err := readGob(t, b, "bytes"); err != nil {
			return
		}
		var ts *gotables.TableSet
		var err error
		if p := try(func() { ts, err = gotables.NewTableSetFromGob([]bytes.Buffer{*bytes.NewBuffer(b)}) }); p != "" {
			t.Fatalf("NewTableSetFromGob: %s", p)
		}
		if (err == nil) != (ts != nil) {
			t.Fatalf("NewTableSetFromGob: %v, %v", ts, err)
		}
		if err == nil {
			decodedOK(t, ts, "NewTableSetFromGob")
		}
	})
}

// fuzzCells drives a round trip with cells of any value, at any of three depths, among others or alone.
func fuzzCells(f *testing.F, nested bool, roundTrip func(t fataler, s *MSet)) {
	for i, s := range []string{"", " ", "\n", "a\nb", " a\nb ", "\n\n", "a: b", "- a", "'", `"`, "\\", "#", "null", "~", "1", "1e3", ".nan", "0x1", "yes", "2020-01-01", "\u2028", "\u0085", "\ufeff", "\x00", "\xff", "<&>", "é", "\U0001f600", "\t", "\r\n", "a,b", "[]", "{}", "=", "|", ">", "%", "@", "`", "?", "!!str", "&a", "*a", "---", "..."} {
		f.Add(s, "x", []byte(s), uint64(i)<<52|1, uint32(i)<<23|1, int64(i), byte(i))
		f.Add("y", s, []byte{}, uint64(i), uint32(i), int64(-i), byte(i))
	}
	f.Fuzz(func(t *testing.T, s1, s2 string, b []byte, f64 uint64, f32 uint32, n int64, how byte) {
		if len(s1)+len(s2)+len(b) > 2000 {
			return
		}
		x, y := math.Float64frombits(f64), math.Float32frombits(f32)
		m := &MT{Name: "t", Cols: []Col{{"s", "string"}, {"b", "[]byte"}, {"f", "float64"}, {"g", "float32"}, {"n", "int64"}, {"u", "string"}, {"r", "rune"}, {"k", "uint64"}}}
		m.Rows = [][]any{{s1, append([]byte{}, b...), x, y, n, s2, rune(how) * 257, uint64(n)}}
		if how&1 != 0 {
			m.Rows = append(m.Rows, []any{s2, []byte{}, float64(n), float32(n), -n, s1, 'x', f64})
		} else if how&2 != 0 {
			m.Struct = true
		}
		if how&4 != 0 {
			m.Cols, m.Rows[0] = m.Cols[:1], m.Rows[0][:1]
			if len(m.Rows) > 1 {
				m.Rows[1] = m.Rows[1][:1]
			}
		}
		for d := how >> 3 & 3; d > 0 && nested; d-- {
			m = &MT{Name: "t", Cols: []Col{{"n", "*Table"}, {"s", "string"}}, Rows: [][]any{{m, s2}}}
		}
		roundTrip(t, &MSet{Name: "s", Tables: []*MT{m, {Name: "z", Cols: []Col{{"s", "string"}}, Rows: [][]any{{s1}}}}})
	})
}

func FuzzC01_cells(f *testing.F) {
	fuzzCells(f, false, func(t fataler, s *MSet) {
		for _, r := range s.Tables[0].Rows {
			for i, v := range r {
				if x, ok := v.(rune); ok && s.Tables[0].Cols[i].Type == "rune" && !utf8.ValidRune(x) {
					r[i] = 'x' // There is no literal for what is not a character.
				}
			}
		}
		ts := buildSet(t, s)
		for _, text := range []string{ts.String(), ts.StringUnpadded()} {
			back, err := gotables.NewTableSetFromString(text)
			must(t, err, "parsing %q", text)
			sameSet(t, s, back, "text round trip of "+text)
		}
	})
}

func FuzzC05_cells(f *testing.F) {
	fuzzCells(f, true, func(t fataler, s *MSet) {
		ts := buildSet(t, s)
		js, err := ts.GetTableSetAsJSON()
		if err != nil {
			if js != "" {
				t.Fatalf("%q and %v", js, err)
			}
			if can := canJSON(s); can {
				t.Fatalf("GetTableSetAsJSON of %s: %v", s, err)
			}
			return
		}
		back, err := gotables.NewTableSetFromJSON(js)
		must(t, err, "NewTableSetFromJSON(%s)", js)
		sameDoc(t, s, back, "JSON round trip of "+js)
	})
}

// canJSON: no value that JSON cannot carry.
func canJSON(s *MSet) bool {
	var can func(m *MT) bool
	can = func(m *MT) bool {
		for _, r := range m.Rows {
			for i, v := range r {
				switch x := v.(type) {
				case string:
					if !utf8.ValidString(x) {
						return false
					}
				case float64:
					if math.IsNaN(x) || math.IsInf(x, 0) {
						return false
					}
				case float32:
					if f := float64(x); math.IsNaN(f) || math.IsInf(f, 0) {
						return false
					}
				case rune:
					if m.Cols[i].Type == "rune" && !utf8.ValidRune(x) {
						return false
					}
				case *MT:
					if !can(x) {
						return false
					}
				}
			}
		}
		return true
	}
	for _, m := range s.Tables {
		if !can(m) {
			return false
		}
	}
	return true
}

func FuzzC06_cells(f *testing.F) {
	fuzzCells(f, true, func(t fataler, s *MSet) {
		ts := buildSet(t, s)
		y, err := ts.GetTableSetAsYAML()
		must(t, err, "GetTableSetAsYAML of %s", s)
		back, err := gotables.NewTableSetFromYAML(y)
		must(t, err, "NewTableSetFromYAML(%s)", y)
		sameDoc(t, s, back, "YAML round trip of "+y)
	})
}

func FuzzC07_cells(f *testing.F) {
	fuzzCells(f, false, func(t fataler, s *MSet) {
		bufs, err := buildSet(t, s).GobEncode()
		must(t, err, "GobEncode of %s", s)
		back, err := gotables.NewTableSetFromGob(bufs)
		must(t, err, "NewTableSetFromGob")
		sameDoc(t, s, back, "Gob round trip")
	})
}
