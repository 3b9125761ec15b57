package gtverif

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"testing"
	"time"

	"github.com/urban-wombat/gotables"
	yaml "gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// C08: malformed JSON, YAML and Gob.

// decodedOK checks a set that a reader accepted.
func decodedOK(t fataler, ts *gotables.TableSet, what string) *MSet {
	t.Helper()
	if ts == nil {
		t.Fatalf("%s: no set and no error", what)
	}
	if ok, err := ts.IsValidTableSet(); !ok || err != nil {
		t.Fatalf("%s: set is not valid: %v, %v", what, ok, err)
	}
	if _, err := gotables.NewTableSet(ts.Name()); err != nil {
		t.Fatalf("%s: set name %q: %v", what, ts.Name(), err)
	}
	s := &MSet{Name: ts.Name()}
	for i := 0; i < ts.TableCount(); i++ {
		tb, err := ts.GetTableByTableIndex(i)
		must(t, err, "GetTableByTableIndex")
		for _, n := range tablesOf(t, tb) {
			wellFormed(t, n, what)
			if isNil, _ := n.IsNilTable(); !isNil {
				validTable(t, n, what)
			}
		}
		s.Tables = append(s.Tables, read(t, tb))
		for j := 0; j < i; j++ {
			if s.Tables[j].Name == s.Tables[i].Name {
				t.Fatalf("%s: tables %d and %d are both [%s]", what, j, i, tb.Name())
			}
		}
	}
	return s
}

// readDoc reads a document in a format, and reports whether it was accepted.
func readDoc(t fataler, format, doc string) (*MSet, error) {
	t.Helper()
	var ts *gotables.TableSet
	var err error
	f := gotables.NewTableSetFromJSON
	if format == "YAML" {
		f = gotables.NewTableSetFromYAML
	}
	if p := try(func() { ts, err = f(doc) }); p != "" {
		t.Fatalf("NewTableSetFrom%s(%q): %s", format, doc, p)
	}
	if format == "JSON" {
		var tb, tn *gotables.Table
		var err1, err2 error
		if p := try(func() { tb, err1 = gotables.NewTableFromJSON(doc) }); p != "" {
			t.Fatalf("NewTableFromJSON(%q): %s", doc, p)
		}
		if p := try(func() { tn, err2 = gotables.NewTableFromJSONByTableName(doc, "a") }); p != "" {
			t.Fatalf("NewTableFromJSONByTableName(%q): %s", doc, p)
		}
		if err != nil && (err1 == nil || err2 == nil) || err1 != nil && tb != nil || err2 != nil && tn != nil {
			t.Fatalf("the JSON readers disagree: %v; %v, %v; %v, %v: %q", err, tb, err1, tn, err2, doc)
		}
	}
	if err != nil {
		if ts != nil {
			t.Fatalf("NewTableSetFrom%s: a set and an error (%v) from %q", format, err, doc)
		}
		return nil, err
	}
	return decodedOK(t, ts, "NewTableSetFrom"+format+" of "+doc), nil
}

// writeBack: what was accepted can be written in the format and read again the same.
func writeBack(t fataler, format string, s *MSet, doc string) {
	t.Helper()
	ts := buildSet(t, s)
	var out string
	var err error
	if format == "JSON" {
		out, err = ts.GetTableSetAsJSON()
	} else {
		out, err = ts.GetTableSetAsYAML()
	}
	if err != nil {
		return // some values can be read but have no exact form in the format (C05, C06)
	}
	again, err := readDoc(t, format, out)
	must(t, err, "reading %q written after reading %q", out, doc)
	if fmt.Sprint(again) != fmt.Sprint(s) {
		t.Fatalf("%s %q reads as %s, and written and read again as %s", format, doc, s, again)
	}
}

func genPlainDoc(v valOpts) *rapid.Generator[*MSet] {
	return gen(func(t *rapid.T) *MSet {
		s := genSet(tableOpts{types: allTypes, maxCols: 4, maxRows: 2, val: v}, 1, 2, false).Draw(t, "set")
		for _, m := range s.Tables {
			drawShapes(t, m)
		}
		return s
	})
}

func writeDoc(t fataler, format string, s *MSet) string {
	t.Helper()
	ts := buildSet(t, s)
	if format == "JSON" {
		js, err := ts.GetTableSetAsJSON()
		must(t, err, "GetTableSetAsJSON of %s", s)
		return js
	}
	y, err := ts.GetTableSetAsYAML()
	must(t, err, "GetTableSetAsYAML of %s", s)
	return y
}

var jsonTokens = []string{"{", "}", "[", "]", ",", ":", `"`, "null", "true", "false", "0", "-1", "1e400", "1.5", "256", "-0", "1e-400", `""`, `"int"`, `"*Table"`, `"metadata"`, `"data"`, `"tableName"`, `"tables"`, `"tableSetName"`, `{"a":1}`, "[]", "{}", `[[]]`, `[{}]`, `"\u0000"`, `"\ud800"`, "\\", "\n", " ", "\x00", "\xff", "18446744073709551616", "9223372036854775808", "-9223372036854775809", "1.0", "1e2", "NaN"}
var yamlTokens = []string{"- ", ": ", "\n", "\n- ", "\n  - ", "  ", "\t", "[", "]", "{", "}", "{}", "[]", "&a ", "*a", "<<: *a", "!!binary ", "!!int ", "!!str ", "!!float ", "!!null ", "!!timestamp ", "!!map ", "!x ", "|", ">", "|-\n", "'", `"`, "#", "---\n", "...\n", "? ", "null", "~", "true", ".nan", ".inf", "-.inf", "0x10", "0o17", "1e400", "2020-01-02", "2020-01-02T03:04:05Z", "data", "metadata", "tables:", "tableName: a\n", "%YAML 1.2\n", "\x00", "\xff", "\ufeff", "18446744073709551615", "-1", "1_0"}

func mutateDoc(t *rapid.T, s, other string, tokens []string) string {
	for n := rapid.IntRange(1, 3).Draw(t, "mutations"); n > 0; n-- {
		at := rapid.IntRange(0, len(s)).Draw(t, "at")
		to := min(len(s), at+rapid.IntRange(0, 12).Draw(t, "len"))
		switch rapid.IntRange(0, 6).Draw(t, "mutation") {
		case 0:
			s = s[:at] + s[to:]
		case 1:
			s = s[:at] + rapid.SampledFrom(tokens).Draw(t, "token") + s[at:]
		case 2:
			s = s[:at] + rapid.SampledFrom(tokens).Draw(t, "token") + s[to:]
		case 3:
			s = s[:at] + string([]byte{rapid.Byte().Draw(t, "byte")}) + s[min(len(s), at+1):]
		case 4:
			s = s[:to] + s[at:to] + s[to:]
		case 5:
			s = s[:at] + other[rapid.IntRange(0, len(other)).Draw(t, "from"):]
		case 6:
			s = s[:at]
		}
	}
	return s
}

func TestC08_mutated(t *testing.T) {
	runCheck(t, "JSON and YAML documents with 1-3 random changes to their text, and random runs of tokens; non-trivial = differs from the document it came from; accepted ones are counted by class", 30000, 1000000, func(t *rapid.T, c *Case) {
		format := rapid.SampledFrom([]string{"JSON", "YAML"}).Draw(t, "format")
		tokens := jsonTokens
		if format == "YAML" {
			tokens = yamlTokens
		}
		var doc, orig string
		if rapid.IntRange(0, 7).Draw(t, "soup") == 0 {
			doc = strings.Join(rapid.SliceOfN(rapid.SampledFrom(tokens), 0, 15).Draw(t, "tokens"), "")
		} else {
			o := valOpts{nested: 1}
			orig = writeDoc(t, format, genPlainDoc(o).Draw(t, "doc"))
			doc = mutateDoc(t, orig, writeDoc(t, format, genPlainDoc(o).Draw(t, "other")), tokens)
		}
		c.Key("%s %s", format, doc)
		c.NonTrivial(doc != orig)
		s, err := readDoc(t, format, doc)
		c.ClassIf(err == nil, format+" accepted")
		c.ClassIf(err != nil, format+" rejected")
		if err == nil {
			writeBack(t, format, s, doc)
		}
	})
}

// ---- trees: the generic form of a JSON or YAML document

// nodesOf lists every place in a tree, as a setter and the value there.
type place struct {
	set  func(any)
	del  func()
	v    any
	path string
}

func places(v any, path string, set func(any), del func(), out *[]place) {
	*out = append(*out, place{set, del, v, path})
	switch x := v.(type) {
	case map[string]any:
		for _, k := range sortedKeys(x) {
			places(x[k], path+"."+k, func(n any) { x[k] = n }, func() { delete(x, k) }, out)
		}
	case []any:
		for i := range x {
			places(x[i], fmt.Sprintf("%s[%d]", path, i), func(n any) { x[i] = n },
				func() { set(append(append([]any{}, x[:i]...), x[i+1:]...)) }, out)
		}
	}
}

// toTree decodes a document into its generic form.
func toTree(t fataler, format, doc string) map[string]any {
	t.Helper()
	if format == "JSON" {
		return decodeJSON(t, doc)
	}
	var o map[string]any
	must(t, yaml.Unmarshal([]byte(doc), &o), "yaml.Unmarshal")
	return o
}

func fromTree(t fataler, format string, o any) string {
	t.Helper()
	if format == "JSON" {
		b, err := json.Marshal(o)
		must(t, err, "json.Marshal")
		return string(b)
	}
	b, err := yaml.Marshal(o)
	must(t, err, "yaml.Marshal")
	return string(b)
}

// genNode: any value a document might hold at some place.
func genNode(format string) *rapid.Generator[any] {
	scalars := []any{nil, true, false, "", "a", "int", "*Table", "[]byte", "time.Time", "\u00e9", "2020-01-02T03:04:05Z", "not a time", "rune", []any{}, map[string]any{}, []any{[]any{}}, []any{nil}, map[string]any{"a": nil}, map[string]any{"a": "int"}, []any{map[string]any{}}, map[string]any{"tableName": "n", "metadata": []any{}}, map[string]any{"tableName": "n", "metadata": []any{map[string]any{"a": "int"}}, "data": []any{[]any{}}}}
	nums := []string{"0", "-1", "1", "1.5", "127", "128", "-129", "255", "256", "32768", "65536", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "1e30", "-1e30"}
	for _, n := range nums {
		if format == "JSON" {
			scalars = append(scalars, json.Number(n))
		} else {
			var v any
			_ = yaml.Unmarshal([]byte(n), &v)
			scalars = append(scalars, v)
		}
	}
	if format == "JSON" {
		scalars = append(scalars, json.Number("1e400"), json.Number("1.0"), json.Number("1e2"), json.Number("18446744073709551616"))
	} else {
		scalars = append(scalars, math.NaN(), math.Inf(1), time.Unix(0, 0).UTC(), map[any]any{1: 2})
	}
	return rapid.SampledFrom(scalars)
}

// Any value at any place, any place removed or repeated: no panic, and nothing invalid accepted.
func TestC08_tree(t *testing.T) {
	runCheck(t, "well-formed JSON and YAML documents with 1-2 places at random replaced by any value, removed or repeated; non-trivial = all; accepted ones are counted by class", 20000, 600000, func(t *rapid.T, c *Case) {
		format := rapid.SampledFrom([]string{"JSON", "YAML"}).Draw(t, "format")
		orig := writeDoc(t, format, genPlainDoc(valOpts{nested: 2}).Draw(t, "doc"))
		var root any = toTree(t, format, orig)
		for n := rapid.IntRange(1, 2).Draw(t, "changes"); n > 0; n-- {
			var ps []place
			places(root, "", func(v any) { root = v }, func() {}, &ps)
			p := ps[rapid.IntRange(0, len(ps)-1).Draw(t, "place")]
			switch rapid.IntRange(0, 4).Draw(t, "change") {
			case 0:
				p.del()
			case 1:
				if l, ok := p.v.([]any); ok && len(l) > 0 {
					i := rapid.IntRange(0, len(l)-1).Draw(t, "element")
					p.set(append(append([]any{}, l...), l[i]))
					break
				}
				fallthrough
			default:
				p.set(genNode(format).Draw(t, "node"))
			}
		}
		doc := fromTree(t, format, root)
		c.Key("%s %s", format, doc)
		c.NonTrivial(true)
		s, err := readDoc(t, format, doc)
		c.ClassIf(err == nil, format+" accepted")
		c.ClassIf(err != nil, format+" rejected")
		if err == nil {
			writeBack(t, format, s, doc)
		}
	})
}

// badCell: a value that is not one of the type's in the format.
func badCell(t *rapid.T, format, typ string) any {
	num := func(s string) any {
		if format == "JSON" {
			return json.Number(s)
		}
		var v any
		_ = yaml.Unmarshal([]byte(s), &v)
		return v
	}
	str, boolean, null := any("text"), any(true), any(nil)
	list := any([]any{num("1"), num("2")})
	obj := any(map[string]any{"a": num("1")})
	var bad []any
	over := map[string][]string{
		"int": {"9223372036854775808", "-9223372036854775809", "1.5", "1e30"}, "int64": {"9223372036854775808", "-9223372036854775809", "0.5", "1e19"},
		"int32": {"2147483648", "-2147483649", "0.5"}, "int16": {"32768", "-32769", "2.5"}, "int8": {"128", "-129", "1.25"},
		"uint": {"18446744073709551616", "-1", "1.5"}, "uint64": {"18446744073709551616", "-1", "1.5"}, "uint32": {"4294967296", "-1", "1.5"},
		"uint16": {"65536", "-1", "0.5"}, "uint8": {"256", "-1", "1.5"}, "byte": {"256", "-1", "1.5"},
		"float32": {"1e39", "-3.5e38"}, "float64": {},
	}
	switch typ {
	case "string":
		bad = []any{num("1"), boolean, null, list, obj, num("1.5")}
	case "bool":
		bad = []any{num("1"), num("0"), str, "true", null, list, obj}
	case "time.Time":
		bad = []any{num("1"), str, boolean, null, list, obj, "2020-13-01T00:00:00Z", "2020-01-02T03:04:05", ""}
	case "rune":
		if format == "JSON" {
			bad = []any{num("97"), "", "ab", boolean, null, list, obj}
		} else {
			bad = []any{num("2147483648"), num("-2147483649"), str, "a", num("1.5"), boolean, null, list, obj}
		}
	case "[]byte", "[]uint8":
		bad = []any{num("1"), str, boolean, null, obj, []any{num("256")}, []any{num("1"), num("-1")}, []any{num("1.5")}, []any{"1"}, []any{nil}, []any{true}, []any{[]any{}}, []any{num("0"), num("300"), num("0")}}
	case "*Table":
		bad = []any{num("1"), str, boolean, list, obj, map[string]any{}, map[string]any{"metadata": []any{}, "data": []any{}}, map[string]any{"tableName": "int", "metadata": []any{}, "data": []any{}}, map[string]any{"tableName": num("3"), "metadata": []any{}, "data": []any{}}, map[string]any{"tableName": "x"}}
		if format == "YAML" {
			bad = append(bad, null)
		}
	default:
		bad = []any{str, "1", boolean, null, list, obj}
		for _, s := range over[typ] {
			bad = append(bad, num(s))
		}
		if format == "JSON" && strings.HasPrefix(typ, "float") {
			bad = append(bad, num("1e400"))
		}
		if format == "YAML" && !strings.HasPrefix(typ, "float") {
			bad = append(bad, math.NaN(), math.Inf(1))
		}
	}
	return rapid.SampledFrom(bad).Draw(t, "badValue")
}

// One definite fault in the structure of a document must be an error.
func TestC08_damaged(t *testing.T) {
	runCheck(t, "well-formed JSON and YAML documents with exactly one definite structural fault at a random place and depth (key missing or of the wrong kind, cell of the wrong kind or out of range, row too short or too long, bad or repeated name, unknown type, text after the end, cut short); non-trivial = all", 30000, 1000000, func(t *rapid.T, c *Case) {
		format := rapid.SampledFrom([]string{"JSON", "YAML"}).Draw(t, "format")
		s := genPlainDoc(valOpts{nested: 2}).Draw(t, "doc")
		orig := writeDoc(t, format, s)
		root := toTree(t, format, orig)
		// Tables of the tree with their models.
		type node struct {
			m *MT
			o map[string]any
		}
		var nodes []node
		var walk func(m *MT, o map[string]any)
		walk = func(m *MT, o map[string]any) {
			nodes = append(nodes, node{m, o})
			rows, _ := o["data"].([]any)
			for r := range m.Rows {
				for i, col := range m.Cols {
					if n, ok := m.Rows[r][i].(*MT); ok && !n.Nil {
						v := rows[r].([]any)[i]
						if format == "JSON" {
							v = v.(map[string]any)[col.Name]
						}
						walk(n, v.(map[string]any))
					}
				}
			}
		}
		tables := root["tables"].([]any)
		for i, m := range s.Tables {
			walk(m, tables[i].(map[string]any))
		}
		n := nodes[rapid.IntRange(0, len(nodes)-1).Draw(t, "table")]
		md, _ := n.o["metadata"].([]any)
		data, _ := n.o["data"].([]any)
		wrong := func(not string) any { // a value that is not a string, list or map
			vs := []any{true, 1, 1.5}
			if not != "string" {
				vs = append(vs, "x")
			}
			if not != "list" {
				vs = append(vs, []any{})
			}
			if not != "map" {
				vs = append(vs, map[string]any{})
			}
			return rapid.SampledFrom(vs).Draw(t, "wrong")
		}
		kinds := []string{"no tableSetName", "no tables", "wrong tableSetName", "wrong tables", "wrong table", "bad set name", "no tableName", "no metadata", "wrong tableName", "wrong metadata", "wrong data", "bad tableName", "wrong isStructShape", "text after", "repeated table"}
		if len(md) > 0 {
			if format == "YAML" { // There, a table without a name is a nil table and has nothing else.
				kinds = append(kinds, "empty tableName")
			}
			kinds = append(kinds, "wrong column", "unknown type", "wrong type", "bad column name", "repeated column", "empty column", "column of two")
		}
		if len(md) > 0 && len(data) > 0 {
			kinds = append(kinds, "short row", "long row", "wrong row", "bad cell", "bad cell", "bad cell", "bad cell", "empty row", "extra column", "missing column")
			if format == "JSON" {
				kinds = append(kinds, "cell name", "empty cell", "cell of two", "bare cell", "exchanged cells")
			}
		}
		if format == "JSON" {
			kinds = append(kinds, "cut short")
		}
		kind := rapid.SampledFrom(kinds).Draw(t, "kind")
		badName := func(types bool) any {
			bad := []any{"1a", "a b", "a-b", "é", "[x]", " a", "a\n"}
			if types { // a set, unlike a table or column, may have the name of a type
				bad = append(bad, "int", "string")
			}
			return rapid.SampledFrom(bad).Draw(t, "badName")
		}
		col := 0
		if len(md) > 0 {
			col = rapid.IntRange(0, len(md)-1).Draw(t, "col")
		}
		row := 0
		var cells []any
		if len(data) > 0 {
			row = rapid.IntRange(0, len(data)-1).Draw(t, "row")
			cells = data[row].([]any)
		}
		post := func(s string) string { return s }
		switch kind {
		case "no tableSetName":
			delete(root, "tableSetName")
		case "no tables":
			delete(root, "tables")
		case "wrong tableSetName":
			root["tableSetName"] = wrong("string")
		case "wrong tables":
			root["tables"] = wrong("list")
		case "wrong table":
			tables[rapid.IntRange(0, len(tables)-1).Draw(t, "which")] = wrong("map")
		case "bad set name":
			root["tableSetName"] = badName(false)
		case "no tableName":
			delete(n.o, "tableName")
		case "no metadata":
			delete(n.o, "metadata")
		case "wrong tableName":
			n.o["tableName"] = wrong("string")
		case "bad tableName":
			n.o["tableName"] = badName(true)
		case "empty tableName":
			n.o["tableName"] = ""
		case "wrong metadata":
			n.o["metadata"] = wrong("list")
		case "wrong data":
			n.o["data"] = wrong("list")
		case "wrong isStructShape":
			n.o["isStructShape"] = rapid.SampledFrom([]any{"true", 1, []any{}, "x"}).Draw(t, "wrongShape")
		case "repeated table":
			root["tables"] = append(tables, tables[rapid.IntRange(0, len(tables)-1).Draw(t, "which")])
		case "text after":
			if format == "JSON" {
				tail := rapid.SampledFrom([]string{"x", "{}", "}", "]", `""`, " 1", "\n{}", ",", orig}).Draw(t, "tail")
				post = func(s string) string { return s + tail }
			} else {
				tail := rapid.SampledFrom([]string{"---\n" + orig, "---\nx: 1\n", "\n- x\n", "\n]\n", "--- x\n"}).Draw(t, "tail")
				post = func(s string) string { return s + tail }
			}
		case "cut short":
			k := rapid.IntRange(0, len(orig)-1).Draw(t, "cut")
			post = func(string) string { return orig[:k] }
		case "wrong column":
			md[col] = wrong("map")
		case "unknown type":
			name := sortedKeys(md[col].(map[string]any))[0]
			md[col] = map[string]any{name: rapid.SampledFrom([]any{"", "integer", "Int", "int128", "*table", "[]int", "Time", "error", "interface{}", "[]string", "complex64"}).Draw(t, "unknown")}
		case "wrong type":
			name := sortedKeys(md[col].(map[string]any))[0]
			md[col] = map[string]any{name: wrong("string")}
		case "bad column name":
			name := sortedKeys(md[col].(map[string]any))[0]
			typ := md[col].(map[string]any)[name]
			bn := badName(true).(string)
			md[col] = map[string]any{bn: typ}
			if format == "JSON" {
				for _, r := range data {
					cs := r.([]any)
					cs[col] = map[string]any{bn: cs[col].(map[string]any)[name]}
				}
			}
		case "repeated column":
			n.o["metadata"] = append(append([]any{}, md...), md[col])
			for r := range data {
				cs := data[r].([]any)
				data[r] = append(append([]any{}, cs...), cs[col])
			}
		case "empty column":
			md[col] = map[string]any{}
		case "column of two":
			md[col].(map[string]any)["another__"] = "int"
		case "short row":
			data[row] = append(append([]any{}, cells[:col]...), cells[col+1:]...)
		case "long row":
			data[row] = append(append([]any{}, cells...), cells[col])
		case "empty row":
			data[row] = []any{}
		case "extra column":
			n.o["metadata"] = append(append([]any{}, md...), map[string]any{"extra__": "int"})
		case "missing column":
			n.o["metadata"] = append(append([]any{}, md[:col]...), md[col+1:]...)
		case "wrong row":
			data[row] = wrong("list")
		case "bad cell":
			v := badCell(t, format, n.m.Cols[col].Type)
			if format == "JSON" {
				v = map[string]any{n.m.Cols[col].Name: v}
			}
			cells[col] = v
			kind += " " + n.m.Cols[col].Type
		case "cell name":
			name := "noSuchColumn__"
			if own := n.m.Cols[col].Name; oneIn(t, 2, "like") { // Nearly the name of the column.
				near := []string{strings.ToUpper(own), strings.ToLower(own), own + "_", own + " ", " " + own, "_" + own, own[:len(own)-1], own[1:], ""}
				if nearly := rapid.SampledFrom(near).Draw(t, "near"); nearly != own {
					name = nearly
				}
			}
			cells[col] = map[string]any{name: cells[col].(map[string]any)[n.m.Cols[col].Name]}
		case "empty cell":
			cells[col] = map[string]any{}
		case "cell of two":
			cells[col].(map[string]any)["another__"] = json.Number("1")
		case "bare cell":
			cells[col] = cells[col].(map[string]any)[n.m.Cols[col].Name]
			if _, isTable := cells[col].(map[string]any); isTable {
				kind += " table"
			}
		case "exchanged cells":
			i := rapid.IntRange(0, len(md)-1).Draw(t, "other")
			if i == col {
				cells[col] = map[string]any{} // nothing to exchange with
			} else {
				cells[col], cells[i] = cells[i], cells[col]
			}
		}
		switch kind {
		case "no metadata", "wrong tableName", "empty tableName", "wrong metadata", "bad tableName", "wrong isStructShape", "wrong column", "unknown type", "wrong type", "bad column name", "repeated column", "empty column", "column of two":
			if oneIn(t, 3, "noData") { // And nothing after it.
				delete(n.o, "data")
				kind += ", no data"
			}
		}
		doc := post(fromTree(t, format, root))
		c.Key("%s %s: %s", format, kind, doc)
		c.NonTrivial(true)
		c.Class(format + " " + kind)
		if got, err := readDoc(t, format, doc); err == nil {
			t.Fatalf("%s with %s is accepted as %s:\n%s", format, kind, got, doc)
		}
	})
}

// ---------------------------------------------------------------- Gob

// The shape of an encoded table, for encoding what the library itself would not.
type gobKey struct {
	ColName, ColType string
	Reverse          bool
}
type gobTable struct {
	TableName   string
	ColNames    []string
	ColTypes    []string
	ColNamesMap map[string]int
	Rows        [][]any
	SortKeys    []gobKey
	StructShape bool
}

func gobOf(t fataler, v any) []byte {
	t.Helper()
	var b bytes.Buffer
	must(t, gob.NewEncoder(&b).Encode(v), "harness: gob")
	return b.Bytes()
}

func readGob(t fataler, b []byte, what string) (*gotables.Table, error) {
	t.Helper()
	var tb *gotables.Table
	var err error
	if p := try(func() { tb, err = gotables.NewTableFromGob(b) }); p != "" {
		t.Fatalf("NewTableFromGob of %s: %s", what, p)
	}
	if (err == nil) != (tb != nil) {
		t.Fatalf("NewTableFromGob of %s: %v, %v", what, tb, err)
	}
	if err == nil {
		wellFormed(t, tb, what)
		validTable(t, tb, what)
		_ = keysOf(t, tb)
		_ = tb.String()
		if tb.SortKeyCount() > 0 {
			again, err := gotables.NewTableFromGob(b)
			must(t, err, "decoding again")
			must(t, again.Sort(), "Sort of a decoded table")
		}
	}
	return tb, err
}

func TestC08_gobbytes(t *testing.T) {
	runCheck(t, "Gob encoded tables and sets with bytes changed, removed, inserted, repeated or cut short, buffers removed, exchanged or empty; non-trivial = differs from the encoding it came from", 12000, 400000, func(t *rapid.T, c *Case) {
		s := &MSet{Name: "s"}
		ts, err := gotables.NewTableSet("s")
		must(t, err, "NewTableSet")
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "ntables"); i < n; i++ {
			k := genGobTable(true).Filter(func(k keyed) bool { return !gobUnsupported(k.m) }).Draw(t, "table")
			k.m.Name = fmt.Sprintf("t%d", i)
			tb := build(t, k.m)
			setKeys(t, tb, k.keys)
			must(t, ts.AppendTable(tb), "AppendTable")
			s.Tables = append(s.Tables, k.m)
		}
		bufs, err := ts.GobEncode()
		must(t, err, "GobEncode")
		parts := make([][]byte, len(bufs))
		changed := false
		for i := range bufs {
			parts[i] = append([]byte{}, bufs[i].Bytes()...)
		}
		for n := rapid.IntRange(1, 4).Draw(t, "changes"); n > 0 && len(parts) > 0; n-- {
			pi := rapid.IntRange(0, len(parts)-1).Draw(t, "part")
			b := parts[pi]
			if len(b) == 0 {
				continue
			}
			at := rapid.IntRange(0, len(b)-1).Draw(t, "at")
			switch rapid.IntRange(0, 8).Draw(t, "change") {
			case 8:
				parts = append(parts, append([]byte{}, b...))
				if i := rapid.IntRange(0, len(parts)-1).Draw(t, "moved"); i < len(parts)-1 {
					parts[i], parts[len(parts)-1] = parts[len(parts)-1], parts[i]
				}
				changed = true
				continue
			case 0:
				b[at] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			case 1:
				b[at] = rapid.Byte().Draw(t, "byte")
			case 2:
				b = append(b[:at:at], b[at+1:]...)
			case 3:
				b = append(append(b[:at:at], rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "bytes")...), b[at:]...)
			case 4:
				b = b[:at]
			case 5:
				b = append(b, b[at:]...)
			case 6:
				parts = append(parts[:pi:pi], parts[pi+1:]...)
				changed = true
				continue
			case 7:
				j := rapid.IntRange(0, len(parts)-1).Draw(t, "exchange")
				parts[pi], parts[j] = parts[j], parts[pi]
				continue
			}
			parts[pi] = b
		}
		var broken []bytes.Buffer
		var key strings.Builder
		for i := range parts {
			changed = changed || i >= len(bufs) || !bytes.Equal(parts[i], bufs[i].Bytes())
			broken = append(broken, *bytes.NewBuffer(parts[i]))
			fmt.Fprintf(&key, "%x ", parts[i])
		}
		c.Key("%s", key.String())
		c.NonTrivial(changed)
		var back *gotables.TableSet
		if p := try(func() { back, err = gotables.NewTableSetFromGob(broken) }); p != "" {
			t.Fatalf("NewTableSetFromGob(%s): %s", key.String(), p)
		}
		if (err == nil) != (back != nil) {
			t.Fatalf("NewTableSetFromGob(%s): %v, %v", key.String(), back, err)
		}
		c.ClassIf(err == nil, "accepted")
		c.ClassIf(err != nil, "rejected")
		if err == nil {
			decodedOK(t, back, "NewTableSetFromGob")
		} else if !changed && fmt.Sprint(parts) == fmt.Sprint(bufs) {
			t.Fatalf("NewTableSetFromGob: %v", err)
		}
		for i := range parts {
			_, _ = readGob(t, parts[i], fmt.Sprintf("bytes %x", parts[i]))
		}
	})
}

func TestC08_gobdamaged(t *testing.T) {
	runCheck(t, "well-formed Gob of a table with exactly one definite fault (names and types of different lengths, bad or repeated name, unknown type, row too short or long, cell of another type or missing, unknown or unsortable sort key); non-trivial = all", 10000, 300000, func(t *rapid.T, c *Case) {
		k := genGobTable(true).Filter(func(k keyed) bool { return !gobUnsupported(k.m) && len(k.m.Cols) > 0 }).Draw(t, "table")
		m := k.m
		g := gobTable{TableName: m.Name, ColNamesMap: map[string]int{}}
		for i, col := range m.Cols {
			g.ColNames = append(g.ColNames, col.Name)
			g.ColTypes = append(g.ColTypes, col.Type)
			g.ColNamesMap[col.Name] = i
		}
		for _, r := range m.Rows {
			g.Rows = append(g.Rows, append([]any{}, r...))
		}
		for _, key := range k.keys {
			g.SortKeys = append(g.SortKeys, gobKey{key.Col, m.Cols[m.colIndex(key.Col)].Type, key.Reverse})
		}
		// Undamaged, it is the table.
		tb, err := readGob(t, gobOf(t, g), "harness: undamaged table")
		must(t, err, "NewTableFromGob of %s", m)
		sameTable(t, m, tb, "Gob of the same shape")
		sameKeys(t, k.keys, tb, "Gob of the same shape")

		// Cut short anywhere, a table or the header of a set is an error: its value comes last.
		whole := gobOf(t, g)
		cut := whole[:rapid.IntRange(0, len(whole)-1).Draw(t, "cutTable")]
		if tb, err := readGob(t, cut, "a table cut short"); err == nil {
			t.Fatalf("%d of %d bytes of Gob are accepted as %s", len(cut), len(whole), read(t, tb))
		}
		header := gobOf(t, struct{ TableSetName, FileName string }{rapid.SampledFrom([]string{"", "s"}).Draw(t, "setName"), rapid.SampledFrom([]string{"", "f"}).Draw(t, "fileName")})
		_, err = gotables.NewTableSetFromGob([]bytes.Buffer{*bytes.NewBuffer(whole), *bytes.NewBuffer(header)})
		must(t, err, "NewTableSetFromGob of %s", m)
		headCut := header[:rapid.IntRange(0, len(header)-1).Draw(t, "cutHeader")]
		if ts, err := gotables.NewTableSetFromGob([]bytes.Buffer{*bytes.NewBuffer(whole), *bytes.NewBuffer(headCut)}); err == nil {
			t.Fatalf("a set with %d of the %d bytes of its header is accepted as %s", len(headCut), len(header), ts.String())
		}

		kinds := []string{"no table name", "bad table name", "bad column name", "repeated column", "unknown type", "types too few", "types too many", "names too few", "unknown sort key"}
		if len(m.Rows) > 0 {
			kinds = append(kinds, "short row", "long row", "empty row", "wrong cell", "wrong cell", "wrong cell", "no cell")
		}
		kind := rapid.SampledFrom(kinds).Draw(t, "kind")
		col := rapid.IntRange(0, len(m.Cols)-1).Draw(t, "col")
		row := 0
		if len(m.Rows) > 0 {
			row = rapid.IntRange(0, len(m.Rows)-1).Draw(t, "row")
		}
		badName := func() string {
			return rapid.SampledFrom([]string{"1a", "a b", "é", "int", "[x]", " a", "a\n"}).Draw(t, "badName")
		}
		switch kind {
		case "no table name":
			g.TableName = ""
		case "bad table name":
			g.TableName = badName()
		case "bad column name":
			g.ColNames[col] = badName()
			g.ColNamesMap[g.ColNames[col]] = col
			delete(g.ColNamesMap, m.Cols[col].Name)
			g.SortKeys = nil
		case "repeated column":
			g.ColNames = append(g.ColNames, g.ColNames[col])
			g.ColTypes = append(g.ColTypes, g.ColTypes[col])
			for r := range g.Rows {
				g.Rows[r] = append(g.Rows[r], g.Rows[r][col])
			}
		case "unknown type":
			g.ColTypes[col] = rapid.SampledFrom([]string{"", "integer", "Int", "*table", "[]int"}).Draw(t, "unknown")
		case "types too few":
			g.ColTypes = g.ColTypes[:len(g.ColTypes)-1]
		case "types too many":
			g.ColTypes = append(g.ColTypes, "int")
		case "names too few":
			g.ColNames = g.ColNames[:len(g.ColNames)-1]
			g.SortKeys = nil
		case "unknown sort key":
			g.SortKeys = append(g.SortKeys, gobKey{"noSuchColumn__", "int", false})
		case "short row":
			g.Rows[row] = g.Rows[row][:len(g.Rows[row])-1]
		case "long row":
			g.Rows[row] = append(g.Rows[row], g.Rows[row][col])
		case "empty row":
			g.Rows[row] = []any{}
		case "no cell":
			g.Rows[row][col] = nil
		case "wrong cell":
			typ := rapid.SampledFrom(plainTypes).Filter(func(ty string) bool { return canonType(ty) != canonType(m.Cols[col].Type) }).Draw(t, "otherType")
			g.Rows[row][col] = zeroOf(typ)
			kind += " " + m.Cols[col].Type
		}
		c.Key("%s of col %d row %d: %s", kind, col, row, m)
		c.NonTrivial(true)
		c.Class(kind)
		if tb, err := readGob(t, gobOf(t, g), kind); err == nil {
			t.Fatalf("Gob with %s is accepted as %s", kind, read(t, tb))
		}
		set := []bytes.Buffer{*bytes.NewBuffer(gobOf(t, g)), *bytes.NewBuffer(gobOf(t, struct{ TableSetName, FileName string }{"", ""}))}
		var ts *gotables.TableSet
		if p := try(func() { ts, err = gotables.NewTableSetFromGob(set) }); p != "" {
			t.Fatalf("NewTableSetFromGob with %s: %s", kind, p)
		}
		if err == nil || ts != nil {
			t.Fatalf("Gob set with %s is accepted", kind)
		}
	})
}
