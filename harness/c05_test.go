package gtverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/urban-wombat/gotables"
	yaml "gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// C05 JSON, C06 YAML, C07 Gob: round trips.

// genDoc: a set of tables with nested tables, some in struct shape at any depth.
func genDoc(v valOpts, maxTables int) *rapid.Generator[*MSet] {
	return gen(func(t *rapid.T) *MSet {
		s := genSet(tableOpts{types: allTypes, maxCols: 5, maxRows: 3, val: v}, 0, maxTables, false).Draw(t, "set")
		if rapid.IntRange(0, 3).Draw(t, "deep") == 0 && len(s.Tables) > 0 {
			m := chain(t, rapid.IntRange(2, 12).Draw(t, "depth"))
			m.Name = s.Tables[0].Name
			s.Tables[0] = m
		}
		for _, m := range s.Tables {
			drawShapes(t, m)
		}
		return s
	})
}

func drawShapes(t *rapid.T, m *MT) {
	if m.Nil {
		return
	}
	m.Struct = rapid.IntRange(0, 2).Draw(t, "struct") == 0
	eachNested(m, func(n *MT) { drawShapes(t, n) })
}

func eachNested(m *MT, f func(*MT)) {
	for _, r := range m.Rows {
		for _, v := range r {
			if n, ok := v.(*MT); ok && !n.Nil {
				f(n)
			}
		}
	}
}

func depthOf(m *MT) int {
	d := 0
	eachNested(m, func(n *MT) { d = max(d, depthOf(n)) })
	return d + 1
}

func allTables(m *MT, f func(*MT)) {
	f(m)
	eachNested(m, func(n *MT) { allTables(n, f) })
}

// sameShapes compares struct shape at every depth.
func sameShapes(t fataler, want, got *MT, what string) {
	t.Helper()
	if want.Nil {
		return
	}
	if want.Struct != got.Struct {
		t.Fatalf("%s: table [%s]: struct shape %v, want %v", what, want.Name, got.Struct, want.Struct)
	}
	for r := range want.Rows {
		for c := range want.Cols {
			if n, ok := want.Rows[r][c].(*MT); ok {
				sameShapes(t, n, got.Rows[r][c].(*MT), what)
			}
		}
	}
}

func sameDoc(t fataler, want *MSet, ts *gotables.TableSet, what string) {
	t.Helper()
	if ts == nil {
		t.Fatalf("%s: nil set without error", what)
	}
	sameSet(t, want, ts, what)
	for i, m := range want.Tables {
		tb, err := ts.GetTableByTableIndex(i)
		must(t, err, "GetTableByTableIndex")
		sameShapes(t, m, read(t, tb), what)
		validTable(t, tb, what)
	}
}

func docCase(c *Case, s *MSet) {
	c.Key("%s", s)
	d, cells := 0, 0
	for _, m := range s.Tables {
		classify(c, m)
		d = max(d, depthOf(m))
		cells += len(m.Rows) * len(m.Cols)
	}
	c.NonTrivial(cells > 0)
	c.ClassIf(d > 1, "nested")
	c.ClassIf(d > 4, "nested over 4 deep")
	c.ClassIf(len(s.Tables) > 1, "several tables")
	c.ClassIf(len(s.Tables) == 0, "empty set")
	c.ClassIf(s.Name == "", "unnamed set")
}

const docRule = "random sets of 0-3 tables, every column type, nested up to 3 deep (one in four with a chain of 2-12 nested tables), struct shape at random; non-trivial = at least one cell; distinct by the set's full rendering"

// jsonTable checks a decoded JSON table against its model, independently of the library's reader.
func jsonTable(m *MT, x any) string {
	o, ok := x.(map[string]any)
	if !ok {
		return fmt.Sprintf("table [%s] is %T", m.Name, x)
	}
	if o["tableName"] != m.Name {
		return fmt.Sprintf("tableName is %v, want %q", o["tableName"], m.Name)
	}
	md, ok := o["metadata"].([]any)
	if !ok || len(md) != len(m.Cols) {
		return fmt.Sprintf("metadata of [%s] is %v", m.Name, o["metadata"])
	}
	for i, c := range m.Cols {
		e, ok := md[i].(map[string]any)
		if !ok || len(e) != 1 || e[c.Name] != c.Type {
			return fmt.Sprintf("metadata %d of [%s] is %v, want %v", i, m.Name, md[i], c)
		}
	}
	rows, ok := o["data"].([]any)
	if !ok && len(m.Rows) > 0 || len(rows) != len(m.Rows) {
		return fmt.Sprintf("data of [%s] is %v", m.Name, o["data"])
	}
	for r := range rows {
		row, ok := rows[r].([]any)
		if !ok || len(row) != len(m.Cols) {
			return fmt.Sprintf("row %d of [%s] is %v", r, m.Name, rows[r])
		}
		for i, c := range m.Cols {
			e, ok := row[i].(map[string]any)
			if !ok || len(e) != 1 {
				return fmt.Sprintf("cell %s,%d of [%s] is %v", c.Name, r, m.Name, row[i])
			}
			v, ok := e[c.Name]
			if !ok {
				return fmt.Sprintf("cell %s,%d of [%s] is %v", c.Name, r, m.Name, e)
			}
			if d := jsonCell(c.Type, m.Rows[r][i], v); d != "" {
				return fmt.Sprintf("cell %s,%d of [%s]: %s", c.Name, r, m.Name, d)
			}
		}
	}
	return ""
}

func jsonCell(typ string, want, got any) string {
	bad := func() string { return fmt.Sprintf("JSON has %v (%T), want %s %s", got, got, typ, fmtVal(want)) }
	switch x := want.(type) {
	case *MT:
		if x.Nil {
			if got != nil {
				return bad()
			}
			return ""
		}
		return jsonTable(x, got)
	case string:
		if got != x {
			return bad()
		}
	case bool:
		if got != x {
			return bad()
		}
	case time.Time:
		s, _ := got.(string)
		y, err := time.Parse(time.RFC3339Nano, s)
		if err != nil || !valEq(x, y) {
			return bad()
		}
	case []byte:
		l, ok := got.([]any)
		if !ok || len(l) != len(x) {
			return bad()
		}
		for i := range x {
			if fmt.Sprint(l[i]) != fmt.Sprint(x[i]) {
				return bad()
			}
		}
	case float32, float64:
		n, ok := got.(json.Number)
		if !ok {
			return bad()
		}
		if f32, is := x.(float32); is {
			// The nearest float32 to the number as spelled, rounded once.
			if f, err := strconv.ParseFloat(n.String(), 32); err != nil || float32(f) != f32 {
				return bad()
			}
		} else if f, err := n.Float64(); err != nil || f != x.(float64) {
			return bad()
		}
	default:
		if typ == "rune" {
			if got != string(want.(int32)) {
				return bad()
			}
			return ""
		}
		if n, ok := got.(json.Number); !ok || n.String() != fmt.Sprint(want) {
			return bad()
		}
	}
	return ""
}

func decodeJSON(t fataler, js string) map[string]any {
	t.Helper()
	if !json.Valid([]byte(js)) {
		t.Fatalf("not valid JSON: %s", js)
	}
	var o map[string]any
	d := json.NewDecoder(strings.NewReader(js))
	d.UseNumber()
	must(t, d.Decode(&o), "decoding %s", js)
	return o
}

func TestC05_set(t *testing.T) {
	runCheck(t, docRule, 12000, 400000, func(t *rapid.T, c *Case) {
		s := genDoc(valOpts{nested: 3}, 3).Draw(t, "doc")
		if len(s.Tables) > 0 && oneIn(t, 300, "big") {
			c.ClassIf(maybeTall(t, s.Tables[0], 1, 2000), "big")
		}
		docCase(c, s)
		ts := buildSet(t, s)
		js, err := ts.GetTableSetAsJSON()
		must(t, err, "GetTableSetAsJSON of %s", s)
		o := decodeJSON(t, js)
		if o["tableSetName"] != s.Name {
			t.Fatalf("tableSetName is %v: %s", o["tableSetName"], js)
		}
		tables, ok := o["tables"].([]any)
		if !ok || len(tables) != len(s.Tables) {
			t.Fatalf("JSON has not %d tables: %s", len(s.Tables), js)
		}
		for i, m := range s.Tables {
			if d := jsonTable(m, tables[i]); d != "" {
				t.Fatalf("%s\nJSON: %s", d, js)
			}
		}
		back, err := gotables.NewTableSetFromJSON(js)
		must(t, err, "NewTableSetFromJSON(%s)", js)
		sameDoc(t, s, back, "JSON round trip of "+js)
		js2, err := back.GetTableSetAsJSON()
		must(t, err, "GetTableSetAsJSON of what was read back")
		if js2 != js {
			t.Fatalf("JSON of what was read back differs:\n%s\n%s", js, js2)
		}
		ind, err := ts.GetTableSetAsJSONIndent()
		must(t, err, "GetTableSetAsJSONIndent")
		var buf bytes.Buffer
		if err := json.Compact(&buf, []byte(ind)); err != nil || buf.String() != js {
			t.Fatalf("indented JSON is another document (%v):\n%s\n%s", err, js, buf.String())
		}
		if strings.Count(ind, "\n") <= len(s.Tables) {
			t.Fatalf("indented JSON of %d tables is %d lines: %s", len(s.Tables), strings.Count(ind, "\n")+1, clip(ind, 1000))
		}
		back, err = gotables.NewTableSetFromJSON(ind)
		must(t, err, "NewTableSetFromJSON(%s)", ind)
		sameDoc(t, s, back, "indented JSON round trip")
		sameDoc(t, s, ts, "writing JSON changed the set")

		// The same document as another JSON writer would write it: keys in another order, other escapes.
		other, err := json.Marshal(o)
		must(t, err, "json.Marshal")
		back, err = gotables.NewTableSetFromJSON(string(other))
		must(t, err, "NewTableSetFromJSON(%s)", other)
		sameDoc(t, s, back, fmt.Sprintf("JSON rewritten as %s", other))
		ascii := asciiJSON(string(other))
		back, err = gotables.NewTableSetFromJSON(ascii)
		must(t, err, "NewTableSetFromJSON(%s)", ascii)
		sameDoc(t, s, back, fmt.Sprintf("JSON rewritten as %s", ascii))
	})
}

// asciiJSON escapes every character that is not ASCII as \uXXXX (with surrogate pairs).
func asciiJSON(js string) string {
	var b strings.Builder
	for _, r := range js {
		switch {
		case r < 0x80:
			b.WriteRune(r)
		case r < 0x10000:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			r -= 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+r>>10, 0xdc00+r&0x3ff)
		}
	}
	return b.String()
}

func TestC05_table(t *testing.T) {
	runCheck(t, docRule+"; each table written on its own", 8000, 200000, func(t *rapid.T, c *Case) {
		s := genDoc(valOpts{nested: 2}, 3).Draw(t, "doc")
		docCase(c, s)
		ts := buildSet(t, s)
		for i, m := range s.Tables {
			tb, err := ts.GetTableByTableIndex(i)
			must(t, err, "GetTableByTableIndex")
			one := &MSet{Tables: []*MT{m}}
			js, err := tb.GetTableAsJSON()
			must(t, err, "GetTableAsJSON of %s", m)
			ind, err := tb.GetTableAsJSONIndent()
			must(t, err, "GetTableAsJSONIndent of %s", m)
			var buf bytes.Buffer
			if err := json.Compact(&buf, []byte(ind)); err != nil || buf.String() != js {
				t.Fatalf("indented JSON is another document (%v):\n%s\n%s", err, js, buf.String())
			}
			for _, doc := range []string{js, ind} {
				decodeJSON(t, doc)
				back, err := gotables.NewTableFromJSON(doc)
				must(t, err, "NewTableFromJSON(%s)", doc)
				sameTable(t, m, back, "JSON round trip of "+doc)
				sameShapes(t, m, read(t, back), "JSON round trip of "+doc)
				set, err := gotables.NewTableSetFromJSON(doc)
				must(t, err, "NewTableSetFromJSON(%s)", doc)
				sameDoc(t, one, set, "JSON set of one table "+doc)
			}
		}
		sameDoc(t, s, ts, "writing each table changed the set")
		js, err := ts.GetTableSetAsJSON()
		must(t, err, "GetTableSetAsJSON")
		for _, m := range s.Tables {
			tb, err := gotables.NewTableFromJSONByTableName(js, m.Name)
			must(t, err, "NewTableFromJSONByTableName(%q, %s)", m.Name, js)
			sameTable(t, m, tb, "NewTableFromJSONByTableName")
		}
		if tb, err := gotables.NewTableFromJSONByTableName(js, rapid.SampledFrom(nearNames(s)).Draw(t, "nearName")); err == nil || tb != nil {
			t.Fatalf("NewTableFromJSONByTableName of an unknown table: %v, %v", tb, err)
		}
		if tb, err := gotables.NewTableFromJSON(js); (err == nil) != (len(s.Tables) == 1) || (tb == nil) != (err != nil) {
			t.Fatalf("NewTableFromJSON of %d tables: %v, %v", len(s.Tables), tb, err)
		}
	})
}

// respell writes the numbers of a JSON document in other spellings of the same numbers, and moves the white space about.
// Whole numbers above 2^53 keep their spelling unless big.
func respell(t *rapid.T, js string, big bool) (out string, changed int) {
	var b strings.Builder
	gap := func() {
		if rapid.IntRange(0, 7).Draw(t, "gap") == 0 {
			b.WriteString(rapid.SampledFrom([]string{" ", "\n", "\t", "\r\n", "  "}).Draw(t, "space"))
		}
	}
	for i := 0; i < len(js); {
		j := i + 1
		switch ch := js[i]; {
		case ch == '"':
			for ; js[j] != '"'; j++ {
				if js[j] == '\\' {
					j++
				}
			}
			j++
			b.WriteString(js[i:j])
			gap()
		case ch == '-' || ch >= '0' && ch <= '9':
			for strings.IndexByte("0123456789+-.eE", js[j]) >= 0 {
				j++
			}
			num := js[i:j]
			if rapid.Bool().Draw(t, "respell") {
				if n := respellNumber(t, num, big); n != num {
					num, changed = n, changed+1
				}
			}
			b.WriteString(num)
			gap()
		default:
			b.WriteByte(ch)
			if strings.IndexByte("{}[],:", ch) >= 0 {
				gap()
			}
		}
		i = j
	}
	return b.String(), changed
}

func respellNumber(t *rapid.T, num string, big bool) string {
	sign, rest := "", num
	if rest[0] == '-' {
		sign, rest = "-", rest[1:]
	}
	mant, exp := rest, 0
	if i := strings.IndexAny(rest, "eE"); i >= 0 {
		mant = rest[:i]
		fmt.Sscanf(rest[i+1:], "%d", &exp)
	}
	whole, frac, _ := strings.Cut(mant, ".")
	if frac == "" && exp == 0 && len(whole) > 15 && !big {
		return num
	}
	// Move the point.
	for n := rapid.IntRange(-3, 3).Draw(t, "point"); n != 0; {
		if n > 0 { // to the right
			if frac == "" {
				frac = "0"
			}
			whole, frac, exp, n = whole+frac[:1], frac[1:], exp-1, n-1
		} else {
			whole, frac, exp, n = whole[:len(whole)-1], whole[len(whole)-1:]+frac, exp+1, n+1
			if whole == "" {
				whole = "0"
			}
		}
	}
	whole = strings.TrimLeft(whole, "0")
	if whole == "" {
		whole = "0"
	}
	frac += strings.Repeat("0", rapid.IntRange(0, 2).Draw(t, "zeros"))
	s := sign + whole
	if frac != "" {
		s += "." + frac
	}
	if exp != 0 || rapid.Bool().Draw(t, "exponent") {
		s += rapid.SampledFrom([]string{"e", "E"}).Draw(t, "e")
		if exp >= 0 {
			s += rapid.SampledFrom([]string{"", "+", "+0"}).Draw(t, "plus")
		}
		s += fmt.Sprint(exp)
	}
	return s
}

func TestC05_spelled(t *testing.T) {
	runCheck(t, "the JSON of generated sets with its numbers respelled (fractions of zeros, exponents, moved points) and its white space moved: the same tables, or an error where a whole number above 2^53 is written with a fraction or exponent; non-trivial = a number was respelled", 8000, 200000, func(t *rapid.T, c *Case) {
		s := genDoc(valOpts{nested: 2}, 2).Draw(t, "doc")
		ts := buildSet(t, s)
		js, err := ts.GetTableSetAsJSON()
		must(t, err, "GetTableSetAsJSON of %s", s)
		big := rapid.IntRange(0, 3).Draw(t, "big") == 0
		doc, n := respell(t, js, big)
		decodeJSON(t, doc)
		c.Key("%s", doc)
		c.NonTrivial(n > 0)
		c.ClassIf(big, "big numbers too")
		back, err := gotables.NewTableSetFromJSON(doc)
		if err != nil {
			if !big {
				t.Fatalf("NewTableSetFromJSON(%s): %v", doc, err)
			}
			c.Class("refused")
			return
		}
		sameDoc(t, s, back, "JSON respelled as "+doc)
	})
}

// numberType: the bits of a numeric type (or of a byte slice's elements) and, of a whole number type, the limits.
func numberType(typ string) (bits int, lo, hi *big.Int) {
	bits = 64
	switch {
	case strings.HasSuffix(typ, "byte"):
		bits = 8
	case strings.HasSuffix(typ, "int"):
		bits = strconv.IntSize
	default:
		fmt.Sscanf(strings.TrimLeft(typ, "[]uintfloa"), "%d", &bits)
		if typ == "[]uint8" {
			bits = 8
		}
	}
	lo, hi = new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if typ[0] == 'i' {
		lo.Lsh(big.NewInt(1), uint(bits-1)).Neg(lo)
		hi.Lsh(big.NewInt(1), uint(bits-1))
	}
	return bits, lo, hi.Sub(hi, big.NewInt(1))
}

// Numbers as any JSON writer may write them, against exact arithmetic.
func TestC05_numbers(t *testing.T) {
	runCheck(t, "one JSON number (1-25 digits, with or without fraction and exponent; halfway between floats; at the limits of each type) in a cell of each numeric type, or an element of a byte slice: exactly that number (a float: the nearest) or, if the type has no such number, an error; non-trivial = at least 2 digits", 40000, 1000000, func(t *rapid.T, c *Case) {
		typ := rapid.SampledFrom([]string{"float32", "float64", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "byte", "uint16", "uint32", "uint64", "[]byte", "[]uint8"}).Draw(t, "type")
		bits, lo, hi := numberType(typ)
		isFloat := typ[0] == 'f'
		var lit string
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			lit = rapid.StringMatching(`-?(0|[1-9][0-9]{0,5}|[1-9][0-9]{0,24})(\.[0-9]{1,20}|\.0{1,5})?([eE][-+]?[0-9]{1,2})?`).Draw(t, "lit")
		case 1: // halfway between two floats, or a little off
			f := rapid.Float32Range(1e-20, 1e30).Draw(t, "f")
			mid := (float64(f) + float64(math.Nextafter32(f, math.MaxFloat32))) / 2
			lit = new(big.Float).SetFloat64(mid).Text('f', 120)
			lit = strings.TrimRight(lit, "0")
			if rapid.Bool().Draw(t, "off") {
				lit += "0000000001"
			}
			if lit[len(lit)-1] == '.' {
				lit += "0"
			}
		case 2: // at or next to a limit, respelled
			n := new(big.Int).Set(rapid.SampledFrom([]*big.Int{lo, hi, big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 53)}).Draw(t, "limit"))
			n.Add(n, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "by"))))
			lit = n.String()
			if rapid.Bool().Draw(t, "respelled") {
				lit = respellNumber(t, lit, true)
			}
		case 3:
			lit = rapid.SampledFrom([]string{"3.4028234663852886e38", "3.4028235677973366e38", "3.4028235677973365e38", "1.7976931348623158e308", "1.7976931348623159e308", "1e309", "4.9e-324", "2.4e-324", "1e-400", "1.4e-45", "7e-46", "1e38", "1e39", "0e99", "0.0e-99", "-0", "-0.0", "16777217", "9007199254740993", "18446744073709551615.0", "1e18", "1e19", "1e20", "1e2", "255e0", "2.55e2", "25500e-2", "7.038531e-26"}).Draw(t, "lit")
		}
		c.Key("%s %s", typ, lit)
		c.NonTrivial(len(strings.Trim(lit, "-0.")) >= 2)
		cell := lit
		if typ[0] == '[' {
			cell = "[1," + lit + ",2]"
		}
		doc := fmt.Sprintf(`{"tableSetName":"","tables":[{"tableName":"t","metadata":[{"x":%q}],"data":[[{"x":%s}]]}]}`, typ, cell)
		back, err := gotables.NewTableFromJSON(doc)
		var got any
		if err == nil {
			got, err = back.GetValByColIndex(0, 0)
			must(t, err, "GetValByColIndex")
		}
		if isFloat {
			f, perr := strconv.ParseFloat(lit, bits)
			if (perr != nil) != (err != nil) {
				t.Fatalf("%s as %s: %v, %v; want %v, %v", lit, typ, got, err, f, perr)
			}
			if err == nil && (asFloat(got) != f || math.Signbit(asFloat(got)) != math.Signbit(f)) {
				t.Fatalf("%s as %s: %v, want %v", lit, typ, fmtVal(got), f)
			}
			c.ClassIf(err != nil, "float out of range")
			return
		}
		exact, ok := new(big.Rat).SetString(lit)
		if !ok {
			t.Fatalf("VERIF-ENV: bad literal %s", lit)
		}
		if !exact.IsInt() || exact.Num().Cmp(lo) < 0 || exact.Num().Cmp(hi) > 0 {
			c.Class("no such number")
			if err == nil {
				t.Fatalf("%s as %s: %v", lit, typ, got)
			}
			return
		}
		plain := !strings.ContainsAny(lit, ".eE") && lit != "-0"
		if err != nil {
			if plain {
				t.Fatalf("%s as %s: %v", lit, typ, err)
			}
			c.Class("spelling refused") // Not misread.
			return
		}
		c.ClassIf(!plain, "spelling accepted")
		if b, isBytes := got.([]byte); isBytes {
			if len(b) != 3 || b[0] != 1 || b[2] != 2 {
				t.Fatalf("%s as %s: %v", cell, typ, got)
			}
			got = b[1]
		}
		if fmt.Sprint(got) != exact.Num().String() {
			t.Fatalf("%s as %s: %v", lit, typ, got)
		}
	})
}

// Numbers as any YAML writer may write them: what they mean is for yaml.v3 to say.
func TestC06_numbers(t *testing.T) {
	runCheck(t, "one YAML number (decimal, hexadecimal, octal or binary; with fraction, exponent or sign; at the limits of each type) in a cell of each numeric type, or an element of a byte slice: exactly the number the YAML package reads (a float: the nearest) or, if the type has no such number, an error; non-trivial = at least 2 digits", 25000, 600000, func(t *rapid.T, c *Case) {
		typ := rapid.SampledFrom([]string{"float32", "float64", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "byte", "uint16", "uint32", "uint64", "rune", "[]byte", "[]uint8"}).Draw(t, "type")
		asType := typ
		if typ == "rune" {
			asType = "int32"
		}
		bits, lo, hi := numberType(asType)
		var lit string
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			lit = rapid.StringMatching(`[-+]?(0|[1-9][0-9]{0,5}|[1-9][0-9]{0,21})(\.[0-9]{1,10})?([eE][-+]?[0-9]{1,2})?`).Draw(t, "lit")
		case 1, 2: // at or next to a limit
			n := new(big.Int).Set(rapid.SampledFrom([]*big.Int{lo, hi, big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 53), new(big.Int).Lsh(big.NewInt(1), 63), new(big.Int).Lsh(big.NewInt(1), 64)}).Draw(t, "limit"))
			n.Add(n, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "by"))))
			lit = rapid.SampledFrom([]func() string{func() string { return n.String() }, func() string { return n.String() }, func() string { return fmt.Sprintf("%#x", n) }, func() string { return fmt.Sprintf("%O", n) }, func() string { return n.String() + ".0" }}).Draw(t, "spelling")()
		case 3:
			lit = rapid.SampledFrom([]string{".inf", "-.inf", ".nan", "3.4028234663852886e38", "3.4028235677973366e38", "1.7976931348623158e308", "1e38", "1e39", "-1e39", "-0", "-0.0", "+7", "0b101", "0o17", "017", "1_000", "16777217", "9007199254740993", "18446744073709551615", "true", "~", "abc", "''", "2020-01-02"}).Draw(t, "lit")
		}
		c.Key("%s %s", typ, lit)
		c.NonTrivial(len(strings.Trim(lit, "-0.")) >= 2)
		var val any
		if yaml.Unmarshal([]byte(lit), &val) != nil {
			return
		}
		cell := lit
		if typ[0] == '[' {
			cell = "[1, " + lit + ", 2]"
		}
		doc := fmt.Sprintf("tableSetName: ''\ntables:\n- tableName: t\n  metadata:\n  - x: '%s'\n  data:\n  - - %s\n", typ, cell)
		back, err := gotables.NewTableSetFromYAML(doc)
		var got any
		if err == nil {
			tb, err := back.GetTableByTableIndex(0)
			must(t, err, "GetTableByTableIndex")
			got, err = tb.GetValByColIndex(0, 0)
			must(t, err, "GetValByColIndex")
		}
		whole, isWhole := new(big.Int).SetString(fmt.Sprint(val), 10)
		f, isFloat := val.(float64)
		isWhole = isWhole && !isFloat
		if typ[0] == 'f' {
			if isWhole {
				f, _ = new(big.Float).SetInt(whole).Float64()
				isFloat = true
			}
			if bits == 32 && isFloat {
				g := float64(float32(f))
				isFloat = !math.IsInf(g, 0) || math.IsInf(f, 0)
				f = g
			}
			c.ClassIf(!isFloat, "no such float")
			var want any = f
			if bits == 32 {
				want = float32(f)
			}
			if isFloat != (err == nil) || isFloat && !valEq(want, got) {
				t.Fatalf("%s as %s: %v, %v; YAML says %T %v", lit, typ, fmtVal(got), err, val, val)
			}
			return
		}
		if !isWhole || whole.Cmp(lo) < 0 || whole.Cmp(hi) > 0 {
			c.Class("no such number")
			if err == nil {
				t.Fatalf("%s as %s: %v; YAML says %T %v", lit, typ, fmtVal(got), val, val)
			}
			return
		}
		must(t, err, "%s as %s; YAML says %T %v", lit, typ, val, val)
		if b, isBytes := got.([]byte); isBytes {
			if len(b) != 3 || b[0] != 1 || b[2] != 2 {
				t.Fatalf("%s as %s: %v", cell, typ, got)
			}
			got = b[1]
		}
		if fmt.Sprint(got) != whole.String() {
			t.Fatalf("%s as %s: %v; YAML says %T %v", lit, typ, got, val, val)
		}
	})
}

// plant puts a value into a new column of a random table at any depth.
func plant(t *rapid.T, s *MSet, typ string, v any) *MT {
	var tables []*MT
	for _, m := range s.Tables {
		allTables(m, func(n *MT) { tables = append(tables, n) })
	}
	m := tables[rapid.IntRange(0, len(tables)-1).Draw(t, "where")]
	at := rapid.IntRange(0, len(m.Cols)).Draw(t, "col")
	m.Cols = append(m.Cols[:at:at], append([]Col{{"planted__", typ}}, m.Cols[at:]...)...)
	if len(m.Rows) == 0 {
		m.Rows = append(m.Rows, nil)
		for i, c := range m.Cols {
			if i != at {
				m.Rows[0] = append(m.Rows[0], zeroOf(c.Type))
			}
		}
	}
	row := rapid.IntRange(0, len(m.Rows)-1).Draw(t, "row")
	for r := range m.Rows {
		x := zeroOf(typ)
		if typ == "time.Time" {
			x = time.Unix(0, 0).UTC()
		}
		if r == row {
			x = v
		}
		m.Rows[r] = append(m.Rows[r][:at:at], append([]any{x}, m.Rows[r][at:]...)...)
	}
	return m
}

func oddTimes() []time.Time {
	return []time.Time{
		time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(-1, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(123456, 7, 8, 0, 0, 0, 1, time.UTC),
		time.Date(2000, 1, 1, 0, 0, 0, 0, time.FixedZone("", 3661)), time.Date(2000, 1, 1, 0, 0, 0, 0, time.FixedZone("", -1)), time.Date(2000, 1, 1, 0, 0, 0, 0, time.FixedZone("", 24*3600+3600)),
	}
}

func TestC05_cannot(t *testing.T) {
	runCheck(t, "sets as above with one value JSON cannot carry (NaN, infinity, bytes that are not UTF-8, a rune that is no character, a time outside RFC 3339) or a circular nesting at any place; non-trivial = all", 5000, 100000, func(t *rapid.T, c *Case) {
		s := genDoc(valOpts{nested: 2}, 2).Filter(func(s *MSet) bool { return len(s.Tables) > 0 }).Draw(t, "doc")
		typ := rapid.SampledFrom([]string{"float32", "float64", "string", "rune", "time.Time", "*Table"}).Draw(t, "badType")
		var v any
		switch typ {
		case "float32":
			v = rapid.SampledFrom([]float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1))}).Draw(t, "bad")
		case "float64":
			v = rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}).Draw(t, "bad")
		case "string":
			v = rapid.SampledFrom([]string{"\xff", "abc\xc3", "\xed\xa0\x80", "\xc0\x80z", "\xf4\x90\x80\x80", "é\x80"}).Draw(t, "bad")
		case "rune":
			v = rapid.SampledFrom([]rune{-1, 0xd800, 0xdfff, 0x110000, math.MaxInt32, math.MinInt32}).Draw(t, "bad")
		case "time.Time":
			v = rapid.SampledFrom(oddTimes()).Draw(t, "bad")
		case "*Table":
			v = &MT{Nil: true}
		}
		where := plant(t, s, typ, v)
		c.Key("%s %v: %s", typ, fmtVal(v), s)
		c.NonTrivial(true)
		c.Class("bad " + typ)
		ts := buildSet(t, s)
		if typ == "*Table" {
			makeCycle(t, ts, where.Name)
			c.Class("circular")
		}
		if js, err := ts.GetTableSetAsJSON(); err == nil || js != "" {
			t.Fatalf("GetTableSetAsJSON of a set with %s %v: %q, %v", typ, fmtVal(v), js, err)
		}
		if js, err := ts.GetTableSetAsJSONIndent(); err == nil || js != "" {
			t.Fatalf("GetTableSetAsJSONIndent of a set with %s %v: %q, %v", typ, fmtVal(v), js, err)
		}
		bad := 0
		for i := 0; i < ts.TableCount(); i++ {
			tb, err := ts.GetTableByTableIndex(i)
			must(t, err, "GetTableByTableIndex")
			js, err := tb.GetTableAsJSON()
			js2, err2 := tb.GetTableAsJSONIndent()
			if (err == nil) != (err2 == nil) || (err == nil) != (js != "") || (err2 == nil) != (js2 != "") {
				t.Fatalf("GetTableAsJSON gives %q, %v but indented %q, %v", js, err, js2, err2)
			}
			if err != nil {
				bad++
			} else if !json.Valid([]byte(js)) {
				t.Fatalf("not valid JSON: %s", js)
			}
		}
		if bad != 1 {
			t.Fatalf("%d tables could not be written, want exactly the one with %s %v", bad, typ, fmtVal(v))
		}
	})
}

// makeCycle nests, in the planted table, one of the tables on the way down to it: itself, the top
// table or any table between.
func makeCycle(t *rapid.T, ts *gotables.TableSet, where string) {
	t.Helper()
	var find func(tb *gotables.Table) []*gotables.Table
	find = func(tb *gotables.Table) []*gotables.Table {
		if has, _ := tb.HasCol("planted__"); has {
			return []*gotables.Table{tb}
		}
		for r := 0; r < tb.RowCount(); r++ {
			for c := 0; c < tb.ColCount(); c++ {
				if typ, _ := tb.ColTypeByColIndex(c); typ == "*Table" {
					nt, err := tb.GetTableByColIndex(c, r)
					must(t, err, "GetTableByColIndex")
					if p := find(nt); p != nil {
						return append([]*gotables.Table{tb}, p...)
					}
				}
			}
		}
		return nil
	}
	for i := 0; i < ts.TableCount(); i++ {
		top, err := ts.GetTableByTableIndex(i)
		must(t, err, "GetTableByTableIndex")
		if path := find(top); path != nil {
			last := path[len(path)-1]
			must(t, last.SetTable("planted__", last.RowCount()-1, rapid.SampledFrom(path).Draw(t, "cycleTo")), "SetTable")
			return
		}
	}
	t.Fatalf("harness: no planted column")
}

// ---------------------------------------------------------------- YAML

func yamlTable(m *MT, x any) string {
	o, ok := x.(map[string]any)
	if !ok {
		return fmt.Sprintf("table [%s] is %T", m.Name, x)
	}
	if o["tableName"] != m.Name {
		return fmt.Sprintf("tableName is %v, want %q", o["tableName"], m.Name)
	}
	md, ok := o["metadata"].([]any)
	if !ok || len(md) != len(m.Cols) {
		return fmt.Sprintf("metadata of [%s] is %v", m.Name, o["metadata"])
	}
	for i, c := range m.Cols {
		e, ok := md[i].(map[string]any)
		typ, _ := e[c.Name].(string)
		if !ok || len(e) != 1 || strings.Trim(typ, `"`) != c.Type {
			return fmt.Sprintf("metadata %d of [%s] is %v, want %v", i, m.Name, md[i], c)
		}
	}
	rows, ok := o["data"].([]any)
	if !ok && len(m.Rows) > 0 || len(rows) != len(m.Rows) {
		return fmt.Sprintf("data of [%s] is %v", m.Name, o["data"])
	}
	for r := range rows {
		row, ok := rows[r].([]any)
		if !ok || len(row) != len(m.Cols) {
			return fmt.Sprintf("row %d of [%s] is %v", r, m.Name, rows[r])
		}
		for i, c := range m.Cols {
			if d := yamlCell(m.Rows[r][i], row[i]); d != "" {
				return fmt.Sprintf("cell %s,%d (%s) of [%s]: %s", c.Name, r, c.Type, m.Name, d)
			}
		}
	}
	return ""
}

func yamlCell(want, got any) string {
	ok := true
	switch x := want.(type) {
	case *MT:
		if x.Nil {
			o, isMap := got.(map[string]any)
			ok = got == nil || isMap && o["tableName"] == ""
		} else {
			return yamlTable(x, got)
		}
	case string, bool:
		ok = got == want
	case time.Time:
		y, is := got.(time.Time)
		ok = is && x.Equal(y)
	case []byte:
		l, is := got.([]any)
		ok = is && len(l) == len(x)
		for i := 0; ok && i < len(x); i++ {
			ok = fmt.Sprint(l[i]) == fmt.Sprint(x[i])
		}
	case float32:
		switch f := got.(type) {
		case float64:
			ok = valEq(float32(f), x)
		case int:
			ok = float32(f) == x
		default:
			ok = false
		}
	case float64:
		switch f := got.(type) {
		case float64:
			ok = valEq(f, x)
		case int:
			ok = float64(f) == x
		default:
			ok = false
		}
	default:
		ok = fmt.Sprint(got) == fmt.Sprint(want)
	}
	if !ok {
		return fmt.Sprintf("YAML has %v (%T), want %s", got, got, fmtVal(want))
	}
	return ""
}

// mapTable checks a table in the map form.
func mapTable(m *MT, o map[string]any) string {
	data, ok := o["data"].([][]any)
	if o["tableName"] != m.Name || !ok || len(data) != len(m.Rows) {
		return fmt.Sprintf("table [%s] is %v", m.Name, o)
	}
	for r := range data {
		if len(data[r]) != len(m.Cols) {
			return fmt.Sprintf("row %d of [%s] is %v", r, m.Name, data[r])
		}
		for i := range m.Cols {
			v := data[r][i]
			if n, ok := m.Rows[r][i].(*MT); ok {
				o, ok := v.(map[string]any)
				if !ok || n.Nil != (o["tableName"] == "") {
					return fmt.Sprintf("cell %d,%d of [%s] is %v", i, r, m.Name, v)
				}
				if !n.Nil {
					if d := mapTable(n, o); d != "" {
						return d
					}
				}
			} else if !valEq(m.Rows[r][i], v) {
				return fmt.Sprintf("cell %d,%d of [%s] is %v, want %s", i, r, m.Name, v, fmtVal(m.Rows[r][i]))
			}
		}
	}
	return ""
}

// restyle changes how a YAML document is written, not what it says.
func restyle(t *rapid.T, n *yaml.Node, flow bool) {
	if (n.Kind == yaml.SequenceNode || n.Kind == yaml.MappingNode) && flow {
		n.Style |= yaml.FlowStyle
	}
	if n.Kind == yaml.ScalarNode && n.Tag == "!!str" {
		// Double quotes can carry any text.
		n.Style = yaml.DoubleQuotedStyle
	}
	if n.Kind == yaml.MappingNode {
		for i := len(n.Content) - 2; i > 0; i -= 2 { // keys in another order
			j := rapid.IntRange(0, i/2).Draw(t, "order") * 2
			n.Content[i], n.Content[j] = n.Content[j], n.Content[i]
			n.Content[i+1], n.Content[j+1] = n.Content[j+1], n.Content[i+1]
		}
	}
	for _, c := range n.Content {
		restyle(t, c, flow)
	}
}

func TestC06_set(t *testing.T) {
	runCheck(t, docRule+"; NaN, infinities and bytes that are not UTF-8 included", 8000, 250000, func(t *rapid.T, c *Case) {
		s := genDoc(valOpts{nan: true, inf: true, anyUTF8: true, nested: 3}, 3).Draw(t, "doc")
		docCase(c, s)
		ts := buildSet(t, s)
		y, err := ts.GetTableSetAsYAML()
		must(t, err, "GetTableSetAsYAML of %s", s)
		var o map[string]any
		if err := yaml.Unmarshal([]byte(y), &o); err != nil {
			t.Fatalf("a YAML parser rejects it: %v\n%s", err, y)
		}
		if o["tableSetName"] != s.Name {
			t.Fatalf("tableSetName is %v:\n%s", o["tableSetName"], y)
		}
		tables, ok := o["tables"].([]any)
		if !ok || len(tables) != len(s.Tables) {
			t.Fatalf("YAML has not %d tables:\n%s", len(s.Tables), y)
		}
		for i, m := range s.Tables {
			if d := yamlTable(m, tables[i]); d != "" {
				t.Fatalf("%s\nYAML: %s", d, y)
			}
		}
		back, err := gotables.NewTableSetFromYAML(y)
		must(t, err, "NewTableSetFromYAML(%s)", y)
		sameDoc(t, s, back, "YAML round trip of "+y)
		y2, err := back.GetTableSetAsYAML()
		must(t, err, "GetTableSetAsYAML of what was read back")
		back, err = gotables.NewTableSetFromYAML(y2)
		must(t, err, "NewTableSetFromYAML(%s)", y2)
		sameDoc(t, s, back, "YAML of what was read back "+y2)
		sameDoc(t, s, ts, "writing YAML changed the set")

		// The map form carries the same.
		asMap, err := ts.GetTableSetAsMap()
		must(t, err, "GetTableSetAsMap")
		mapTables, ok := asMap["tables"].([]map[string]any)
		if !ok || asMap["tableSetName"] != s.Name || len(mapTables) != len(s.Tables) {
			t.Fatalf("GetTableSetAsMap: %v", asMap)
		}
		for i, m := range s.Tables {
			if d := mapTable(m, mapTables[i]); d != "" {
				t.Fatalf("GetTableSetAsMap: %s", d)
			}
		}

		// The same document in another YAML style.
		var node yaml.Node
		must(t, yaml.Unmarshal([]byte(y), &node), "yaml.Unmarshal")
		flow := rapid.Bool().Draw(t, "flow")
		restyle(t, &node, flow)
		other, err := yaml.Marshal(&node)
		must(t, err, "yaml.Marshal")
		var o2 map[string]any
		must(t, yaml.Unmarshal(other, &o2), "restyled YAML")
		if fmt.Sprint(o2) != fmt.Sprint(o) {
			c.Class("restyling not exact") // yaml.v3 itself: not judged
			return
		}
		back, err = gotables.NewTableSetFromYAML(string(other))
		must(t, err, "NewTableSetFromYAML(%s)", other)
		sameDoc(t, s, back, fmt.Sprintf("YAML rewritten as %s", other))
	})
}

func TestC06_cannot(t *testing.T) {
	runCheck(t, "sets as above with a time outside RFC 3339 or a circular nesting at any place; non-trivial = all", 3000, 60000, func(t *rapid.T, c *Case) {
		s := genDoc(valOpts{nested: 2}, 2).Filter(func(s *MSet) bool { return len(s.Tables) > 0 }).Draw(t, "doc")
		circular := rapid.Bool().Draw(t, "circular")
		typ, v := "time.Time", any(rapid.SampledFrom(oddTimes()).Draw(t, "bad"))
		if circular {
			typ, v = "*Table", &MT{Nil: true}
		}
		where := plant(t, s, typ, v)
		c.Key("%s %v: %s", typ, fmtVal(v), s)
		c.NonTrivial(true)
		c.Class("bad " + typ)
		ts := buildSet(t, s)
		if circular {
			makeCycle(t, ts, where.Name)
		}
		if y, err := ts.GetTableSetAsYAML(); err == nil || y != "" {
			t.Fatalf("GetTableSetAsYAML of a set with %s %v: %q, %v", typ, fmtVal(v), y, err)
		}
	})
}

// ---------------------------------------------------------------- Gob

// genGobTable: a table with the types Gob supports, and sort keys.
func genGobTable(names bool) *rapid.Generator[keyed] {
	return gen(func(t *rapid.T) keyed {
		if rapid.Bool().Draw(t, "keyed") {
			return genKeyed(0).Draw(t, "keyedTable")
		}
		m := genTable(tableOpts{types: allTypes, maxCols: 6, maxRows: 5, val: valOpts{nan: true, inf: true, anyUTF8: true}}).Draw(t, "table")
		if rapid.IntRange(0, 3).Draw(t, "unsupported") > 0 {
			for i := range m.Cols {
				if ty := m.Cols[i].Type; ty == "*Table" || ty == "time.Time" {
					m.Cols[i].Type = "string"
					for r := range m.Rows {
						m.Rows[r][i] = genStringAny().Draw(t, "s")
					}
				}
			}
		}
		k := keyed{m: m}
		for _, c := range m.Cols {
			if isKeyType(c.Type) && rapid.IntRange(0, 3).Draw(t, "isKey") == 0 {
				k.keys = append(k.keys, Key{c.Name, rapid.Bool().Draw(t, "reverse")})
			}
		}
		return k
	})
}

// gobUnsupported: Gob is documented not to support cells of nested tables and times.
func gobUnsupported(m *MT) bool {
	if len(m.Rows) == 0 {
		return false
	}
	for _, c := range m.Cols {
		if c.Type == "*Table" || c.Type == "time.Time" {
			return true
		}
	}
	return false
}

func TestC07_table(t *testing.T) {
	runCheck(t, "random tables of every column type, with 0 or more sort keys in either direction, struct shape at random; non-trivial = at least one row and column of supported types; distinct by rendering and keys", 20000, 500000, func(t *rapid.T, c *Case) {
		k := genGobTable(true).Draw(t, "table")
		m := k.m
		m.Struct = rapid.IntRange(0, 3).Draw(t, "struct") == 0
		c.Key("%v %s", k.keys, m)
		un := gobUnsupported(m)
		c.NonTrivial(nontrivTable(m) && !un)
		classify(c, m)
		c.ClassIf(len(k.keys) > 0, "sort keys")
		c.ClassIf(un, "unsupported types")
		tb := build(t, m)
		setKeys(t, tb, k.keys)
		b, err := tb.GobEncode()
		sameTable(t, m, tb, "GobEncode changed its table")
		sameKeys(t, k.keys, tb, "GobEncode changed its table")
		if un && err != nil {
			if len(b) != 0 {
				t.Fatalf("GobEncode: an error (%v) and %d bytes", err, len(b))
			}
			return
		}
		must(t, err, "GobEncode of %s", m)
		for i := 0; i < 2; i++ { // decoding does not use up the encoded table
			f, what := gotables.NewTableFromGob, "NewTableFromGob"
			if i == 1 {
				f, what = gotables.GobDecodeTable, "GobDecodeTable"
			}
			back, err := f(b)
			must(t, err, what)
			sameTable(t, m, back, what)
			validTable(t, back, what)
			sameKeys(t, k.keys, back, what)
			if r := read(t, back); r.Struct != m.Struct {
				t.Fatalf("%s: struct shape %v, want %v", what, r.Struct, m.Struct)
			}
			if len(k.keys) > 0 { // the sort keys work as well as those of the original
				must(t, back.Sort(), "Sort of a decoded table")
				checkSorted(t, m, read(t, back), k.keys, what+" then Sort")
			}
		}
		sameTable(t, m, tb, "decoding changed the encoded table")
	})
}

func TestC07_set(t *testing.T) {
	runCheck(t, "random sets of 0-4 tables with sort keys; non-trivial = at least one cell", 8000, 200000, func(t *rapid.T, c *Case) {
		s := &MSet{}
		if rapid.Bool().Draw(t, "named") {
			s.Name = genName().Draw(t, "setName")
		}
		n := rapid.IntRange(0, 4).Draw(t, "ntables")
		names := genNames(n).Draw(t, "names")
		var ks []keyed
		cells, un := 0, false
		for i := 0; i < n; i++ {
			k := genGobTable(true).Draw(t, "table")
			k.m.Name = names[i]
			k.m.Struct = rapid.IntRange(0, 3).Draw(t, "struct") == 0
			ks = append(ks, k)
			s.Tables = append(s.Tables, k.m)
			cells += len(k.m.Rows) * len(k.m.Cols)
			un = un || gobUnsupported(k.m)
		}
		for _, m := range moreTables(t) {
			ks = append(ks, keyed{m: m})
			s.Tables = append(s.Tables, m)
			n++
		}
		c.Key("%s", s)
		c.NonTrivial(cells > 0 && !un)
		c.ClassIf(n == 0, "empty set")
		c.ClassIf(un, "unsupported types")
		c.ClassIf(s.Name != "", "named set")
		ts := buildSet(t, s)
		fileName := rapid.SampledFrom([]string{"", "x.got", "/some/where/y.got"}).Draw(t, "fileName")
		ts.SetFileName(fileName)
		for i, k := range ks {
			tb, err := ts.GetTableByTableIndex(i)
			must(t, err, "GetTableByTableIndex")
			setKeys(t, tb, k.keys)
		}
		b, err := ts.GobEncode()
		sameSet(t, s, ts, "GobEncode changed its set")
		if un && err != nil {
			return
		}
		must(t, err, "GobEncode of %s", s)
		for i := 0; i < 2; i++ {
			f, what := gotables.NewTableSetFromGob, "NewTableSetFromGob"
			if i == 1 {
				f, what = gotables.GobDecodeTableSet, "GobDecodeTableSet"
			}
			back, err := f(b)
			must(t, err, what)
			sameDoc(t, s, back, what)
			if back.FileName() != fileName {
				t.Fatalf("%s: file name %q, want %q", what, back.FileName(), fileName)
			}
			for j, k := range ks {
				tb, err := back.GetTableByTableIndex(j)
				must(t, err, "GetTableByTableIndex")
				sameKeys(t, k.keys, tb, what)
			}
		}
	})
}
