package gtverif

// Shared machinery: case accounting, watchdog, generators, reference model.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"flag"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- accounting

type result struct {
	Test        string         `json:"test"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Samples     []string       `json:"samples"`
	Classes     map[string]int `json:"classes"`
	Rule        string         `json:"rule"`
	Excluded    int            `json:"excluded"`
	Findings    []string       `json:"findings"`
	Passed      bool           `json:"passed"`
	Done        bool           `json:"done"`
}

var (
	resMu   sync.Mutex
	res     = result{Classes: map[string]int{}}
	seen    = map[uint64]struct{}{}
	tier    = os.Getenv("VERIF_TIER")
	caseCPU int64 // CPU time (ns) of the process when the current case began; 0 = none
	note    atomic.Value

	noteFile *os.File // names the case under way, should the library end the process
)

func cpuNow() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// Case collects what one generated case was.
type Case struct {
	key     string
	nontriv bool
	classes []string
}

// Key identifies the case for distinctness (a rendering of what was generated).
func (c *Case) Key(format string, a ...any) {
	c.key = fmt.Sprintf(format, a...)
	note.Store(c.key)
	if noteFile != nil {
		_ = noteFile.Truncate(0)
		_, _ = noteFile.WriteAt([]byte(clip(c.key, 16384)), 0)
	}
}
func (c *Case) NonTrivial(b bool) { c.nontriv = c.nontriv || b }
func (c *Case) Class(names ...string) {
	c.classes = append(c.classes, names...)
}
func (c *Case) ClassIf(b bool, name string) {
	if b {
		c.classes = append(c.classes, name)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (c *Case) done() {
	resMu.Lock()
	defer resMu.Unlock()
	res.Evaluations++
	for _, k := range c.classes {
		res.Classes[k]++
	}
	if c.nontriv {
		res.Nontrivial++
		h := fnv.New64a()
		_, _ = h.Write([]byte(c.key))
		if _, ok := seen[h.Sum64()]; !ok {
			seen[h.Sum64()] = struct{}{}
			res.Distinct++
			if len(res.Samples) < 3 || (len(res.Samples) < 6 && res.Distinct%97 == 0) {
				res.Samples = append(res.Samples, clip(c.key, 400))
			}
		}
	}
}

// excluded counts a generated feature left out because of a recorded known finding.
func excluded() { resMu.Lock(); res.Excluded++; resMu.Unlock() }

// runCheck drives prop over n generated cases (nQuick or nThorough by tier).
func runCheck(t *testing.T, rule string, nQuick, nThorough int, prop func(*rapid.T, *Case)) {
	t.Helper()
	n := 3 * nQuick
	switch t.Name()[4:7] {
	case "C06", "C08", "C29":
		looseZeros = true
		defer func() { looseZeros = false }()
	}
	switch t.Name()[4:7] { // These checks are cheap.
	case "C03", "C09", "C10", "C11", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C24", "C25", "C27", "C28", "C31", "C32":
		n = 10 * nQuick
	}
	if tier == "thorough" {
		n = nThorough
	}
	if s := os.Getenv("VERIF_CHECKS"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			n = v
		}
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_SHARDS")); err == nil && v > 1 { // The other shards run the rest of the cases.
		n = (n + v - 1) / v
	}
	res.Rule = rule
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{}
		atomic.StoreInt64(&caseCPU, cpuNow())
		defer atomic.StoreInt64(&caseCPU, 0)
		defer c.done()
		prop(rt, c)
	})
}

// finding reports a recorded known finding that still reproduces.
func finding(what string) {
	resMu.Lock()
	res.Findings = append(res.Findings, what)
	resMu.Unlock()
}

const (
	caseCPULimit = 60 * int64(time.Second) // a case normally takes milliseconds
	heapLimit    = 6 << 30
	exitHang     = 97
	exitMem      = 98
)

func watchdog() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(500 * time.Millisecond)
		begun := atomic.LoadInt64(&caseCPU)
		if begun == 0 {
			continue
		}
		if now := cpuNow(); now-begun > caseCPULimit && atomic.LoadInt64(&caseCPU) == begun {
			fmt.Fprintf(os.Stderr, "\nVERIF-HANG: one case used more than %d s of CPU\ncase: %v\n", caseCPULimit/int64(time.Second), note.Load())
			os.Exit(exitHang)
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64() > heapLimit {
			fmt.Fprintf(os.Stderr, "\nVERIF-MEM: live heap over %d bytes in one case\ncase: %v\n", heapLimit, note.Load())
			os.Exit(exitMem)
		}
	}
}

func TestMain(m *testing.M) {
	flag.Parse()
	if p := os.Getenv("VERIF_NOTE"); p != "" {
		noteFile, _ = os.Create(p)
	}
	go watchdog()
	code := m.Run()
	res.Done = true
	res.Passed = code == 0
	if out := os.Getenv("VERIF_OUT"); out != "" {
		b, _ := json.Marshal(res)
		_ = os.WriteFile(out, b, 0o644)
		keys := make([]byte, 0, 8*len(seen))
		for k := range seen {
			keys = binary.LittleEndian.AppendUint64(keys, k)
		}
		_ = os.WriteFile(out+".keys", keys, 0o644)
	}
	os.Exit(code)
}

// ---------------------------------------------------------------- model

// Col is a column of the reference model.
type Col struct{ Name, Type string }

// MT is the reference model of a table: columns in order, rows of Go values.
// A nested table cell is a *MT (Nil true for an unnamed nil table).
type MT struct {
	Name   string
	Cols   []Col
	Rows   [][]any
	Struct bool
	Nil    bool
}

func (m *MT) clone() *MT {
	c := &MT{Name: m.Name, Struct: m.Struct, Nil: m.Nil}
	c.Cols = append([]Col{}, m.Cols...)
	for _, r := range m.Rows {
		nr := make([]any, len(r))
		for i, v := range r {
			switch x := v.(type) {
			case []byte:
				nr[i] = append([]byte{}, x...)
			case *MT:
				nr[i] = x.clone()
			default:
				nr[i] = v
			}
		}
		c.Rows = append(c.Rows, nr)
	}
	return c
}

func (m *MT) colIndex(name string) int {
	for i, c := range m.Cols {
		if c.Name == name {
			return i
		}
	}
	return -1
}

func fmtVal(v any) string {
	switch x := v.(type) {
	case string:
		return strconv.Quote(x)
	case time.Time:
		return x.Format(time.RFC3339Nano)
	case *MT:
		if x.Nil {
			return "<nil table>"
		}
		return "{" + x.String() + "}"
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case float32:
		return strconv.FormatFloat(float64(x), 'g', -1, 32)
	case []byte:
		return fmt.Sprintf("%v", x)
	}
	return fmt.Sprintf("%v", v)
}

func (m *MT) String() string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "[%s]", m.Name)
	if m.Struct {
		b.WriteString("(struct)")
	}
	for _, c := range m.Cols {
		fmt.Fprintf(&b, " %s:%s", c.Name, c.Type)
	}
	for _, r := range m.Rows {
		b.WriteString(" |")
		for _, v := range r {
			b.WriteString(" " + fmtVal(v))
		}
	}
	return b.String()
}

var allTypes = []string{
	"[]byte", "[]uint8", "bool", "byte", "float32", "float64", "int", "int16", "int32", "rune",
	"int64", "int8", "string", "uint", "uint16", "uint32", "uint64", "uint8", "*Table", "time.Time",
}

var plainTypes = allTypes[:18] // without nested tables and times

// keyTypes are the column types that can be sort keys.
var keyTypes = []string{
	"bool", "float32", "float64", "int", "int16", "int32", "int64", "int8", "string",
	"uint", "uint16", "uint32", "uint64", "uint8",
}

func canonType(t string) string {
	switch t {
	case "byte":
		return "uint8"
	case "[]byte":
		return "[]uint8"
	case "rune":
		return "int32"
	}
	return t
}

func zeroOf(typ string) any {
	switch typ {
	case "[]byte", "[]uint8":
		return []byte{}
	case "bool":
		return false
	case "byte", "uint8":
		return uint8(0)
	case "float32":
		return float32(0)
	case "float64":
		return float64(0)
	case "int":
		return int(0)
	case "int8":
		return int8(0)
	case "int16":
		return int16(0)
	case "int32", "rune":
		return int32(0)
	case "int64":
		return int64(0)
	case "string":
		return ""
	case "uint":
		return uint(0)
	case "uint16":
		return uint16(0)
	case "uint32":
		return uint32(0)
	case "uint64":
		return uint64(0)
	case "*Table":
		return &MT{Nil: true}
	case "time.Time":
		return time.Time{}
	}
	panic("zeroOf " + typ)
}

// valEq: are two cell values the same value? NaN equals NaN; -0 equals 0; times by instant and offset.
func valEq(a, b any) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && (x == y || (x != x && y != y))
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || (x != x && y != y))
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case time.Time:
		y, ok := b.(time.Time)
		if !ok {
			return false
		}
		_, ox := x.Zone()
		_, oy := y.Zone()
		return x.Equal(y) && ox == oy
	case *MT:
		y, ok := b.(*MT)
		if !ok {
			return false
		}
		if x.Nil || y.Nil {
			return x.Nil == y.Nil
		}
		return diffMT(x, y) == ""
	}
	return a == b
}

// looseZeros: YAML is allowed to lose the sign of a zero.
var looseZeros bool

// sameVal: equal, and zeros of the same sign.
func sameVal(a, b any) bool {
	if looseZeros {
		return valEq(a, b)
	}
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && valEq(a, b) && (x != 0 || math.Signbit(float64(x)) == math.Signbit(float64(y)))
	case float64:
		y, ok := b.(float64)
		return ok && valEq(a, b) && (x != 0 || math.Signbit(x) == math.Signbit(y))
	}
	return valEq(a, b)
}

// diffMT explains the first difference between two models ("" when equal).
func diffMT(want, got *MT) string {
	if want.Name != got.Name {
		return fmt.Sprintf("table name: want %q got %q", want.Name, got.Name)
	}
	return diffBody(want, got)
}

func diffBody(want, got *MT) string {
	if len(want.Cols) != len(got.Cols) {
		return fmt.Sprintf("columns: want %v got %v", want.Cols, got.Cols)
	}
	for i := range want.Cols {
		if want.Cols[i] != got.Cols[i] {
			return fmt.Sprintf("column %d: want %v got %v", i, want.Cols[i], got.Cols[i])
		}
	}
	if len(want.Rows) != len(got.Rows) {
		return fmt.Sprintf("row count: want %d got %d", len(want.Rows), len(got.Rows))
	}
	for r := range want.Rows {
		for c := range want.Cols {
			if !sameVal(want.Rows[r][c], got.Rows[r][c]) {
				return fmt.Sprintf("row %d col %s (%s): want %s got %s (%T)", r, want.Cols[c].Name, want.Cols[c].Type,
					fmtVal(want.Rows[r][c]), fmtVal(got.Rows[r][c]), got.Rows[r][c])
			}
		}
	}
	return ""
}

type fataler interface {
	Fatalf(format string, args ...any)
	Helper()
}

func must(t fataler, err error, what string, a ...any) {
	t.Helper()
	if err != nil {
		t.Fatalf("unexpected error in %s: %v", fmt.Sprintf(what, a...), err)
	}
}

// build makes a real table from a model through the public API.
func build(t fataler, m *MT) *gotables.Table {
	t.Helper()
	if m.Nil {
		return gotables.NewNilTable()
	}
	tb, err := gotables.NewTable(m.Name)
	must(t, err, "NewTable(%q)", m.Name)
	for _, c := range m.Cols {
		must(t, tb.AppendCol(c.Name, c.Type), "AppendCol(%q,%q)", c.Name, c.Type)
	}
	for r := range m.Rows {
		must(t, tb.AppendRow(), "AppendRow")
		for c := range m.Cols {
			if nested, ok := m.Rows[r][c].(*MT); ok {
				must(t, tb.SetTableByColIndex(c, r, build(t, nested)), "SetTableByColIndex")
				continue
			}
			must(t, tb.SetValByColIndex(c, r, realVal(t, m.Rows[r][c])), "SetValByColIndex(%d,%d,%s)", c, r, fmtVal(m.Rows[r][c]))
		}
	}
	if m.Struct {
		must(t, tb.SetStructShape(true), "SetStructShape")
	}
	return tb
}

func realVal(t fataler, v any) any {
	switch x := v.(type) {
	case *MT:
		return build(t, x)
	case []byte:
		return append([]byte{}, x...)
	}
	return v
}

// read extracts the model of a real table through the public API.
func read(t fataler, tb *gotables.Table) *MT { t.Helper(); return readDepth(t, tb, 0) }

func readDepth(t fataler, tb *gotables.Table, depth int) *MT {
	t.Helper()
	if tb == nil {
		t.Fatalf("nil *Table where a table was expected")
	}
	if isNil, err := tb.IsNilTable(); err == nil && isNil {
		return &MT{Nil: true}
	}
	if depth > 40 {
		t.Fatalf("table nesting deeper than 40")
	}
	names, types, err := tb.GetColInfoAsSlices()
	must(t, err, "GetColInfoAsSlices")
	if len(names) != tb.ColCount() || len(types) != tb.ColCount() {
		t.Fatalf("ColCount %d but %d names and %d types", tb.ColCount(), len(names), len(types))
	}
	m := &MT{Name: tb.Name()}
	m.Struct, err = tb.IsStructShape()
	must(t, err, "IsStructShape")
	for i := range names {
		m.Cols = append(m.Cols, Col{names[i], types[i]})
	}
	for r := 0; r < tb.RowCount(); r++ {
		row := make([]any, len(names))
		for c := range names {
			v, err := tb.GetValByColIndex(c, r)
			must(t, err, "GetValByColIndex(%d,%d)", c, r)
			if nt, ok := v.(*gotables.Table); ok {
				v = readDepth(t, nt, depth+1)
			}
			row[c] = v
		}
		m.Rows = append(m.Rows, row)
	}
	return m
}

// sameTable fails unless tb is exactly the model, and is internally consistent.
func sameTable(t fataler, want *MT, tb *gotables.Table, what string) {
	t.Helper()
	if d := diffMT(want, read(t, tb)); d != "" {
		t.Fatalf("%s: %s\nmodel: %s", what, d, want)
	}
	wellFormed(t, tb, what)
}

// wellFormed: the consistency every table must always have, seen from outside.
func wellFormed(t fataler, tb *gotables.Table, what string) {
	t.Helper()
	if isNil, _ := tb.IsNilTable(); isNil {
		return
	}
	for c := 0; c < tb.ColCount(); c++ {
		name, err := tb.ColName(c)
		must(t, err, "%s: ColName(%d)", what, c)
		idx, err := tb.ColIndex(name)
		must(t, err, "%s: ColIndex(%q)", what, name)
		if idx != c {
			t.Fatalf("%s: column %q is at index %d but looks up as %d", what, name, c, idx)
		}
		ct, err := tb.ColType(name)
		must(t, err, "%s: ColType(%q)", what, name)
		ct2, err := tb.ColTypeByColIndex(c)
		must(t, err, "%s: ColTypeByColIndex(%d)", what, c)
		if ct != ct2 {
			t.Fatalf("%s: column %q has type %q by name and %q by index", what, name, ct, ct2)
		}
		if ok, err := gotables.IsValidColName(name); !ok {
			t.Fatalf("%s: invalid column name %q: %v", what, name, err)
		}
		if ok, err := gotables.IsValidColType(ct); !ok {
			t.Fatalf("%s: invalid column type %q: %v", what, ct, err)
		}
		for r := 0; r < tb.RowCount(); r++ {
			v, err := tb.GetValByColIndex(c, r)
			must(t, err, "%s: GetValByColIndex(%d,%d)", what, c, r)
			v2, err := tb.GetVal(name, r)
			must(t, err, "%s: GetVal(%q,%d)", what, name, r)
			want := canonType(ct)
			gt := goType(v)
			if gt != want {
				t.Fatalf("%s: cell (%q,%d) of type %s holds a %s: %v", what, name, r, ct, gt, v)
			}
			if _, isT := v.(*gotables.Table); isT {
				if v != v2 {
					t.Fatalf("%s: cell (%q,%d) differs by name and by index", what, name, r)
				}
			} else if !valEq(v, v2) {
				t.Fatalf("%s: cell (%q,%d) is %v by name and %v by index", what, name, r, v2, v)
			}
		}
	}
	for r := 0; r < tb.RowCount(); r++ {
		if ok, err := tb.IsValidRow(r); !ok || err != nil {
			t.Fatalf("%s: IsValidRow(%d) = %v, %v", what, r, ok, err)
		}
	}
}

func goType(v any) string {
	if v == nil {
		return "<nil>"
	}
	switch v.(type) {
	case *gotables.Table:
		return "*Table"
	}
	return fmt.Sprintf("%T", v)
}

func validTable(t fataler, tb *gotables.Table, what string) {
	t.Helper()
	ok, err := tb.IsValidTable()
	if !ok || err != nil {
		t.Fatalf("%s: IsValidTable() = %v, %v", what, ok, err)
	}
}

// ---------------------------------------------------------------- generators

// gen wraps rapid.Custom for readability.
func gen[T any](f func(*rapid.T) T) *rapid.Generator[T] { return rapid.Custom(f) }

var reservedNames = func() map[string]bool {
	m := map[string]bool{}
	for _, t := range allTypes {
		m[t] = true
	}
	return m
}()

// genName: valid table and column names, with the awkward ones well represented.
func genName() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"a", "b", "c", "x", "A", "_", "__", "_1", "a1", "Int", "INT", "int1", "int_", "nil", "true", "false", "NaN", "Inf", "data", "metadata", "tableName", "type", "func", "range", "string_", "Table", "time", "null", "yes", "no", "on", "off", "y", "n", "e1", "Z9_z"}),
		rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_]{0,10}`).Filter(func(s string) bool { return !reservedNames[s] }),
		gen(func(t *rapid.T) string { // Now and then a long one.
			s := rapid.SampledFrom([]string{"a", "B", "_", "p9", "zz_"}).Draw(t, "start")
			if oneIn(t, 12, "long") {
				s += strings.Repeat(rapid.SampledFrom([]string{"x", "Y_", "name1"}).Draw(t, "more"), rapid.IntRange(5, 60).Draw(t, "times"))
			}
			return s
		}),
	)
}

// oneIn is true in about one case in n, and shrinks to false.
func oneIn(t *rapid.T, n int, what string) bool {
	return rapid.Uint64().Draw(t, what)%1000003%uint64(n) == uint64(n)-1
}

func genIdent() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"a", "b", "c", "key", "k2", "val", "Name", "X_1", "longer_column_name", "z"}),
		rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_]{0,6}`).Filter(func(s string) bool { return !reservedNames[s] }),
	)
}

var awkwardStrings = []string{
	"", " ", "  lead", "trail  ", "\t", "\n", "\r\n", "a\nb", `"`, `\`, `\\`, `\n`, `a"b`, `'`, `''`, "`", "[", "]", "[]", "[x]", "[[x]]", "# not a comment", "#", "=", " = ", "a = b",
	"NaN", "nil", "null", "true", "0", "-1", "1e9", "0x1F", "2020-01-02T03:04:05Z", "é", "ß", "日本語", "😀", "\u200b", "\u00a0", "\u2028", "\ufeff", "\ufffd", "\x00", "\x01", "\x07", "\x0b", "\x1b", "\x7f", "\u0080", "\u009f",
	"<a>&amp;</a>", "%d%s%q", "{}", "{\"a\":1}", ": ", "- x", "? y", "|", ">", "!!str", "*a", "&a", "@", "~", "yes", "No", "on", "0b1", "0o7", ".inf", ".NaN", "1_000", "12:30:45", "2001-01-01", "a,b", "\"a\",\"b\"", "\u0085", "a\u0085b", "a\u2029b", "\U0010ffff", "\U000e0001", "ﷺ", "İ", "ſ", "K", "ǅ",
}

// genString: any valid UTF-8 string, awkward ones well represented.
// layoutChars: what a text format may take for its layout.
var layoutChars = []string{" ", "\t", "\n", "\n", "\r", "\u0085", "\u00a0", "\u2028", "\u3000", "\ufeff", "\v", "x", "-", ":", "#", "'", "\"", "|", ",", "[", "]", "{", "}", "\\", "=", "~", "0"}

func genString() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.SampledFrom(awkwardStrings),
		rapid.StringMatching(`[a-cA-C]{0,3}`),
		rapid.StringN(0, 12, -1),
		rapid.StringMatching(`[ -~]{0,20}`),
		rapid.Map(rapid.SliceOfN(rapid.SampledFrom(layoutChars), 1, 5), func(parts []string) string { return strings.Join(parts, "") }),
		gen(func(t *rapid.T) string {
			s := strings.Join(rapid.SliceOfN(rapid.SampledFrom(awkwardStrings), 1, 4).Draw(t, "parts"), "")
			if oneIn(t, 25, "long") {
				s = strings.Repeat(s, 1+rapid.IntRange(100, 1000).Draw(t, "size")/(1+len(s)))
			}
			return s
		}),
	)
}

// genStringAny also yields byte sequences that are not UTF-8.
func genStringAny() *rapid.Generator[string] {
	return rapid.OneOf(genString(), genString(), genString(),
		rapid.SampledFrom([]string{"\xff", "a\xc3", "\xed\xa0\x80", "\xc0\x80", "ok\x80\"\\\n"}),
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 8), func(b []byte) string { return string(b) }))
}

// genRune: every Unicode scalar value.
func genRune() *rapid.Generator[rune] {
	return rapid.OneOf(
		rapid.SampledFrom([]rune{0, 1, 7, 8, 9, 10, 11, 12, 13, 27, ' ', '"', '\'', '\\', '`', '#', '[', ']', '=', ',', '0', 'A', 'a', 'n', 'x', 'u', 'U', '~', 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xad, 0xff, 0x100, 0x7ff, 0x800, 0x2028, 0x2029, 0xfeff, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0xe0001, 0x10fffe, 0x10ffff, '世'}),
		rapid.Int32Range(0, 0xd7ff),
		rapid.Int32Range(0xe000, 0x10ffff),
	)
}

func genFloat64(special bool) *rapid.Generator[float64] {
	vals := []float64{0, 1, -1, 0.1, -0.5, 1.5, 100, 1e6, 1e15, 1e16, 1e20, 1e21, 1e22, -1e21, 123456789.125, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxInt64, 1 << 53, 1<<53 + 2, 4294967296, 1e-5, 1e-7, 5e-324, 2.2250738585072014e-308, 0.30000000000000004, math.Pi, math.Copysign(0, -1)}
	gs := []*rapid.Generator[float64]{
		rapid.SampledFrom(vals), rapid.Float64(), rapid.Float64Range(-1000, 1000),
		rapid.Map(rapid.IntRange(-1000, 1000), func(i int) float64 { return float64(i) }),
		rapid.Map(rapid.IntRange(-100000, 100000), func(i int) float64 { return float64(i) / 100 }),
	}
	if special {
		gs = append(gs, rapid.Just(math.NaN()))
	}
	return rapid.Map(rapid.OneOf(gs...), func(f float64) float64 {
		if math.IsInf(f, 0) {
			return math.MaxFloat64
		}
		return f
	})
}

func genFloat32(special bool) *rapid.Generator[float32] {
	vals := []float32{0, 1, -1, 0.1, -0.5, 16777216, 16777217, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 1e-40, 1e10, 3.4e38, 0.3, 1e21, 33554434, 7.038531e-26, float32(math.Copysign(0, -1))}
	gs := []*rapid.Generator[float32]{rapid.SampledFrom(vals), rapid.Float32(), rapid.Map(rapid.IntRange(-100000, 100000), func(i int) float32 { return float32(i) / 100 })}
	if special {
		gs = append(gs, rapid.Just(float32(math.NaN())))
	}
	return rapid.Map(rapid.OneOf(gs...), func(f float32) float32 {
		if math.IsInf(float64(f), 0) {
			return math.MaxFloat32
		}
		return f
	})
}

func intGen[T int | int8 | int16 | int32 | int64](lo, hi T, full *rapid.Generator[T]) *rapid.Generator[T] {
	vals := []T{0, 1, -1, lo, lo + 1, hi, hi - 1, 9, 10, -10, 100, 127 - 27}
	return rapid.OneOf(rapid.SampledFrom(vals), full)
}

func uintGen[T uint | uint8 | uint16 | uint32 | uint64](hi T, full *rapid.Generator[T]) *rapid.Generator[T] {
	vals := []T{0, 1, hi, hi - 1, hi/2 + 1, hi / 2, 9, 10, 100}
	return rapid.OneOf(rapid.SampledFrom(vals), full)
}

func genInt64() *rapid.Generator[int64] {
	return rapid.OneOf(rapid.SampledFrom([]int64{1 << 53, 1<<53 + 1, -(1<<53 + 1), 9007199254740993, 1<<63 - 1, -1 << 63, -1<<63 + 1, 1<<62 + 1, 1 << 32, 1<<31 - 1, 1234567890123456789}),
		intGen[int64](math.MinInt64, math.MaxInt64, rapid.Int64()))
}
func genUint64() *rapid.Generator[uint64] {
	return rapid.OneOf(rapid.SampledFrom([]uint64{1 << 53, 1<<53 + 1, 1<<64 - 1, 1<<64 - 2, 1 << 63, 1<<63 + 1, 1<<63 - 1, 12345678901234567890}),
		uintGen[uint64](math.MaxUint64, rapid.Uint64()))
}

// genTime: instants years 1..9999 in UTC or a fixed whole-minute zone, any nanosecond.
func genTime() *rapid.Generator[time.Time] {
	return gen(func(t *rapid.T) time.Time {
		off := rapid.OneOf(rapid.Just(0), rapid.SampledFrom([]int{0, 60, -60, 600, 660, 330, 345, -210, 840, -720, 1}), rapid.IntRange(-1439, 1439)).Draw(t, "offMin")
		loc := time.UTC
		if off != 0 {
			loc = time.FixedZone("", off*60)
		}
		ns := rapid.OneOf(rapid.SampledFrom([]int{0, 0, 1, 5, 10, 100, 1000, 500000000, 120000000, 999999999, 123456789, 100000000, 123000000, 123456000}), rapid.IntRange(0, 999999999)).Draw(t, "ns")
		y := rapid.OneOf(rapid.SampledFrom([]int{1, 2, 999, 1000, 1582, 1969, 1970, 2000, 2038, 9998}), rapid.IntRange(2, 9998)).Draw(t, "y")
		mo := rapid.IntRange(1, 12).Draw(t, "mo")
		d := rapid.IntRange(1, 28).Draw(t, "d")
		h := rapid.IntRange(0, 23).Draw(t, "h")
		mi := rapid.IntRange(0, 59).Draw(t, "mi")
		s := rapid.IntRange(0, 59).Draw(t, "s")
		if y < 2 {
			y = 2
		}
		return time.Date(y, time.Month(mo), d, h, mi, s, ns, loc)
	})
}

func genBytes() *rapid.Generator[[]byte] {
	return rapid.OneOf(
		rapid.SampledFrom([][]byte{{}, {0}, {255}, {0, 0}, {1, 2, 3}, {91, 93}, {10}, {34, 92}}),
		gen(func(t *rapid.T) []byte {
			b := rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(t, "bytes")
			if len(b) > 1 && oneIn(t, 25, "long") {
				b = bytes.Repeat(b, rapid.IntRange(10, 100).Draw(t, "times"))
			}
			return b
		}))
}

type valOpts struct {
	nan     bool // NaN allowed in float columns
	inf     bool // infinities allowed in float columns
	anyUTF8 bool // strings need not be UTF-8
	nested  int  // how deep nested tables may go
	simple  bool // few distinct small values (for keys)
	named   bool // nested tables carry only a name
}

func genVal(typ string, o valOpts) *rapid.Generator[any] {
	a := func(g any) *rapid.Generator[any] { return toAny(g) }
	switch typ {
	case "[]byte", "[]uint8":
		return a(genBytes())
	case "bool":
		return a(rapid.Bool())
	case "byte", "uint8":
		return a(uintGen[uint8](math.MaxUint8, rapid.Uint8()))
	case "float32":
		if o.inf {
			return a(rapid.OneOf(genFloat32(o.nan), genFloat32(o.nan), genFloat32(o.nan), rapid.SampledFrom([]float32{float32(math.Inf(1)), float32(math.Inf(-1))})))
		}
		return a(genFloat32(o.nan))
	case "float64":
		if o.inf {
			return a(rapid.OneOf(genFloat64(o.nan), genFloat64(o.nan), genFloat64(o.nan), rapid.SampledFrom([]float64{math.Inf(1), math.Inf(-1)})))
		}
		return a(genFloat64(o.nan))
	case "int":
		return rapid.Map(genInt64(), func(i int64) any { return int(i) })
	case "int8":
		return a(intGen[int8](math.MinInt8, math.MaxInt8, rapid.Int8()))
	case "int16":
		return a(intGen[int16](math.MinInt16, math.MaxInt16, rapid.Int16()))
	case "int32":
		return a(intGen[int32](math.MinInt32, math.MaxInt32, rapid.Int32()))
	case "rune":
		return a(genRune())
	case "int64":
		return a(genInt64())
	case "string":
		if o.anyUTF8 {
			return a(genStringAny())
		}
		return a(genString())
	case "uint":
		return rapid.Map(genUint64(), func(i uint64) any { return uint(i) })
	case "uint16":
		return a(uintGen[uint16](math.MaxUint16, rapid.Uint16()))
	case "uint32":
		return a(uintGen[uint32](math.MaxUint32, rapid.Uint32()))
	case "uint64":
		return a(genUint64())
	case "time.Time":
		return a(genTime())
	case "*Table":
		return gen(func(t *rapid.T) any {
			if o.named {
				return &MT{Name: genName().Draw(t, "nestedName")}
			}
			if isNil := rapid.IntRange(0, 2).Draw(t, "nilTable") == 0; isNil || o.nested <= 0 {
				return &MT{Nil: true}
			}
			o2 := o
			o2.nested--
			return genTable(tableOpts{types: allTypes, maxCols: 3, maxRows: 2, val: o2}).Draw(t, "nested")
		})
	}
	panic("genVal " + typ)
}

func toAny(g any) *rapid.Generator[any] {
	switch x := g.(type) {
	case *rapid.Generator[string]:
		return x.AsAny()
	case interface{ AsAny() *rapid.Generator[any] }:
		return x.AsAny()
	}
	panic("toAny")
}

// smallVal: a few distinct values per type, so that keys collide.
func smallVal(typ string) *rapid.Generator[any] {
	i := func(f func(int) any) *rapid.Generator[any] { return rapid.Map(rapid.IntRange(0, 3), f) }
	switch typ {
	case "string":
		return rapid.SampledFrom([]string{"", "a", "A", "b", "B", "aa", "Ab", "aB", "_", "Z", "é"}).AsAny()
	case "bool":
		return rapid.Bool().AsAny()
	case "float32":
		return rapid.SampledFrom([]float32{-1.5, 0, 0.5, 2, float32(math.Copysign(0, -1))}).AsAny()
	case "float64":
		return rapid.SampledFrom([]float64{-1.5, 0, 0.5, 2, math.Copysign(0, -1)}).AsAny()
	case "int":
		return i(func(n int) any { return n - 1 })
	case "int8":
		return i(func(n int) any { return []int8{-128, -1, 0, 127}[n] })
	case "int16":
		return i(func(n int) any { return []int16{-32768, -1, 0, 300}[n] })
	case "int32":
		return i(func(n int) any { return []int32{math.MinInt32, -1, 0, 7}[n] })
	case "int64":
		return i(func(n int) any { return []int64{math.MinInt64, -1, 0, math.MaxInt64}[n] })
	case "uint":
		return i(func(n int) any { return uint(n) })
	case "uint8":
		return i(func(n int) any { return []uint8{0, 1, 127, 255}[n] })
	case "uint16":
		return i(func(n int) any { return []uint16{0, 1, 40000, 65535}[n] })
	case "uint32":
		return i(func(n int) any { return []uint32{0, 1, 1 << 31, 1<<32 - 1}[n] })
	case "uint64":
		return i(func(n int) any { return []uint64{0, 1, 1 << 63, 1<<64 - 1}[n] })
	}
	return genVal(typ, valOpts{})
}

type tableOpts struct {
	types            []string
	minCols, maxCols int
	minRows, maxRows int
	structShape      bool
	val              valOpts
	ident            bool
}

func genNames(n int) *rapid.Generator[[]string] {
	return rapid.SliceOfNDistinct(genName(), n, n, rapid.ID[string])
}

func genTable(o tableOpts) *rapid.Generator[*MT] {
	return gen(func(t *rapid.T) *MT {
		m := &MT{Name: genName().Draw(t, "tableName")}
		nc := rapid.IntRange(o.minCols, o.maxCols).Draw(t, "ncols")
		// One case in six: every type at once, in a shuffled order.
		if o.maxCols >= 5 && rapid.IntRange(0, 5).Draw(t, "wide") == 5 {
			perm := rapid.Permutation(o.types).Draw(t, "types")
			names := genNames(len(perm)).Draw(t, "names")
			for i := range perm {
				m.Cols = append(m.Cols, Col{names[i], perm[i]})
			}
		} else {
			names := genNames(nc).Draw(t, "names")
			for i := 0; i < nc; i++ {
				m.Cols = append(m.Cols, Col{names[i], rapid.SampledFrom(o.types).Draw(t, "type")})
			}
		}
		nr := rapid.IntRange(o.minRows, o.maxRows).Draw(t, "nrows")
		if len(m.Cols) == 0 {
			nr = 0
		}
		for r := 0; r < nr; r++ {
			row := make([]any, len(m.Cols))
			for c := range m.Cols {
				row[c] = genVal(m.Cols[c].Type, o.val).Draw(t, "v")
			}
			m.Rows = append(m.Rows, row)
		}
		if o.maxRows >= 3 {
			maybeTall(t, m, 40, 70)
		}
		return m
	})
}

// maybeTall makes one table in oneIn tall: up to limit rows, of cells of the rows it has.
func maybeTall(t *rapid.T, m *MT, oneIn, limit int) bool {
	if len(m.Rows) == 0 || rapid.IntRange(1, oneIn).Draw(t, "tall") != oneIn {
		return false
	}
	n, have := rapid.IntRange(10, limit).Draw(t, "tallRows"), len(m.Rows)
	seed := rapid.Uint64().Draw(t, "tallSeed")
	for len(m.Rows) < n {
		row := make([]any, len(m.Cols))
		for c := range row {
			seed = seed*6364136223846793005 + 1442695040888963407
			row[c] = m.Rows[int(seed>>33)%have][c]
		}
		m.Rows = append(m.Rows, row)
	}
	*m = *m.clone()
	return true
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// try runs f and returns a panic as a string ("" if none).
func try(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			// rapid signals its own control flow with panics of its own types.
			tn := fmt.Sprintf("%T", r)
			if strings.HasPrefix(tn, "rapid.") || strings.HasPrefix(tn, "*rapid.") {
				panic(r)
			}
			p = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return ""
}

func nanOf(typ string) any {
	if typ == "float32" {
		return float32(math.NaN())
	}
	return math.NaN()
}
