package gtverif

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C29: what happens to a table depends on that table and on nothing else.

// The comments of generated code say when it was generated.
var commentRe = regexp.MustCompile(`(?s)/\*.*?\*/|//[^\n]*`)

// step is one operation of a program, drawn beforehand: what it acts on is found from a, b and c when it runs.
type step struct {
	op      string
	a, b, c int
	text    string
	val     any
}

func (s step) String() string {
	return fmt.Sprintf("%s(%d,%d,%d,%q,%s)", s.op, s.a, s.b, s.c, s.text, fmtVal(s.val))
}

// program is a few tables and what is done with them.
type program struct {
	start []*MT
	steps []step
}

func (p *program) String() string { return fmt.Sprintf("%v %v", p.start, p.steps) }

// actor is a program being run. All it owns is its own.
type actor struct {
	dir   string
	tbs   []*gotables.Table
	trace []string
}

// halt makes a failure within an actor part of its trace.
type halt struct{}

func (halt) Helper() {}
func (halt) Fatalf(format string, args ...any) {
	panic("halt: " + fmt.Sprintf(format, args...))
}

func newActor(p *program, dir string) *actor {
	a := &actor{dir: dir}
	for _, m := range p.start {
		a.tbs = append(a.tbs, build(halt{}, m))
	}
	return a
}

func (a *actor) say(what string, args ...any) {
	s := fmt.Sprintf(what, args...)
	a.trace = append(a.trace, s)
}

func (a *actor) keep(tb *gotables.Table, err error) {
	if err != nil || tb == nil {
		a.say("error %v", err != nil)
		return
	}
	a.say("table %s", read(halt{}, tb))
	if len(a.tbs) < 6 {
		a.tbs = append(a.tbs, tb)
	}
}

var actorOps = []string{
	"parse", "text", "nested text", "json", "yaml", "gob", "csv", "code", "file", "sort", "search", "shuffle", "reverse", "order", "appendRow",
	"appendCol", "deleteRow", "deleteCol", "set", "zero", "merge", "nest", "copy", "deep", "walk", "valid", "tree", "setTable", "equals", "info", "rename",
}

// run does one step.
func (a *actor) run(s step) {
	p := try(func() { a.do(s) })
	if p != "" {
		a.say("%s", p)
	}
}

func (a *actor) do(s step) {
	tb := a.tbs[s.a%len(a.tbs)]
	other := a.tbs[s.b%len(a.tbs)]
	a.say("%s", s.op)
	cols, _, err := tb.GetColInfoAsSlices()
	if err != nil {
		cols = nil
	}
	col, row := "none", 0
	if len(cols) > 0 {
		col = cols[s.b%len(cols)]
	}
	if tb.RowCount() > 0 {
		row = s.c % (tb.RowCount() + 1)
	}
	did := func(err error) {
		a.say("error %v", err != nil)
		if ok, _ := tb.IsValidTable(); ok {
			a.say("now %s", read(halt{}, tb))
		}
	}
	keys := func() {
		var names []string
		for i, n := range cols {
			if typ, _ := tb.ColTypeByColIndex(i); i >= s.c%2 && contains(keyTypes, typ) {
				names = append(names, n)
			}
		}
		a.say("keys %v %v", names, tb.SetSortKeys(names...) != nil)
	}
	switch s.op {
	case "parse":
		ts, err := gotables.NewTableSetFromString(s.text)
		if err != nil {
			a.say("parse error %v", err)
			return
		}
		a.say("%s", ts)
		if ts.TableCount() > 0 {
			a.keep(ts.GetTableByTableIndex(0))
		}
	case "text":
		a.say("%s", tb.StringPadded())
		a.say("%s", tb.StringUnpadded())
	case "nested text":
		if ok, _ := tb.IsValidTableNesting(); ok {
			a.say("%s", tb.StringNested())
		}
	case "json":
		text, err := tb.GetTableAsJSON()
		a.say("%s %v", text, err != nil)
		if err == nil {
			a.keep(gotables.NewTableFromJSON(text))
		}
	case "yaml":
		if ok, _ := tb.IsValidTableNesting(); !ok {
			return
		}
		ts, _ := gotables.NewTableSet("s")
		a.say("append %v", ts.AppendTable(tb) != nil)
		text, err := ts.GetTableSetAsYAML()
		a.say("%s %v", text, err != nil)
		if err == nil {
			ts, err = gotables.NewTableSetFromYAML(text)
			if err == nil {
				a.say("%s", ts)
			}
		}
	case "gob":
		if ok, _ := tb.IsValidTableNesting(); !ok {
			return
		}
		b, err := tb.GobEncode()
		if err != nil {
			a.say("gob error")
			return
		}
		a.keep(gotables.NewTableFromGob(b))
	case "csv":
		text, err := tb.GetTableAsCSV()
		a.say("%s %v", text, err != nil)
	case "code":
		text, err := tb.GenerateTypeStruct()
		a.say("%s %v", commentRe.ReplaceAllString(text, ""), err != nil)
		text, err = tb.GenerateTypeStructSliceFromTable()
		a.say("%s %v", commentRe.ReplaceAllString(text, ""), err != nil)
		text, err = tb.GenerateTypeStructSliceToTable()
		a.say("%s %v", commentRe.ReplaceAllString(text, ""), err != nil)
		formatted, err := gotables.UtilFormatSource("package p\nfunc " + col + "( ) {\n}")
		a.say("%q %v", formatted, err != nil)
	case "file":
		fn := filepath.Join(a.dir, "t.got")
		if err := tb.WriteFile(fn, 0o600); err != nil {
			a.say("file error")
			return
		}
		a.keep(gotables.NewTableFromFile(fn))
	case "sort":
		keys()
		did(tb.SortSimple())
	case "search":
		keys()
		kt, err := tb.GetSortKeysAsTable()
		if err != nil {
			return
		}
		a.say("sort %v", tb.SortSimple() != nil)
		var vals []any
		for i := 0; i < kt.RowCount() && tb.RowCount() > 0; i++ {
			n, _ := kt.GetString("colName", i)
			v, _ := tb.GetVal(n, s.c%tb.RowCount())
			vals = append(vals, v)
		}
		first, last, err := tb.SearchRange(vals...)
		a.say("range %d %d %v", first, last, err != nil)
		at, err := tb.Search(vals...)
		a.say("at %d %v", at, err != nil)
	case "shuffle":
		did(tb.ShufflePseudorandom())
	case "reverse":
		did(tb.Reverse())
	case "order":
		keys()
		did(tb.OrderColsBySortKeys())
	case "appendRow":
		did(tb.AppendRow())
	case "appendCol":
		did(tb.AppendCol(fmt.Sprintf("new_%d", s.b), allTypes[s.c%len(allTypes)]))
	case "deleteRow":
		did(tb.DeleteRow(row))
	case "deleteCol":
		did(tb.DeleteCol(col))
	case "set":
		did(tb.SetVal(col, row, realVal(halt{}, s.val)))
	case "zero":
		did(tb.SetColCellsToZeroValue(col))
	case "merge":
		keys()
		a.say("keys %v", other.SetSortKeysFromTable(tb) != nil)
		a.keep(tb.Merge(other))
	case "nest":
		keys()
		a.say("keys %v", other.SetSortKeysFromTable(tb) != nil)
		did(tb.Nest(other, "nested"))
	case "copy":
		a.keep(tb.Copy())
	case "deep":
		a.keep(tb.CopyDeep())
	case "walk":
		n := 0
		err := tb.Walk(true, make(gotables.WalkSafe), nil, nil, func(bool, gotables.CellInfo) error {
			n++
			return nil
		})
		a.say("%d cells %v", n, err != nil)
	case "valid":
		ok, err := tb.IsValidTable()
		a.say("valid %v %v", ok, err != nil)
		has, err := tb.HasCircularReference()
		a.say("circular %v %v", has, err != nil)
	case "tree":
		cp, err := tb.CopyDeep()
		if err != nil {
			return
		}
		tree, err := cp.NewTreeTable(s.c % 3)
		a.say("tree %v %v", tree != nil, err != nil)
	case "setTable":
		cp, err := other.CopyDeep()
		if err != nil || tb.RowCount() == 0 {
			return
		}
		did(tb.SetTable(col, s.c%tb.RowCount(), cp))
	case "equals":
		ok, err := tb.Equals(other)
		a.say("equal %v %v", ok, err != nil)
	case "info":
		info, err := tb.GetColInfoAsTable()
		a.say("%s %v", info, err != nil)
	case "rename":
		did(tb.RenameCol(col, fmt.Sprintf("r%d", s.c)))
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func drawProgram(t *rapid.T, maxSteps int) *program {
	p := &program{}
	for n := rapid.IntRange(1, 2).Draw(t, "tables"); n > 0; n-- {
		var m *MT
		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0:
			budget := 5
			m = drawTree(t, 2, &budget)
		case 1:
			m = genTable(tableOpts{types: keyTypes, minCols: 1, maxCols: 3, minRows: 1, maxRows: 6}).Draw(t, "m")
		default:
			m = &MT{Name: "T", Cols: []Col{{"k", "int"}, {"s", "string"}, {"f", "float64"}}}
			for r := rapid.IntRange(0, 8).Draw(t, "rows"); r > 0; r-- {
				m.Rows = append(m.Rows, []any{r % 4, "x", float64(r)})
			}
		}
		p.start = append(p.start, m)
	}
	for n := rapid.IntRange(1, maxSteps).Draw(t, "steps"); n > 0; n-- {
		i := rapid.IntRange(0, 6)
		s := step{op: rapid.SampledFrom(actorOps).Draw(t, "op"), a: i.Draw(t, "a"), b: i.Draw(t, "b"), c: i.Draw(t, "c")}
		switch s.op {
		case "parse":
			s.text = drawDoc(t, 3)
		case "set":
			s.val = genVal(rapid.SampledFrom(allTypes).Draw(t, "type"), valOpts{}).Draw(t, "val")
		}
		p.steps = append(p.steps, s)
	}
	return p
}

func (p *program) alone(dir string) string {
	a := newActor(p, dir)
	for _, s := range p.steps {
		a.run(s)
	}
	return strings.Join(a.trace, "\n")
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return fmt.Sprintf("line %d: %q against %q", i+1, clip(x[i], 300), clip(y[i], 300))
		}
	}
	return fmt.Sprintf("%d lines against %d", len(x), len(y))
}

// kinds counts the different operations of a program.
func kinds(ps []*program) int {
	seen := map[string]bool{}
	for _, p := range ps {
		for _, s := range p.steps {
			seen[s.op] = true
		}
	}
	return len(seen)
}

func drawPrograms(t *rapid.T, dir string, lo, hi, steps int) (ps []*program, want []string) {
	for n := rapid.IntRange(lo, hi).Draw(t, "programs"); n > 0; n-- {
		p := drawProgram(t, steps)
		ps = append(ps, p)
		want = append(want, p.alone(dir))
	}
	return
}

func TestC29_interleaved(t *testing.T) {
	root := t.TempDir()
	runCheck(t, "2-4 programs of 1-12 operations (of all kinds) on tables of their own, each run alone and then step by step in a random order with the others; non-trivial = at least 6 kinds of operation", 2500, 60000, func(t *rapid.T, c *Case) {
		ps, want := drawPrograms(t, root, 2, 4, 12)
		c.Key("%v", ps)
		c.NonTrivial(kinds(ps) >= 6)
		var order []int
		actors := make([]*actor, len(ps))
		for i, p := range ps {
			dir := filepath.Join(root, fmt.Sprint(i))
			must(t, os.MkdirAll(dir, 0o700), "MkdirAll")
			actors[i] = newActor(p, dir)
			for range p.steps {
				order = append(order, i)
			}
		}
		order = rapid.Permutation(order).Draw(t, "order")
		next := make([]int, len(ps))
		for _, i := range order {
			actors[i].run(ps[i].steps[next[i]])
			next[i]++
		}
		for i := range ps {
			if got := strings.Join(actors[i].trace, "\n"); got != want[i] {
				t.Fatalf("program %d does not do the same among others as alone: %s\nprogram: %s", i, firstDiff(want[i], got), ps[i])
			}
		}
	})
}

var stormOnce sync.Once

// storm does every operation in several goroutines at the same time, before anything else has been done in this process:
// what is set up on first use is set up then.
func storm(t *rapid.T, root string) {
	ops := append([]string{}, actorOps...)
	sort.Strings(ops)
	start := make(chan struct{})
	var wg sync.WaitGroup
	traces := make([]string, 4)
	for i := range traces {
		m := &MT{Name: "T"}
		var row []any
		for j, typ := range allTypes {
			m.Cols = append(m.Cols, Col{fmt.Sprintf("c%d", j), typ})
			row = append(row, zeroOf(typ))
		}
		m.Rows = [][]any{row, append([]any{}, row...)}
		p := &program{start: []*MT{m, {Name: "U", Cols: []Col{{"k", "int"}}, Rows: [][]any{{2}, {1}}}}}
		for _, op := range ops {
			s := step{op: op, text: "[[s]]\n[t]\na int = 1\n\n[u]\nb c\nstring []byte\n\"x\" [1 2]\n", val: 1.5}
			p.steps = append(p.steps, s)
			s.a, s.b, s.c = 1, 1, 1
			p.steps = append(p.steps, s)
		}
		dir := filepath.Join(root, fmt.Sprintf("storm%d", i))
		must(t, os.MkdirAll(dir, 0o700), "MkdirAll")
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			traces[i] = p.alone(dir)
		}()
	}
	close(start)
	wg.Wait()
	for i := range traces {
		if traces[i] != traces[0] {
			t.Fatalf("the same program does not do the same in two goroutines at the same time: %s", firstDiff(traces[0], traces[i]))
		}
	}
}

func TestC29_concurrent_race(t *testing.T) {
	root := t.TempDir()
	runCheck(t, "2-6 programs of 1-8 operations (of all kinds) on tables of their own, run alone and then all at the same time in goroutines, under the race detector; non-trivial = at least 6 kinds of operation", 250, 6000, func(t *rapid.T, c *Case) {
		stormOnce.Do(func() { storm(t, root) })
		ps, want := drawPrograms(t, root, 2, 6, 8)
		c.Key("%v", ps)
		c.NonTrivial(kinds(ps) >= 6)
		got := make([]string, len(ps))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i, p := range ps {
			dir := filepath.Join(root, fmt.Sprint(i))
			must(t, os.MkdirAll(dir, 0o700), "MkdirAll")
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if msg := try(func() { got[i] = p.alone(dir) }); msg != "" {
					got[i] = msg
				}
			}()
		}
		close(start)
		wg.Wait()
		for i := range ps {
			if got[i] != want[i] {
				t.Fatalf("program %d does not do the same at the same time as others as alone: %s\nprogram: %s", i, firstDiff(want[i], got[i]), ps[i])
			}
		}
	})
}

// Sent through a channel, a table is the receiver's as it was the sender's.
func TestC29_channel_race(t *testing.T) {
	root := t.TempDir()
	runCheck(t, "a program whose tables go through a chain of 2-5 goroutines over channels, each of which runs part of it, under the race detector; non-trivial = at least 4 kinds of operation", 250, 6000, func(t *rapid.T, c *Case) {
		p := drawProgram(t, 14)
		want := p.alone(root)
		c.Key("%s", p)
		c.NonTrivial(kinds([]*program{p}) >= 4)
		var cuts []int
		for n := rapid.IntRange(1, 4).Draw(t, "cuts"); n > 0; n-- {
			cuts = append(cuts, rapid.IntRange(0, len(p.steps)).Draw(t, "cut"))
		}
		sort.Ints(cuts)
		cuts = append(cuts, len(p.steps))
		in := make(chan *actor, 1)
		in <- newActor(p, root)
		from := 0
		for _, to := range cuts {
			steps, out, mine := p.steps[from:to], make(chan *actor, 1), in
			go func() {
				a := <-mine
				for _, s := range steps {
					a.run(s)
				}
				out <- a
			}()
			in, from = out, to
		}
		a := <-in
		if got := strings.Join(a.trace, "\n"); got != want {
			t.Fatalf("the program does not do the same in several goroutines as in one: %s\nprogram: %s", firstDiff(want, got), p)
		}
	})
}
