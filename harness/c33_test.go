package gtverif

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"runtime"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C33: questions asked of the same tables at the same time.

var addressRegexp = regexp.MustCompile(`0x[0-9a-f]+`)

// wordless: what errors say does not matter.
type wordless struct{ fataler }

// tell says what a question gave, without addresses.
func tell(t fataler, v reflect.Value) string {
	switch x := v.Interface().(type) {
	case nil:
		return "nil"
	case *gotables.Table:
		if x == nil {
			return "no table"
		}
		return tellTable(t, x, 3)
	case *gotables.TableSet:
		if x == nil {
			return "no set"
		}
		return fmt.Sprintf("set %q of %d", x.Name(), x.TableCount())
	case error:
		if _, ok := t.(wordless); ok {
			return "error"
		}
		return "error " + addressRegexp.ReplaceAllString(x.Error(), "@")
	case []byte:
		return string(x)
	case string:
		return addressRegexp.ReplaceAllString(x, "@")
	case gotables.CellInfo:
		return fmt.Sprint(x.ColName, x.ColType, x.ColIndex, x.RowIndex)
	case time.Time:
		return x.Format(time.RFC3339Nano)
	case float32:
		return fmt.Sprintf("%08x", math.Float32bits(x))
	case float64:
		return fmt.Sprintf("%016x", math.Float64bits(x))
	}
	if v.Kind() == reflect.Interface && !v.IsNil() {
		return tell(t, v.Elem())
	}
	if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Interface {
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, tell(t, v.Index(i)))
		}
		return strings.Join(s, ",")
	}
	return addressRegexp.ReplaceAllString(fmt.Sprintf("%T %v", v.Interface(), v.Interface()), "@")
}

func tellTable(t fataler, tb *gotables.Table, deep int) string {
	s := shot(t, tb)
	out := fmt.Sprint(s[partName], s[partShape], s[partCols], s[partRows], addressRegexp.ReplaceAllString(s[partCells], "@"), s[partKeys], tb.ParentTable() != nil)
	if deep > 0 {
		for _, x := range withNested(t, []*gotables.Table{tb})[1:] {
			out += " {" + tellTable(t, x, deep-1) + "}"
		}
	}
	return out
}

func tellGob(t fataler, x any) (s string) {
	switch x := x.(type) {
	case []byte:
		tb, err := gotables.GobDecodeTable(x)
		must(t, err, "GobDecodeTable")
		return tellTable(t, tb, 3)
	case []bytes.Buffer:
		set, err := gotables.GobDecodeTableSet(x)
		must(t, err, "GobDecodeTableSet")
		for i := 0; i < set.TableCount(); i++ {
			tb, err := set.GetTableByTableIndex(i)
			must(t, err, "GetTableByTableIndex")
			s += tellTable(t, tb, 3)
		}
		return s
	}
	return fmt.Sprintf("%T", x)
}

type question struct {
	who  int // Table, or -1 for the set.
	name string
	args []reflect.Value
	sees bool // A visitor of Walk tells what it sees.
}

func (q question) String() string { return fmt.Sprintf("%d.%s%s", q.who, q.name, showArgs(q.args)) }

// ask asks q of one of all (or the set) and says what the answer was.
func (q question) ask(t fataler, all []*gotables.Table, set *gotables.TableSet) string {
	recv := reflect.ValueOf(set)
	if q.who >= 0 {
		recv = reflect.ValueOf(all[q.who])
	}
	answer, _ := request(t, recv, q.name, q.args, q.sees)
	return answer
}

// request calls a method and says what it gave; visitors of a walk tell what they see.
func request(t fataler, recv reflect.Value, name string, args []reflect.Value, sees bool) (answer string, out []reflect.Value) {
	m := recv.MethodByName(name)
	args = slices.Clone(args)
	var b strings.Builder
	for i, a := range args {
		switch a.Interface().(type) {
		case gotables.WalkSafe: // Each walk has its own.
			args[i] = reflect.ValueOf(make(gotables.WalkSafe))
		}
		if a.Kind() == reflect.Func && sees {
			args[i] = reflect.MakeFunc(a.Type(), func(in []reflect.Value) []reflect.Value {
				for _, x := range in {
					if tb, ok := x.Interface().(*gotables.Table); ok {
						b.WriteString(" in " + tb.Name())
						continue
					}
					b.WriteString(" " + tell(t, x))
				}
				out := []reflect.Value{}
				for j := 0; j < a.Type().NumOut(); j++ {
					out = append(out, reflect.Zero(a.Type().Out(j)))
				}
				return out
			})
		}
	}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(runtime.Error); !ok && !strings.HasSuffix(name, "MustGet") && !strings.HasSuffix(name, "MustSet") {
				panic(p)
			}
			answer = "panic"
			if _, ok := t.(wordless); !ok {
				answer = addressRegexp.ReplaceAllString(fmt.Sprint("panic ", p), "@")
			}
		}
	}()
	out = call(m, args)
	for i, o := range out {
		if strings.HasPrefix(name, "Generate") && i == 0 { // Its comments say which minute it is.
			b.WriteString(commentRe.ReplaceAllString(o.String(), ""))
			continue
		}
		if name == "GobEncode" && i == 0 && o.Len() > 0 { // Its maps are in any order.
			b.WriteString(tellGob(t, o.Interface()))
			continue
		}
		b.WriteString("\n" + tell(t, o))
	}
	return b.String(), out
}

func TestC33_readers_race(t *testing.T) {
	tableType, setType := reflect.TypeOf((*gotables.Table)(nil)), reflect.TypeOf((*gotables.TableSet)(nil))
	questions := func(typ reflect.Type) (names []string) {
		for i := 0; i < typ.NumMethod(); i++ {
			if name := typ.Method(i).Name; !changes(name) && !strings.HasPrefix(name, "NewTreeTable") && name != "GobDecode" {
				names = append(names, name)
			}
		}
		return
	}
	ofTable, ofSet := questions(tableType), questions(setType)
	var big []string // Those which look at all of a table.
	for _, name := range ofTable {
		if typeOfMethod(name) == "" && !strings.Contains(name, "ByColIndex") {
			big = append(big, name)
		}
	}
	runCheck(t, "1-3 tables (one a tree of nested tables, one sorted by 1-2 keys at times) and a set of them, asked 1-5 questions each (any method but those asked to change something, with arguments mostly such as fit) by 2-5 goroutines at the same time, under the race detector; non-trivial = at least 3 different questions of one table from at least 2 goroutines", 2500, 60000, func(t *rapid.T, c *Case) {
		w := &world{t: t}
		var err error
		w.set, err = gotables.NewTableSet("S")
		must(t, err, "NewTableSet")
		var desc []string
		for i := rapid.IntRange(1, 3).Draw(t, "tables"); i > 0; i-- {
			var m *MT
			switch rapid.IntRange(0, 2).Draw(t, "kind") {
			case 0:
				budget := 5
				m = drawTree(t, 3, &budget)
			case 1:
				m = genTable(tableOpts{types: keyTypes, minCols: 1, maxCols: 3, minRows: 1, maxRows: 8}).Draw(t, "m")
			default:
				m = w.table()
			}
			if rapid.IntRange(0, 9).Draw(t, "nilTable") == 0 {
				w.tables = append(w.tables, gotables.NewNilTable())
				continue
			}
			m.Name = fmt.Sprint("T", i)
			tb := build(t, m)
			if rapid.Bool().Draw(t, "keys") {
				for _, col := range m.Cols {
					if isKeyType(col.Type) && tb.SortKeyCount() < 2 && rapid.IntRange(0, 2).Draw(t, "isKey") > 0 {
						must(t, tb.AppendSortKey(col.Name), "AppendSortKey")
						if rapid.Bool().Draw(t, "reverse") {
							must(t, tb.SetSortKeysReverse(col.Name), "SetSortKeysReverse")
						}
					}
				}
				if tb.SortKeyCount() > 0 {
					must(t, tb.Sort(), "Sort")
				}
			}
			w.tables = append(w.tables, tb)
			desc = append(desc, m.String())
			must(t, w.set.AppendTable(tb), "AppendTable")
		}
		all := withNested(t, w.tables)
		readers := make([][]question, rapid.IntRange(2, 5).Draw(t, "readers"))
		asked := map[int]map[string]bool{}
		from := map[int]map[int]bool{}
		for i := range readers {
			for n := rapid.IntRange(1, 5).Draw(t, "questions"); n > 0; n-- {
				if i > 0 && rapid.IntRange(0, 2).Draw(t, "same") == 0 { // As another asks it.
					qs := readers[rapid.IntRange(0, i-1).Draw(t, "as")]
					q := rapid.SampledFrom(qs).Draw(t, "again")
					readers[i] = append(readers[i], q)
					from[q.who][i] = true
					continue
				}
				q := question{who: rapid.IntRange(-1, len(all)-1).Draw(t, "who"), sees: rapid.Bool().Draw(t, "sees")}
				var tb *gotables.Table
				wantCol := -1
				recv := reflect.ValueOf(w.set)
				if q.who < 0 {
					q.name = rapid.SampledFrom(ofSet).Draw(t, "ofSet")
				} else {
					tb = all[q.who]
					recv = reflect.ValueOf(tb)
					q.name = rapid.SampledFrom(rapid.SampledFrom([][]string{ofTable, big, big}).Draw(t, "some")).Draw(t, "ofTable")
					if tb.SortKeyCount() > 0 && rapid.IntRange(0, 4).Draw(t, "search") == 0 {
						q.name = rapid.SampledFrom([]string{"Search", "SearchFirst", "SearchLast", "SearchRange", "NewTableFromRowsBySearchRange", "CompareRows", "GetSortKeysAsTable", "Copy"}).Draw(t, "searcher")
					}
					if typ := typeOfMethod(q.name); typ != "" {
						for j := 0; j < tb.ColCount(); j++ {
							if ct, _ := tb.ColTypeByColIndex(j); ct == typ {
								wantCol = j
							}
						}
					}
				}
				m := recv.MethodByName(q.name)
				for j := 0; j < m.Type().NumIn(); j++ {
					q.args = append(q.args, w.arg(tb, q.name, m.Type().In(j), &wantCol))
				}
				readers[i] = append(readers[i], q)
				if asked[q.who] == nil {
					asked[q.who], from[q.who] = map[string]bool{}, map[int]bool{}
				}
				asked[q.who][q.name] = true
				from[q.who][i] = true
			}
		}
		c.Key("%v %v", desc, readers)
		for who := range asked {
			c.NonTrivial(len(asked[who]) >= 3 && len(from[who]) >= 2)
		}
		// At the same time first: nothing is asked of them before.
		got := make([][]string, len(readers))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i, qs := range readers {
			got[i] = make([]string, len(qs))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j, q := range qs {
					var f failures
					if msg := try(func() { got[i][j] = q.ask(&f, all, w.set) }); msg != "" {
						got[i][j] = msg
					}
					got[i][j] += f.String()
				}
			}()
		}
		close(start)
		wg.Wait()
		for i, qs := range readers {
			for j, q := range qs {
				if want := q.ask(t, all, w.set); got[i][j] != want {
					t.Fatalf("question %v of reader %d has another answer at the same time as others than alone: %s\nquestions: %v\ntables: %v", q, i, firstDiff(want, got[i][j]), readers, desc)
				}
			}
		}
	})
}

// failures of goroutines that are not the test's own.
type failures struct{ msg []string }

func (f *failures) Helper() {}
func (f *failures) Fatalf(format string, a ...any) {
	f.msg = append(f.msg, fmt.Sprintf(format, a...))
	panic(fmt.Errorf(format, a...))
}
func (f *failures) String() string { return strings.Join(f.msg, "; ") }
