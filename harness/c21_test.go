package gtverif

import (
	"bytes"
	"context"
	_ "embed"
	"fmt"
	"go/ast"
	gobuild "go/build"
	"go/doc"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C21 generated Go code.

// Names likely to clash with whatever the generated code declares or refers to.
var clashNames = []string{
	"table", "slice", "err", "rowIndex", "tableName", "colNames", "colTypes", "row", "rows", "i", "n", "t", "col", "result", "out", "structs",
	"error", "nil", "make", "len", "append", "true", "false", "iota", "any", "string_", "type", "func", "range", "struct", "var", "map", "return", "_", "init", "main",
	"fmt", "gotables", "time", "Table", "Time", "TableSet", "GetInt", "RowCount", "strings", "errors",
}

func genGoName() *rapid.Generator[string] {
	return rapid.OneOf(genIdent(), genIdent(), genName(), rapid.SampledFrom(clashNames))
}

// unusable: can a table of this name and these columns not be expressed in Go?
func unusable(m *MT) bool {
	n := m.Name
	if m.Nil || !token.IsIdentifier(n) || n == "_" || doc.IsPredeclared(n) {
		return true
	}
	switch n {
	case "init", "main", "fmt", "gotables", "time":
		return true
	}
	for _, c := range m.Cols {
		if !token.IsIdentifier(c.Name) || c.Name == "_" {
			return true
		}
	}
	return false
}

type fakeImporter struct {
	std types.Importer
	own *types.Package
}

func (f *fakeImporter) Import(path string) (*types.Package, error) {
	if path == "github.com/urban-wombat/gotables" && f.own != nil {
		return f.own, nil
	}
	if strings.Contains(path, ".") { // Not needed for the types of gotables functions.
		p := types.NewPackage(path, strings.SplitN(filepath.Base(path), ".", 2)[0])
		p.MarkComplete()
		return p, nil
	}
	return f.std.Import(path)
}

var (
	impOnce sync.Once
	imp     *fakeImporter
	impErr  error
	impSet  = token.NewFileSet()
)

// repoImporter gives the types of the gotables package in /repo.
func repoImporter(t fataler) *fakeImporter {
	t.Helper()
	impOnce.Do(func() {
		imp = &fakeImporter{std: importer.ForCompiler(impSet, "source", nil)}
		bp, err := gobuild.ImportDir("/repo", 0)
		if err != nil {
			impErr = err
			return
		}
		var files []*ast.File
		for _, f := range bp.GoFiles {
			a, err := parser.ParseFile(impSet, filepath.Join("/repo", f), nil, 0)
			if err != nil {
				impErr = err
				return
			}
			files = append(files, a)
		}
		conf := types.Config{IgnoreFuncBodies: true, Importer: imp, Error: func(error) {}}
		pkg, _ := conf.Check("github.com/urban-wombat/gotables", impSet, files, nil)
		if pkg == nil || pkg.Scope().Lookup("Table") == nil {
			impErr = fmt.Errorf("cannot type-check /repo")
			return
		}
		imp.own = pkg
	})
	if impErr != nil {
		t.Fatalf("importer: %v", impErr)
	}
	return imp
}

type generated struct{ typ, from, to string }

// generate asks for all three pieces of code. They must all work, or all fail.
func generate(t fataler, m *MT, tb *gotables.Table) (g generated, ok bool) {
	t.Helper()
	var e1, e2, e3 error
	g.typ, e1 = tb.GenerateTypeStruct()
	g.from, e2 = tb.GenerateTypeStructSliceFromTable()
	g.to, e3 = tb.GenerateTypeStructSliceToTable()
	if unusable(m) {
		for i, e := range []error{e1, e2, e3} {
			if s := []string{g.typ, g.from, g.to}[i]; e != nil && s != "" {
				t.Fatalf("error %v and code %q", e, s)
			}
		}
		return g, e1 == nil && e2 == nil && e3 == nil
	}
	must(t, e1, "GenerateTypeStruct of %s", m)
	must(t, e2, "GenerateTypeStructSliceFromTable of %s", m)
	must(t, e3, "GenerateTypeStructSliceToTable of %s", m)
	return g, true
}

const genHeader = "package main\n\nimport (\n\t\"fmt\"\n\t\"time\"\n\n\t\"github.com/urban-wombat/gotables\"\n)\n\nvar _ = fmt.Sprint\nvar _ time.Duration\nvar _ *gotables.TableSet\n\n"

func goTypeOf(typ string) string {
	switch typ = canonType(typ); typ {
	case "*Table":
		return "*github.com/urban-wombat/gotables.Table"
	}
	return typ
}

func typeString(t types.Type) string {
	s := types.TypeString(types.Unalias(t), nil)
	switch s {
	case "byte":
		return "uint8"
	case "rune":
		return "int32"
	case "[]byte":
		return "[]uint8"
	}
	return s
}

func TestC21_types(t *testing.T) {
	runCheck(t, "a table of 0-8 columns of any types, named by identifiers including Go's own words and the generated code's likely variables; non-trivial = at least 2 columns, or a name of that kind", 5000, 120000, func(t *rapid.T, c *Case) {
		im := repoImporter(t)
		m := &MT{Name: genGoName().Draw(t, "tableName")}
		names := rapid.SliceOfNDistinct(genGoName(), 0, 8, rapid.ID[string]).Draw(t, "names")
		for _, n := range names {
			m.Cols = append(m.Cols, Col{n, rapid.SampledFrom(allTypes).Draw(t, "type")})
		}
		if rapid.IntRange(0, 30).Draw(t, "nilTable") == 30 {
			m = &MT{Nil: true}
		}
		tb := build(t, m)
		c.Key("%s", m)
		c.NonTrivial(len(m.Cols) > 1)
		for _, n := range clashNames {
			c.NonTrivial(n == m.Name)
			c.ClassIf(n == m.Name, "clashing table name")
			c.ClassIf(m.colIndex(n) >= 0, "clashing column name")
		}
		c.ClassIf(m.colIndex(m.Name) >= 0, "column named as the table")
		g, ok := generate(t, m, tb)
		sameTable(t, m, tb, "the table after generating code")
		if !ok {
			c.Class("names unusable in Go")
			return
		}
		src := genHeader + g.typ + "\n" + g.from + "\n" + g.to
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, "g.go", src, parser.AllErrors)
		must(t, err, "parsing the generated code of %s\n%s", m, src)
		conf := types.Config{Importer: im}
		pkg, err := conf.Check("main", fset, []*ast.File{f}, nil)
		must(t, err, "type-checking the generated code of %s\n%s", m, src)
		obj, isType := pkg.Scope().Lookup(m.Name).(*types.TypeName)
		if !isType {
			t.Fatalf("no type %s in\n%s", m.Name, src)
		}
		st, isStruct := obj.Type().Underlying().(*types.Struct)
		if !isStruct || st.NumFields() != len(m.Cols) {
			t.Fatalf("type %s is not a struct of %d fields:\n%s", m.Name, len(m.Cols), src)
		}
		for i, col := range m.Cols {
			if st.Field(i).Name() != col.Name || typeString(st.Field(i).Type()) != goTypeOf(col.Type) {
				t.Fatalf("field %d is %s %s, want %v:\n%s", i, st.Field(i).Name(), typeString(st.Field(i).Type()), col, src)
			}
		}
		for fn, want := range map[string]string{
			"TypeStructSliceFromTable_" + m.Name: "([]main." + m.Name + ", error)",
			"TypeStructSliceToTable_" + m.Name:   "(*github.com/urban-wombat/gotables.Table, error)",
		} {
			o, isFunc := pkg.Scope().Lookup(fn).(*types.Func)
			if !isFunc {
				t.Fatalf("no function %s in\n%s", fn, src)
			}
			if got := o.Type().(*types.Signature).Results().String(); got != want {
				t.Fatalf("%s gives %s, want %s", fn, got, want)
			}
		}
		// Formatting changes nothing but the layout.
		formatted, err := gotables.UtilFormatSource(src)
		must(t, err, "UtilFormatSource")
		want, err := format.Source([]byte(src))
		must(t, err, "format.Source")
		if formatted != string(want) {
			t.Fatalf("UtilFormatSource differs from gofmt:\n%s", formatted)
		}
		cut := rapid.IntRange(0, len(src)).Draw(t, "cut")
		damaged := src[:cut] + rapid.SampledFrom([]string{"(", "}", "\"", "var", "`"}).Draw(t, "damage") + src[cut:]
		_, perr := format.Source([]byte(damaged))
		if s, err := gotables.UtilFormatSource(damaged); (err == nil) != (perr == nil) || (err != nil && s != "") {
			t.Fatalf("UtilFormatSource of damaged code: %q, %v; gofmt: %v", s, err, perr)
		}
	})
}

const driverHelpers = `
func verifStr(v interface{}) string {
	switch x := v.(type) {
	case float64:
		if x != x {
			return "float64 NaN"
		}
		return verifstrconv.FormatUint(verifmath.Float64bits(x), 16) + " float64"
	case float32:
		if x != x {
			return "float32 NaN"
		}
		return verifstrconv.FormatUint(uint64(verifmath.Float32bits(x)), 16) + " float32"
	case string:
		return verifstrconv.Quote(x)
	case []byte:
		return veriffmt.Sprintf("bytes %v", []byte(x))
	case veriftime.Time:
		_, off := x.Zone()
		return veriffmt.Sprintf("time %d.%d %d", x.Unix(), x.Nanosecond(), off)
	case *verifgot.Table:
		if x == nil {
			return "no table"
		}
		return "table " + x.Name()
	}
	return veriffmt.Sprintf("%T %v", v, v)
}

func verifRow(vals ...interface{}) {
	s := "row"
	for _, v := range vals {
		s += " | " + verifStr(v)
	}
	veriffmt.Println(s)
}

func verifTable(tb *verifgot.Table, err error) {
	if err != nil {
		veriffmt.Println("error:", verifstrconv.Quote(err.Error()))
		return
	}
	names, types, err := tb.GetColInfoAsSlices()
	veriffmt.Println("table", tb.Name(), names, types, err, tb.RowCount())
	for r := 0; r < tb.RowCount(); r++ {
		var vals []interface{}
		for c := 0; c < tb.ColCount(); c++ {
			v, err := tb.GetValByColIndex(c, r)
			if err != nil {
				veriffmt.Println("error:", err)
			}
			vals = append(vals, v)
		}
		verifRow(vals...)
	}
}

func verifMust(err error) {
	if err != nil {
		panic(err)
	}
}

func verifNamed(name string) *verifgot.Table {
	t := verifgot.NewNilTable()
	if name != "" {
		var err error
		t, err = verifgot.NewTable(name)
		verifMust(err)
	}
	return t
}
`

// driverStr must render as verifStr in driverHelpers does.
func driverStr(v any) string {
	switch x := v.(type) {
	case float64:
		if x != x {
			return "float64 NaN"
		}
		return strconv.FormatUint(math.Float64bits(x), 16) + " float64"
	case float32:
		if x != x {
			return "float32 NaN"
		}
		return strconv.FormatUint(uint64(math.Float32bits(x)), 16) + " float32"
	case string:
		return strconv.Quote(x)
	case []byte:
		return fmt.Sprintf("bytes %v", x)
	case time.Time:
		_, off := x.Zone()
		return fmt.Sprintf("time %d.%d %d", x.Unix(), x.Nanosecond(), off)
	case *MT:
		return "table " + x.Name
	}
	return fmt.Sprintf("%T %v", v, v)
}

// lit is a Go expression for a cell's value.
func lit(v any) string {
	switch x := v.(type) {
	case float64:
		return fmt.Sprintf("verifmath.Float64frombits(%d)", math.Float64bits(x))
	case float32:
		return fmt.Sprintf("verifmath.Float32frombits(%d)", math.Float32bits(x))
	case string:
		return strconv.Quote(x)
	case []byte:
		s := "[]byte{"
		for _, b := range x {
			s += fmt.Sprintf("%d,", b)
		}
		return s + "}"
	case time.Time:
		_, off := x.Zone()
		return fmt.Sprintf("veriftime.Unix(%d, %d).In(veriftime.FixedZone(\"\", %d))", x.Unix(), x.Nanosecond(), off)
	case *MT:
		return fmt.Sprintf("verifNamed(%q)", x.Name)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func TestC21_run(t *testing.T) {
	runCheck(t, "a program of the code generated for 12 tables (0-6 columns of any types, 0-4 rows), compiled and run: table to slice of struct and back; non-trivial = a table with at least 2 columns and 1 row", 10, 250, func(t *rapid.T, c *Case) {
		var ms []*MT
		names := rapid.SliceOfNDistinct(genGoName(), 12, 12, rapid.ID[string]).Draw(t, "tableNames")
		for _, n := range names {
			m := genTable(tableOpts{types: allTypes, maxCols: 6, maxRows: 4, val: valOpts{nan: true, inf: true, anyUTF8: true, named: true}}).Draw(t, "table")
			m.Name = n
			cols := rapid.SliceOfNDistinct(genGoName(), len(m.Cols), len(m.Cols), rapid.ID[string]).Draw(t, "names")
			for i := range m.Cols {
				m.Cols[i].Name = cols[i]
			}
			if !unusable(m) {
				ms = append(ms, m)
			}
			c.NonTrivial(len(m.Cols) > 1 && len(m.Rows) > 0)
		}
		var code, driver, want bytes.Buffer
		code.WriteString(genHeader)
		driver.WriteString("package main\n\nimport (\n\tveriffmt \"fmt\"\n\tverifmath \"math\"\n\tverifstrconv \"strconv\"\n\tveriftime \"time\"\n\n\tverifgot \"github.com/urban-wombat/gotables\"\n)\n\nvar _ veriftime.Time\nvar _ = verifmath.Pi\n")
		driver.WriteString(driverHelpers)
		calls := ""
		for i, m := range ms {
			g, _ := generate(t, m, build(t, m))
			code.WriteString(g.typ + "\n" + g.from + "\n" + g.to + "\n")
			calls += fmt.Sprintf("\tverifCase%d()\n", i)
			d := &driver
			fmt.Fprintf(d, "\nfunc verifCase%d() {\n\tverifTb, verifErr := verifgot.NewTable(%q)\n\tverifMust(verifErr)\n", i, m.Name)
			for _, col := range m.Cols {
				fmt.Fprintf(d, "\tverifMust(verifTb.AppendCol(%q, %q))\n", col.Name, col.Type)
			}
			rowFmt := func(w *bytes.Buffer) {
				for _, row := range m.Rows {
					w.WriteString("row")
					for _, v := range row {
						w.WriteString(" | " + driverStr(v))
					}
					w.WriteString("\n")
				}
			}
			for r, row := range m.Rows {
				d.WriteString("\tverifMust(verifTb.AppendRow())\n")
				for j, v := range row {
					fmt.Fprintf(d, "\tverifMust(verifTb.SetValByColIndex(%d, %d, %s))\n", j, r, lit(v))
				}
			}
			fmt.Fprintf(d, "\tverifSlice, verifErr := TypeStructSliceFromTable_%s(verifTb)\n\tverifMust(verifErr)\n\tveriffmt.Println(\"case\", %d, len(verifSlice))\n", m.Name, i)
			fmt.Fprintf(&want, "case %d %d\n", i, len(m.Rows))
			d.WriteString("\tfor _, verifR := range verifSlice {\n\t\t_ = verifR\n\t\tverifRow(")
			for _, col := range m.Cols {
				fmt.Fprintf(d, "verifR.%s, ", col.Name)
			}
			d.WriteString(")\n\t}\n")
			rowFmt(&want)
			fmt.Fprintf(d, "\tverifTable(TypeStructSliceToTable_%s(verifSlice))\n", m.Name)
			var cn, ct []string
			for _, col := range m.Cols {
				cn, ct = append(cn, col.Name), append(ct, col.Type)
			}
			fmt.Fprintf(&want, "table %s %v %v <nil> %d\n", m.Name, cn, ct, len(m.Rows))
			rowFmt(&want)
			// nil, and a table without the columns.
			fmt.Fprintf(d, "\t_, verifErr = TypeStructSliceFromTable_%s(nil)\n\tveriffmt.Println(verifErr != nil)\n", m.Name)
			fmt.Fprintf(d, "\t_, verifErr = TypeStructSliceToTable_%s(nil)\n\tveriffmt.Println(verifErr != nil)\n", m.Name)
			fmt.Fprintf(d, "\tverifBad := verifNamed(\"bad\")\n\tverifMust(verifBad.AppendRow())\n\t_, verifErr = TypeStructSliceFromTable_%s(verifBad)\n\tveriffmt.Println(verifErr != nil)\n}\n", m.Name)
			fmt.Fprintf(&want, "true\ntrue\n%v\n", len(m.Cols) > 0)
			c.Class("tables")
		}
		driver.WriteString("\nfunc main() {\n" + calls + "}\n")
		c.Key("%v", ms)

		dir, err := os.MkdirTemp("", "c21_")
		must(t, err, "MkdirTemp")
		defer os.RemoveAll(dir)
		for name, b := range map[string][]byte{"generated.go": code.Bytes(), "driver.go": driver.Bytes(), "go.mod": harnessMod, "go.sum": harnessSum} {
			must(t, os.WriteFile(filepath.Join(dir, name), b, 0o644), "writing %s", name)
		}
		cmd := exec.Command("go", "build", "-o", "prog", ".")
		cmd.Dir = dir
		if out, err := cmd.CombinedOutput(); err != nil {
			if !bytes.Contains(out, []byte("generated.go:")) {
				t.Fatalf("VERIF-ENV: building the program: %v\n%s", err, out)
			}
			t.Fatalf("the generated code does not compile: %s\n%s", out, code.String())
		}
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		defer cancel()
		cmd = exec.CommandContext(ctx, filepath.Join(dir, "prog"))
		cmd.Dir = dir
		out, err := cmd.CombinedOutput()
		if ctx.Err() != nil {
			t.Fatalf("the generated code did not end in 120 s\ncode:\n%s", code.String())
		}
		if cmd.ProcessState == nil || cmd.ProcessState.ExitCode() < 0 {
			t.Fatalf("VERIF-ENV: the program did not run or was killed: %v", err)
		}
		must(t, err, "running the generated code: %s", clip(string(out), 2000))
		got, exp := strings.Split(string(out), "\n"), strings.Split(want.String(), "\n")
		for i := 0; i < len(got) || i < len(exp); i++ {
			var g, e string
			if i < len(got) {
				g = got[i]
			}
			if i < len(exp) {
				e = exp[i]
			}
			if g != e {
				t.Fatalf("output line %d is\n%s\nwant\n%s\ncode:\n%s", i, g, e, code.String())
			}
		}
	})
}

//go:embed go.mod
var harnessMod []byte

//go:embed go.sum
var harnessSum []byte
