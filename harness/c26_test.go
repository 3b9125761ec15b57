package gtverif

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C26 the command line tools.

var (
	toolsOnce sync.Once
	toolsDir  string
	toolsErr  error
)

// tools builds both commands from /repo, once.
func tools(t fataler) string {
	t.Helper()
	toolsOnce.Do(func() {
		toolsDir, toolsErr = os.MkdirTemp("", "c26_tools_")
		if toolsErr != nil {
			return
		}
		for _, name := range []string{"gotecho", "gotsyntax"} {
			cmd := exec.Command("go", "build", "-o", filepath.Join(toolsDir, name), ".")
			cmd.Dir = "/repo/cmd/" + name
			if out, err := cmd.CombinedOutput(); err != nil {
				toolsErr = fmt.Errorf("building %s: %v\n%s", name, err, out)
				return
			}
		}
	})
	if toolsErr != nil {
		t.Fatalf("%v", toolsErr)
	}
	return toolsDir
}

type ran struct {
	out, err string
	code     int
}

func runTool(t fataler, name string, stdin *string, dir string, args ...string) ran {
	t.Helper()
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(tools(t), name), args...)
	cmd.Dir = dir
	if stdin != nil {
		cmd.Stdin = strings.NewReader(*stdin)
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		t.Fatalf("%s %q did not end in 120 s", name, args)
	}
	if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() < 0 {
		t.Fatalf("VERIF-ENV: %s %q was killed: %v", name, args, err)
	}
	r := ran{out: o.String(), err: e.String()}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.code = ee.ExitCode()
	} else {
		must(t, err, "VERIF-ENV: running %s", name)
	}
	if strings.Contains(r.err, "panic:") || strings.Contains(r.err, "goroutine ") {
		t.Fatalf("%s %q: %s", name, args, r.err)
	}
	return r
}

func TestC26_echo(t *testing.T) {
	runCheck(t, "gotecho of a generated document (one in four damaged), from a file or a pipe, with any of -u, -t and -r naming a table of it or a missing one; non-trivial = a good document with at least one row", 1500, 30000, func(t *rapid.T, c *Case) {
		s := genDocSet(3, 4, 2).Draw(t, "set")
		d := docOf(t, s, true, false)
		what := ""
		if rapid.IntRange(0, 3).Draw(t, "damaged") == 0 {
			what, _ = damage(t, s, d)
		}
		text, _ := d.render(t)
		dir, err := os.MkdirTemp("", "c26_")
		must(t, err, "MkdirTemp")
		defer os.RemoveAll(dir)
		must(t, os.WriteFile(filepath.Join(dir, "in.got"), []byte(text), 0o644), "WriteFile")

		var args []string
		pick := func(label string) string {
			if len(s.Tables) == 0 || rapid.IntRange(0, 5).Draw(t, label+"Missing") == 0 {
				return "no_such_table"
			}
			return rapid.SampledFrom(s.Tables).Draw(t, label).Name
		}
		var only, rotate string
		var groups [][]string
		unpadded := rapid.Bool().Draw(t, "u")
		if unpadded {
			groups = append(groups, []string{"-u"})
		}
		if rapid.IntRange(0, 2).Draw(t, "t") == 0 {
			only = pick("only")
			groups = append(groups, rapid.SampledFrom([][]string{{"-t", only}, {"-t=" + only}}).Draw(t, "tForm"))
		}
		if rapid.IntRange(0, 2).Draw(t, "r") == 0 {
			rotate = pick("rotate")
			groups = append(groups, rapid.SampledFrom([][]string{{"-r", rotate}, {"-r=" + rotate}}).Draw(t, "rForm"))
		}
		for _, g := range rapid.Permutation(groups).Draw(t, "flagOrder") {
			args = append(args, g...)
		}
		pipe := rapid.IntRange(0, 2).Draw(t, "pipe") == 0
		empty := ""
		var r ran
		if pipe {
			r = runTool(t, "gotecho", &text, dir, args...)
			if r.code == 6 && strings.Contains(r.err, "after waiting") {
				t.Skip("too slow to read its input")
			}
		} else {
			r = runTool(t, "gotecho", &empty, dir, append(args, "in.got")...)
		}
		c.Key("%q pipe %v %q %s", args, pipe, text, what)
		c.ClassIf(pipe, "pipe")
		c.ClassIf(unpadded, "-u")
		c.ClassIf(only != "", "-t")
		c.ClassIf(rotate != "", "-r")

		// What the library makes of the same text.
		ts, perr := gotables.NewTableSetFromString(text)
		want := ""
		ok := perr == nil && ts.TableCount() > 0
		if what == "" && perr != nil {
			t.Fatalf("a good document is rejected: %v\n%s", perr, text)
		}
		if ok && rotate != "" {
			tb, err := ts.GetTable(rotate)
			if err != nil {
				ok = false
			} else {
				isStruct, err := tb.IsStructShape()
				must(t, err, "IsStructShape")
				if isStruct || tb.RowCount() <= 1 {
					must(t, tb.SetStructShape(!isStruct), "SetStructShape")
				}
			}
		}
		if ok && only != "" {
			tb, err := ts.GetTable(only)
			if err != nil {
				ok = false
			} else if unpadded {
				want = tb.StringUnpadded() + "\n"
			} else {
				want = tb.String() + "\n"
			}
		} else if ok {
			if unpadded {
				want = ts.StringUnpadded() + "\n"
			} else {
				want = ts.String() + "\n"
			}
		}
		if !ok {
			c.Class("cannot be echoed")
			if r.code == 0 || r.out != "" || r.err == "" {
				t.Fatalf("gotecho %q of %q: exit status %d, output %q, errors %q; want an error (%v)", args, text, r.code, r.out, r.err, perr)
			}
			return
		}
		rows := 0
		for _, m := range s.Tables {
			rows += len(m.Rows)
		}
		c.NonTrivial(what == "" && rows > 0)
		if r.code != 0 {
			t.Fatalf("gotecho %q of %q: exit status %d: %s", args, text, r.code, r.err)
		}
		if r.out != want {
			t.Fatalf("gotecho %q of %q gives\n%s\nwant\n%s", args, text, r.out, want)
		}
		if what == "" {
			back, err := gotables.NewTableSetFromString(r.out)
			must(t, err, "reading what gotecho %q wrote: %q", args, r.out)
			model := &MSet{Name: s.Name, Tables: s.Tables}
			if only != "" {
				model = &MSet{}
				for _, m := range s.Tables {
					if m.Name == only {
						model.Tables = append(model.Tables, m)
					}
				}
			}
			sameSet(t, model, back, "gotecho")
		}
	})
}

func TestC26_syntax(t *testing.T) {
	runCheck(t, "gotsyntax of 1-4 files: good, damaged, empty or missing; non-trivial = a good and a bad file", 1500, 30000, func(t *rapid.T, c *Case) {
		dir, err := os.MkdirTemp("", "c26_")
		must(t, err, "MkdirTemp")
		defer os.RemoveAll(dir)
		n := rapid.IntRange(1, 4).Draw(t, "files")
		var args []string
		var good, bad []string
		var texts []string
		allFull := true
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("file_%d.got", i)
			args = append(args, name)
			kind := rapid.IntRange(0, 5).Draw(t, "kind")
			if kind == 0 {
				bad = append(bad, name)
				texts = append(texts, "(missing)")
				continue
			}
			text := ""
			if kind == 1 {
				text = rapid.SampledFrom([]string{"", "\n", "# only a comment\n", "\n\n# x\n"}).Draw(t, "empty")
			} else {
				text = drawDoc(t, 2)
			}
			texts = append(texts, text)
			must(t, os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644), "WriteFile")
			ts, err := gotables.NewTableSetFromString(text)
			if err != nil {
				bad = append(bad, name)
			} else {
				good = append(good, name)
				allFull = allFull && ts.TableCount() > 0
			}
		}
		c.Key("%q", texts)
		c.NonTrivial(len(good) > 0 && len(bad) > 0)
		c.ClassIf(len(bad) == 0, "all good")
		c.ClassIf(!allFull, "a file without tables")
		r := runTool(t, "gotsyntax", nil, dir, args...)
		if (r.code == 0) != (len(bad) == 0 && allFull) {
			t.Fatalf("gotsyntax of %q: exit status %d; bad files %v; %s", texts, r.code, bad, r.err)
		}
		lines := strings.Split(strings.TrimSuffix(r.out, "\n"), "\n")
		if r.out == "" {
			lines = nil
		}
		if len(lines) != len(good) {
			t.Fatalf("gotsyntax of %q reports %q, want the files %v", texts, r.out, good)
		}
		for i, l := range lines {
			if !strings.HasPrefix(l, "ok") || !strings.Contains(l, good[i]) {
				t.Fatalf("gotsyntax of %q reports %q, want the files %v", texts, r.out, good)
			}
		}
		for _, name := range bad {
			if !strings.Contains(r.err, name) {
				t.Fatalf("gotsyntax of %q does not report %s: %q", texts, name, r.err)
			}
		}
		for _, name := range good {
			for _, l := range strings.Split(r.err, "\n") {
				if strings.HasPrefix(l, "error") && strings.Contains(l, name) {
					t.Fatalf("gotsyntax of %q reports an error in %s: %q", texts, name, l)
				}
			}
		}
	})
}
