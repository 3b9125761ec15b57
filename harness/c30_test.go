package gtverif

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"go/format"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/urban-wombat/gotables"
	"pgregory.net/rapid"
)

// C30 the utility functions.

// As a child of its own: read standard input with the library and say what came of it.
func init() {
	ms := os.Getenv("VERIF_C30_CHILD")
	if ms == "" {
		return
	}
	n, err := strconv.Atoi(ms)
	if err != nil {
		os.Exit(7)
	}
	if can, err := gotables.UtilCanReadFromPipe(); !can || err != nil {
		os.Exit(8)
	}
	var in string
	if n < 0 {
		in, err = gotables.UtilGulpFromPipe()
	} else {
		in, err = gotables.UtilGulpFromPipeWithTimeout(time.Duration(n) * time.Millisecond)
	}
	os.Stdout.WriteString(in)
	if err != nil {
		os.Stderr.WriteString(err.Error())
		os.Exit(5)
	}
	os.Exit(0)
}

func TestC30_round(t *testing.T) {
	runCheck(t, "UtilRound of any finite value (ties, negatives and neighbours of ties well represented) to -6..15 places, against exact arithmetic; non-trivial = the value is not a multiple already", 10000, 500000, func(t *rapid.T, c *Case) {
		places := rapid.IntRange(-6, 15).Draw(t, "places")
		if rapid.IntRange(0, 3).Draw(t, "whole") == 0 {
			places = 0
		}
		pow := math.Pow(10, float64(places))
		var v float64
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0:
			v = genFloat64(false).Draw(t, "v")
		case 1: // at or near a tie
			v = (float64(rapid.IntRange(-1000, 1000).Draw(t, "n")) + 0.5) / pow
			for i := rapid.IntRange(-2, 2).Draw(t, "ulps"); i != 0; {
				if i > 0 {
					v, i = math.Nextafter(v, math.Inf(1)), i-1
				} else {
					v, i = math.Nextafter(v, math.Inf(-1)), i+1
				}
			}
		case 2: // a multiple, or nearly
			v = float64(rapid.IntRange(-100000, 100000).Draw(t, "n")) / pow
		case 3:
			v = float64(rapid.IntRange(-1000000, 1000000).Draw(t, "n")) / 1000
		}
		c.Key("%v %d", v, places)
		if math.Abs(v)*pow > 1e290 || math.Abs(v)*pow < 1e-290 && v != 0 {
			return
		}
		got := gotables.UtilRound(v, places)
		if math.IsNaN(got) || math.IsInf(got, 0) {
			t.Fatalf("UtilRound(%v, %d) = %v", v, places, got)
		}
		// Exactly: d = v * 10^places; the result is floor(d + 1/2) / 10^places.
		ten := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(places, -places))), nil))
		if places < 0 {
			ten.Inv(ten)
		}
		d := new(big.Rat).Mul(new(big.Rat).SetFloat64(v), ten)
		half := big.NewRat(1, 2)
		floor := func(r *big.Rat) *big.Rat {
			q := new(big.Int)
			m := new(big.Int)
			q.DivMod(r.Num(), r.Denom(), m) // Euclidean: m >= 0, so this is the floor
			return new(big.Rat).SetInt(q)
		}
		n := floor(new(big.Rat).Add(d, half))
		c.NonTrivial(n.Cmp(d) != 0)
		c.ClassIf(v < 0, "negative")
		c.ClassIf(places < 0, "places < 0")
		frac := new(big.Rat).Sub(d, floor(d))
		tie := frac.Cmp(half) == 0
		c.ClassIf(tie, "exact tie")
		// The product is itself rounded: near a tie or a whole number either neighbour is right.
		slack := new(big.Rat).SetFloat64(math.Abs(v) * pow * 4e-16)
		near := func(r *big.Rat) bool { return new(big.Rat).Abs(new(big.Rat).Sub(frac, r)).Cmp(slack) <= 0 }
		wants := []*big.Rat{n}
		if places != 0 && (near(half) || near(new(big.Rat)) || near(big.NewRat(1, 1))) {
			wants = []*big.Rat{floor(d), new(big.Rat).Add(floor(d), big.NewRat(1, 1))}
			if big := math.Abs(v) * pow; big > 1e15 { // no fraction left to round
				if math.Abs(got-v) <= math.Abs(v)*1e-15 {
					return
				}
			}
		}
		var texts []string
		for _, w := range wants {
			f, _ := new(big.Rat).Quo(w, ten).Float64()
			texts = append(texts, strconv.FormatFloat(f, 'g', -1, 64))
			if math.Abs(got-f) <= math.Abs(f)*4e-16 {
				return
			}
		}
		t.Fatalf("UtilRound(%v, %d) = %v, want %s", v, places, got, strings.Join(texts, " or "))
	})
}

func TestC30_flag(t *testing.T) {
	runCheck(t, "a command line of string flags, given or not, with values which may look like another flag, parsed by package flag into UtilStringFlag, and the same questions of UtilCheckStringFlag; non-trivial = a flag given and a flag not", 3000, 100000, func(t *rapid.T, c *Case) {
		fs := flag.NewFlagSet("x", flag.ContinueOnError)
		fs.SetOutput(io.Discard)
		names := []string{"t", "r", "file"}
		flags := map[string]*gotables.UtilStringFlag{}
		for _, n := range names {
			flags[n] = &gotables.UtilStringFlag{}
			fs.Var(flags[n], n, "")
		}
		given := map[string]string{}
		var args []string
		for _, n := range rapid.Permutation(names).Draw(t, "order") {
			if !rapid.Bool().Draw(t, "given") {
				continue
			}
			v := rapid.OneOf(rapid.SampledFrom([]string{"", "-", "-r", "--x", "a-b", " -x", "T1", "="}), genString()).Draw(t, "v")
			given[n] = v
			args = append(args, rapid.SampledFrom([][]string{{"-" + n, v}, {"--" + n + "=" + v}}).Draw(t, "form")...)
		}
		c.Key("%q", args)
		c.NonTrivial(len(given) > 0 && len(given) < len(names))
		must(t, fs.Parse(args), "Parse %q", args)
		for _, n := range names {
			v, ok := given[n]
			f := flags[n]
			dash := strings.HasPrefix(v, "-")
			c.ClassIf(dash, "looks like a flag")
			if f.Exists() != ok || f.String() != v || f.IsSet() != (ok && !dash) || (f.Error() != nil) != (ok && dash) || f.AllOk() != (ok && !dash) {
				t.Fatalf("%q: flag -%s: Exists %v, String %q, IsSet %v, Error %v, AllOk %v", args, n, f.Exists(), f.String(), f.IsSet(), f.Error(), f.AllOk())
			}
			if f.Error() != nil && !strings.Contains(f.Error().Error(), v) {
				t.Fatalf("%q: flag -%s: %v", args, n, f.Error())
			}
			for _, required := range []bool{gotables.FlagRequired, gotables.FlagOptional} {
				exists, err := gotables.UtilCheckStringFlag(n, v, required)
				wantErr := dash || v == "" && required
				if exists != (v != "" && !dash) || (err != nil) != wantErr || err != nil && !strings.Contains(err.Error(), "-"+n) {
					t.Fatalf("UtilCheckStringFlag(%q, %q, %v) = %v, %v", n, v, required, exists, err)
				}
			}
		}
	})
}

func TestC30_pipe(t *testing.T) {
	runCheck(t, "UtilGulpFromPipe and UtilGulpFromPipeWithTimeout in a child process fed 0-6 chunks of any bytes, or nothing until after the timeout; non-trivial = at least 2 chunks, or a timeout", 300, 5000, func(t *rapid.T, c *Case) {
		exe, err := os.Executable()
		must(t, err, "VERIF-ENV: Executable")
		chunks := rapid.SliceOfN(rapid.OneOf(
			rapid.Map(genStringAny(), func(s string) []byte { return []byte(s) }),
			rapid.SliceOfN(rapid.Byte(), 0, 40),
			rapid.Map(rapid.IntRange(4000, 70000), func(n int) []byte { return bytes.Repeat([]byte{'a', 0xc3, 0xa9, '\n', 0xff, 0xe4}, n/6) }),
		), 0, 6).Draw(t, "chunks")
		mode := rapid.IntRange(0, 2).Draw(t, "mode")
		ms := []string{"-1", "120000", "20"}[mode]
		c.Key("%d %s", mode, fmt.Sprintf("%x", chunks))
		c.NonTrivial(len(chunks) > 1 || mode == 2)
		c.Class([]string{"no timeout", "in time", "too late"}[mode])
		cmd := exec.Command(exe)
		cmd.Env = append(os.Environ(), "VERIF_C30_CHILD="+ms, "VERIF_OUT=", "VERIF_NOTE=")
		in, err := cmd.StdinPipe()
		must(t, err, "VERIF-ENV: StdinPipe")
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		must(t, cmd.Start(), "VERIF-ENV: starting %s", exe)
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		if mode != 2 {
			for _, ch := range chunks {
				_, _ = in.Write(ch)
			}
			_ = in.Close()
		}
		select {
		case err = <-done:
		case <-time.After(100 * time.Second):
			_ = cmd.Process.Kill()
			<-done
			t.Fatalf("mode %s: reading a pipe did not end in 100 s", ms)
		}
		_ = in.Close()
		var ee *exec.ExitError
		code := 0
		if errors.As(err, &ee) {
			code = ee.ExitCode()
		} else {
			must(t, err, "VERIF-ENV: child")
		}
		if code < 0 {
			t.Fatalf("VERIF-ENV: the child was killed: %v", err)
		}
		if mode == 2 {
			if code != 5 || o.Len() > 0 || e.Len() == 0 {
				t.Fatalf("nothing to read for 20ms: exit %d, output %q, %q", code, o.String(), e.String())
			}
			return
		}
		if want := bytes.Join(chunks, nil); code != 0 || !bytes.Equal(o.Bytes(), want) {
			t.Fatalf("mode %s: wrote %d bytes %s; read %d bytes %s; exit %d %q", ms, len(want), clip(fmt.Sprintf("%q", want), 300), o.Len(), clip(fmt.Sprintf("%q", o.String()), 300), code, e.String())
		}
	})
}

// A chain of calls by name; the last asks who called whom.
type whoAmI struct {
	name, noParens, caller, callerCaller, callerCallerCaller, full, source string
	line, wantLine                                                         int
	file                                                                   string
}

type chainFunc func(rest []int) whoAmI

var callChain []chainFunc

var chainNames = []string{"alpha", "beta", "func1", "uncle", "Gamma", "delta_4"}

func init() {
	callChain = []chainFunc{alpha, beta, func1, uncle, chainT{}.Gamma, (&chainT{}).delta_4}
}

type chainT struct{}

//go:noinline
func alpha(rest []int) (w whoAmI) {
	if len(rest) > 0 {
		w = callChain[rest[0]](rest[1:])
		return w
	}
	_, w.file, w.wantLine, _ = runtime.Caller(0)
	w.line = gotables.UtilLineNumber() - 1
	w.source = gotables.UtilFuncSource()
	w.full = gotables.UtilFuncNameFull()
	w.name, w.noParens = gotables.UtilFuncName(), gotables.UtilFuncNameNoParens()
	w.caller, w.callerCaller, w.callerCallerCaller = gotables.UtilFuncCaller(), gotables.UtilFuncCallerCaller(), gotables.UtilFuncCallerCallerCaller()
	return w
}

//go:noinline
func beta(rest []int) (w whoAmI) {
	if len(rest) > 0 {
		w = callChain[rest[0]](rest[1:])
		return w
	}
	_, w.file, w.wantLine, _ = runtime.Caller(0)
	w.line = gotables.UtilLineNumber() - 1
	w.source = gotables.UtilFuncSource()
	w.full = gotables.UtilFuncNameFull()
	w.name, w.noParens = gotables.UtilFuncName(), gotables.UtilFuncNameNoParens()
	w.caller, w.callerCaller, w.callerCallerCaller = gotables.UtilFuncCaller(), gotables.UtilFuncCallerCaller(), gotables.UtilFuncCallerCallerCaller()
	return w
}

//go:noinline
func func1(rest []int) (w whoAmI) {
	if len(rest) > 0 {
		w = callChain[rest[0]](rest[1:])
		return w
	}
	_, w.file, w.wantLine, _ = runtime.Caller(0)
	w.line = gotables.UtilLineNumber() - 1
	w.source = gotables.UtilFuncSource()
	w.full = gotables.UtilFuncNameFull()
	w.name, w.noParens = gotables.UtilFuncName(), gotables.UtilFuncNameNoParens()
	w.caller, w.callerCaller, w.callerCallerCaller = gotables.UtilFuncCaller(), gotables.UtilFuncCallerCaller(), gotables.UtilFuncCallerCallerCaller()
	return w
}

//go:noinline
func uncle(rest []int) (w whoAmI) {
	if len(rest) > 0 {
		w = callChain[rest[0]](rest[1:])
		return w
	}
	_, w.file, w.wantLine, _ = runtime.Caller(0)
	w.line = gotables.UtilLineNumber() - 1
	w.source = gotables.UtilFuncSource()
	w.full = gotables.UtilFuncNameFull()
	w.name, w.noParens = gotables.UtilFuncName(), gotables.UtilFuncNameNoParens()
	w.caller, w.callerCaller, w.callerCallerCaller = gotables.UtilFuncCaller(), gotables.UtilFuncCallerCaller(), gotables.UtilFuncCallerCallerCaller()
	return w
}

//go:noinline
func (chainT) Gamma(rest []int) (w whoAmI) {
	if len(rest) > 0 {
		w = callChain[rest[0]](rest[1:])
		return w
	}
	_, w.file, w.wantLine, _ = runtime.Caller(0)
	w.line = gotables.UtilLineNumber() - 1
	w.source = gotables.UtilFuncSource()
	w.full = gotables.UtilFuncNameFull()
	w.name, w.noParens = gotables.UtilFuncName(), gotables.UtilFuncNameNoParens()
	w.caller, w.callerCaller, w.callerCallerCaller = gotables.UtilFuncCaller(), gotables.UtilFuncCallerCaller(), gotables.UtilFuncCallerCallerCaller()
	return w
}

//go:noinline
func (*chainT) delta_4(rest []int) (w whoAmI) {
	if len(rest) > 0 {
		w = callChain[rest[0]](rest[1:])
		return w
	}
	_, w.file, w.wantLine, _ = runtime.Caller(0)
	w.line = gotables.UtilLineNumber() - 1
	w.source = gotables.UtilFuncSource()
	w.full = gotables.UtilFuncNameFull()
	w.name, w.noParens = gotables.UtilFuncName(), gotables.UtilFuncNameNoParens()
	w.caller, w.callerCaller, w.callerCallerCaller = gotables.UtilFuncCaller(), gotables.UtilFuncCallerCaller(), gotables.UtilFuncCallerCallerCaller()
	return w
}

func TestC30_names(t *testing.T) {
	runCheck(t, "a chain of 4-8 calls among six functions and methods, the last asking for its own and its callers' names, file and line; generated paths, command names and Go sources; non-trivial = the last two of the chain differ", 2000, 20000, func(t *rapid.T, c *Case) {
		// Method values go through a wrapper, so only the named function itself is looked at after one.
		path := rapid.SliceOfN(rapid.IntRange(0, 3), 4, 8).Draw(t, "path")
		last := rapid.IntRange(0, len(callChain)-1).Draw(t, "last")
		path[len(path)-1] = last
		c.Key("%v", path)
		at := func(i int) string { return chainNames[path[len(path)-1-i]] }
		c.NonTrivial(at(0) != at(1))
		w := callChain[path[0]](path[1:])
		if w.name != at(0)+"()" || w.noParens != at(0) {
			t.Fatalf("in %s UtilFuncName is %q, UtilFuncNameNoParens %q", at(0), w.name, w.noParens)
		}
		if last < 4 && (w.caller != at(1)+"()" || w.callerCaller != at(2)+"()" || w.callerCallerCaller != at(3)+"()") {
			t.Fatalf("after the calls %v the callers are %q, %q, %q", path, w.caller, w.callerCaller, w.callerCallerCaller)
		}
		if w.line != w.wantLine || w.source != fmt.Sprintf("%s:%d:", filepath.Base(w.file), w.wantLine+2) {
			t.Fatalf("line %d of %s: UtilLineNumber %d, two lines on UtilFuncSource %q", w.wantLine, w.file, w.line, w.source)
		}
		if !strings.HasPrefix(w.full, fmt.Sprintf("%s:%d: ", w.file, w.wantLine+3)) || !strings.HasSuffix(w.full, "."+at(0)) {
			t.Fatalf("line %d of %s: three lines on UtilFuncNameFull %q", w.wantLine, w.file, w.full)
		}

		p := rapid.StringMatching(`(/|\./|\.\./)?[a-z. ]{0,6}(/[a-z.]{0,4}){0,4}`).Draw(t, "file")
		if got, err := gotables.UtilFilepathAbs(p); err == nil {
			want, _ := filepath.Abs(p)
			if got != want {
				t.Fatalf("UtilFilepathAbs(%q) = %q, want %q", p, got, want)
			}
		} else if !strings.HasPrefix(p, "/cygdrive/") {
			t.Fatalf("UtilFilepathAbs(%q): %v", p, err)
		}
		if gotables.UtilWordSize() != strconv.IntSize {
			t.Fatalf("UtilWordSize() = %d", gotables.UtilWordSize())
		}
		if gotables.UtilProgName() != filepath.Base(os.Args[0]) {
			t.Fatalf("UtilProgName() = %q", gotables.UtilProgName())
		}

		src := rapid.SampledFrom([]string{"", "if x{y()}", "package p\nfunc f( ){return}", "x:=1;y :=x", "package p\nvar(a=1\nbb=2)", "func f(", "package", "}", "type T struct{A int\nBbb string}"}).Draw(t, "src") +
			rapid.SampledFrom([]string{"", "\n", " // c", "\n\n\n// d\n", "\n{"}).Draw(t, "tail")
		got, err := gotables.UtilFormatSource(src)
		want, werr := format.Source([]byte(src))
		if (err != nil) != (werr != nil) || werr == nil && got != string(want) {
			t.Fatalf("UtilFormatSource(%q) = %q, %v; want %q, %v", src, got, err, want, werr)
		}
		if err == nil {
			again, err := gotables.UtilFormatSource(got)
			if err != nil || again != got {
				t.Fatalf("UtilFormatSource(%q) = %q, %v", got, again, err)
			}
		}
	})
}

func TestC30_command(t *testing.T) {
	runCheck(t, "UtilIsCommandInstalled with files, executable or not, in scratch directories, on the path or not; non-trivial = an executable file", 300, 5000, func(t *rapid.T, c *Case) {
		dir, err := os.MkdirTemp("", "c30_")
		must(t, err, "VERIF-ENV: MkdirTemp")
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, rapid.StringMatching(`[a-z]{1,8}`).Draw(t, "name"))
		kind := rapid.IntRange(0, 3).Draw(t, "kind")
		switch kind {
		case 0:
			must(t, os.WriteFile(name, []byte("#!/bin/sh\n"), 0o755), "VERIF-ENV: WriteFile")
		case 1:
			must(t, os.WriteFile(name, []byte("text"), 0o644), "VERIF-ENV: WriteFile")
		case 2:
			must(t, os.Mkdir(name, 0o755), "VERIF-ENV: Mkdir")
		}
		c.NonTrivial(kind == 0)
		where := rapid.SampledFrom([]string{"full name", "on the path", "on the path", "elsewhere"}).Draw(t, "where")
		ask, want := name, kind == 0
		oldPath := os.Getenv("PATH")
		defer os.Setenv("PATH", oldPath)
		switch where {
		case "on the path":
			ask = filepath.Base(name)
			other := filepath.Join(dir, "OTHER")
			must(t, os.Mkdir(other, 0o755), "VERIF-ENV: Mkdir")
			dirs := []string{dir, filepath.Join(dir, "MISSING"), other}
			// A later directory of the path may have it.
			if oneIn(t, 3, "later") {
				must(t, os.WriteFile(filepath.Join(other, ask), []byte("#!/bin/sh\n"), 0o755), "VERIF-ENV: WriteFile")
				want = true
				c.Class("in another directory of the path")
			}
			must(t, os.Setenv("PATH", strings.Join(rapid.Permutation(dirs).Draw(t, "PATH"), ":")), "VERIF-ENV: Setenv")
		case "elsewhere":
			ask, want = filepath.Base(name), false
			must(t, os.Setenv("PATH", filepath.Join(dir, "MISSING")), "VERIF-ENV: Setenv")
		}
		c.Key("%d %s %s", kind, filepath.Base(name), where)
		c.Class(where)
		ok, err := gotables.UtilIsCommandInstalled(ask)
		if ok != want || (err == nil) != ok || err != nil && !strings.Contains(err.Error(), ask) {
			t.Fatalf("kind %d, %s: UtilIsCommandInstalled = %v, %v", kind, where, ok, err)
		}
		if ok, err := gotables.UtilIsCommandInstalled(""); ok || err == nil {
			t.Fatalf("UtilIsCommandInstalled of no name = %v, %v", ok, err)
		}
	})
}
