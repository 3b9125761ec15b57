#!/usr/bin/env python3
"""check.py ID            run every sub-check of property ID (tier and seed from VERIF_TIER, VERIF_SEED)
   check.py --setup        build the harness once
   check.py --replay FILE  run again what a VIOLATION line's replay file recorded

Exit 0: the property held on everything explored.  Exit 1: violation (with a VIOLATION line).
Any other exit: the check itself could not give an answer."""
import array, json, os, re, shutil, subprocess, sys, tempfile, threading, time, zlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
KNOWN = os.path.join(VERIF, "known_findings.txt")
GOBIN = "/opt/veriftools/go1.27.3/bin"

ENV = dict(os.environ)
if os.path.isdir(GOBIN):
    ENV["PATH"] = GOBIN + ":" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")
ENV.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", TZ="Australia/Sydney")
ENV.setdefault("HOME", "/root")
ENV.pop("VERIF_OUT", None)


def die(msg, code=2):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)


def build(race=False, fuzz=False):
    d = os.path.join(VERIF, ".build")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "h%d%s.test" % (os.getpid(), "race" if race else "fuzz" if fuzz else ""))
    cmd = ["go", "test", "-vet=off", "-c", "-o", out] + (["-race"] if race else []) + (["-fuzz=Fuzz"] if fuzz else []) + ["."]
    p = subprocess.run(cmd, cwd=HARNESS, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        die("the harness does not build against /repo:\n" + p.stdout[-4000:])
    return out


def seed_for(seed, test):
    s = (seed * 1000003 + zlib.crc32(test.encode())) & 0x7FFFFFFFFFFFFFFF
    return s or 1


NOT_OURS = re.compile(r"out of memory|cannot allocate|newosproc|pthread_create|resource temporarily unavailable|runtime: VirtualAlloc|too many open files|no space left", re.I)


def run_sub(binary, test, seed, tier, timeout, failfile=None, shards=1):
    """One sub-check in its own process and scratch directory."""
    scratch = tempfile.mkdtemp(prefix="gtverif_")
    try:
        out = os.path.join(scratch, "result.json")
        log = os.path.join(scratch, "log.txt")
        notef = os.path.join(scratch, "note.txt")
        cwd = os.path.join(scratch, "cwd")
        os.mkdir(cwd)
        env = dict(ENV, VERIF_OUT=out, VERIF_TIER=tier, VERIF_NOTE=notef, GOMAXPROCS="2", TMPDIR=scratch)
        env["VERIF_SHARDS"] = str(shards)
        cmd = [binary, "-test.run", "^%s$" % test, "-test.timeout=0", "-test.count=1",
               "-rapid.seed=%d" % seed, "-rapid.shrinktime=%ds" % (20 if tier == "quick" else 60)]
        if failfile:
            cmd.append("-rapid.failfile=" + failfile)
        t0 = time.time()
        timed_out = False
        with open(log, "wb") as lf:
            p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                rc = p.wait()
                timed_out = True
        size = os.path.getsize(log)
        with open(log, "rb") as lf:
            if size > 400000:
                head = lf.read(100000)
                lf.seek(size - 300000)
                data = head + b"\n...\n" + lf.read()
            else:
                data = lf.read()
        text = data.decode("utf-8", "replace")
        res = None
        keys = array.array("Q")
        if os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
            if os.path.exists(out + ".keys"):
                with open(out + ".keys", "rb") as f:
                    keys.frombytes(f.read())
        note = ""
        if os.path.exists(notef):
            with open(notef, "rb") as f:
                note = f.read(20000).decode("utf-8", "replace")
        r = {"test": test, "seed": seed, "rc": rc, "res": res, "text": text, "wall": time.time() - t0,
             "verdict": "ok", "why": "", "fail": None, "note": note, "keys": keys, "shards": shards}
        if timed_out:
            r.update(verdict="error", why="no answer within %d s" % timeout)
        elif "WARNING: DATA RACE" in text:
            r.update(verdict="violation", why="the race detector reports a data race")
        elif res is not None and res.get("done"):
            if rc != 0:
                if "VERIF-ENV:" in text or NOT_OURS.search(text):
                    r.update(verdict="error", why="the environment failed the worker")
                elif re.search(r"\[rapid\] (failed|panic|flaky)", text) or "VERIF-FAIL" in text:
                    r.update(verdict="violation", why="a generated case breaks the property")
                else:
                    r.update(verdict="error", why="test failed without a failing case")
            elif res["evaluations"] == 0:
                r.update(verdict="error", why="nothing was generated")
        elif rc == 97:
            r.update(verdict="violation", why="one generated case used over 60 s of CPU: no termination")
        elif rc == 98:
            r.update(verdict="violation", why="one generated case grew the heap beyond 6 GB")
        elif rc < 0 or rc in (130, 137, 143) or NOT_OURS.search(text[-200000:]):
            r.update(verdict="error", why="worker died (rc %d)" % rc)
        elif "fatal error: stack overflow" in text or "stack exceeds" in text:
            r.update(verdict="violation", why="the process died of unbounded recursion")
        elif "fatal error: " in text:
            r.update(verdict="violation", why="the process died of a fatal error")
        elif rc == 2:
            r.update(verdict="error", why="worker ended with a panic outside any case")
        else:
            r.update(verdict="violation", why="the library ended the process (exit status %d)" % rc)
        fd = os.path.join(cwd, "testdata", "rapid")
        for base, _, files in os.walk(fd):
            for fn in files:
                with open(os.path.join(base, fn), errors="replace") as f:
                    r["fail"] = f.read()
        return r
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_fuzz(binary, test, seconds, workers, case=None):
    """A coverage-guided target, for a time; or one recorded input of it again."""
    scratch = tempfile.mkdtemp(prefix="gtverif_")
    try:
        d = os.path.join(scratch, "testdata", "fuzz", test)
        cmd = [binary, "-test.count=1", "-test.timeout=0"]
        if case:
            name = "case"
            if case.startswith("seed#"):
                name = case
            else:
                os.makedirs(d)
                with open(os.path.join(d, name), "w") as f:
                    f.write(case)
            cmd += ["-test.run=^%s$/^%s$" % (test, name)]
        else:
            cmd += ["-test.run=^$", "-test.fuzz=^%s$" % test, "-test.fuzztime=%ds" % seconds, "-test.fuzzminimizetime=3s",
                    "-test.parallel=%d" % workers, "-test.fuzzcachedir=" + os.path.join(scratch, "cache")]
        t0 = time.time()
        p = subprocess.run(cmd, cwd=scratch, env=dict(ENV, TMPDIR=scratch, GOMAXPROCS="2"), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=seconds + 600)
        text = p.stdout.decode("utf-8", "replace")
        found = None
        if os.path.isdir(d):
            for fn in os.listdir(d):
                with open(os.path.join(d, fn), errors="replace") as f:
                    found = f.read()
        m = re.search(r"failure while testing seed corpus entry: \S+/(seed#\d+)", text)
        if m and not found:
            found = m.group(1)
        n = re.findall(r"execs: (\d+) .*total: (\d+)\)", text)
        r = {"test": test, "seed": 0, "shards": workers, "text": text[-30000:], "wall": time.time() - t0, "note": "", "fail": None,
             "fuzzcase": found, "execs": int(n[-1][0]) if n else 0, "corpus": int(n[-1][1]) if n else 0, "verdict": "ok", "why": ""}
        if p.returncode != 0:
            ours = (found is not None or case and "--- FAIL: " in text) and not NOT_OURS.search(text)
            r.update(verdict="violation" if ours else "error", why="a coverage-guided input breaks the property" if ours else "the fuzzing engine failed")
            if ours and not case:
                again = run_fuzz(binary, test, 100, 1, case=found)
                if again["verdict"] == "ok":  # An input is judged alone: the engine also stops for reasons of its own.
                    r.update(verdict="ok", why="")
                r["text"] += "\n" + again["text"]
        return r
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings():
    listed = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m:
                listed[(m.group(1), m.group(2))] = m.group(3)
    return listed


def list_tests(binary, prop, kind="Test"):
    p = subprocess.run([binary, "-test.list", "^%s%s_" % (kind, prop)], env=ENV, cwd=HARNESS, stdout=subprocess.PIPE, text=True)
    return [l for l in p.stdout.split("\n") if l.startswith("%s%s_" % (kind, prop))]


def readable(text):
    """The part of the log that explains the failure."""
    i = text.find("[rapid] failed")
    if i < 0:
        i = text.find("[rapid] flaky")
    if i < 0:
        i = text.find("[rapid] panic")
    if i < 0:
        i = text.find("VERIF-FAIL")
    if i < 0:
        i = text.find("fatal error")
    if i < 0:
        i = max(0, len(text) - 6000)
    return text[i:i + 12000]


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == "--setup":
        shutil.rmtree(os.path.join(VERIF, ".build"), ignore_errors=True)
        os.remove(build())
        return 0
    if a[0] == "--replay":
        rep = json.load(open(a[1]))
        fuzz = rep["test"].startswith("Fuzz")
        binary = build(race=rep["test"].endswith("_race"), fuzz=fuzz)
        try:
            ff = None
            if rep.get("failfile"):
                fd, ff = tempfile.mkstemp(suffix=".fail")
                os.write(fd, rep["failfile"].encode())
                os.close(fd)
            if fuzz:
                r = run_fuzz(binary, rep["test"], 100, 1, case=rep["fuzzcase"])
            else:
                r = run_sub(binary, rep["test"], rep["seed"], rep.get("tier", "quick"), 800, failfile=ff, shards=rep.get("shards", 1))
            if ff:
                os.remove(ff)
        finally:
            os.remove(binary)
        print(readable(r["text"]) if r["verdict"] != "ok" else "")
        print("replay of %s: %s %s" % (rep["test"], r["verdict"], r["why"]))
        return 1 if r["verdict"] == "violation" else 0 if r["verdict"] == "ok" else 2

    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    binary = build()
    racer = fuzzer = None
    fuzzed = []
    try:
        tests = list_tests(binary, prop)
        if not tests:
            die("no sub-checks for " + prop)
        if any(t.endswith("_race") for t in tests):
            racer = build(race=True)
        timeout = 840 - (time.time() - t0) if tier == "quick" else 3 * 3600
        workers = max(2, min(8, os.cpu_count() or 4))
        shards = max(1, workers // len(tests))
        # Each sub-check's cases are shared out over shards, which differ in their seeds.
        jobs = [(t, seed_for(seed, t if i == 0 else "%s#%d" % (t, i))) for t in tests for i in range(shards)]
        with ThreadPoolExecutor(max_workers=workers) as ex:
            rs = list(ex.map(lambda j: run_sub(racer if j[0].endswith("_race") else binary, j[0], j[1], tier, timeout, shards=shards), jobs))
        targets = list_tests(binary, prop, "Fuzz") if tier == "thorough" else []
        if targets:
            fuzzer = build(fuzz=True)
            fuzzed = [run_fuzz(fuzzer, t, 240, workers) for t in targets]
    finally:
        for b in (binary, racer, fuzzer):
            if b and os.path.exists(b):
                os.remove(b)

    listed = known_findings()
    violations, errors, lines = [], [], []
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "classes": {}, "subchecks": {}}
    rules = []
    for t in tests:
        mine = [r for r in rs if r["test"] == t]
        sub = t.split("_", 1)[1]
        results = [r["res"] or {} for r in mine]
        total = lambda k: sum(res.get(k, 0) for res in results)
        distinct = len(set().union(*[r["keys"] for r in mine]))
        classes, samples = {}, []
        for res in results:
            for k, v in (res.get("classes") or {}).items():
                classes[k] = classes.get(k, 0) + v
            samples += (res.get("samples") or [])[:max(1, 3 // len(mine))]
        cov["evaluations"] += total("evaluations")
        cov["distinct_nontrivial"] += distinct
        rules.append("%s: %s" % (sub, next((res["rule"] for res in results if res.get("rule")), "(no result)")))
        cov["samples"] += ["%s: %s" % (sub, x) for x in samples[:3]]
        cov["subchecks"][sub] = {
            "evaluations": total("evaluations"), "nontrivial": total("nontrivial"), "distinct_nontrivial": distinct,
            "classes": classes, "excluded_for_known_findings": total("excluded"),
            "shards": [{"seed": r["seed"], "wall_s": round(r["wall"], 2), "verdict": r["verdict"]} for r in mine]}
        for k, v in classes.items():
            cov["classes"][sub + ":" + k] = v
        for r in mine:
            for slug in sorted(set((r["res"] or {}).get("findings") or [])):
                if (prop, slug) in listed:
                    lines.append("KNOWN-FINDING: property=%s %s" % (prop, listed[(prop, slug)]))
                else:
                    r.update(verdict="violation", why="defect %s is not in the known-findings file" % slug)
        bad = [r for r in mine if r["verdict"] == "violation"]
        violations += bad[:1]  # One minimal reproduction for each sub-check is enough.
        errors += [r for r in mine if r["verdict"] == "error"]
    for r in fuzzed:
        sub = r["test"].split("_", 1)[1] + " (coverage-guided)"
        cov["evaluations"] += r["execs"]
        cov["subchecks"][sub] = {"evaluations": r["execs"], "inputs_that_reach_new_code": r["corpus"], "wall_s": round(r["wall"], 2), "verdict": r["verdict"]}
        violations += [r] if r["verdict"] == "violation" else []
        errors += [r] if r["verdict"] == "error" else []
    cov["rule"] = " || ".join(rules)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["the Go toolchain, strconv, time, encoding/json, encoding/csv, gopkg.in/yaml.v3, go/parser and pgregory.net/rapid are trusted",
                          "absence of a counterexample among the generated cases, not a proof"],
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, sort_keys=True)
    for l in sorted(set(lines)):
        print(l)
    for r in errors:
        print("CHECK-ERROR: %s: %s\n%s" % (r["test"], r["why"], r["text"][-3000:]))
    for r in violations:
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        path = os.path.join(VERIF, "out", "%s_%d.json" % (r["test"], seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "test": r["test"], "seed": r["seed"], "tier": tier, "why": r["why"],
                       "shards": r["shards"], "failfile": r["fail"], "fuzzcase": r.get("fuzzcase"), "last_case": r["note"], "log": readable(r["text"])}, f, indent=1, ensure_ascii=False)
        print("%s: %s\n%s" % (r["test"], r["why"], readable(r["text"])[:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    print("%s %s seed=%d: %d cases (%d distinct non-trivial) in %.1f s, %d violation(s), %d error(s)" % (
        prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, len(violations), len(errors)))
    if violations:
        return 1
    if errors:
        return 3
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        import traceback
        print("CHECK-ERROR: " + traceback.format_exc(), flush=True)
        sys.exit(4)
