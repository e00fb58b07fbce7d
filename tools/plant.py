#!/usr/bin/env python3
"""Plant bugs: make /verif/seeded/<id>/ from tools/plants/defs*.py.

Every definition is checked before it is kept: the change alters lines of the original repository, builds, passes
the stable tests, and its demonstration passes on the unchanged tree and fails with it. Then the property's check
is run against it. Works on copies of /repo under /tmp only (the tests run in a copy too).
usage: plant.py [--nocheck] [--notests] [ids...]"""
import concurrent.futures, glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); PL = os.path.join(HERE, "plants"); VERIF = os.path.dirname(HERE); REPO = "/repo"
BASE = "77c7c04"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
opts = [a for a in sys.argv[1:] if a.startswith("--")]; only = set(a for a in sys.argv[1:] if not a.startswith("--"))

def run(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)

def tests(d):
    """The stable tests, as /opt/vp/test.sh runs them, in the copy d."""
    script = open("/opt/vp/test.sh").read().replace("/repo", d)
    s = d + ".test.sh"; open(s, "w").write(script)
    run(["bash", s, d + ".json"], d)
    r = json.load(open(d + ".json")); os.remove(s); os.remove(d + ".json")
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(r.get("passed", r.get("pass", [])))
    return [t for t in stable if t not in passed]

def one(p):
    work = tempfile.mkdtemp(prefix="plant-", dir="/tmp"); d = os.path.join(work, "r")
    try:
        run(["git", "clone", "-q", REPO, d], "/tmp")
        base = {}
        for f, old, new in p["edits"]:
            path = os.path.join(d, f); s = open(path).read()
            if s.count(old) != 1: return "%s: old text occurs %d times in %s: %r" % (p["id"], s.count(old), f, old[:70])
            open(path, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], d).stdout
        cur = None; removed = orig = 0
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:]; base[cur] = run(["git", "show", BASE + ":" + cur], REPO).stdout.splitlines()
            elif l.startswith("-") and l[1:].strip():
                removed += 1; orig += l[1:] in base[cur]
        if orig == 0: return "%s: changes no original line (%d removed)" % (p["id"], removed)
        r = run(["go", "build", "./..."], d, env=ENV)
        if r.returncode: return "%s: BUILD %s" % (p["id"], r.stderr[:500])
        out = os.path.join(VERIF, "seeded", p["id"]); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(open(os.path.join(PL, "demo.sh")).read().replace(" RACE", " -race" if p.get("race") else ""))
        shutil.copy(os.path.join(PL, "help.go"), os.path.join(out, "help.go"))
        body = p["demo"].strip("\n") + "\n"
        imports = sorted(set(re.findall(r"\b(fmt|math|os|bytes|io|log|sync|strings|bufio|encoding/binary|time|filepath|binary)\.", body)))
        imports = {"filepath": "path/filepath", "binary": "encoding/binary"} and [{"filepath": "path/filepath", "binary": "encoding/binary"}.get(i, i) for i in imports]
        if "nn." in body: imports.append("github.com/cubeflix/nn")
        open(os.path.join(out, "demo.go"), "w").write("package main\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports) + ")\n\n" + body)
        run(["gofmt", "-w", os.path.join(out, "demo.go")], out)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        good = run(["bash", os.path.join(out, "demo.sh")], REPO, timeout=280); bad = run(["bash", os.path.join(out, "demo.sh")], d, timeout=280)
        msg = "demo %d/%d" % (good.returncode, bad.returncode)
        if good.returncode != 0 or (bad.returncode != 1 and "DATA RACE" not in bad.stderr):
            shutil.rmtree(out); return "%s: DEMO %s\n%s%s\n--\n%s%s" % (p["id"], msg, good.stdout, good.stderr, bad.stdout, bad.stderr)
        msg += " " + (bad.stdout.strip() or bad.stderr.strip().replace('=', '') or '-').strip().splitlines()[-1][:100]
        if "--notests" not in opts:
            failed = tests(d)
            if failed: shutil.rmtree(out); return "%s: TESTS FAIL %s" % (p["id"], failed)
            msg += " | tests pass"
        if "--nocheck" not in opts:
            for pr in p.get("checks", p["property"]).split():
                r = run(["python3", "check.py", pr], VERIF, env=dict(os.environ, VERIF_REPO=d))
                os.makedirs("/tmp/plants", exist_ok=True); open("/tmp/plants/out-%s-%s" % (p["id"], pr), "w").write(r.stdout + r.stderr)
                cl = re.search(r"'clause': '([^']*)'", r.stdout)
                msg += " | %s %s %s" % (pr, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc %d" % r.returncode), cl.group(1)[:60] if cl else "")
        return p["id"] + ": " + msg
    except subprocess.TimeoutExpired as e: return "%s: TIMEOUT %s" % (p["id"], e)
    finally: shutil.rmtree(work, ignore_errors=True)

P = []
for f in sorted(glob.glob(os.path.join(PL, "defs*.py"))):
    spec = importlib.util.spec_from_file_location("d", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); P += m.P
assert len(set(p["id"] for p in P)) == len(P)
with concurrent.futures.ThreadPoolExecutor(2) as ex:
    for s in ex.map(one, [p for p in P if not only or p["id"] in only]): print(s, flush=True)
