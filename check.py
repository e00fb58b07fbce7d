#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree.

1. builds the Go harness against /repo;
2. TLC checks the design models of the property and enumerates API programs;
3. the harness runs these and its own programs on the real code and records traces;
4. TLC validates every trace against the specification.
Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import concurrent.futures, glob, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS, FLOAT, RAT  # noqa: E402

TLA = "/opt/veriftools/tla"
JAVADIR = os.path.join(ROOT, "java")
REPO = os.environ.get("VERIF_REPO", "/repo")


class ToolError(Exception):
    pass


def classes():
    """Compiles the TLC overrides if needed."""
    out = os.path.join(JAVADIR, "build")
    srcs = sorted(glob.glob(os.path.join(JAVADIR, "*.java")))
    want = [os.path.join(out, os.path.basename(s)[:-5] + ".class") for s in srcs]
    if all(os.path.exists(w) and os.path.getmtime(w) >= os.path.getmtime(s) for s, w in zip(srcs, want)):
        return out
    tmp = tempfile.mkdtemp(prefix="verif-java-")
    try:
        r = subprocess.run(["javac", "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "-d", tmp] + srcs,
                           capture_output=True, text=True)
        if r.returncode:
            raise ToolError("javac failed:\n" + r.stderr)
        os.makedirs(out, exist_ok=True)
        for c in glob.glob(tmp + "/*.class"):
            shutil.copy(c, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def goenv():
    env = dict(os.environ)
    env.update(GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOWORK="off", GONOSUMDB="*", GOFLAGS_EXTRA="")
    env.setdefault("HOME", "/root")
    return env


def build(tmp, race):
    """Builds the harness from a copy, so that nothing in /verif or /repo is written."""
    src = os.path.join(tmp, "harness")
    shutil.copytree(os.path.join(ROOT, "harness"), src)
    if REPO != "/repo":
        p = os.path.join(src, "go.mod")
        s = open(p).read().replace("=> /repo", "=> " + REPO)
        open(p, "w").write(s)
    exe = os.path.join(tmp, "driver")
    cmd = ["go", "build", "-o", exe] + (["-race"] if race else []) + ["."]
    r = subprocess.run(cmd, cwd=src, env=goenv(), capture_output=True, text=True)
    if r.returncode:
        raise ToolError("cannot build the harness against %s:\n%s" % (REPO, r.stdout + r.stderr))
    return exe


def tlc(tmp, name, module, cfg, env=None, timeout=800, extra=(), workers="auto", heap="6g"):
    """Runs TLC in a scratch directory; returns (exit code, output, stats)."""
    d = os.path.join(tmp, name)
    os.makedirs(d)
    for f in glob.glob(os.path.join(ROOT, "spec", "*.tla")):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet",
           "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar:{classes()}",
           "tlc2.TLC", "-workers", workers, "-noGenerateSpecTE", "-metadir", os.path.join(d, "md"), "-config", module + ".cfg", *extra, module + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} did not end within {timeout} s")
    out = r.stdout + r.stderr
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    st = {"module": module, "run": name, "generated": int(m[-1][0]) if m else 0, "distinct": int(m[-1][1]) if m else 0, "wall_s": round(time.time() - t0, 1)}
    return r.returncode, out, st


def cfg_of(consts, num=None, **kw):
    lines = []
    if consts or num:
        lines.append("CONSTANTS")
        for k, v in consts.items():
            lines.append(f"  {k} {'' if str(v).startswith('<-') else '= '}{v}")
        for k, v in (num or {}).items():
            lines.append(f"  {k} <- {v}")
    for k in ("INIT", "NEXT", "SPECIFICATION", "VIEW", "ALIAS", "CONSTRAINT", "ACTION_CONSTRAINT", "POSTCONDITION", "SYMMETRY"):
        if kw.get(k):
            lines.append(f"{k} {kw[k]}")
    for k, name in (("INVARIANTS", "INVARIANT"), ("PROPERTIES", "PROPERTY")):
        for v in kw.get(k, ()):
            lines.append(f"{name} {v}")
    lines.append("CHECK_DEADLOCK " + ("TRUE" if kw.get("DEADLOCK") else "FALSE"))
    return "\n".join(lines) + "\n"


def model(tmp, tier, i, m):
    """Checks one design model; returns (stats, file with emitted programs or None)."""
    consts = dict(m.get("consts", {}))
    if tier == "thorough":
        consts.update(m.get("thorough", {}))
    cfg = cfg_of(consts, {"rat": RAT, "float": FLOAT, None: None}[m.get("num")],
                 **{k: m[k] for k in m if k.isupper()})
    out = os.path.join(tmp, f"programs{i}")
    rc, txt, st = tlc(tmp, f"mc{i}", m["module"], cfg, env={"OUT": out}, workers=m.get("workers", "2"), heap="4g")
    if rc != 0 or "Model checking completed. No error has been found." not in txt:
        raise ToolError(f"design model {m['module']} failed (rc {rc}):\n{txt[-4000:]}")
    if st["distinct"] < m.get("min_states", 2):
        raise ToolError(f"design model {m['module']} has only {st['distinct']} states")
    return st, (out if m.get("gen") else None)


def prove(tmp, tier, name):
    """Has tlapm prove a theory of spec/proofs, which holds for all sizes.  It is about the specification, not
    the code, and provers give up when they run out of time: what is not proved is recorded, and no alarm."""
    d = os.path.join(tmp, name)
    os.makedirs(d)
    for f in glob.glob(os.path.join(ROOT, "spec", "*.tla")) + [os.path.join(ROOT, "spec", "proofs", name + ".tla")]:
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    t0 = time.time()
    p = None
    try:
        p = subprocess.Popen(["tlapm", "--threads", "2", "--stretch", "4" if tier == "thorough" else "1", name + ".tla"], cwd=d,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        out = p.communicate(timeout=600 if tier == "thorough" else 200)[0]
    except (OSError, subprocess.TimeoutExpired) as e:
        out = str(e)
    finally:
        if p:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    m = re.search(r"All (\d+) obligations? proved", out)
    return {"theory": name, "proved": bool(m), "obligations": int(m[1]) if m else 0, "wall_s": round(time.time() - t0, 1)}


def controls(traces, ops, rng, k):
    """Falsified copies of recorded traces: the specification has to reject each."""
    out = []
    cands = [(t, i) for t, tr in enumerate(traces) for i, e in enumerate(tr["ev"]) if e["op"] in ops and e["st"] in ("ok", "err") and i < 60]
    rng.shuffle(cands)
    # where huge numbers cancel, a result may be almost anything
    wild = {t: any(huge(e) for e in traces[t]["ev"]) for t in {t for t, _ in cands[: k * 6]}}
    for t, i in [c for c in cands[: k * 6] if not wild[c[0]]]:
        if len(out) >= k:
            break
        ev = json.loads(json.dumps(traces[t]["ev"][: i + 1]))
        e = ev[-1]
        field = ops[e["op"]]
        how = "st"
        if only := (field or "").startswith("!"):  # how the call ended may be left open
            field = field[1:]
            if e["st"] != "ok":
                continue
        tgt = e
        for seg in (field or "").split(".")[:-1]:
            tgt = tgt[seg]
        leaf = (field or "").split(".")[-1]
        if e["st"] == "ok" and field and leaf in tgt and (only or rng.random() < 0.7):
            if corrupt(tgt, leaf, rng):
                how = field
        if how == "st":
            if only:
                continue
            e["st"] = "err" if e["st"] == "ok" else "ok"
            if e["st"] == "ok":
                continue  # an accepted call needs results that are not there
        e["ctl"] = how
        out.append({"name": "control of " + traces[t]["name"], "ev": ev})
    return out


def huge(v):
    if isinstance(v, dict):
        return any(huge(q) for q in v.values())
    if isinstance(v, list):
        return any(huge(q) for q in v)
    try:
        return isinstance(v, str) and abs(float(v)) > 1e5
    except ValueError:
        return False


def corrupt(e, field, rng):
    """Changes one number somewhere below e[field]."""
    leaves = []

    def walk(c, k):
        v = c[k]
        if isinstance(v, dict):
            for q in v:
                if q not in ("r", "c"):
                    walk(v, q)
        elif isinstance(v, list):
            for q in range(len(v)):
                walk(v, q)
        elif isinstance(v, bool):
            leaves.append((c, k))
        elif isinstance(v, (int, str)):
            leaves.append((c, k))
    walk(e, field)
    rng.shuffle(leaves)
    for c, k in leaves:
        v = c[k]
        if isinstance(v, bool):
            c[k] = not v
            return True
        if isinstance(v, int):
            c[k] = v + 1
            return True
        try:
            f = float(v)
        except ValueError:
            continue
        if f != f or f in (float("inf"), float("-inf")):
            continue
        f = f * 1.01 + 0.5
        if f == float("inf") or f == float("-inf") or repr(f) == repr(float(v)):
            continue
        c[k] = repr(f)
        return True
    return False


def run(prop, tier, seed):
    t0 = time.time()
    c = CHECKS[prop]
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return run_in(prop, tier, seed, c, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_in(prop, tier, seed, c, tmp, t0):
    classes()
    pool = concurrent.futures.ThreadPoolExecutor(6)
    bf = pool.submit(build, tmp, c.get("race", False))
    ms = [m for m in c.get("models", []) if tier == "thorough" or not m.get("thorough_only")]
    fs = [(m, pool.submit(model, tmp, tier, i, m)) for i, m in enumerate(ms)]
    ps = [pool.submit(prove, tmp, tier, name) for name in c.get("proofs", ())]
    exe = bf.result()
    programs = os.path.join(tmp, "programs")
    nprog = 0
    with open(programs, "w") as f:
        for m, fut in fs:
            if m.get("gen"):
                _, p = fut.result()
                lines = sorted(set(open(p).read().splitlines()))
                cap = m.get("cap_" + tier)
                if cap and len(lines) > cap:
                    lines = random.Random(seed).sample(lines, cap)
                nprog += len(lines)
                f.write("\n".join(lines) + "\n")
    # the real code
    tracefile = os.path.join(tmp, "traces.ndjson")
    scratch = os.path.join(tmp, "scratch")
    os.makedirs(scratch)
    os.chmod(tmp, 0o755)
    os.chmod(scratch, 0o777)
    cmd = [exe, "-prop", prop, "-seed", str(seed), "-out", tracefile, "-programs", programs, "-tmp", scratch]
    if tier == "thorough":
        cmd.append("-thorough")

    def limits():
        if not c.get("race"):
            resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    env = dict(os.environ)
    env["GOTRACEBACK"] = "all"
    env["GORACE"] = "halt_on_error=0 exitcode=0 log_path=" + os.path.join(tmp, "race")
    td = time.time()
    try:
        r = subprocess.run(cmd, cwd=scratch, env=env, capture_output=True, text=True, errors="replace", timeout=780, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        raise ToolError("the harness did not end within 780 s")
    drive_s = time.time() - td
    races = [f for f in glob.glob(os.path.join(tmp, "race.*")) if "github.com/cubeflix/nn." in open(f, errors="replace").read()]
    if races and c.get("race"):
        txt = open(races[0], errors="replace").read()
        return violation(prop, tier, seed, c, t0, {"kind": "data race", "detail": txt[:6000]}, "race")
    failed = None
    if r.returncode == 3 or (r.returncode and "github.com/cubeflix/nn." not in r.stderr):
        failed = "harness failed (rc %d):\n%s\n%s" % (r.returncode, r.stdout[-2000:], r.stderr[-4000:])
        if r.returncode != 3:
            raise ToolError(failed)
    elif r.returncode:
        # the library crashed, hung or exhausted the memory inside a call, beyond what a recover can catch
        return violation(prop, tier, seed, c, t0, {"kind": "crash, hang or exhaustion of memory in a library call", "detail": r.stderr[:6000]}, "crash")
    with open(tracefile) as f:
        traces = [json.loads(x) for x in f]
    if not traces:
        raise ToolError(failed or "the harness recorded nothing")
    rng = random.Random(seed * 7919 + 1)
    ctl = controls(traces, c.get("control", {}), rng, int(os.environ.get("VERIF_NCONTROL", c.get("ncontrol", 12)))) if not failed else []
    nreal = len(traces)
    allt = traces + ctl
    with open(tracefile, "w") as f:
        for i, tr in enumerate(allt):
            if i >= nreal:
                for e in tr["ev"]:
                    e["t"] = i + 1
            f.write(json.dumps(tr) + "\n")
    cfg = cfg_of({"Focus": f'"{prop}"', "Start": "<- " + c["start"], "Accept": "<- " + c["accept"], "Post": "<- " + c["post"], **c.get("consts", {})},
                 FLOAT, SPECIFICATION="TraceSpec", VIEW="TraceView", ALIAS="TraceAlias", DEADLOCK=True)
    rc, txt, st = tlc(tmp, "trace", c["trace"], cfg, env={"TRACES": tracefile}, heap="12g")
    rejects = re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*"(\w+)",\s*"([^"]*)",\s*"([^"]*)"', txt)
    if rc == 11 and rejects:
        t, i, p, op, clause = rejects[0]
        full = re.search(r'<<\s*"REJECT",\s*%s,\s*%s,.*?>>\n(?=[^ ])' % (t, i), txt, re.S)
        t, i = int(t), int(i)
        tr = allt[t - 1]
        return violation(prop, tier, seed, c, t0, {"kind": "trace rejected by the specification", "trace": tr["name"], "event": i, "op": op, "clause": clause,
                                                   "events": tr["ev"][:i], "spec": (full.group(0) if full else "")[:4000]}, op)
    if failed:  # the library refused what the driver needs, and nothing before that was wrong
        raise ToolError(failed)
    if rc != 0 or "No error has been found" not in txt:
        raise ToolError(f"trace validation ended with rc {rc}:\n" + txt[:1500] + "\n...\n" + txt[-4000:])
    want = sum(len(tr["ev"]) + 1 for tr in allt)
    if st["distinct"] != want:
        raise ToolError(f"TLC visited {st['distinct']} states, the traces have {want}")
    # Every falsified outcome must be rejected; a falsified number may fall within what rounding allows, but seldom.
    acc = [int(t) - 1 for t in re.findall(r'CONTROL-ACCEPTED", (\d+), ', txt)]
    if any(allt[t]["ev"][-1]["ctl"] == "st" for t in acc) or len(acc) * 10 > len(ctl):
        if os.environ.get("VERIF_DUMP"):
            open(os.environ["VERIF_DUMP"], "w").write("\n".join(map(json.dumps, allt[acc[0]]["ev"])))
        raise ToolError("the specification accepted a falsified event: " + json.dumps(allt[acc[0]]["ev"][-1])[:2000])
    stats = [fut.result()[0] for _, fut in fs]
    ops = {}
    for tr in traces:
        for e in tr["ev"]:
            k = e["op"] + ":" + e["st"]
            ops[k] = ops.get(k, 0) + 1
    for need in c.get("need", ()):
        if not ops.get(need):
            raise ToolError(f"vacuous run: no event {need}")
    samples = [{"trace": tr["name"], "events": [short(e) for e in tr["ev"][:4]]} for tr in rng.sample(traces, min(3, len(traces)))]
    evidence(prop, tier, seed, c, t0, {
        "states": sum(s["distinct"] for s in stats) + st["distinct"],
        "transitions": sum(s["generated"] for s in stats) + st["generated"],
        "traces_validated_against_impl": nreal,
        "samples": samples,
        "events_by_outcome": ops,
        "design_models": stats,
        "theories_proved_for_all_sizes": [p.result() for p in ps],
        "programs_enumerated_by_tlc": nprog,
        "control_traces_rejected": len(ctl) - len(acc),
        "control_traces_within_rounding": len(acc),
        "trace_validation": st,
        "harness_wall_s": round(drive_s, 1),
        "exhaustive": False,
    }, 0)
    print(f"OK property={prop} traces={nreal} events={sum(ops.values())} programs={nprog} models={[(s['module'], s['distinct']) for s in stats]} proofs={[(p.result()['theory'], p.result()['proved']) for p in ps]} wall={time.time() - t0:.1f}s")
    return 0


def short(e):
    s = json.dumps(e)
    return json.loads(s) if len(s) < 600 else s[:600] + "..."


def evidence(prop, tier, seed, c, t0, cov, violations):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                   "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}, f, indent=1)


def violation(prop, tier, seed, c, t0, what, tag):
    os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
    path = os.path.join(ROOT, "out", f"{prop}-{tier}-{seed}-{tag}.json")
    what["rerun"] = f"VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {prop}"
    with open(path, "w") as f:
        json.dump(what, f, indent=1)
    evidence(prop, tier, seed, c, t0, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [{k: what[k] for k in what if k != "events"}]}, 1)
    print({k: what[k] for k in what if k not in ("events", "spec", "detail")})
    print(str(what.get("spec") or what.get("detail") or "")[:1500])
    print(f"VIOLATION property={prop} replay={path}")
    return 1


if __name__ == "__main__":
    prop = sys.argv[1]
    if prop == "--setup":
        classes()
        d = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(d, False)
            shutil.rmtree(os.path.join(d, "harness"))
            build(d, True)
        except ToolError as e:
            print(e, file=sys.stderr)
            sys.exit(2)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        sys.exit(0)
    try:
        sys.exit(run(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))))
    except ToolError as e:
        print("ERROR", e, file=sys.stderr)
        sys.exit(2)
