#!/usr/bin/env python3
"""Decides the properties of /verif/properties.jsonl for the code in /repo.

  check.py setup                 build everything
  check.py C01 [quick|thorough]  decide one property (tier also from VERIF_TIER)
  check.py run HARNESS [CASE]    run one harness and print what it reports
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, pathlib, re, shutil, subprocess, sys, time

VERIF = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path("/repo")
TARGET = VERIF / "target"
CARGO = TARGET / "cargo"
CARGO2 = TARGET / "cargo-native"
RSE = TARGET / "rse"
BC = TARGET / "harness.bc"
REPLAY = TARGET / "replay"
EVID = VERIF / "evidence"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = os.cpu_count() or 4

sys.path.insert(0, str(VERIF))
sys.dont_write_bytecode = True

def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",): del e[k]
        if k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "RUSTDOCFLAGS"): e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTFLAGS"] = "--cfg cathlamet_verif -Awarnings"
    e["CATHLAMET_VERIF_HOOKS"] = str(hooks())
    return e

def die(msg, code=2):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)

def run(cmd, cwd=None, e=None, what="command", soft=False):
    r = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0 and soft: raise Failed(r.stdout[-6000:])
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die("%s failed: %s" % (what, " ".join(map(str, cmd))))
    return r.stdout

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        root = pathlib.Path(root)
        files = [root] if root.is_file() else sorted(p for p in root.rglob("*") if p.is_file())
        for f in files:
            h.update(str(f).encode() + b"\0")
            h.update(hashlib.sha256(f.read_bytes()).digest())
    return h.hexdigest()

def parsers_fresh():
    for g in (REPO / "src").rglob("*.lalrpop"):
        p = g.with_suffix(".rs")
        want = "sha3: " + hashlib.sha3_256(g.read_bytes()).hexdigest()
        if not p.exists() or want not in p.read_text(errors="replace")[:300]: return False
    return True

def tracked_generated():
    """Generated parsers that git tracks: the build may rewrite them, so they are put back."""
    r = subprocess.run(["git", "-C", str(REPO), "ls-files", "src"], stdout=subprocess.PIPE, text=True)
    return [REPO / l for l in r.stdout.split("\n") if l.endswith(".rs") and (REPO / l).with_suffix(".lalrpop").exists()]

# The harnesses are compiled in parts: if they no longer compile together, because some private item
# a hook uses has another shape now, a property is decided with just the parts it needs.
FEATURES = None      # None: all
def part_of():
    """harness -> part"""
    return {m.group(2): m.group(1) for m in re.finditer(r'^ *"(\w+)" (h_\w+) =>', (VERIF / "harness" / "src" / "lib.rs").read_text(), re.M)}
def closure(parts):
    needs = dict(re.findall(r"^(\w+) = (\[.*\])$", (VERIF / "harness" / "Cargo.toml").read_text(), re.M))
    out = set()
    def add(p):
        if p in out: return
        out.add(p)
        for q in json.loads(needs.get(p, "[]")): add(q)
    for p in parts: add(p)
    return sorted(out)
def tagged(path): return path if FEATURES is None else path.with_name("%s-%s" % (path.name, "+".join(FEATURES)))
def hooks():
    src = VERIF / "harness" / "hooks"
    if FEATURES is None: return src
    d = TARGET / ("hooks-" + "+".join(FEATURES)); d.mkdir(exist_ok=True)
    for f in src.iterdir():
        keep, out = True, []
        for l in f.read_text().split("\n"):
            if l.startswith("//# part "): keep = l.split()[2] in FEATURES
            elif keep: out.append(l)
        t = "\n".join(out)
        if not (d / f.name).exists() or (d / f.name).read_text() != t: (d / f.name).write_text(t)
    return d
def features(): return [] if FEATURES is None else ["--no-default-features", "--features", ",".join(FEATURES)]

OPTIONAL = {"pool": "inside"}
class Failed(Exception): pass
def build_for(wanted):
    """-> the parts that could not be built"""
    global FEATURES
    try: build(); return set()
    except Failed as e: first = str(e)
    print("NOTE: the harnesses do not compile together; building the parts this property needs")
    lost, good = set(), None
    for p in sorted(wanted):
        FEATURES = closure([p])
        try: build()
        except Failed as e: lost.add(p); first = str(e); continue
        if good is None: good = set()
        good.add(p)
    if not good: print(first); die("harness build failed")
    FEATURES = closure(good)
    for p, more in OPTIONAL.items():
        if p not in good: continue
        FEATURES = closure(good | {more})
        try: build(); good.add(more)
        except Failed: print("NOTE: without what needs part %s" % more)
    FEATURES = closure(good)
    try: build()
    except Failed as e: print(str(e)); die("harness build failed")
    return lost

def build(asan=False):
    TARGET.mkdir(exist_ok=True)
    EVID.mkdir(exist_ok=True)
    with open(TARGET / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        eh = tree_hash([VERIF / "engine"])
        st = TARGET / "engine.stamp"
        if not RSE.exists() or not st.exists() or st.read_text() != eh:
            run(["bash", str(VERIF / "engine" / "build.sh")], what="engine build")
            st.write_text(eh)
        saved = [(p, p.read_bytes()) for p in tracked_generated() if p.exists()]
        try:
            build_harness(asan)
        finally:
            for p, b in saved:
                if not p.exists() or p.read_bytes() != b: p.write_bytes(b)

def build_harness(asan):
    src = [REPO / "src", REPO / "Cargo.toml", REPO / "Cargo.lock", REPO / "build.rs"]
    rh = tree_hash([p for p in src if p.exists()])
    hh = tree_hash([VERIF / "harness" / x for x in ("src", "hooks", "Cargo.toml") if (VERIF / "harness" / x).exists()])
    st = tagged(TARGET / "harness.stamp")
    BC, REPLAY = tagged(globals()["BC"]), tagged(globals()["REPLAY"])
    fresh = parsers_fresh()
    lockfile = VERIF / "harness" / "Cargo.lock"
    had_lock = lockfile.read_bytes()
    want = rh + hh
    def prepare(e, tdir, stamp):
        # cargo trusts modification times; this does not
        old = stamp.read_text() if stamp.exists() else ""
        if not parsers_fresh() or not old.startswith(rh):
            subprocess.run(["cargo", "clean", "--offline", "--release", "-p", "cathlamet", "--target-dir", str(tdir)],
                           cwd=VERIF / "harness", env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if old != want:
            os.utime(VERIF / "harness" / "src" / "lib.rs")
    if not (st.exists() and st.read_text() == want and BC.exists() and REPLAY.exists() and fresh):
        e = env()
        fresh = parsers_fresh()
        prepare(e, CARGO, st)
        prepare(e, CARGO2, st)
        if st.exists(): st.unlink()
        for f in glob.glob(str(CARGO / "release" / "deps" / "harness*.bc")): os.unlink(f)
        for f in glob.glob(str(CARGO / "release" / "deps" / "harness-*")):
            os.unlink(f)
        # the native build runs next to it, unless both would write a parser
        def native_build():
            run(["cargo", "build", "--offline", "--bin", "replay", "--release", "--target-dir", str(CARGO2), "--config", "profile.release.lto=false", "--config", "profile.release.codegen-units=8"] + features(),
                cwd=VERIF / "harness", e=e, what="replay build", soft=True)
        pool = concurrent.futures.ThreadPoolExecutor(1)
        second = pool.submit(native_build) if fresh else None
        run(["cargo", "rustc", "--offline", "--lib", "--crate-type", "cdylib", "--release", "--target-dir", str(CARGO)] + features() + ["--",
             "-C", "save-temps", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], cwd=VERIF / "harness", e=e, what="harness IR build", soft=True)
        # with fat LTO the one codegen unit holds the whole program
        c = sorted(glob.glob(str(CARGO / "release" / "deps" / "harness*.rcgu.bc")), key=os.path.getsize)
        c = [x for x in c if re.search(r"cgu\.0\.rcgu\.bc$", x)]
        if not c: die("no bitcode produced")
        shutil.copy(c[-1], BC)
        for f in glob.glob(str(CARGO / "release" / "deps" / "*.bc")): os.unlink(f)
        second.result() if second else native_build()
        pool.shutdown()
        shutil.copy(CARGO2 / "release" / "replay", REPLAY)
        st.write_text(want)
    if asan:
        st2 = tagged(TARGET / "asan.stamp")
        out = tagged(TARGET / "replay-asan")
        if not (st2.exists() and st2.read_text() == want and out.exists()):
            e = env()
            e["RUSTUP_TOOLCHAIN"] = "nightly"
            e["RUSTFLAGS"] += " -Zsanitizer=address"
            t = TARGET / "cargo-asan"
            prepare(e, t, st2)
            run(["cargo", "build", "--offline", "--bin", "replay", "--release", "--target", "x86_64-unknown-linux-gnu", "--target-dir", str(t),
                 "--config", "profile.release.lto=false"] + features(), cwd=VERIF / "harness", e=e, what="asan replay build")
            shutil.copy(t / "x86_64-unknown-linux-gnu" / "release" / "replay", out)
            st2.write_text(want)
    if lockfile.read_bytes() != had_lock: lockfile.write_bytes(had_lock)

def replay_text(harness, case, inputs):
    return "harness %s\ncase %d\n%s\n" % (harness, case, "\n".join(inputs))

def native(harness, path, exe=None, timeout=20):
    """-> (outcome, observations)"""
    e = dict(os.environ); e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99"; e["RUST_BACKTRACE"] = "0"
    try:
        r = subprocess.run([str(exe or tagged(REPLAY)), harness, str(path)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return ("hang", [], "")
    out = r.stdout.decode(errors="replace"); err = r.stderr.decode(errors="replace")
    obs = [l[4:] for l in out.splitlines() if l.startswith("OBS ")]
    last = [l for l in out.splitlines() if not l.startswith("OBS ")]
    kind = {0: "ok", 3: "assume", 4: "exhausted", 10: "check", 11: "panic", 99: "memory"}.get(r.returncode, "signal %d" % r.returncode)
    return (kind, obs, " ".join(last) + (" | " + " ".join(err.split("\n")[:3]) if err else ""))

def execute(harness, case, opts, tmp, jobs):
    out = tmp / ("%s.%d.jsonl" % (harness, case))
    cmd = [str(RSE), "--bc", str(tagged(BC)), "--harness", harness, "--case", str(case), "--jobs", str(jobs), "--out", str(out), "--seed", str(SEED)]
    for k, v in opts.items():
        if k in ("time", "steps", "samples", "hashseed", "forktables", "audit"): cmd += ["--" + k, str(v)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    recs = []
    if out.exists():
        for l in out.read_text(errors="replace").splitlines():
            try: recs.append(json.loads(l))
            except ValueError: pass
        out.unlink()
    return dict(harness=harness, case=case, rc=r.returncode, log=r.stdout[-2000:], recs=recs)

def known():
    """open findings: (property, key) -> text"""
    k = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for l in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m: k[(m.group(1), m.group(2))] = m.group(3)
    return k

def decide(pid, tier):
    import checks
    t0 = time.time()
    spec = checks.CHECKS[pid]
    part = part_of()
    lost = build_for({part[r["harness"]] for r in spec["runs"]})
    tmp = TARGET / ("run-%s-%d" % (pid, os.getpid()))
    tmp.mkdir(exist_ok=True)
    try:
        if lost:
            print("NOTE: not decided, because the harness no longer compiles: " + " ".join(r["harness"] for r in spec["runs"] if part[r["harness"]] in lost))
            spec = dict(spec, runs=[r for r in spec["runs"] if part[r["harness"]] not in lost], lost=sorted(lost))
        return decide1(pid, tier, spec, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def decide1(pid, tier, spec, tmp, t0):
    thorough = tier == "thorough"
    budget = spec.get("budget", (200, 2400))[1 if thorough else 0]
    runs = []
    for r in spec["runs"]:
        if not thorough and r.get("thorough_only"): continue
        cases = r.get("thorough_cases" if thorough and "thorough_cases" in r else "cases", [0])
        for c in cases:
            o = dict(time=budget, samples=r.get("samples", 6))
            o.update(r.get("opts", {}))
            runs.append((r["harness"], c | (1 << 32 if thorough else 0), o, r))
    tb = time.time()
    # an answer is due in time: what a run may take shrinks as the whole check's time is used up
    limit = spec.get("limit", (600, 7200))[1 if thorough else 0]
    def timed(h, c, o):
        return execute(h, c, dict(o, time=max(5, min(o["time"], int(limit - (time.time() - tb))))), tmp, jobs)
    par = max(1, min(len(runs), NCPU // 2))
    jobs = max(1, NCPU // par + (1 if par > 1 else 0))
    results = []
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        futs = [ex.submit(timed, h, c, o) for h, c, o, r in runs]
        for f in futs: results.append(f.result())
    explored = time.time() - tb
    tot = dict(paths=0, forks=0, steps=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, timeout=0, errors=0, domain=0)
    covers, funcs, errors, violations, samples, per = {}, set(), [], [], [], []
    for (h, c, o, r), res in zip(runs, results):
        s = [x for x in res["recs"] if x.get("type") == "summary"]
        if not s:
            errors.append("%s case %d: no summary (rc %d) %s" % (h, c, res["rc"], res["log"][-400:]))
            continue
        s = s[-1]
        for k in tot: tot[k] += s.get(k, 0)
        covers.setdefault(h, set()).update(s.get("covers", []))
        for x in res["recs"]:
            if x.get("type") == "error": errors.append("%s case %d: %s" % (h, c, x.get("what") or json.dumps(x)[:300]))
            if x.get("type") == "violation": violations.append((h, c, x))
            if x.get("type") == "sample": samples.append((h, c, x))
            if x.get("type") == "funcs": funcs.update(x.get("names", []))
        per.append("%s/%d: %d paths, %d queries, %.1fs%s" % (h, c & 0xffffffff, s["paths"], s["queries"], s["wall_s"], ", STOPPED AT THE TIME LIMIT" if s.get("timeout") else ""))
    # native validation of sample paths: the compiled code must observe what the executor did
    validated, mism, shown = 0, [], []
    for h, c, x in samples:
        p = tmp / "sample.txt"
        p.write_text(replay_text(h, c, x["inputs"]))
        kind, obs, info = native(h, p)
        if kind == "ok" and obs == x["obs"]:
            validated += 1
            if len(shown) < 5: shown.append(dict(harness=h, case=c & 0xffffffff, inputs=x["inputs"][:64], observed=x["obs"][:16]))
        else: mism.append("%s case %d: executor and compiled code disagree (%s %s): %s vs %s" % (h, c, kind, info[:200], x["obs"][:8], obs[:8]))
    # native confirmation of violations
    kf = known()
    confirmed, known_hit, unconfirmed = [], {}, []
    rdir = EVID / "replay"
    groups = {}
    for h, c, x in violations:
        groups.setdefault((h, x["kind"], x.get("where", "")), []).append((c, x))
    for (h, kind, where), lst in sorted(groups.items()):
        ok = None
        for c, x in lst[:4]:
            rdir.mkdir(exist_ok=True)
            f = rdir / ("%s-%s-%s.txt" % (pid, h, hashlib.sha256(json.dumps(x["inputs"]).encode() + str(c).encode() + where.encode()).hexdigest()[:10]))
            f.write_text("# property %s: %s %s\n# replay: %s %s %s\n" % (pid, kind, where, tagged(REPLAY), h, f) + replay_text(h, c, x["inputs"]))
            k, obs, info = native(h, f)
            good = (kind == "check" and k == "check") or (kind == "panic" and k in ("panic",)) or (kind == "hang" and k == "hang")
            if kind in ("memory", "ub"):
                good = k in ("check", "panic", "memory") or k.startswith("signal")
                if not good:
                    build(asan=True)
                    k, obs, info = native(h, f, tagged(TARGET / "replay-asan"))
                    good = k in ("check", "panic", "memory") or k.startswith("signal")
            elif not good and k in ("check", "panic", "memory") or k.startswith("signal"):
                good = True   # fails natively, if elsewhere than predicted
            if good: ok = (f, k, info, x); break
            unconfirmed.append("%s case %d %s at %s: natively %s %s" % (h, c, kind, where, k, info[:200]))
        if ok:
            key = "%s:%s:%s" % (h, kind, where)
            if (pid, key) in kf: known_hit[key] = kf[(pid, key)]
            else: confirmed.append((h, kind, where, ok))
    missing = []
    for r in spec["runs"]:
        if not thorough and r.get("thorough_only"): continue
        miss = set(r.get("covers", [])) - covers.get(r["harness"], set())
        if miss: missing.append("%s: reachability witnesses %s not reached" % (r["harness"], sorted(miss)))
    import checks
    own = sorted(f for f in funcs if "cathlamet" in f)
    ev = dict(property=pid, tier=tier, seed=SEED, level="model_checking", wall_s=round(time.time() - t0, 2),
        violations=len(confirmed),
        assumptions=checks.COMMON_ASSUMPTIONS + spec.get("assumptions", []),
        coverage=dict(states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=validated, samples=shown or ["none"],
            exhaustive=tot["timeout"] == 0 and not errors and tot["unknown"] == 0,
            explanation="states = symbolic paths explored to their end, each standing for all inputs that satisfy its path condition; transitions = two-way splits decided by the solver or by case choice. " + spec.get("explain", ""),
            bounds=spec["bounds"], outside=spec.get("outside", ""),
            instructions_interpreted=tot["steps"], queries_discharged=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"], branches_decided_by_finite_domain=tot["domain"],
            solver_seconds=round(tot["solver_s"], 2), exploration_seconds=round(explored, 2),
            runs_stopped_at_time_limit=tot["timeout"], functions_encoded=own, functions_encoded_total=len(funcs),
            runs=per[:200], reachability_witnesses={k: sorted(v) for k, v in covers.items()},
            unexplored=errors[:20] + ["part %s of the harness does not compile" % p for p in spec.get("lost", [])], known_findings=sorted(known_hit)))
    (EVID / ("%s.json" % pid)).write_text(json.dumps(ev, indent=1))
    for key, text in sorted(known_hit.items()): print("KNOWN-FINDING: property=%s %s (%s)" % (pid, text, key))
    for h, kind, where, (f, k, info, x) in confirmed:
        print("%s: %s at %s; natively: %s %s" % (h, kind, where, k, info[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, f))
    print("%s %s: %d paths, %d forks, %d instructions, %d queries (%d sat, %d unsat, %d unknown) %.1fs solver, %d sample paths confirmed natively, %d runs at the time limit, %.1fs" % (
        pid, tier, tot["paths"], tot["forks"], tot["steps"], tot["queries"], tot["sat"], tot["unsat"], tot["unknown"], tot["solver_s"], validated, tot["timeout"], time.time() - t0))
    if confirmed: return 1
    bad = 0
    for m in mism[:5]: print("ERROR: " + m); bad = 1
    for m in unconfirmed[:5]: print("ERROR: counterexample does not reproduce: " + m); bad = 1
    for m in missing: print(("NOTE: " if tot["timeout"] else "ERROR: ") + m); bad = bad or not tot["timeout"]
    for m in errors[:5]: print("NOTE: unexplored: " + m)
    if errors and tot["paths"] <= len(errors): print("ERROR: nothing explored"); bad = 1
    return 2 if bad else 0

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "setup":
        build(); return 0
    if a[0] == "run":
        build_for({part_of()[a[1]]})
        tmp = TARGET / "adhoc"; tmp.mkdir(exist_ok=True)
        n = int(os.environ.get("TIME", "60"))
        case = int(a[2]) if len(a) > 2 else 0
        if os.environ.get("VERIF_TIER") == "thorough": case |= 1 << 32
        res = execute(a[1], case, dict(time=n, **({"steps": os.environ["STEPS"]} if os.environ.get("STEPS") else {}), **({"forktables": 1} if os.environ.get("FT") else {})), tmp, NCPU)
        print(res["log"])
        seen = {}
        for x in res["recs"]:
            if x["type"] == "summary": print(json.dumps(x))
            elif x["type"] == "error": 
                k = (x.get("what") or json.dumps(x))[:300]
                seen[k] = seen.get(k, 0) + 1
            elif x["type"] == "violation":
                k = (x["kind"], x.get("where"))
                if k not in seen:
                    f = tmp / ("v%d.txt" % len(seen)); f.write_text(replay_text(a[1], case, x["inputs"]))
                    kk, obs, info = native(a[1], f)
                    print("VIOL", k, "native:", kk, info[:200], "inputs", " ".join(x["inputs"])[:300], f)
                    if os.environ.get("STACK"): print("   ", x.get("stack"))
                seen[k] = seen.get(k, 0) + 1
            elif x["type"] == "sample":
                f = tmp / "s.txt"; f.write_text(replay_text(a[1], case, x["inputs"]))
                kk, obs, info = native(a[1], f)
                if kk != "ok" or obs != x["obs"]: print("MISMATCH", kk, info[:200], x["inputs"], x["obs"][:10], obs[:10])
        for k, v in seen.items(): print(v, k)
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return decide(a[0], tier if tier in ("quick", "thorough") else "quick")

if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except Exception:
        import traceback; traceback.print_exc(file=sys.stdout); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
