#!/usr/bin/env python3
"""Tries planted bugs (development aid; no check uses it).

  seed.py new ID     make seeded/ID/patch.diff from the changes in the scratch copy /tmp/seedcopy/repo
  seed.py demo ID... build, stable tests and demo without and with the patch, in the scratch copy
  seed.py check ID.. run the property's check with the patch applied to /repo
"""
import json, os, subprocess, sys, shutil, time
V = "/verif"; S = "/tmp/seedcopy/repo"
E = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=S + "/target", RUST_BACKTRACE="1", CARGO_TERM_COLOR="never")
E["PATH"] = "/root/.cargo/bin:" + E["PATH"]
def sh(c, cwd=None, check=False, env=E, t=900):
    r = subprocess.run(c, shell=isinstance(c, str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
    if check and r.returncode: print(r.stdout[-3000:]); sys.exit("failed: %s" % c)
    return r
def fresh():
    if not os.path.exists(S): sh("mkdir -p /tmp/seedcopy && cp -a /repo /tmp/seedcopy/repo", check=True)
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd src", cwd=S, check=True)
def stable():
    want = json.load(open("/opt/vp/BASELINE.json"))
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=S)
    ok = sum(1 for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok"))
    return ok, r.stdout
def demo(i):
    # the demo's folder lies elsewhere when it counts
    d = "/tmp/seedcopy/demo"; shutil.rmtree(d, ignore_errors=True); shutil.copytree("%s/seeded/%s" % (V, i), d)
    for f in os.listdir(d):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.unlink(d + "/" + f)
    t = time.time(); r = sh("bash %s/demo.sh" % d, cwd=S); return r.returncode, time.time() - t, r.stdout
cmd, ids = sys.argv[1], sys.argv[2:]
if cmd == "new":
    os.makedirs("%s/seeded/%s" % (V, ids[0]), exist_ok=True)
    d = sh("git diff", cwd=S).stdout
    open("%s/seeded/%s/patch.diff" % (V, ids[0]), "w").write(d)
    print(d)
elif cmd == "fresh": fresh()
elif cmd == "demo":
    for i in ids:
        fresh()
        a = demo(i)
        if a[0]: print(a[2][-2500:])
        sh("git apply %s/seeded/%s/patch.diff" % (V, i), cwd=S, check=True)
        n, log = stable()
        b = demo(i)
        good = a[0] == 0 and b[0] != 0 and n == 25 and "error: could not compile" not in b[2]
        print("%s: clean %d (%.0fs), tests %d, patched %d (%.0fs) %s" % (i, a[0], a[1], n, b[0], b[1], "GOOD" if good else "BAD"))
        if not good: print(b[2][-2500:]); print(log[-1500:] if n != 25 else "")
        fresh()
elif cmd == "check":
    # in a mount namespace of its own, with copies bound over /repo and /verif
    tag = "c%d" % os.getpid(); R = "/tmp/seedcopy/%s/repo" % tag; W = "/tmp/seedcopy/%s/verif" % tag
    os.makedirs("/tmp/seedcopy/" + tag)
    sh("cp -a /repo %s && cp -a /verif %s" % (R, W), check=True)
    try:
        for i in ids:
            m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
            sh("git checkout -q -f . && git apply %s/seeded/%s/patch.diff" % (V, i), cwd=R, check=True)
            t = time.time()
            r = sh(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && mount --bind %s /verif && cd /verif && python3 check.py %s %s" % (R, W, os.environ.get("CHECK", m["property"]), os.environ.get("TIER", "quick"))],
                   env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"), t=3000)
            caught = r.returncode == 1 and "VIOLATION property=%s " % m["property"] in r.stdout
            print("%s (%s): %s rc=%d %.0fs" % (i, m["property"], "CAUGHT" if caught else "MISSED", r.returncode, time.time() - t))
            for l in r.stdout.splitlines():
                if "natively:" in l or "ERROR" in l or "NOTE" in l or "quick:" in l or not caught: print("   " + l[:300])
            sys.stdout.flush()
    finally: shutil.rmtree("/tmp/seedcopy/" + tag)
