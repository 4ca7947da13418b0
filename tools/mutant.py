#!/usr/bin/env python3
"""Tries planted bugs out in a scratch copy of /repo (/tmp/mut/repo).

  mutant.py confirm ID...            patch applies, builds, unit tests pass, demo 0 / nonzero
  mutant.py check ID [--thorough] [CHECK...]   which checks report it (default: the property's own)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUT", "/tmp/mut")
R = W + "/repo"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TARGET_DIR=R + "/target")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def fresh():
    if not os.path.isdir(R):
        os.makedirs(W, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", R])
    sh(["git", "fetch", "-q", "/repo", "HEAD"], cwd=R)
    sh(["git", "reset", "-q", "--hard", "FETCH_HEAD"], cwd=R)


def build():
    p = sh(["cargo", "build", "--offline", "--locked"], cwd=R, env=ENV)
    return p.returncode == 0, p.stdout.decode()


def tests():
    p = sh(["cargo", "test", "--offline", "--locked"], cwd=R, env=ENV)
    m = re.search(r"test result: (\w+)\. (\d+) passed; (\d+) failed", p.stdout.decode())
    return bool(m and m.group(1) == "ok" and int(m.group(2)) >= 66), p.stdout.decode()


def demo(i):
    d = W + "/demo-" + i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(V, "seeded", i), d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    t = time.time()
    p = sh(["bash", d + "/demo.sh"], cwd=R, timeout=300)
    shutil.rmtree(d)
    return p.returncode, p.stdout.decode().strip()[-300:], time.time() - t


def apply(i):
    p = sh(["git", "apply", os.path.join(V, "seeded", i, "patch.diff")], cwd=R)
    if p.returncode:
        sys.exit("%s does not apply: %s" % (i, p.stdout.decode()))


def confirm(ids):
    fresh()
    build()
    base = {i: demo(i) for i in ids}
    for i in ids:
        fresh()
        apply(i)
        ok, log = build()
        if not ok:
            print(i, "DOES NOT BUILD", log[-1500:])
            continue
        tok, tlog = tests()
        d = demo(i)
        good = tok and base[i][0] == 0 and d[0] != 0
        print(i, "ok" if good else "NOT GOOD", "tests", tok, "demo", base[i][0], "->", d[0],
              "(%.0f s, %.0f s)" % (base[i][2], d[2]), d[1] if good else base[i][1] + " | " + d[1])
        if not tok:
            print("\n".join(l for l in tlog.splitlines() if "FAILED" in l or "panicked" in l or "error" in l)[:800])
        sys.stdout.flush()
    fresh()


def check(i, checks, opts):
    fresh()
    apply(i)
    if not checks:
        checks = [json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]]
    env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=W + "/b", VERIF_OUT=W + "/out", VERIF_EVID=W + "/evid",
               VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    for c in checks:
        t = time.time()
        p = sh([sys.executable, V + "/check.py", c] + opts, env=env, cwd=V)
        o = p.stdout.decode()
        v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
        print(i, c, "rc=%d" % p.returncode, "%.0f s" % (time.time() - t), (v or o.splitlines()[-1:])[0][:200])
        sys.stdout.flush()
    fresh()


if __name__ == "__main__":
    a = sys.argv[1:]
    cmd = a.pop(0)
    opts = [x for x in a if x.startswith("--")]
    a = [x for x in a if not x.startswith("--")]
    if cmd == "confirm":
        confirm(a or sorted(os.listdir(V + "/seeded")))
    elif cmd == "check":
        check(a[0], a[1:], opts)
    elif cmd == "all":
        for i in a or sorted(os.listdir(V + "/seeded")):
            check(i, [], opts)
