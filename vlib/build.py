"""Builds the calculator from the current working tree of the repository."""
import fcntl
import glob
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))


SETUP = ("dev",)


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
        CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
    )
    e["PATH"] = "/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def _run(cmd, env, timeout=1500):
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s failed (%d)\n%s" % (
            " ".join(cmd), p.returncode, p.stdout.decode("utf8", "replace")[-4000:]))


def _forget_crate(target):
    """Make cargo rebuild the crate itself whatever its time stamps say."""
    for d in glob.glob(os.path.join(target, "**", ".fingerprint", "bcalc-*"), recursive=True):
        shutil.rmtree(d, ignore_errors=True)


def binary(kind="dev"):
    """-> path of a freshly built executable.

    dev: the development profile (overflow checks and debug assertions on),
         with just the number crates optimised so that runs are fast.
    release: the release profile.
    asan: AddressSanitizer on the Rust code and, with UBSan, on SQLite's C.
    """
    with Lock():
        env = _env()
        target = os.path.join(BUILD, "target-" + kind)
        cmd = ["cargo", "build", "--offline", "--locked",
               "--manifest-path", os.path.join(REPO, "Cargo.toml"),
               "--target-dir", target]
        sub = "debug"
        if kind == "dev":
            for pkg in ("num-bigint", "num-rational", "num-integer"):
                cmd += ["--config", 'profile.dev.package.%s.opt-level=2' % pkg]
        elif kind == "release":
            cmd += ["--release"]
            sub = "release"
        elif kind == "asan":
            # RUSTC_BOOTSTRAP only where the sanitizer is asked for: build
            # scripts of old dependencies turn nightly features on otherwise
            env["RUSTC_WRAPPER"] = os.path.join(VERIF, "tools", "rustc-san")
            env["RUSTFLAGS"] = "-Zsanitizer=address -Cforce-frame-pointers=yes"
            env["CC_x86_64_unknown_linux_gnu"] = "clang"
            env["CFLAGS_x86_64_unknown_linux_gnu"] = (
                "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address -fsanitize=undefined "
                "-fno-sanitize=function,alignment -fsanitize-trap=undefined")
            cmd += ["--target", "x86_64-unknown-linux-gnu"]
            sub = "x86_64-unknown-linux-gnu/debug"
        elif kind == "miri":
            return _miri(env, target, cmd)
        _forget_crate(target)
        _run(cmd, env)
        src = os.path.join(target, sub, "bcalc")
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        dst = os.path.join(BUILD, "bin", "bcalc-%s-%d" % (kind, os.getpid()))
        shutil.copy2(src, dst)
        return dst


def _miri(env, target, cmd):
    """-> file with the command line that interprets the calculator"""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    args = os.path.join(BUILD, "bin", "bcalc-miri-%d" % os.getpid())
    env["RUSTC"] = os.path.join(VERIF, "tools", "rustc-miri")
    env["MIRI_ARGS_FILE"] = args
    _forget_crate(target)
    try:
        _run(cmd + ["--target", "x86_64-unknown-linux-gnu"], env)
    except BuildError:
        # the wrapper stops at the crate itself, which Miri compiles anew each time
        if not os.path.exists(args):
            raise
    a = [x for x in open(args, "rb").read().decode().split("\0") if x]
    a = [x for x in a if not x.startswith(("--error-format", "--json", "--emit", "--diagnostic-width"))]
    e = dict(x.split("=", 1) for x in open(args + ".env").read().split("\0") if x)
    os.unlink(args + ".env")
    n = "/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu"
    e.update(LD_LIBRARY_PATH=n + "/lib", PATH="/usr/bin:/bin", HOME="/root", MIRI_CWD="/")
    with open(args, "w") as f:
        json.dump({"cmd": [n + "/bin/miri", "--sysroot", "/root/.cache/miri"] + a, "env": e, "cwd": REPO}, f)
    return args


def shim(name="fsshim"):
    """-> path of the LD_PRELOAD library that records and disturbs the
    file-system calls on the data directory (or lets time pass faster)."""
    with Lock():
        src = os.path.join(VERIF, "shim", name + ".c")
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        dst = os.path.join(BUILD, "bin", "%s-%d.so" % (name, os.getpid()))
        _run(["gcc", "-O1", "-g", "-fPIC", "-shared", "-Wall", "-o", dst, src,
              "-ldl", "-pthread"], _env())
        return dst


def cleanup():
    for f in (glob.glob(os.path.join(BUILD, "bin", "*-%d" % os.getpid()))
              + glob.glob(os.path.join(BUILD, "bin", "*-%d.so" % os.getpid()))):
        try:
            os.unlink(f)
        except OSError:
            pass
