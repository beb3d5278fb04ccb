"""Builds /repo's current working tree, and the crates the monitors run against.

Nothing is trusted from an earlier run: the sources of /repo are hashed, and the
crates that come from /repo are rebuilt whenever the hash is not the one the
target directory was built from (cargo alone looks at modification times only).
"""
import fcntl
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
NIGHTLY = "nightly-2025-09-01"
STABLE = "stable"

VARIANTS = {
    # name: (crate dir, toolchain)
    "full": ("deps", NIGHTLY),
    "exp_n": ("exp_n", NIGHTLY),
    "exp_p": ("exp_p", STABLE),
}


class HarnessError(Exception):
    """Not a verdict: something in the machinery or the sandbox failed."""


def env(toolchain):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
            del e[k]
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    return e


def source_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "tests"))
        for f in sorted(files):
            if f == "Cargo.lock" or not (f.endswith(".rs") or f.endswith(".toml") or f.endswith(".md")):
                continue
            p = os.path.join(root, f)
            h.update(p.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()


_cache = {}


def build(variant):
    """Builds one variant; returns {crate name: rlib path}, plus the deps dir."""
    if variant in _cache:
        return _cache[variant]
    crate, toolchain = VARIANTS[variant]
    d = os.path.join(VERIF, "harness", crate)
    tdir = os.path.join(TARGET, variant)
    os.makedirs(tdir, exist_ok=True)
    e = env(toolchain)
    e["CARGO_TARGET_DIR"] = tdir
    with open(os.path.join(tdir, ".vh-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(tdir, ".vh-stamp")
        want = source_hash()
        have = open(stamp).read() if os.path.exists(stamp) else None
        if have != want:
            if os.path.exists(stamp):
                os.unlink(stamp)
            if os.path.isdir(os.path.join(tdir, "debug")):
                subprocess.run(
                    ["cargo", "clean", "--offline", "-p", "leptos-mview", "-p", "leptos-mview-core",
                     "-p", "leptos-mview-macro"],
                    cwd=d, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        p = subprocess.run(
            ["cargo", "build", "--offline", "--message-format=json"],
            cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise HarnessError("building %s failed:\n%s" % (variant, build_errors(p)))
        libs = {}
        for line in p.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith(".rlib"):
                        libs[m["target"]["name"].replace("-", "_")] = f
        if "leptos_mview" not in libs:
            raise HarnessError("no artifact for leptos_mview in %s" % variant)
        with open(stamp, "w") as f:
            f.write(want)
    _cache[variant] = {
        "libs": libs,
        "deps": os.path.join(tdir, "debug", "deps"),
        "toolchain": toolchain,
        "hash": want,
    }
    return _cache[variant]


def build_errors(p):
    out = []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message":
            out.append(m["message"].get("rendered") or "")
    return "".join(out)[-6000:] + p.stderr[-3000:]


if __name__ == "__main__":
    for v in sys.argv[1:] or VARIANTS:
        b = build(v)
        print(v, "built from", b["hash"][:12])
