"""Compiles generated programs against the real macro and the real leptos, and
runs them under the monitor."""
import json
import os
import resource
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import build

JOBS = 8


class Case:
    """One generated execution.

    `code` is the body of a Rust module that has a `pub fn case()`.
    """

    def __init__(self, id, code, model=None, info=None):
        self.id = id
        self.code = code
        self.model = model
        self.info = info


class Result:
    def __init__(self, status, log=None, panic=None, diag=None):
        self.status = status  # 'ok' | 'compile' | 'panic'
        self.log = log or []
        self.panic = panic
        self.diag = diag or []

    def get(self, kind):
        return [v for k, v in self.log if k == kind]

    def one(self, kind):
        v = self.get(kind)
        return v[0] if v else None


PRELUDE = """#![allow(warnings)]
#![recursion_limit = "4096"]
#![type_length_limit = "100000000"]
"""

USES = "use leptos::prelude::*; use leptos_mview::mview; use vh_rt as rt; use vh_rt::Leaf;"


def limit(cpu=600, mem=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def root_span(span):
    """The span in the user's file that a diagnostic span expands from."""
    while span.get("expansion"):
        span = span["expansion"]["span"]
    return span


def parse_diags(stderr):
    out = []
    for line in stderr.splitlines():
        if line.startswith("{"):
            try:
                out.append(json.loads(line))
            except ValueError:
                pass
    return out


class Program:
    def __init__(self, cases, prelude=PRELUDE, uses=USES, edition="2021", extra_args=(), run=True,
                 shim=False):
        self.cases = cases
        self.edition = edition
        self.prelude = prelude
        self.extra_args = list(extra_args)
        self.uses = uses
        self.run_it = run
        self.shim = shim

    def sub(self, cases):
        """The same program with these cases only."""
        return Program(cases, self.prelude, self.uses, self.edition, self.extra_args, self.run_it, self.shim)

    def source(self):
        lines = self.prelude.rstrip("\n").split("\n")
        self.ranges = []
        for c in self.cases:
            code = "pub mod %s { %s\n%s\n}" % (c.id, self.uses, c.code)
            n = code.split("\n")
            self.ranges.append((len(lines) + 1, len(lines) + len(n), c))
            lines += n
        lines.append("fn main() { vh_rt::run(&[%s]); }"
                     % ", ".join('("%s", %s::case)' % (c.id, c.id) for c in self.cases))
        return "\n".join(lines) + "\n"

    def case_at(self, line):
        for a, b, c in self.ranges:
            if a <= line <= b:
                return c
        return None


def rustc_cmd(b, src, out, edition, extra, shim=False):
    libs = dict(b["libs"])
    if shim:
        libs["leptos"] = libs["vh_leptos"]
    cmd = ["rustc", "--edition", edition, src, "-o", out, "-L", "dependency=" + b["deps"],
           "--error-format=json", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "debug-assertions=on",
           "--crate-name", "t"]
    for name in ("leptos", "leptos_mview", "vh_rt"):
        if name in libs:
            cmd += ["--extern", "%s=%s" % (name, libs[name])]
    return cmd + extra


def compile_program(prog, workdir, name):
    b = build.build("full")
    src = os.path.join(workdir, name + ".rs")
    out = os.path.join(workdir, name + ".bin")
    text = prog.source()
    with open(src, "w") as f:
        f.write(text)
    try:
        p = subprocess.run(rustc_cmd(b, src, out, prog.edition, prog.extra_args, prog.shim), cwd=workdir,
                           env=build.env(b["toolchain"]), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=800, preexec_fn=limit())
    except subprocess.TimeoutExpired:
        raise build.HarnessError("rustc timed out")
    diags = parse_diags(p.stderr)
    for d in diags:
        d["_cases"] = []
        for s in d.get("spans", []):
            if s.get("is_primary"):
                r = root_span(s)
                if os.path.basename(r["file_name"]) == name + ".rs":
                    c = prog.case_at(r["line_start"])
                    if c is not None:
                        d["_cases"].append(c.id)
        d["_src"] = src
    return p.returncode, diags, out, p.stderr


def errors(diags):
    return [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting due to")]


def run_binary(out):
    try:
        p = subprocess.run([out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600,
                           preexec_fn=limit(300))
    except subprocess.TimeoutExpired:
        raise build.HarnessError("generated program timed out")
    res = {}
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            m = json.loads(line[2:])
            res[m["id"]] = Result("panic" if m["panic"] is not None else "ok",
                                  [tuple(x) for x in m["log"]], m["panic"])
    return p.returncode, res, p.stderr


def run_program(prog, workdir, name):
    """Returns {case id: Result}. Cases that do not compile are taken out and the
    others run without them."""
    results = {}
    cases = list(prog.cases)
    rounds = 0
    while cases:
        rounds += 1
        prog.cases = cases
        rc, diags, out, stderr = compile_program(prog, workdir, "%s_%d" % (name, rounds))
        if rc == 0:
            if not prog.run_it:
                for c in cases:
                    results[c.id] = Result("ok", diag=[d for d in diags if c.id in d["_cases"]])
                break
            rc, res, err = run_binary(out)
            os.unlink(out)
            for c in cases:
                if c.id in res:
                    results[c.id] = res[c.id]
            missing = [c for c in cases if c.id not in res]
            if missing:
                if len(cases) == 1:
                    raise build.HarnessError("generated program died (%s): %s" % (rc, err[-2000:]))
                # the process died in the first missing one: isolate
                for i, c in enumerate(missing):
                    sub = prog.sub([c])
                    results.update(run_program(sub, workdir, "%s_i%d" % (name, i)))
            break
        bad = {}
        for d in errors(diags):
            for cid in d["_cases"]:
                bad.setdefault(cid, []).append(d)
        if not bad:
            if len(cases) == 1:
                es = errors(diags)
                if es and all(d.get("code") or d.get("spans") for d in es):
                    results[cases[0].id] = Result("compile", diag=es)
                    break
                raise build.HarnessError("rustc failed without a diagnostic (%s): %s" % (rc, stderr[-3000:]))
            # cannot attribute: one by one
            for i, c in enumerate(cases):
                sub = prog.sub([c])
                results.update(run_program(sub, workdir, "%s_s%d" % (name, i)))
            break
        for cid, ds in bad.items():
            results[cid] = Result("compile", diag=ds)
        cases = [c for c in cases if c.id not in bad]
    return results


def run_all(programs):
    """Runs all the programs in parallel; returns {case id: Result}."""
    build.build("full")
    workdir = tempfile.mkdtemp(prefix="vh-")
    try:
        results = {}
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(run_program, p, workdir, "p%d" % i) for i, p in enumerate(programs)]
            for f in futs:
                results.update(f.result())
        return results
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def split(cases, per_file, **kw):
    """Programs of `per_file` cases each, dealt round-robin."""
    n = max(1, (len(cases) + per_file - 1) // per_file)
    return [Program(cases[i::n], **kw) for i in range(n)]


def standalone(case, prelude=PRELUDE, uses=USES):
    return Program([case], prelude, uses).source()


def first_line(diags):
    return "; ".join(d["message"].split("\n")[0] for d in diags[:3])
