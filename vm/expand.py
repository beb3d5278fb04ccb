"""Runs the macro inside the real compiler on many templates at once, and
records what it answers for each: errors with their spans, or the expansion."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import build
from .render import JOBS, limit, parse_diags


class Answer:
    """What the compiler said about one template.

    errors: [Err]; status: ok | error | panic | crash | hang
    """

    def __init__(self):
        self.errors = []
        self.status = "ok"
        self.text = None
        self.notes = ""


class Err:
    def __init__(self, message, code, spans, whole, level="error", children=()):
        self.message, self.code, self.spans, self.whole, self.level = message, code, spans, whole, level
        self.children = list(children)

    def __repr__(self):
        return "%s %r at %r%s" % (self.level, self.message, self.spans, " WHOLE" if self.whole else "")


class Item:
    """One template: `head` + `body` + `tail`, where body is inside of the macro call."""

    def __init__(self, id, body, head="let _ = leptos_mview::mview! {", tail="};", outer=""):
        self.id, self.body, self.head, self.tail, self.outer = id, body, head, tail, outer


def file_of(items, prelude="#![allow(warnings)]\n", main=True, order=None):
    """(source, {id: (start of the item, start of the body, end of the body, end of the item)}), in bytes."""
    out = [prelude.encode()]
    n = len(out[0])
    pos = {}

    def add(s):
        nonlocal n
        b = s.encode()
        out.append(b)
        n += len(b)
    for it in items:
        a = n
        add("mod m%s { %s\nfn f() {\n" % (it.id, it.outer))
        add(it.head)
        b = n
        add(it.body)
        c = n
        add(it.tail)
        add("\n} }\n")
        pos[it.id] = (a, b, c, n)
    if main:
        add("fn main() {}\n")
    return b"".join(out), pos


def rustc(src, out, variant, mode, edition):
    b = build.build(variant)
    cmd = ["rustc", "--edition", edition, src, "-L", "dependency=" + b["deps"], "--error-format=json",
           "--crate-name", "t", "--extern", "leptos_mview=" + b["libs"]["leptos_mview"]]
    for n in ("leptos", "vh_rt"):
        if n in b["libs"]:
            cmd += ["--extern", "%s=%s" % (n, b["libs"][n])]
    if mode == "expand":
        cmd += ["-Zunpretty=expanded", "-o", out]
    else:
        cmd += ["--emit=metadata", "-o", out]
    return b, cmd


def attribute(diags, src, pos, answers):
    """Adds the errors to the answers of their templates. Returns the others."""
    ranges = sorted((v[0], v[3], k) for k, v in pos.items())
    rest = []
    for d in diags:
        if d.get("level") not in ("error", "warning") or d["message"].startswith("aborting due to") or "emitted" in d["message"]:
            if d.get("level") not in ("error", "warning"):
                continue
            if not d.get("spans"):
                if d["level"] == "error" and not d["message"].startswith("aborting due to"):
                    rest.append(d)
                continue
        prim = [s for s in d.get("spans", []) if s.get("is_primary")]
        here, whole, owner = [], False, None
        for s in prim:
            x = s
            while os.path.basename(x["file_name"]) != os.path.basename(src) and x.get("expansion"):
                x = x["expansion"]["span"]
            if os.path.basename(x["file_name"]) != os.path.basename(src):
                continue
            a, e = x["byte_start"], x["byte_end"]
            k = find(ranges, a)
            if k is None:
                continue
            owner = k
            st, b, c, en = pos[k]
            if a < b and e >= c:
                whole = True
            here.append((a - b, e - b))
        if owner is None:
            if d["level"] == "error":
                rest.append(d)
            continue
        code = (d.get("code") or {}).get("code")
        answers[owner].errors.append(Err(d["message"], code, here, whole, d["level"],
                                         [c["message"] for c in d.get("children", [])]))
    return rest


def find(ranges, a):
    lo, hi = 0, len(ranges)
    while lo < hi:
        m = (lo + hi) // 2
        if ranges[m][1] <= a:
            lo = m + 1
        else:
            hi = m
    if lo < len(ranges) and ranges[lo][0] <= a:
        return ranges[lo][2]
    return None


PANIC = re.compile(r"proc macro panicked|custom attribute panicked|macro .*panicked")


def ask(items, variant, workdir, name, mode="expand", edition="2021", prelude="#![allow(warnings)]\n", cpu=60, want_text=False, more_env=None):
    """{id: Answer} for the templates, which are expanded in one compiler process."""
    src = os.path.join(workdir, name + ".rs")
    out = os.path.join(workdir, name + ".out")
    text, pos = file_of(items, prelude)
    with open(src, "wb") as f:
        f.write(text)
    b, cmd = rustc(src, out, variant, mode, edition)
    e = build.env(b["toolchain"])
    e["RUSTC_BOOTSTRAP"] = "1"
    e.update(more_env or {})
    answers = {it.id: Answer() for it in items}
    try:
        p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=cpu * 3,
                           preexec_fn=limit(cpu))
        rc, err = p.returncode, p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, err = -24, ""
    diags = parse_diags(err)
    rest = attribute(diags, src, pos, answers)
    ice = any("internal compiler error" in d["message"] or "thread 'rustc'" in d["message"] for d in rest)
    if rc not in (0, 1) or ice:
        # the compiler died: which template was it?
        if len(items) == 1:
            a = answers[items[0].id]
            a.status = "hang" if rc in (-24, -9, 137, 152) else "crash"
            a.notes = "rustc exit %s: %s" % (rc, err[-1500:])
            return answers
        m = len(items) // 2
        # crashes are cheap to isolate, but for a hang each half is given as much time again
        r = ask(items[:m], variant, workdir, name + "a", mode, edition, prelude, cpu, want_text, more_env)
        r.update(ask(items[m:], variant, workdir, name + "b", mode, edition, prelude, cpu, want_text, more_env))
        return r
    if rc == 1 and not diags:
        raise build.HarnessError("rustc failed without a diagnostic: " + err[-2000:])
    if rest and len(items) == 1:
        for d in rest:
            answers[items[0].id].errors.append(Err(d["message"], (d.get("code") or {}).get("code"), [], False))
    elif rest:
        if all(d["message"].startswith(("cannot find", "unresolved")) for d in rest):
            raise build.HarnessError("errors outside of the templates: %r" % [d["message"] for d in rest[:3]])
        # errors that cannot be attributed: one by one
        r = {}
        for i, it in enumerate(items):
            r.update(ask([it], variant, workdir, "%s_%d" % (name, i), mode, edition, prelude, cpu, want_text, more_env))
        return r
    for a in answers.values():
        errs = [x for x in a.errors if x.level == "error"]
        if any(PANIC.search(x.message) for x in errs):
            a.status = "panic"
        elif errs:
            a.status = "error"
    if want_text and len(items) > 1 and not os.path.exists(out):
        # one of them is not even made of tokens: nothing was expanded
        m = len(items) // 2
        r = ask(items[:m], variant, workdir, name + "a", mode, edition, prelude, cpu, want_text, more_env)
        r.update(ask(items[m:], variant, workdir, name + "b", mode, edition, prelude, cpu, want_text, more_env))
        return r
    if want_text and os.path.exists(out):
        t = open(out, encoding="utf-8").read()
        cut(t, items, answers)
    return answers


MOD = re.compile(r"^mod (m\w+) \{\n", re.M)


def cut(text, items, answers):
    ms = list(MOD.finditer(text))
    for i, m in enumerate(ms):
        k = m.group(1)[1:]
        if k in answers:
            end = ms[i + 1].start() if i + 1 < len(ms) else text.rfind("fn main()")
            answers[k].text = text[m.end():end].strip()


def ask_all(groups, variant, **kw):
    """Runs every group of templates in parallel: {id: Answer}."""
    build.build(variant)
    workdir = tempfile.mkdtemp(prefix="vx-")
    try:
        res = {}
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(ask, g, variant, workdir, "g%d" % i, **kw) for i, g in enumerate(groups) if g]
            for f in futs:
                res.update(f.result())
        return res
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def deal(items, per):
    n = max(1, (len(items) + per - 1) // per)
    return [items[i::n] for i in range(n)]


def standalone(item, note=""):
    return file_of([item])[0].decode() + note
