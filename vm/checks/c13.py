"""C13: errors point at the offending item."""
import os

from .. import expand, mistakes
from ..check import Run

NAMES = {"exp_n": "nightly feature", "exp_p": "without the nightly feature", "full": "type checked"}


def inside(span, r):
    return r[0] <= span[0] and span[1] <= r[1]


def touches(span, r):
    return span[0] < r[1] and r[0] < span[1] or span == r


def text(src, r):
    return src.encode()[max(r[0], 0):r[1]].decode(errors="replace")


def judge(src, m, es):
    """None, or what is wrong with the places of the errors."""
    if not es:
        return None
    where = [r for r in m.allowed()]
    limit = (m.el[0], m.el[1])
    if m.after and m.afterr:
        limit = (limit[0], max(limit[1], m.afterr[1]))
    shown = "; ".join("%r at %s" % (e.message[:80], "the whole macro call" if e.whole else [text(src, s) for s in e.spans]) for e in es)
    if m.level == "macro" and any(e.whole for e in es):
        return "whole", "an error is attributed to the whole macro call: " + shown
    for e in es:
        if e.whole:
            continue
        for s in e.spans:
            if inside(s, limit) and any(touches(s, r) for r in where):
                return None
    if all(e.whole or not e.spans for e in es):
        return "whole", "every error is attributed to the whole macro call: " + shown
    return "place", "no error is at the mistake: " + shown


def run():
    r = Run("C13", "a template with one mistake, whose place is known, gets an error with a primary span that touches the mistake and is inside of the innermost element; "
                   "no error of the macro itself spans the whole macro call")
    r.min_evals = 300
    kinds = mistakes.levels()
    for rnd in r.rounds():
        rng = r.rng(rnd)
        per = 12 if r.quick else 30
        for variant in ("exp_n", "exp_p", "full"):
            level = "type" if variant == "full" else "macro"
            cases, items = [], []
            for k in sorted(kinds):
                if kinds[k] == level:
                    for _ in range(per):
                        clean, src, m = mistakes.make(rng, k, rng.random())
                        cases.append((k, src, m))
                        items.append(expand.Item("b%d" % len(items), src, outer=mistakes.OUTER if level == "type" else ""))
            if level == "macro":
                got = expand.ask_all(expand.deal(items, 60), variant)
            else:
                got = expand.ask_all(expand.deal(items, 40), variant, mode="check", cpu=180)
            for it, (k, src, m) in zip(items, cases):
                a = got[it.id]
                es = mistakes.macro_errors(a) if level == "macro" else mistakes.errors(a)
                if not es:
                    r.count("undecided: no error")
                    continue
                bad = judge(src, m, es)
                if bad and level == "type":
                    a = expand.ask_all([[it]], variant, mode="check", cpu=180)[it.id]
                    bad = judge(src, m, mistakes.errors(a))
                r.evaluated(src + variant, sample={"kind": k, "template": src, "mistake": text(src, m.item), "errors": [(e.message, [text(src, s) for s in e.spans]) for e in es][:3]}
                            if rng.random() < 0.01 else None)
                r.count("%s errors" % NAMES[variant], len(es))
                r.count("knock-on errors at the whole call", sum(1 for e in es if e.whole))
                r.seen("kinds", k)
                if bad:
                    r.violation("c13:%s:%s" % (k, bad[0]), "%s (%s): %s\nmistake: %s\ntemplate: %s" %
                                (k, NAMES[variant], bad[1], text(src, m.item), src), expand.standalone(it))
    return r.finish()
