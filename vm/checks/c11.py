"""C11: unsupported or malformed syntax is always rejected."""
import os

from .. import common, expand, mistakes
from ..check import Run


def ask(items, level, variant):
    if level == "macro":
        return expand.ask_all(expand.deal(items, 60), variant)
    return expand.ask_all(expand.deal(items, 40), "full", mode="check", cpu=180)


def found(level, a):
    return mistakes.macro_errors(a) if level == "macro" else mistakes.errors(a)


def run():
    r = Run("C11", "a template with one mistake at a random place gets at least one error, while the same template without it gets none")
    r.min_evals = 300
    kinds = mistakes.levels()
    for rnd in r.rounds():
        per = 14 if r.quick else 40
        rng = r.rng(rnd)
        cases = []
        for k in sorted(kinds):
            for i in range(per if kinds[k] == "macro" else per // 2):
                clean, src, m = mistakes.make(rng, k, rng.random())
                cases.append((k, clean, src, m))
        for level, variant in (("macro", "exp_n"), ("macro", "exp_p"), ("type", "full")):
            mine = [c for i, c in enumerate(cases) if kinds[c[0]] == level and (level == "type" or (i % 2 == 0) == (variant == "exp_n"))]
            items = []
            for i, (k, clean, src, m) in enumerate(mine):
                items.append(expand.Item("b%d" % i, src, outer=mistakes.OUTER if level == "type" else ""))
            good = sorted({c[1] for c in mine})
            if level == "type":
                rng.shuffle(good)
                good = good[:max(60, len(good) // 3)]
            controls = [expand.Item("g%d" % i, c, outer=mistakes.OUTER if level == "type" else "") for i, c in enumerate(good)]
            bad = ask(items, level, variant)
            ok = ask(controls, level, variant)
            broken = set()
            for it in controls:
                es = found(level, ok[it.id])
                if es:
                    broken.add(it.body)
                    if os.environ.get("VM_DEBUG"):
                        print(repr(it.body), es[:2])
                    r.count("controls rejected")
                else:
                    r.count("controls accepted")
            for it, (k, clean, src, m) in zip(items, mine):
                a = bad[it.id]
                if clean in broken:
                    r.count("undecided: rejected without the mistake too")
                    continue
                es = found(level, a)
                if not es:
                    # alone, without other templates in the file
                    a = ask([it], level, variant)[it.id]
                    es = found(level, a)
                if not es and level == "macro":
                    # the macro may well leave it to the compiler
                    full = expand.Item(it.id, src, outer=mistakes.OUTER, head=mistakes.HEAD)
                    es = mistakes.errors(ask([full], "type", "full")[it.id])
                    if es:
                        r.count("undecided: accepted by the macro, but not by the compiler")
                        continue
                r.evaluated(src, sample={"kind": k, "template": src, "error": es[0].message if es else None} if rng.random() < 0.01 else None)
                r.count("rejected: " + k)
                r.seen("messages", es[0].message if es else "")
                if not es:
                    r.violation("c11:" + k, "%s: accepted without any error (%s)\ntemplate: %s\nmistake: %s" %
                                  (k, variant, src, src.encode()[m.item[0]:m.item[1]].decode()), expand.standalone(it))
    n = r.stats["controls accepted"]
    if r.stats["controls rejected"] > n * 0.1:
        r.min_evals = 10 ** 9     # the generator is not to be trusted
    return r.finish()
