"""C14: several mistakes are all reported in one pass."""
from .. import expand, mistakes
from ..check import Run
from .c13 import text, touches

# expression positions: (before, after)
PLACES = [
    ("let _ = ", ";"), ("let _x: () = { let v = ", "; let _ = v; };"), ("drop(", ");"), ("let _ = [", ", ()];"), ("let _ = match 1 { 1 => ", ", _ => todo!() };"),
    ("let _ = if true { ", " } else { todo!() };"), ("let _ = || ", ";"), ("let _ = move |_: i32| { ", " };"), ("let _ = (", ", 1);"), ("let _ = Some(", ").map(|_| 1);"),
    ("fn g() -> impl Sized { ", " } let _ = g();"), ("fn g() -> impl Sized { return ", "; } let _ = g();"), ("let _ = { let a = 1; let _ = a; ", " };"), ("", ";"), ("let _ = vec![", "];"),
    ("let _ = &", ";"), ("struct S<T> { a: T } let _ = S { a: ", " };"), ("let _ = loop { break ", "; };"), ("let _ = ", ".into_any();"), ("let _ = format!(\"{:?}\", ", ");"),
    ("let _ = ", "\n== ();"), ("let _ = ", " as usize;"), ("let _ = std::mem::drop::<_>(", ",);"),
]
# every delimiter of a macro call
DELIMS = [("mview! {", "}"), ("mview!(", ")"), ("mview![", "]")]

RECOVERABLE = None


def recoverable():
    global RECOVERABLE
    if RECOVERABLE is None:
        import random
        RECOVERABLE = [k for k, l in sorted(mistakes.levels().items()) if l == "macro" and mistakes.make(random.Random(k), k, 1)[2].rec]
    return RECOVERABLE


def build(rng, most):
    """A template with several mistakes that do not depend on each other."""
    import copy
    import random
    for _ in range(100):
        g = mistakes.Gen(rng)
        roots = g.root()
        ms = []
        n = rng.randint(2, most)
        for _ in range(n * 4):
            if len(ms) == n:
                break
            keep = copy.deepcopy((roots, ms))
            m = mistakes.plant(g, roots, rng.choice(recoverable()))
            if m is None:
                roots, ms = keep
                continue
            ms.append(m)
        if len(ms) < 2:
            continue
        src, marks = mistakes.emit(roots, random.Random(rng.random()))
        marks = [m for m in marks]
        if len(marks) != len(ms):
            continue
        # every mistake needs a place of its own
        if any(touches(a.item, b.item) for i, a in enumerate(marks) for b in marks[:i]):
            continue
        return src, marks
    raise AssertionError("no template")


def missed(marks, es):
    """Mistakes without an error of their own."""
    spans = [(s, i) for i, e in enumerate(es) if not e.whole for s in e.spans]
    out = []
    used = {}
    for m in marks:
        own = [i for s, i in spans if touches(s, m.item)]
        near = [i for s, i in spans if any(touches(s, r) for r in m.allowed())]
        if not own and not near:
            out.append(m)
        used[id(m)] = set(own or near)
    # an error cannot stand for two mistakes
    if not out:
        left = sorted(marks, key=lambda m: len(used[id(m)]))
        match = {}

        def take(m, seen):
            for i in used[id(m)]:
                if i in seen:
                    continue
                seen.add(i)
                if i not in match or take(match[i], seen):
                    match[i] = m
                    return True
            return False
        for m in left:
            if not take(m, set()):
                out.append(m)
    return out


def run():
    r = Run("C14", "a template with 2 to 8 recoverable mistakes gets an error for each of them in one compilation, and no error outside of the macro call that is not about types")
    r.min_evals = 200
    for rnd in r.rounds():
        rng = r.rng(rnd)
        n = 420 if r.quick else 1500
        for variant in ("exp_n", "exp_p"):
            items, marks = [], []
            for i in range(n):
                src, ms = build(rng, 8)
                (a, z), (o, c) = rng.choice(PLACES), rng.choice(DELIMS)
                if a == "" or o == "mview! {":
                    o, c = DELIMS[0]
                items.append(expand.Item("b%d" % i, src, head=a + "leptos_mview::" + o, tail=c + z))
                marks.append(ms)
            got = expand.ask_all(expand.deal(items, 40), variant)
            for it, ms in zip(items, marks):
                a = got[it.id]
                if a.status in ("panic", "crash", "hang"):
                    r.count("undecided: " + a.status)
                    continue
                es = mistakes.macro_errors(a)
                r.evaluated(it.head + it.body + variant, sample={"template": it.body, "mistakes": [m.kind for m in ms], "errors": len(es)} if rng.random() < 0.01 else None)
                r.count("mistakes", len(ms))
                r.count("errors", len(es))
                for m in ms:
                    r.count("kind: " + m.kind)
                end = len(it.body.encode())
                out = [e for e in es if not e.whole and any(s[1] <= 0 or s[0] >= end for s in e.spans)]
                lost = missed(ms, es)
                shown = "; ".join("%r at %s" % (e.message[:60], [text(it.body, s) for s in e.spans]) for e in es)
                if lost:
                    r.violation("c14:" + lost[0].kind, "not reported (%s): %s\nreported: %s\ntemplate: %s" %
                                (variant, ["%s: %s" % (m.kind, text(it.body, m.item)) for m in lost], shown, it.body), expand.standalone(it))
                elif out:
                    r.violation("c14:outside", "errors outside of the macro call (%s): %s\nplace: %s … %s" % (variant, [(e.message, e.spans) for e in out], it.head, it.tail), expand.standalone(it))
                if any("macro expansion ignores" in e.message for e in es):
                    r.violation("c14:ignored", "the macro call does not stand for an expression (%s): %s\nplace: %s … %s" % (variant, shown, it.head, it.tail), expand.standalone(it))
    return r.finish()
