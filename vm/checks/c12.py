"""C12: the macro never panics, hangs or crashes the compiler."""
import time

from .. import expand, fuzz, mistakes
from ..check import Run


def judge(r, it, a, what):
    toks = len(fuzz.lex(it.body or it.head + it.outer))
    r.evaluated(it.outer + it.head + it.body, toks > 0, sample={"kind": what, "tokens": (it.outer + it.head + it.body)[:300], "answer": a.status} if len(r.samples) < 4 and toks > 8 else None)
    r.count("%s: %s" % (what, a.status))
    r.count("tokens", toks)
    for e in a.errors:
        if e.code is None:
            r.seen("messages", e.message[:50])
    if a.status in ("panic", "crash", "hang"):
        msg = next((e for e in a.errors if expand.PANIC.search(e.message)), None)
        why = " / ".join(msg.children)[:300] if msg else a.notes[-800:]
        r.violation("c12:%s:%s" % (a.status, why[:60]), "%s (%s): %s\ninput: %s%s" % (a.status, what, why, it.outer + it.head, it.body), expand.standalone(it))


def confirm(variant, it, **kw):
    return expand.ask_all([[it]], variant, **kw)[it.id]


NESTS = [("div { ", " }"), ("Comp { ", " }"), ("div ( ", " )"), ("Comp |x| { ", " }"), ("Comp { slot:Then { ", " } }"), ("svg.a { p; ", " }"), ("a::B<i32> { ", " }"), ("my-el a={1} { ", " }"),
         ("Comp n=1 class:x clone:y { \"a\" ", " \"b\" }"), ("div { { ", " } }"), ("div { [ ", " ] }"), ("div { f[ ", " ] }"), ("div class={ ", " } {}")]
WIDE = ['"a" ', "br; ", "div { } ", "Comp; ", "{x} ", "; ", "3 ", "(a) "]
ATTRS = ["a=1 ", "class:x={true} ", "{x} ", "b ", "on:click={|_| ()} ", ".a ", "# b ", "foo:x ", "{..x} "]


def big(rng, quick):
    """(name, size, source): deep and long templates of growing size."""
    out = []
    deep = [16, 32, 64, 100] if quick else [16, 32, 64, 100, 128]
    for i, (a, z) in enumerate(NESTS):
        for d in deep:
            out.append(("nest %d" % i, d, a * d + '"x"' + z * d))
    long = [250, 1000] if quick else [250, 1000, 4000]
    for i, w in enumerate(WIDE):
        for n in long:
            out.append(("children %d" % i, n, "div { " + w * n + "}"))
            out.append(("component children %d" % i, n, "Comp { " + w * n + "}"))
            out.append(("roots %d" % i, n, w * n))
    for i, w in enumerate(ATTRS):
        for n in long:
            for tag in ("div", "Comp"):
                out.append(("%s attributes %d" % (tag, i), n, tag + " " + w * n + ";"))
    for n in long:
        out.append(("slots", n, "Comp { " + "slot:Then; " * n + "}"))
        out.append(("different slots", n, "Comp { " + "".join("slot:T%d; " % j for j in range(n)) + "}"))
        out.append(("long name", n, "a" + "-b" * n + ";"))
        out.append(("long path", n, "a" + "::b" * n + "::C;"))
        out.append(("literal", n, '"' + "x" * n + '"'))
    for d in deep:
        out.append(("generics", d, "Comp" + "<A" * d + ">" * d + ";"))
    return out


def run():
    r = Run("C12", "the compiler ends with an expansion or with errors on every token sequence; no `proc macro panicked`, no signal, no internal error, and CPU time below the limit")
    r.min_evals = 1000
    for rnd in r.rounds():
        rng = r.rng(rnd)
        n = 2600 if r.quick else 9000
        for variant in ("exp_n", "exp_p"):
            items, kinds = [], {}

            def add(it, kind):
                items.append(it)
                kinds[it.id] = kind
            fz = fuzz.Fuzz(rng)
            share = 1.0 if variant == "exp_n" else 0.4
            for i in range(int(n * share)):
                add(expand.Item("s%d" % i, fz.soup(rng.choice([1, 2, 3, 5, 8, 13, 30]))), "token soup")
            for i in range(int(n * share)):
                add(expand.Item("m%d" % i, fz.mutate(fz.template())), "changed template")
            for i in range(int(n * share / 2)):
                add(expand.Item("u%d" % i, fz.rename(fz.template())), "unusual names")
            for i in range(int(n * share / 3)):
                src = fz.template() if rng.random() < 0.6 else fz.soup(rng.choice([3, 8, 13]))
                mv = fuzz.metavars(rng, src, rng.choice([1, 2, 3]))
                if mv:
                    ps, args, body = mv
                    add(expand.Item("v%d" % i, "", head="let _ = t! { %s " % args, tail="};", outer="macro_rules! t { ( %s ) => { leptos_mview::mview! { %s } } }" % (ps, body)),
                        "fragments of a macro")
            got = expand.ask_all(expand.deal(items, 150), variant)
            for it in items:
                a = got[it.id]
                if a.status in ("panic", "crash", "hang"):
                    a = confirm(variant, it)
                judge(r, it, a, kinds[it.id])
        if rnd == 0:
            # sizes: one compiler each, so that the time can be told
            bigs = [(nm, sz, expand.Item("g%d" % i, src)) for i, (nm, sz, src) in enumerate(big(rng, r.quick))]
            if r.quick:
                bigs = [b for b in bigs if b[1] == max(x[1] for x in bigs if x[0] == b[0]) or rng.random() < 0.15]
            t = time.time()
            got = expand.ask_all([[it] for _, _, it in bigs], "exp_n", cpu=60 if r.quick else 200)
            for nm, sz, it in bigs:
                a = got[it.id]
                r.count("big templates: " + a.status)
                r.evaluated(it.body, True)
                if a.status in ("panic", "crash", "hang"):
                    r.violation("c12:big:" + nm.rsplit(" ", 1)[0], "%s on %s of size %d: %s" % (a.status, nm, sz, a.notes[-600:]), expand.standalone(it))
            r.stats["seconds for big templates"] = round(time.time() - t)
    return r.finish()
