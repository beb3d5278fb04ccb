"""C15: the same template always expands to the same code."""
import random
import re

from .. import corpus, expand, fuzz, mistakes
from ..check import Run

SPACE = re.compile(r"\s+")
OUTER = "use leptos_mview::mview; use leptos::prelude::*;"
NAMES = ["Then", "Fallback", "Header", "Footer", "Left", "Right", "Top", "Item", "Title", "Body", "Aside", "Menu", "Row", "Cell", "A", "B", "Zz"]


def many(rng):
    """A template in which many things have to be kept in order: slots by name, attributes, classes, props."""
    names = rng.sample(NAMES, rng.randint(2, len(NAMES)))

    def slot(n, depth):
        attrs = " ".join(rng.sample(["a=1", "b={x}", "c", "{d}", "e=[y()]", "g=f[\"{}\", s]", "clone:z", "clone:k"], rng.randint(0, 5)))
        inner = ""
        if depth and rng.random() < 0.3:
            inner = " ".join(slot(k, 0) for k in rng.sample(NAMES, rng.randint(2, 5)))
        return "slot:%s %s { %s }" % (n, attrs, inner + " " + rng.choice(['"t"', "p { {x}  }", "[x()]", "f[\"{}\", x()]"]))
    order = names + rng.choices(names, k=rng.randint(0, 5))
    rng.shuffle(order)
    kids = [slot(n, 1) for n in order]
    for _ in range(rng.randint(0, 3)):
        kids.insert(rng.randrange(len(kids) + 1), rng.choice(['"text"', "span.c { }", "{v}", "[v()]"]))
    props = ["%s=%s" % (p, v) for p, v in zip(rng.sample(["one", "two", "three", "four", "five", "six", "seven"], rng.randint(0, 7)), ['1', '{q}', '[r()]', 'f["{}", s]', '"s"', 'true', '{t}'])]
    props += rng.sample(["class:a={q}", "class:b", "style:color=\"red\"", "on:click={h}", "use:d", "clone:m", "clone:n", "ref={e}", ".c1", " #i", ".c2", "class=\"w\"", "class=[v()]"], rng.randint(0, 8))
    rng.shuffle(props)
    # selectors go first
    props.sort(key=lambda p: p.strip()[0] not in ".#")
    return "Comp%s %s %s { %s }" % (rng.choice(["", "<i32>", "::<u8, u16>"]), "".join(p for p in props if p.strip()[0] in ".#"), " ".join(p for p in props if p.strip()[0] not in ".#"), " ".join(kids))


def elem(rng):
    at = rng.sample(["class:a={q}", "class:b=[r()]", "style:color=\"red\"", "style:top={t}", "on:click={h}", "on:input={i}", "prop:value={v}", "data-a=1", "b", "{c}", "class=\"w\"", "style=\"x: y\"",
                     "use:d", "ref={e}", "href=[u()]", 'title=f["{}", s]'], rng.randint(3, 14))
    sel = "".join(rng.sample([".c1", ".c2", ".c3", " #i", " #j"], rng.randint(0, 5)))
    return "%s%s %s { %s }" % (rng.choice(["div", "custom-el", "svg", "input"]), sel, " ".join(at), rng.choice(['"t"', "{x}", "", "b { } i { }"]))


def templates(rng, n):
    """(kind, template) of every kind, valid or not."""
    out = []
    for src, c in corpus.cases(rng, n // 3):
        out.append((src, c.info))
    for i in range(n // 6):
        out.append(("many slots", " ".join(many(rng) for _ in range(rng.randint(1, 2)))))
        out.append(("many attributes", " ".join(elem(rng) for _ in range(rng.randint(1, 3)))))
        g = mistakes.Gen(rng)
        out.append(("valid", mistakes.emit(g.root(), random.Random(rng.random()))[0]))
    kinds = sorted(mistakes.levels())
    valid = [t for _, t in out]
    for i in range(n // 6):
        out.append(("mistake", mistakes.make(rng, rng.choice(kinds), rng.randint(1, 12))[1]))
        out.append(("mutation", fuzz.Fuzz(rng).mutate(rng.choice(valid))))
    # every kind of error
    for k in kinds * 2:
        out.append(("mistake: " + k, mistakes.make(rng, k, rng.random())[1]))
    return [(k, plain(t)) for k, t in out]


COMMENT = re.compile(r'''(r(\#*)"(?:.|\n)*?"\2|"(?:[^"\\]|\\.)*")|//[^\n]*|/\*(?:.|\n)*?\*/''')


def plain(t):
    """Without comments: the compiler prints them again, wherever they fit."""
    return COMMENT.sub(lambda m: m.group(1) or " ", t)


def norm(t):
    # the printer breaks lines depending on what is around it
    return re.sub(r",([)\]}])", r"\1", SPACE.sub("", t or ""))


def channels(t):
    """Without what the two standard libraries expand `vec!` to, of which there is one more call and pair of parentheses in the newer one."""
    t = t.replace("<[_]>::into_vec(::alloc::boxed::box_new(", "vec!(")
    t = t.replace("::alloc::boxed::box_assume_init_into_vec_unsafe(::alloc::intrinsics::write_box_via_move(::alloc::boxed::Box::new_uninit(),", "vec!(")
    return SPACE.sub("", t.replace(")", ""))


def difference(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "…%s\nand\n…%s" % (a[max(0, i - 60):i + 200], b[max(0, i - 60):i + 200])


def surroundings(rng):
    """What else differs between two builds."""
    return {"CARGO_PKG_NAME": rng.choice(["app", "server", "leptos"]), "CARGO_MANIFEST_DIR": "/nowhere/%d" % rng.randrange(99), "CARGO_CRATE_NAME": "t%d" % rng.randrange(99),
            "PROFILE": rng.choice(["release", "debug"]), "OUT_DIR": "/nowhere", "TARGET": rng.choice(["wasm32-unknown-unknown", "x86_64-unknown-linux-gnu"]), "RUST_LOG": "trace", "TZ": "Asia/Tokyo",
            "LANG": rng.choice(["C", "de_DE.UTF-8"]), "LEPTOS_WATCH": "1", "LEPTOS_OUTPUT_NAME": "x", "CARGO_CFG_TARGET_ARCH": "wasm32", "NO_COLOR": "1", "CI": "1", "USER": "u%d" % rng.randrange(99)}


def run():
    r = Run("C15", "every expansion of a template, repeated in and across compiler processes, in files with other templates in other orders, gives the same code and the same errors, "
            "and stable without the nightly feature accepts the same templates and expands them to the same code")
    r.min_evals = 200
    for rnd in r.rounds():
        rng = r.rng(rnd)
        n = 240 if r.quick else 700
        reps = 2 if r.quick else 4
        pool = templates(rng, n)
        twice = [(k, t, "t%d" % i) for i, (k, t) in enumerate(pool)]

        def ask(variant, copies, per, env=None, together=False):
            items = [expand.Item("%s_%d" % (i, c), t, outer=OUTER) for _, t, i in twice for c in range(copies)]
            rng.shuffle(items)
            files = expand.deal(items, per)
            if together:
                # a template's copies one after the other (or with others in between) in one process
                order = [i for _, _, i in twice]
                rng.shuffle(order)
                place = {i: k * len(files) // len(order) for k, i in enumerate(order)}
                files = [[] for _ in files]
                for it in items:
                    files[place[it.id.split("_")[0]]].append(it)
            return expand.ask_all([f for f in files if f], variant, want_text=True, more_env=env)
        got = {}
        for p in range(reps):
            for k, a in ask("exp_n", 2, rng.choice([30, 60, 90]), surroundings(rng) if p % 2 else None, together=p % 2 == 0).items():
                i, c = k.split("_")
                got.setdefault(i, []).append(a)
        other = {k.split("_")[0]: a for k, a in ask("exp_p", 1, 60).items()}
        for kind, t, i in twice:
            runs = got[i]
            if any(a.status in ("panic", "crash", "hang") or a.text is None for a in runs + [other[i]]):
                r.count("undecided: no expansion")
                continue
            r.evaluated(t, sample={"template": t, "copies": len(runs)} if rng.random() < 0.01 else None)
            r.count("kind: " + kind.split(": ")[0])
            if ": " in kind:
                r.seen("kinds of mistakes", kind)
            texts = [norm(a.text) for a in runs]
            first = texts[0]
            me = [bool(mistakes.macro_errors(a)) for a in runs]
            it = expand.Item(i, t, outer=OUTER)
            r.count("accepted" if not me[0] else "rejected")
            bad = next((x for x in texts if x != first), None)
            if bad is not None:
                r.violation("c15:repeat", "two expansions of the same template differ:\n%s\ntemplate: %s" % (difference(first, bad), t), expand.standalone(it))
                continue
            # errors of the macro, with their places
            es = [sorted((e.message, tuple(e.spans)) for e in mistakes.macro_errors(a)) for a in runs]
            bad = next((x for x in es if x != es[0]), None)
            if bad is not None:
                r.violation("c15:errors", "the same template is answered with different errors:\n%r\nand\n%r\ntemplate: %s" % (es[0], bad, t), expand.standalone(it))
                continue
            pe = mistakes.macro_errors(other[i])
            if bool(pe) != me[0]:
                r.violation("c15:accept", "%s with the nightly feature, %s without\nwith: %r\nwithout: %r\ntemplate: %s" %
                            (("rejected", "accepted") if me[0] else ("accepted", "rejected")) .__add__((es[0], [e.message for e in pe], t)), expand.standalone(it))
                continue
            if not me[0]:
                r.count("texts compared", len(texts) + 1)
                p = norm(other[i].text)
                if p != first and channels(p) != channels(first):
                    r.violation("c15:feature", "the expansion without the nightly feature differs:\n%s\ntemplate: %s" % (difference(channels(first), channels(p)), t), expand.standalone(it))
    return r.finish()
