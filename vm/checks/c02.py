"""C02: key-value attributes of elements."""
from .. import attrs, html, render, tgen
from ..check import Run


def some_attrs(g, e):
    used = set()
    for _ in range(g.rng.choice([0, 1, 2, 3, 5, 9] if rng.random() < 0.9 else [12, 16, 20, 25])):
        a = attrs.kv(g, e, used)
        if a:
            e.attrs.append(a)


def case_of(cid, nodes, rng):
    body = tgen.src_all(nodes, rng)
    pre = "\n".join(tgen.lets(nodes))
    code = "pub fn case() {\n%s\nlet v = mview! {\n%s\n};\nrt::html(v);\n}" % (pre, body)
    return render.Case(cid, code, model=nodes, info=body)


def one(rng, i):
    """A few elements with attributes; variables of shorthands must not clash,
    so names are unique in the whole template."""
    g = tgen.Gen(rng, depth=2, width=3, nested=0, text=2, expr=0, lazy=0, svg=3, math=2, custom=3)
    used = set()

    def some(g, e):
        for _ in range(rng.choice([0, 1, 2, 3, 5, 9] if rng.random() < 0.9 else [12, 16, 20, 25])):
            a = attrs.kv(g, e, used)
            if a:
                e.attrs.append(a)
    g.o["attrs"] = some
    return [g.el(2) for _ in range(rng.choice([1, 1, 2]))]


def sweep(rng):
    """Every (element, own attribute) pair, and every global and aria attribute,
    with a literal and with a block."""
    g = tgen.Gen(rng)
    pairs = []
    for t, own in list(tgen.HTML.items()):
        pairs += [(t, "html", a.replace("_", "-")) for a in own]
    for t, own in tgen.TABLES["math"].items():
        pairs += [(t, "math", a) for a in own]
    for a in attrs.GLOBAL + attrs.ARIA + attrs.KEBAB + attrs.EDGE:
        for t, k in (("div", "html"), ("mi", "math"), ("path", "svg"), ("my-el", "custom")):
            pairs.append((t, k, a))
    for a in attrs.SVG_NAMES + attrs.CUSTOM_NAMES:
        pairs += [("path", "svg", a), ("x-y", "custom", a)]
    out = []
    for i, (t, k, a) in enumerate(pairs):
        v = "w%d" % i
        s = rng.choice(['%s="%s"', '%s={"%s"}', '%s=["%s"]']) % (a, v)
        out.append(tgen.El(t, k, attrs=[tgen.Attr(s, "kv", html=(a, v), form="sweep")]))
    return out


def judge(case, res, run):
    if res.status == "compile":
        return "template-rejected", "valid template does not compile: " + render.first_line(res.diag)
    if res.status == "panic":
        return "panic", "building or rendering the view panicked: " + str(res.panic)
    try:
        got = html.parse(res.one("html"))
    except html.ParseError as e:
        return "malformed", "rendered document is malformed: %s" % e
    exp = tgen.dom(case.model)
    if tgen.tree_diff(exp, got):
        run.count("tree_differs_not_judged")
        return None
    for x, g in tgen.pair_up(exp, got):
        want = x.attrs()
        names = [k for k, _ in g.attrs]
        if len(set(names)) != len(names):
            return "duplicate", "<%s> has an attribute twice: %r" % (x.tag, g.attrs)
        have = {k: (True if v is None else v) for k, v in g.attrs}
        # `k` and `k=""` are the same attribute in HTML
        for k, v in list(have.items()):
            if v == "" and want.get(k) is True:
                have[k] = True
        if have != want:
            miss = {k: v for k, v in want.items() if have.get(k) != v}
            extra = {k: v for k, v in have.items() if want.get(k) != v}
            return "attrs", "<%s>: expected %r, rendered %r" % (x.tag, miss, extra)
        run.count("attributes", len(want))
        for a in x.node.attrs:
            run.count("form:" + a.form)
            run.seen("element_attribute_pairs", (x.tag, a.html[0]))
            run.seen("attribute_names", a.html[0])
    return None


def run():
    r = Run("C02", "random elements of every language with 0-9 key-value attributes in every name and value form, plus "
                   "a sweep over every (element, attribute) pair leptos knows; rendered with the real macro and leptos "
                   "and compared attribute by attribute. Non-trivial: at least one attribute. Distinct by source.")
    r.assumptions = ["class and style are C03's", "attribute order within an element is not compared"]
    for rnd in r.rounds():
        rng = r.rng(rnd)
        cases = [case_of("c%d" % i, one(rng, i), rng) for i in range(500 if r.quick else 1000)]
        if rnd == 0:
            els = sweep(rng)
            for i in range(0, len(els), 12):
                cases.append(case_of("s%d" % i, els[i:i + 12], rng))
            r.exhaustive = "all %d (element, attribute) pairs of the tables" % len(els)
        results = render.run_all(render.split(cases, 20))
        for c in cases:
            res = results[c.id]
            bad = judge(c, res, r)
            n = sum(len(x.node.attrs) for x in tgen.els(tgen.dom(c.model)))
            r.evaluated(c.info, n > 0, sample={"template": c.info[:300], "html": (res.one("html") or "")[:300]})
            if bad:
                r.violation(bad[0], bad[1], render.standalone(c))
    return r.finish()
