"""C01: the rendered document has the shape of the template."""
from .. import html, render, tgen
from ..check import Run

PROFILES = [
    dict(),                                             # mixed
    dict(comp=3, depth=5, width=3),
    dict(text=1, expr=1, lazy=0, nested=0, depth=7, width=3, max_nodes=50),   # deep
    dict(svg=6, math=4, custom=3, html=4, depth=3),
    dict(nested=5, depth=4, width=3, max_nodes=25),
    dict(depth=1, width=16, text=8, expr=4),            # flat
]
WIDE = [17, 25, 26, 27, 28, 40, 52, 53, 60]


def case_of(cid, nodes, rng):
    body = tgen.src_all(nodes, rng)
    pre = "\n".join(tgen.lets(nodes))
    code = "pub fn case() {\n%s\nlet v = mview! {\n%s\n};\nrt::obs(v);\n}" % (pre, body)
    return render.Case(cid, code, model=nodes, info=body)


def wide(rng, n, where):
    """`n` siblings, of every sort of child."""
    g = tgen.Gen(rng, depth=0, special_text=0.05)
    kids = []
    for i in range(n):
        kids.append(g.leaf_text() if i % 3 == 0 else
                    tgen.El("b", "html", children=[g.leaf_text()]) if i % 3 == 1 else g.leaf_expr())
    if where == "element":
        return [tgen.El("div", "html", children=kids)]
    if where == "component":
        return [tgen.Comp("rt::Wrap", lambda c: [tgen.plain("section", c)], children=kids)]
    if where == "svg":
        return [tgen.El("svg", "svg", children=kids)]
    return kids


def crowd(rng, n):
    """More siblings than fit into tuples of tuples (26 * 27 = 702), all cheap."""
    kids = [tgen.Leaf('"k%d;"' % i, ["k%d;" % i]) for i in range(n)]
    return [tgen.El("p", "html", children=kids)]


def sweep(rng):
    """Every element name there is, alone and with a child."""
    out = []
    names = [(t, "html") for t in tgen.HTML] + [(t, "svg") for t in tgen.SVG] + [(t, "math") for t in tgen.MATH]
    names += [("use_", "svg")]
    names += [(t, "custom") for t in
              ["my-el", "a-b", "x-", "div-1", "leptos-island", "svg-circle", "a-b-c-d", "my-el_2", "x-10a", "path-", "my-El", "x-Y", "xA-bC-d", "a-1b-C"]]
    for i, (t, k) in enumerate(names):
        kids = None if t in tgen.VOID else ([] if t in tgen.RAW else [tgen.Leaf('"s%d"' % i, ["s%d" % i])])
        out.append(tgen.El(t, k, children=kids))
    return out


def judge(case, res, run):
    """Returns a description of the violation, or None."""
    if res.status == "compile":
        return "template-rejected", "valid template does not compile: " + render.first_line(res.diag)
    if res.status == "panic":
        return "panic", "building or rendering the view panicked: " + str(res.panic)
    try:
        got = html.parse(res.one("html"))
    except html.ParseError as e:
        return "malformed", "rendered document is malformed: %s" % e
    exp = tgen.dom(case.model)
    d = tgen.tree_diff(exp, got)
    if d:
        return "tree", "%s\nrendered: %s" % (d, res.one("html"))
    if run is None:
        return None
    # the language of each element is visible in the type of the view
    n = 0
    tels = html.elements(html.parse_type(res.one("type")))
    xs = [x for x in tgen.els(exp)]
    for x in xs:
        run.seen("tags", (x.tag, x.kind))
    run.count("elements", len(xs))
    if len(tels) == len(xs):
        for x, t in zip(xs, tels):
            k = html.kind_of(t.module)
            if k is None:
                run.count("kind_unknown")
                continue
            n += 1
            if k != x.kind:
                return "kind", "<%s> was made a %s element, should be %s" % (x.tag, k, x.kind)
    run.count("kinds_checked", n)
    return None


def run():
    r = Run("C01", "random templates (elements of every language, text, blocks, brackets, f[], components, nested "
                   "mview!, any sibling count), plus a sweep over every element name; each is compiled with the real "
                   "macro and leptos and rendered, and the document is compared with the model's. Non-trivial: at "
                   "least 3 nodes. Distinct by template source.")
    r.assumptions = ["leptos 0.7.8 renders what its builder API is asked for",
                     "element languages are only compared where the type of the view shows them"]
    for rnd in r.rounds():
        rng = r.rng(rnd)
        cases = []
        for i in range(600 if r.quick else 1000):
            g = tgen.Gen(rng, **PROFILES[i % len(PROFILES)])
            cases.append(case_of("c%d" % i, tgen.template(g), rng))
        k = 0
        for n in (rng.sample(WIDE, 4) + [27] if r.quick else WIDE):
            for where in ("element", "component", "top", "svg"):
                cases.append(case_of("w%d" % k, wide(rng, n, where), rng))
                k += 1
        cases.append(case_of("crowd", crowd(rng, rng.choice([677, 702, 703, 729, 760])
                                            if rnd else 27 * 27), rng))
        if rnd == 0:
            names = sweep(rng)
            for i in range(0, len(names), 12):
                cases.append(case_of("s%d" % i, names[i:i + 12], rng))
            r.exhaustive = "all %d element names" % len(names)
        results = render.run_all(render.split(cases, 18))
        for c in cases:
            res = results[c.id]
            bad = judge(c, res, r)
            r.evaluated(c.info, len(list(tgen.els(tgen.dom(c.model)))) + len(c.model) >= 3,
                        sample={"template": c.info[:400], "html": (res.one("html") or "")[:400]})
            if bad:
                r.violation(bad[0], bad[1], render.standalone(c))
    return r.finish()
