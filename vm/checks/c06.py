"""C06: what is written on a component reaches its root elements."""
from collections import Counter

from .. import attrs, common, html, render, tgen
from ..check import Run
from .c04 import PROP, norm_ev, type_atts


class Root:
    """A component, and the document it renders."""

    def __init__(self, head, build, multi=False, kids=False, shown=False, props=()):
        self.head, self.build, self.multi, self.kids, self.shown, self.props = head, build, multi, kids, shown, props


def root_el(comp, tag, kind, kids, base=(), cls=(), style=()):
    """The expected root element: its own things and the component's."""
    at = [tgen.Attr("", "kv", html=b, form="base") for b in base]
    if cls:
        at.append(tgen.Attr("", "kv", cls=list(cls), form="base"))
    if style:
        at.append(tgen.Attr("", "kv", style=list(style), form="base"))
    x = tgen.X(tgen.El(tag, kind, sels=comp.sels, attrs=at + [a for a in comp.attrs if a.cat != "prop"]), tag, kind, kids)
    x.root = True
    return x


ROOTS = [
    Root("rt::roots::Div1", lambda c, k: [root_el(c, "div", "html", [tgen.plain("b", ["x"])])],
         props=("n=3", "flag", "{n}", "flag=true", "n={4}")),
    Root("rt::roots::Styled", lambda c, k: [root_el(c, "p", "html", [tgen.plain("i", [])], base=[("data-base", "y")],
                                                    cls=["base", "own"], style=[("margin-left", "0")])]),
    Root("rt::roots::Svg1", lambda c, k: [root_el(c, "svg", "svg", [tgen.X(tgen.El("circle", "svg"), "circle", "svg", [])])]),
    Root("rt::roots::Custom1", lambda c, k: [root_el(c, "my-root", "custom", ["t"])]),
    Root("rt::roots::Nested", lambda c, k: [root_el(c, "div", "html", [tgen.plain("b", ["x"])])]),
    Root("rt::roots::Two", lambda c, k: [root_el(c, "ul", "html", [tgen.plain("li", ["l"])]), "text",
                                         root_el(c, "ol", "html", [])], multi=True),
    Root("rt::roots::Kids", lambda c, k: [root_el(c, "section", "html", k)], kids=True),
    Root("::vh_rt::roots::Plain", lambda c, k: [root_el(c, "em", "html", [])], shown=True),
]


def decorate(g, root, names):
    """(selectors, attributes) for a component."""
    r = g.rng
    sels, out = [], []
    used_c, used_s, used_a, used_p = set(), set(), set(), set()
    if r.random() < 0.5:
        # what is attached to a shown root is printed as one tuple, and tuples print up to twelve
        sels = attrs.selectors(g, r.randrange(4)) if root.shown else attrs.selectors(g)
        used_c.update(n for s, n in sels if s == ".")
    for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
        k = r.randrange(9)
        if root.shown:
            k = r.choice([3, 4, 5])
        a = None
        if k == 0:
            a = attrs.class_dir(g, used_c)
        elif k == 1:
            a = attrs.style_dir(g, used_s)
        elif k == 2:
            a = attrs.attr_class_style(g, used_c) if not out or r.random() < 0.5 else None
            if a and a.style:
                # one style attribute, and no directive for the same property
                if any(b and b.style for b in out) or used_s & {n for n, _ in a.style}:
                    a = None
                else:
                    used_s.update(n for n, _ in a.style)
        elif k in (3, 6):
            a = attrs.attr_dir(g, used_a) if not root.shown else attrs.prop_value(g, used_p, bare=True)
        elif k == 4:
            a = attrs.prop(g, used_p) if not root.shown else attrs.prop_value(g, used_p, bare=True)
        elif k == 5:
            a = attrs.on(g)
        elif k == 7:
            a = attrs.use(g)
        else:
            a = attrs.spread(g)
        out.append(attrs.fresh(a, names))
    if root.props and r.random() < 0.5:
        p = r.choice(root.props)
        a = tgen.Attr(p, "prop", form="prop", lets=["let n = 9;"] if p == "{n}" else [])
        out.append(attrs.fresh(a, names))
    out = [a for a in out if a]
    r.shuffle(out)
    if root.shown:
        n = sum(s == "." for s, _ in sels) + any(s == "#" for s, _ in sels)
        out = out[:12 - n]
    return sels, out


def one(rng, shown):
    g = tgen.Gen(rng, special_text=0)
    names = set()

    def comp(depth):
        root = rng.choice([x for x in ROOTS if x.shown == shown])
        sels, at = decorate(g, root, names)
        kids = None
        if root.kids:
            kids = [comp(depth - 1) if depth > 0 and rng.random() < 0.5 else
                    rng.choice([g.leaf_text(), tgen.El("b", "html", children=[g.leaf_text()])])
                    for _ in range(rng.randrange(1, 3))]
        c = tgen.Comp(root.head, None, attrs=at, sels=sels, children=kids)
        c.wrap = lambda k: root.build(c, k)
        c.root = root
        return c
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        c = comp(1)
        out.append(tgen.El("main", "html", children=[c]) if rng.random() < 0.3 else c)
    return out


def sweep(rng):
    g = tgen.Gen(rng)
    out = []
    for i, k in enumerate(TABLE_KEYS):
        v = "w%d" % i
        s = rng.choice(['attr:%s="%s"', 'attr:%s={"%s"}', 'attr:%s=["%s"]']) % (k, v)
        out.append((s, tgen.Attr(s, "dir", html=(k, v), form="sweep")))
    for ev in attrs.EVENTS:
        a = attrs.on(g, ev, "plain")
        out.append((a.src, a))
    cases = []
    for i in range(0, len(out), 10):
        c = tgen.Comp("rt::roots::Div1", None, attrs=[a for _, a in out[i:i + 10]])
        c.wrap = lambda k, c=c: ROOTS[0].build(c, k)
        c.root = ROOTS[0]
        cases.append([c])
    return cases


CROWDS = [9, 13, 16, 17, 18, 25, 26, 27, 28, 33, 40, 52, 53, 60, 80]


def crowd(rng, n):
    """`n` selectors and directives on one component."""
    g = tgen.Gen(rng, special_text=0)
    names, used_c, used_s, used_a, used_p = set(), set(), set(), set(), set()
    sels, out = [], []
    k = rng.choice([0, n, n // 2, rng.randrange(n)])
    if k:
        sels = [rng.choice("..........#") + "" for _ in range(k)]
        sels = [(s, "%s%d" % (rng.choice(["c", "a-b", "x_"]), i)) for i, s in enumerate(sels)]
        used_c.update(x for s, x in sels if s == ".")
    while len(out) < n - k:
        a = rng.choice([lambda: attrs.class_dir(g, used_c), lambda: attrs.class_dir(g, used_c), lambda: attrs.style_dir(g, used_s), lambda: attrs.attr_dir(g, used_a), lambda: attrs.on(g),
                        lambda: attrs.use(g), lambda: attrs.prop(g, used_p), lambda: attrs.spread(g)])()
        a = attrs.fresh(a, names)
        if a:
            out.append(a)
    root = rng.choice([x for x in ROOTS if not x.shown])
    kids = [tgen.El("b", "html", children=[g.leaf_text()])] if root.kids else None
    c = tgen.Comp(root.head, None, attrs=out, sels=sels, children=kids)
    c.wrap = lambda k: root.build(c, k)
    c.root = root
    return [c]


TABLE_KEYS = attrs.CHECKED_KEYS + attrs.CUSTOM_KEYS + ["id"]


def judge(case, res, run):
    b = common.basics(res)
    if b:
        return b
    exp = tgen.dom(case.model)
    xs = list(tgen.els(exp))
    if case.shown:
        return judge_shown(res, run, [x for x in xs if getattr(x, "root", False)])
    got, b = common.parsed(res)
    if b:
        return b
    if tgen.tree_diff(exp, got):
        run.count("tree_differs_not_judged")
        return None
    for x, g in tgen.pair_up(exp, got):
        root = getattr(x, "root", False)
        names = [k for k, _ in g.attrs]
        if len(set(names)) != len(names):
            return "duplicate", "<%s> has an attribute twice: %r" % (x.tag, g.attrs)
        want = x.attrs()
        want.pop("id", None) if any(s == "#" for s, _ in x.node.sels) else None
        have = {k: (True if v is None else v) for k, v in g.attrs if k not in ("class", "style")}
        ids = [n for s, n in x.node.sels if s == "#"]
        if ids:
            if (have.pop("id", "") or "").split() != ids:
                return "ids", "<%s>: expected ids %r, rendered %r" % (x.tag, ids, g.attr("id"))
            run.count("ids", len(ids))
        for k, v in list(have.items()):
            if v == "" and want.get(k) is True:
                have[k] = True
        if want != have:
            return "attrs", "<%s>: expected %r, rendered %r" % (
                x.tag, {k: v for k, v in want.items() if have.get(k) != v},
                {k: v for k, v in have.items() if want.get(k) != v})
        wc, hc = sorted(x.classes()), sorted((g.attr("class") or "").split())
        if wc != hc:
            return "classes", "<%s>: expected classes %r, rendered %r" % (x.tag, wc, hc)
        ws, hs = sorted(x.styles()), sorted(html.styles(g.attr("style")))
        if ws != hs:
            return "styles", "<%s>: expected styles %r, rendered %r" % (x.tag, ws, hs)
        if root:
            run.count("roots")
            run.count("attributes", len(want))
            run.count("classes", len(wc))
            run.count("styles", len(ws))
            for a in x.node.attrs:
                run.count("form:" + a.form)
    # attachments, where the type of the view shows the element
    tels = html.elements(html.parse_type(res.one("type")))
    if len(tels) != len(xs):
        run.count("type_not_judged")
    else:
        multi = Counter()
        for n in walk(case.model):
            if isinstance(n, tgen.Comp):
                multi[id(n.sels)] = n.root.multi
        for x, t in zip(xs, tels):
            want, have = [], type_atts(t)
            for a in x.attachments():
                if a[0] == "on":
                    want.append((a[0], norm_ev(a[1])) + a[2:])
                elif a[0] == "prop":
                    want.append(("prop", a[2]))
                else:
                    want.append(a[:3])
            if x.tag in ("ul", "ol"):
                # cloned for each root: only the kinds and events remain visible
                want = [w[:3] if w[0] == "on" else w[:1] for w in want]
                have = [w[:3] if w[0] == "on" else w[:1] for w in have]
            cw, ch = Counter(want), Counter(have)
            if cw != ch:
                return "attachments", "<%s>: written but not attached: %s; attached but not written: %s" % (
                    x.tag, sorted(map(str, (cw - ch).elements())), sorted(map(str, (ch - cw).elements())))
            run.count("attachments", len(want))
    # each use: parameter is converted once per component, however many roots
    want = Counter()
    for n in walk(case.model):
        for a in n.attrs:
            if a.att and a.att[0] == "use" and a.att[3]:
                want[a.att[3]] += 1
    have = Counter(res.get("conv"))
    if want != have:
        return "conversions", "use: parameters: expected conversions %r, observed %r" % (dict(want), dict(have))
    return None


def walk(nodes):
    for n in nodes:
        if isinstance(n, (tgen.El, tgen.Comp)):
            yield n
            yield from walk(n.children or [])


def judge_shown(res, run, xs):
    pieces = [p for p in res.one("debug").split("HtmlElement {")[1:] if "tag: Em" in p.split("attributes")[0]]
    if len(pieces) != len(xs):
        run.count("debug_not_judged")
        return None
    for x, p in zip(xs, pieces):
        have = Counter()
        for m in PROP.finditer(p):
            if m.group(1):
                have[("prop", m.group(1)[1:-1], m.group(2))] += 1
            else:
                have[("on", norm_ev(m.group(3)), m.group(0).startswith("On(Undelegated"))] += 1
        want = Counter((a[0], norm_ev(a[1]), a[2]) for a in x.attachments())
        if want != have:
            return "properties", "written but not attached: %s; attached but not written: %s" % (
                sorted(map(str, (want - have).elements())), sorted(map(str, (have - want).elements())))
        run.count("properties_with_key_and_value", sum(1 for a in x.attachments() if a[0] == "prop"))
    return None


def run():
    r = Run("C06", "components with one root of every language, several roots, a nested component as root or children of "
                   "their own, decorated with random selectors, class:, style:, attr:, prop:, on:, use: and spreads in "
                   "every form, plus a sweep over every attribute and event leptos knows. Documents, view types and Debug "
                   "representations are compared with the model. Non-trivial: at least one decoration. Distinct by source.")
    r.assumptions = ["leptos applies what is added to a component to all its root elements",
                     "harness/shim provides event::undelegated (see C04)"]
    for rnd in r.rounds():
        rng = r.rng(rnd)
        cases = []
        for i in range(700 if r.quick else 1200):
            shown = i % 5 == 4
            c = common.template_case("c%d" % i, one(rng, shown), rng, obs="rt::dbg(&v);" if shown else "rt::obs(v);")
            c.shown = shown
            cases.append(c)
        for i, n in enumerate(CROWDS if rnd == 0 else rng.sample(range(9, 100), 12)):
            c = common.template_case("n%d" % i, crowd(rng, n), rng)
            c.shown = False
            cases.append(c)
        if rnd == 0:
            for i, nodes in enumerate(sweep(rng)):
                c = common.template_case("s%d" % i, nodes, rng)
                c.shown = False
                cases.append(c)
            r.exhaustive = "all %d attribute names and %d events" % (len(TABLE_KEYS), len(attrs.EVENTS))
        results = render.run_all(render.split(cases, 20, shim=True))
        for c in cases:
            res = results[c.id]
            bad = judge(c, res, r)
            n = sum(len(x.sels) + len(x.attrs) for x in walk(c.model))
            r.evaluated(c.info, n > 0, sample={"template": c.info[:400], "html": (res.one("html") or "")[:400]})
            if bad:
                r.violation(bad[0], bad[1], render.standalone(c))
    return r.finish()
