"""C03: selectors, class and style settings of elements."""
from .. import attrs, common, html, render, tgen
from ..check import Run

COMBOS = ["sel", "sel+class", "sel+dir", "class+dir", "style", "style+dir", "all", "all", "ids"]


def decorate(g, e, used_names):
    """Adds selectors, class and style things to an element. `used_names` are the
    shorthand variables of the whole template."""
    r = g.rng
    combo = r.choice(COMBOS)
    used, used_st = set(), set()
    if combo in ("sel", "sel+class", "sel+dir", "all", "ids"):
        e.sels = attrs.selectors(g, n_id=r.choice([2, 3, 4]) if combo == "ids" else None)
        used.update(n for s, n in e.sels if s == ".")
    out = []

    def ok(a):
        """Keeps shorthand variables distinct in the template."""
        if a is None:
            return None
        for l in a.lets:
            v = l.split("=")[0]
            if v in used_names:
                return None
            used_names.add(v)
        return a
    if combo in ("sel+class", "class+dir", "all"):
        out.append(ok(attrs.class_attr(g, used)))
    if combo in ("sel+dir", "class+dir", "all"):
        if r.random() < 0.25:
            # a directive for a class that is there anyway
            over = [n for s, n in e.sels if s == "." and n in attrs.CLASS_NAMES]
            if over:
                out.append(ok(attrs.class_dir(g, used - set(over), r.choice(over))))
        out += [ok(attrs.class_dir(g, used)) for _ in range(r.randrange(1, 4) if r.random() < 0.93 else r.choice([7, 10]))]
    if combo in ("style", "style+dir", "all") and r.random() < 0.8:
        out.append(ok(attrs.style_attr(g)))
    if combo in ("style+dir", "all"):
        if r.random() < 0.3 and out and any(a and a.style for a in out):
            # a directive for a property the attribute also sets
            a = [a for a in out if a and a.style][0]
            d = attrs.style_dir_for(g, a.style[0][0])
            used_st.add(a.style[0][0])
            out.append(d)
        out += [ok(attrs.style_dir(g, used_st)) for _ in range(r.randrange(1, 4) if r.random() < 0.93 else r.choice([6, 9]))]
    if r.random() < 0.3:
        out.append(tgen.Attr('title="t"', "kv", html=("title", "t")))
    out = [a for a in out if a]
    r.shuffle(out)
    e.attrs = out
    # `.a -b` would be read as one name
    for i, a in enumerate(e.attrs):
        if a.src.startswith("-"):
            e.attrs.pop(i)


def one(rng):
    g = tgen.Gen(rng, depth=2, width=3, nested=0, text=1, expr=0, lazy=0, svg=3, math=2, custom=2)
    names = set()
    g.o["attrs"] = lambda g, e: decorate(g, e, names)
    return [g.el(2) for _ in range(rng.choice([1, 1, 2]))]


def kind_seq(tel):
    """The class/style items of an element in type order: 'attr' or 'toggle'."""
    out = []
    for t in tel.attrs:
        if t.last in ("Class", "Style") and t.args:
            out.append((t.last, "toggle" if t.args[0].name == "(" else "attr"))
    return out


def judge(case, res, run):
    b = common.basics(res)
    if b:
        return b
    got, b = common.parsed(res)
    if b:
        return b
    exp = tgen.dom(case.model)
    if tgen.tree_diff(exp, got):
        run.count("tree_differs_not_judged")
        return None
    for x, g in tgen.pair_up(exp, got):
        for k in ("id", "class", "style"):
            if sum(1 for n, _ in g.attrs if n == k) > 1:
                return "duplicate-" + k, "<%s> has %s twice: %r" % (x.tag, k, g.attrs)
        want, have = sorted(x.classes()), sorted((g.attr("class") or "").split())
        if len(set(want)) < len(want):
            want, have = sorted(set(want)), sorted(set(have))
            run.count("classes_of_two_sources")
        if want != have:
            return "classes", "<%s>: expected classes %r, rendered %r" % (x.tag, want, have)
        run.count("classes", len(want))
        wid = [n for s, n in x.node.sels if s == "#"]
        hid = (g.attr("id") or "").split()
        if wid != hid:
            return "ids", "<%s>: expected ids %r, rendered %r" % (x.tag, wid, hid)
        run.count("ids", len(wid))
        ws, hs = x.styles(), html.styles(g.attr("style"))
        if sorted(set(ws)) != sorted(set(hs)):
            return "styles", "<%s>: expected styles %r, rendered %r" % (x.tag, ws, hs)
        # the one that is in effect
        if dict(ws) != dict(hs):
            return "style-order", "<%s>: expected styles in effect %r, rendered %r" % (x.tag, dict(ws), dict(hs))
        run.count("styles", len(ws))
        if len(ws) != len(dict(ws)):
            run.count("overridden_styles")
        for a in x.node.attrs:
            if a.toggle or a.cls or a.style:
                run.count("form:" + a.form)
    # directives apply after the plain attributes: visible in the type only (a
    # later `class` attribute would wipe earlier toggles on the client)
    tels = html.elements(html.parse_type(res.one("type")))
    xs = list(tgen.els(exp))
    if len(xs) == len(tels):
        for x, t in zip(xs, tels):
            seq = kind_seq(t)
            run.seen("orders", tuple(seq))
            for which in ("Class", "Style"):
                s = [m for w, m in seq if w == which]
                if "attr" in s and "toggle" in s:
                    run.count("orders_checked")
                    if "attr" in s[s.index("toggle"):]:
                        return "order", "<%s>: a %s directive is applied before the plain %s attribute" % (
                            x.tag, which.lower(), which.lower())
    return None


def run():
    r = Run("C03", "random elements with any combination of class and id selectors, class and style attributes and class: "
                   "and style: directives, in every value form and order; rendered, and the class list, the style "
                   "declarations and the id compared with the model's; order of application from the type of the "
                   "view. Non-trivial: at least one class, style or id. Distinct by source.")
    r.assumptions = ["an id attribute together with an id selector is outside the property"]
    for rnd in r.rounds():
        rng = r.rng(rnd)
        cases = [common.template_case("c%d" % i, one(rng), rng) for i in range(800 if r.quick else 1200)]
        results = render.run_all(render.split(cases, 20))
        for c in cases:
            res = results[c.id]
            bad = judge(c, res, r)
            n = sum(len(x.node.sels) + len(x.node.attrs) for x in tgen.els(tgen.dom(c.model)))
            r.evaluated(c.info, n > 0, sample={"template": c.info[:300], "html": (res.one("html") or "")[:300]})
            if bad:
                r.violation(bad[0], bad[1], render.standalone(c))
    return r.finish()
