"""C04: listeners, properties, refs, directives and spreads of elements."""
import re
from collections import Counter

from .. import attrs, common, html, render, tgen
from ..check import Run


def attach(g, e, names, shown):
    """Adds 0-6 attachments to an element. With `shown`, everything on it can be
    printed with Debug."""
    r = g.rng
    used = set()
    out = []
    if r.random() < 0.4:
        # (everything on a shown element is printed as one tuple, and tuples print up to twelve)
        e.sels = attrs.selectors(g, r.randrange(4) if shown else None, n_id=0)
    had_ref = False
    n = r.choice([0, 1, 2, 3, 4, 6] if shown or r.random() < 0.92 else [9, 12, 17])
    # (Leptos takes at most 26 attributes on an element, those inside spreads included)
    n = min(n, 22 - len(e.sels))
    spreads = max(0, (22 - n - len(e.sels)) // 2)
    for _ in range(n):
        k = r.randrange(6)
        if shown:
            a = attrs.on(g) if k < 2 else attrs.prop_value(g, used)
        elif k == 0:
            a = attrs.prop(g, used)
        elif k == 1:
            a = attrs.use(g)
        elif k == 2 and not had_ref and e.kind != "custom":
            a, had_ref = attrs.ref(g), True
        elif k == 3 and spreads > 0:
            a = attrs.spread(g)
            spreads -= 1
        else:
            a = attrs.on(g)
        out.append(attrs.fresh(a, names))
    if r.random() < 0.4:
        n = g.uid()
        out.append(tgen.Attr('data-k%d="z"' % n, "kv", html=("data-k%d" % n, "z")))
    if r.random() < 0.3:
        out.append(attrs.fresh(attrs.class_dir(g, set()), names) if not shown else None)
    out = [a for a in out if a]
    r.shuffle(out)
    e.attrs = out


def one(rng, shown):
    g = tgen.Gen(rng, depth=3, width=3, nested=0, text=2, expr=0, lazy=0 if shown else 1, svg=3, math=2, custom=2,
                 special_text=0)
    names = set()
    g.o["attrs"] = lambda g, e: attach(g, e, names, shown)
    return [g.el(3) for _ in range(rng.choice([1, 1, 2]))]


def sweep(rng):
    """Every event, in every form."""
    out = []
    g = tgen.Gen(rng)
    # variables of shorthands are named like the event: no event twice in a case
    for form in ("plain", "undelegated", "shorthand", "shorthand undelegated"):
        for ev in attrs.EVENTS:
            a = attrs.on(g, ev, form)
            out.append(tgen.El(rng.choice(["div", "button", "p"]), "html", attrs=[a]))
    return out


def norm_ev(ev):
    return ev[2:] if ev.startswith("r#") else ev


def type_atts(tel):
    """Attachments of an element, from its type."""
    out = []
    for t in tel.attrs:
        if t.last == "On" and len(t.args) == 2:
            e, f = t.args
            und = e.last == "Undelegated"
            if und:
                e = e.args[0]
            n = int(f.args[0].name) if f.last == "handler" and f.args else f.last
            out.append(("on", norm_ev(e.last), und, n))
        elif t.last == "Property":
            f = t.args[1]
            out.append(("prop", int(f.args[0].name) if f.last == "getter" else
                        "closure" if "{{closure}}" in f.name else repr(f)))
        elif t.last == "Directive":
            f = t.args[1]
            out.append(("use", f.last.replace("directive_", ""), int(f.args[0].name) if f.args else "?"))
        elif t.last == "NodeRefAttr":
            out.append(("ref", repr(t.args[0])))
    return out


def judge(case, res, run):
    b = common.basics(res)
    if b:
        return b
    exp = tgen.dom(case.model)
    xs = list(tgen.els(exp))
    if case.shown:
        return judge_shown(case, res, run, xs)
    tels = html.elements(html.parse_type(res.one("type")))
    if len(tels) != len(xs):
        run.count("type_not_judged")
        return None
    for x, t in zip(xs, tels):
        want, have = [], type_atts(t)
        for a in x.attachments():
            if a[0] == "on":
                want.append((a[0], norm_ev(a[1])) + a[2:])
            elif a[0] == "prop":
                want.append(("prop", a[2]))
            elif a[0] == "use":
                want.append(a[:3])
            else:
                # a ref is for this very element
                want.append(("ref", [repr(u.args[0]) for u in t.attrs if u.last == "NodeRefAttr"][0]
                             if any(h[0] == "ref" for h in have) else "?"))
        for h in have:
            if h[0] == "ref" and h[1].split("<")[0].rsplit("::", 1)[-1] != t.name:
                return "ref-type", "<%s> has a ref for %s" % (x.tag, h[1])
        cw, ch = Counter(want), Counter(have)
        if cw != ch:
            return "attachments", "<%s>: written but not attached: %s; attached but not written: %s" % (
                x.tag, sorted(map(str, (cw - ch).elements())), sorted(map(str, (ch - cw).elements())))
        run.count("attachments", len(want))
        for a in x.node.attrs:
            if a.att or a.cat == "spread":
                run.count("form:" + a.form)
            if a.att and a.att[0] == "on":
                run.seen("events", (a.att[1], a.att[2]))
    # parameters of use: directives
    want = Counter(a[3] for x in xs for a in x.attachments() if a[0] == "use" and a[3])
    have = Counter(res.get("conv"))
    if want != have:
        return "conversions", "use: parameters: expected conversions %r, observed %r" % (dict(want), dict(have))
    run.count("conversions", sum(want.values()))
    # spread attributes
    got, b = common.parsed(res)
    if b:
        return b
    if tgen.tree_diff(exp, got):
        run.count("tree_differs_not_judged")
        return None
    for x, g in tgen.pair_up(exp, got):
        want = Counter(p for a in x.node.attrs for p in a.htmls)
        have = Counter(p for p in g.attrs if p[0].startswith("data-s"))
        if want != have:
            return "spread", "<%s>: spread attributes expected %r, rendered %r" % (x.tag, dict(want), dict(have))
        run.count("spread_attributes", sum(want.values()))
    return None


PROP = re.compile(r'Property \{ key: ("(?:[^"\\]|\\.)*"), value: Some\(SendWrapper \{ data: (.*?), thread_id'
                  r'|On\((?:Undelegated \{ inner: )?(?:r#)?(\w+)(?: \})?\)')


def judge_shown(case, res, run, xs):
    dbg = res.one("debug")
    pieces = dbg.split("HtmlElement {")[1:]
    if len(pieces) != len(xs):
        run.count("debug_not_judged")
        return None
    for x, p in zip(xs, pieces):
        have = Counter()
        for m in PROP.finditer(p):
            if m.group(1):
                have[("prop", m.group(1)[1:-1], m.group(2))] += 1
            else:
                have[("on", norm_ev(m.group(3)), m.group(0).startswith("On(Undelegated"))] += 1
        want = Counter((a[0], norm_ev(a[1]), a[2]) for a in x.attachments())
        if want != have:
            return "properties", "<%s>: written but not attached: %s; attached but not written: %s" % (
                x.tag, sorted(map(str, (want - have).elements())), sorted(map(str, (have - want).elements())))
        run.count("properties_with_key_and_value", sum(1 for a in x.attachments() if a[0] == "prop"))
        for a in x.node.attrs:
            if a.att:
                run.count("form:" + a.form)
    return None


def run():
    r = Run("C04", "random elements of every language with up to six of on: (all events, with and without :undelegated), "
                   "prop:, use:, ref and spreads, in every form, plus a sweep of every event in four forms. What is "
                   "attached to each element is read from the type of the view (functions and values carry ids) or its "
                   "Debug representation (property keys and values), conversions of use: parameters from the event log. "
                   "Non-trivial: at least one attachment. Distinct by source.")
    r.assumptions = ["leptos 0.7.8 has no event::undelegated, which both view! and mview! expand to: a stand-in that "
                     "records the call is linked in (harness/shim)",
                     "what leptos does in a browser with the attached items is leptos' business"]
    for rnd in r.rounds():
        rng = r.rng(rnd)
        cases = []
        for i in range(700 if r.quick else 1200):
            shown = i % 3 == 2
            c = common.template_case("c%d" % i, one(rng, shown), rng, obs="rt::dbg(&v);" if shown else "rt::obs(v);")
            c.shown = shown
            cases.append(c)
        if rnd == 0:
            els = sweep(rng)
            for i in range(0, len(els), 16):
                c = common.template_case("s%d" % i, els[i:i + 16], rng)
                c.shown = False
                cases.append(c)
            r.exhaustive = "all %d events, plain, undelegated and as shorthands" % len(attrs.EVENTS)
        results = render.run_all(render.split(cases, 20, shim=True))
        for c in cases:
            res = results[c.id]
            bad = judge(c, res, r)
            n = sum(len(x.attachments()) for x in tgen.els(tgen.dom(c.model)))
            r.evaluated(c.info, n > 0, sample={"template": c.info[:400], "attached": str(
                [x.attachments() for x in tgen.els(tgen.dom(c.model))])[:400]})
            if bad:
                r.violation(bad[0], bad[1], render.standalone(c))
    return r.finish()
