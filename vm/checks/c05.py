"""C05: the props that components receive."""
from collections import Counter

from .. import comps, common, render, tgen
from ..check import Run


def case_of(cid, rng, generic):
    g = tgen.Gen(rng)
    defs, names, uses, pre = [], set(), [], []
    want = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        d = comps.definition(g, generic)
        defs.append(d)
        for _ in range(rng.choice([1, 1, 2])):
            attrs, props = comps.use_props(g, d, names)
            head, notes = comps.head(g, d, cid)
            body = None
            c = tgen.Comp(head, lambda ch: [], attrs=attrs, children=body)
            notes2 = []
            for n in notes:
                if isinstance(n, tuple):
                    pre.append('rt::note(format!("want %s type {}", std::any::type_name::<%s>()));' % n)
                else:
                    notes2.append(n)
            want.append((d.name, props, notes2))
            k = rng.randrange(5)
            uses.append(tgen.El("p", "html", children=[c]) if k == 0 else
                        tgen.Comp("rt::Frag", lambda ch: ch, children=[c]) if k == 1 else c)
    body = tgen.src_all(uses, rng)
    code = "%s\npub fn case() {\n%s\n%s\nlet v = mview! {\n%s\n};\nrt::html(v);\n}" % (
        "\n".join(d.source() for d in defs), "\n".join(pre), "\n".join(tgen.lets(uses)), body)
    c = render.Case(cid, code, model=want, info=body)
    c.forms = [(a.form, cat) for u in uses for a in u.attrs for cat in ("prop",)]
    c.forms += [(a.form, "prop") for u in uses for k in (u.children or []) for a in k.attrs]
    return c


CROSS = [
    # components of another crate, with a leading `::` and without
    ("::vh_rt::parts::Probe {0}", "Probe"), ("vh_rt::parts::Probe {0}", "Probe"), ("rt::parts::Probe {0}", "Probe"),
    ("crate::{cid}::rt::parts::Probe {0}", "Probe"), ("Alias {0}", "Probe"),
    ("::vh_rt::parts::Typed::<{t}> {0}", "Typed"), ("::vh_rt::parts::Typed<{t}> {0}", "Typed"),
    ("rt::parts::Typed<{t}> {0}", "Typed"),
]


def cross_case(cid, rng):
    g = tgen.Gen(rng)
    src, want, pre = [], [], []
    for _ in range(3):
        form, name = rng.choice(CROSS)
        n = g.uid()
        t = rng.choice(comps.TYPES)
        if name == "Typed":
            pre.append('rt::note(format!("want Typed type {}", std::any::type_name::<%s>()));' % t)
        src.append(form.replace("{0}", "n=%d;" % n).replace("{t}", t).replace("{cid}", cid))
        want.append((name, {"n": str(n)}, []))
    body = " ".join(src)
    code = "use vh_rt::parts::Probe as Alias;\npub fn case() {\n%s\nlet v = mview! {\n%s\n};\nrt::html(v);\n}" % ("\n".join(pre), body)
    c = render.Case(cid, code, model=want, info=body)
    c.forms = [("cross-crate", "head")] * 3
    return c


def judge(case, res, run):
    b = common.basics(res)
    if b:
        return b
    # what each run of a component received, in any order
    calls = []
    for k, v in res.log:
        if k == "mark":
            calls.append((v, {}, []))
        elif k == "prop":
            owner, _, rest = v.partition(".")
            n, _, val = rest.partition("=")
            if not calls or calls[-1][0] != owner:
                return "log", "prop of %s received outside of it" % owner
            calls[-1][1][n] = val
        elif k == "note" and " const " in v:
            calls[-1][2].append(v)
    key = lambda c: (c[0], tuple(sorted(c[1].items())), tuple(sorted(c[2])))  # noqa: E731
    want, have = Counter(map(key, case.model)), Counter(map(key, calls))
    if want != have:
        return "props", "components written but not called so: %s; called but not written so: %s" % (
            sorted((want - have).elements()), sorted((have - want).elements()))
    types = [v for v in res.get("note") if " type " in v]
    want = Counter(v[5:] for v in types if v.startswith("want "))
    have = Counter(v for v in types if not v.startswith("want "))
    if want != have:
        return "generics", "type arguments written: %r; received: %r" % (dict(want - have), dict(have - want))
    run.count("components_called", len(calls))
    run.count("props_received", sum(len(c[1]) for c in calls))
    run.count("type_arguments", sum(have.values()))
    for f, _ in case.forms:
        run.count("form:" + f)
    return None


def run():
    r = Run("C05", "random component definitions (20 sorts of props with their conversions and defaults, keyword and "
                   "multi-word names, type and const generics, nested modules, other crates) and uses of them (any "
                   "subset and order of optional props, every value form, hyphens, shorthands, every kind of path). "
                   "The components log what they receive. Non-trivial: at least one prop or generic. Distinct by source.")
    for rnd in r.rounds():
        rng = r.rng(rnd)
        cases = [case_of("c%d" % i, rng, None if i % 3 else True) for i in range(500 if r.quick else 900)]
        cases += [cross_case("x%d" % i, rng) for i in range(40)]
        results = render.run_all(render.split(cases, 14))
        for c in cases:
            res = results[c.id]
            bad = judge(c, res, r)
            r.evaluated(c.info, any(m[1] or m[2] for m in c.model), sample={"template": c.info[:400],
                                                                           "received": str(c.model)[:400]})
            if bad:
                r.violation(bad[0], bad[1], render.standalone(c))
    return r.finish()
