"""C09: what is lazy, and what is not."""
from collections import Counter

from .. import common, render, tgen
from ..check import Run


class V:
    """A value: source with %1, %2 for observed expressions; which of them are lazy; the text it shows."""

    def __init__(self, src, lazy, shown=None, pre=None):
        self.src, self.lazy, self.shown, self.pre = src, lazy, shown, pre


E, L, P0 = "eager", "lazy", "before"
# as a child, or as the value of an attribute that takes strings and closures of strings
STRINGS = [
    V("{rt::see(%1)}", [E], [1]),
    V("{let a = rt::see(%1); a}", [E], [1]),
    V("{if true { rt::see(%1) } else { rt::see(%2) }}", [E, None], [1]),
    V("{rt::see(%1); rt::see(%2)}", [E, E], [2]),
    V("{%v}", [P0], [1], pre="let %v = rt::see(%1);"),
    V("{%v.clone()}", [P0], [1], pre="let %v = rt::see(%1);"),
    V("[%v.clone()]", [P0], [1], pre="let %v = rt::see(%1);"),
    V("{move || rt::see(%1)}", [L], [1]),
    V("{rt::see(%1); move || rt::see(%2)}", [E, L], [2]),
    V("{let a = rt::see(%1); move || a.clone()}", [E], [1]),
    V("[rt::see(%1)]", [L], [1]),
    V("[ rt::see(%1) ]", [L], [1]),
    V("[let a = rt::see(%1); a]", [L], [1]),
    V("[{ rt::see(%1) }]", [L], [1]),
    V("[rt::see(%1); rt::see(%2)]", [L, L], [2]),
    V("[if rt::see_b(%1) { rt::see(%2) } else { rt::see(%3) }]", [L, L, None], [2]),
    V("[match rt::see_n(%1) { 0 => String::new(), _ => rt::see(%2) }]", [L, L], [2]),
    V('f["{}", rt::see(%1)]', [L], [1]),
    V('f["{}|{}", rt::see(%1), rt::see(%2)]', [L, L], [1, 2]),
    V('f["{x}", x = rt::see(%1)]', [L], [1]),
    V('f["{{}}{:>1}", rt::see(%1)]', [L], [1]),
    V('f["{}", {let a = rt::see(%1); a}]', [L], [1]),
    V("[%o.see()]", [L], [1], pre="let %o = rt::Owned(%1);"),
    V('f["{}", %o.see()]', [L], [1], pre="let %o = rt::Owned(%1);"),
    # captured by the string itself
    V('f["{%o}"]', [L], [1], pre="let %o = rt::Shows(%1);"),
    V('f["{%o:}"]', [L], [1], pre="let %o = rt::Shows(%1);"),
    V('f[r"{%o}",]', [L], [1], pre="let %o = rt::Shows(%1);"),
    V('f["{0}", %o]', [L], [1], pre="let %o = rt::Shows(%1);"),
    V('f["{%o}-{}", rt::see(%2)]', [L, L], [1, 2], pre="let %o = rt::Shows(%1);"),
    V('f["{}", %o]', [L], [1], pre="let %o = rt::Shows(%1);"),
    # a copy is taken when the view is built
    V("[format!(\"%nis{}\", %n)]", [], [], pre="let mut %n = 1i32;"),
    V("[format!(\"{}{}\", %n, rt::see(%1))]", [L], [1], pre="let mut %n = 1i32;"),
]
CHILD_ONLY = [
    V("{(rt::see(%1), rt::see(%2))}", [E, E], [1, 2]),
    V("[(rt::see(%1), rt::see(%2))]", [L, L], [1, 2]),
    V("[move || rt::see(%1)]", [L], [1]),
    V("{vec![rt::see(%1), rt::see(%2)]}", [E, E], [1, 2]),
    V("[Some(rt::see(%1))]", [L], [1]),
]
BOOLS = [
    V("{rt::see_b(%1)}", [E]), V("[rt::see_b(%1)]", [L]), V("{move || rt::see_b(%1)}", [L]),
    V("{let a = rt::see_b(%1); a}", [E]), V("[let a = rt::see_b(%1); a]", [L]), V("[!rt::see_b(%1)]", [L]),
    V("[rt::see_b(%1) && rt::see_b(%2)]", [L, L]),
]


class Maker:
    def __init__(self, rng, cid):
        self.r = rng
        self.g = tgen.Gen(rng, special_text=0)
        self.id = 0
        self.lets, self.post = [], []
        self.want = Counter()     # "id@state"
        self.shown = []
        self.zero = set()
        self.notes = []
        self.stats = Counter()

    def value(self, vs, ctx, where, rendered=True, many_ok=True):
        """Source of a random value in `ctx` = (state at construction, times)."""
        r = self.r
        state, times = ctx
        while True:
            v = r.choice(vs)
            # values that move something can only be built once
            if v.pre and (times != 1 or ctx in self.nested):
                continue
            break
        ids = {}
        for i in range(1, len(v.lazy) + 1):
            self.id += 1
            ids[i] = self.id
        src, pre = v.src, v.pre or ""
        self.id += 1
        names = {"%v": "v%d" % self.id, "%o": "o%d" % self.id, "%n": "n%d" % self.id}
        for k, x in list(names.items()) + [("%%%d" % i, str(n)) for i, n in ids.items()]:
            src, pre = src.replace(k, x), pre.replace(k, x)
        if pre:
            self.lets.append(pre)
            if "%n" in v.src:
                if rendered and times and "is" in v.src:
                    self.shown.append(names["%n"] + "is1")
                self.post.append("%s = 5; let _ = %s;" % (names["%n"], names["%n"]))
        for i, how in enumerate(v.lazy, 1):
            if how == E:
                self.want["%d@%d" % (ids[i], state)] += times
            elif how == P0:
                self.want["%d@0" % ids[i]] += 1
            elif how == L and rendered:
                self.want["%d@2" % ids[i]] += times
            else:
                self.zero.add(ids[i])
            if v.shown and i in v.shown and rendered and times:
                self.shown.append("%d@%d" % (ids[i], {E: state, P0: 0, L: 2}[how]))
        self.stats["%s in %s" % ("/".join(str(x) for x in v.lazy) or "copy", where)] += 1
        return src

    nested = set()

    def attrs(self, ctx, tag):
        r = self.r
        out, used = [], set()
        for _ in range(r.choice([0, 0, 1, 2, 3, 4])):
            k = r.randrange(9)
            if k < 3:
                name = r.choice(["title", "id", "data-x", "aria-label", "lang", "data-some-thing", "class"])
                if name in used:
                    continue
                used.add(name)
                out.append("%s=%s" % (name, self.value(STRINGS, ctx, "attribute" if name != "class" else "class attribute")))
            elif k == 3:
                n = "c%d" % self.id
                out.append("class:%s=%s" % (n, self.value(BOOLS, ctx, "class:")))
            elif k == 4:
                n = r.choice(["color", "margin-left", "width"])
                if n in used:
                    continue
                used.add(n)
                out.append("style:%s=%s" % (n, self.value(STRINGS, ctx, "style:")))
            elif k == 5 and tag == "input":
                # properties are not rendered: nobody asks
                out.append("prop:value=%s" % self.value(STRINGS, ctx, "prop:", rendered=False))
            elif k == 6:
                if "hidden" in used:
                    continue
                used.add("hidden")
                out.append("hidden=%s" % self.value(BOOLS, ctx, "boolean attribute"))
            elif k == 7:
                self.id += 1
                self.want["%d@%d" % (self.id, ctx[0])] += ctx[1]
                out.append("on:click={rt::see(%d); |_| ()}" % self.id)
                self.stats["eager in on:"] += 1
            elif k == 8:
                self.id += 1
                self.want["%d@%d" % (self.id, ctx[0])] += ctx[1]
                out.append('use:%s={rt::see(%d); "x"}' % ("dir", self.id))
                self.stats["eager in use:"] += 1
        return out

    def on_component(self, ctx):
        r = self.r
        out, used = [], set()
        for _ in range(r.choice([1, 2, 3])):
            k = r.randrange(4)
            if k == 0:
                out.append("class:k%d=%s" % (self.id, self.value(BOOLS, ctx, "class: on component")))
            elif k == 1:
                n = r.choice(["color", "width"])
                if n not in used:
                    used.add(n)
                    out.append("style:%s=%s" % (n, self.value(STRINGS, ctx, "style: on component")))
            else:
                n = r.choice(["title", "data-y", "lang", "aria-label"])
                if n not in used:
                    used.add(n)
                    out.append("attr:%s=%s" % (n, self.value(STRINGS, ctx, "attr: on component")))
        return out

    def node(self, depth, ctx):
        r = self.r
        k = r.randrange(12)
        if depth <= 0 or k < 3:
            return self.value(STRINGS + CHILD_ONLY, ctx, "child")
        if k < 6:
            tag = r.choice(["p", "div", "input", "circle", "my-el", "span", "math"])
            at = " ".join(self.attrs(ctx, tag) if tag != "math" else [])
            if tag == "input":
                return "input %s;" % at
            o, c = r.choice(["{}", "()"])
            return "%s %s %s %s %s" % (tag, at, o, self.nodes(depth - 1, ctx), c)
        if k == 6:
            return "rt::Wrap { %s }" % self.nodes(depth - 1, ctx, lo=1, nested=True)
        if k == 7:
            n = r.choice([1, 2, 3])
            return "rt::kids::Many times=%d { %s }" % (n, self.nodes(depth - 1, (ctx[0], ctx[1] * n), lo=1, nested=True))
        if k == 8:
            h = r.choice(["rt::lazy::Later", "Show when=[true] fallback=[\"\"]"])
            return "%s { %s }" % (h, self.nodes(depth - 1, (2, ctx[1]), lo=1, nested=True))
        if k == 9:
            inner = self.nodes(depth - 1, (2, ctx[1]), lo=1, nested=True)
            self.stats["view in brackets"] += 1
            return "[mview! { %s }]" % inner
        if k == 10:
            return "rt::lazy::Root %s;" % " ".join(self.on_component(ctx))
        return self.lazy_comp(ctx)

    def nodes(self, depth, ctx, lo=0, nested=False):
        if nested:
            self.nested = self.nested | {ctx}
        return " ".join(self.node(depth, ctx) for _ in range(self.r.choice([max(lo, 0), 1, 2, 3])))

    def lazy_comp(self, ctx):
        r = self.r
        state, times = ctx
        k = r.randrange(6)
        self.id += 1
        i = self.id
        if k == 5:
            # brackets around what is a closure already are one more closure
            self.id += 1
            src, outer = r.choice([("[move || rt::see(%1)]", 0), ("[|| rt::see(%1)]", 0), ("[move || { rt::see(%1) }]", 0), ("[{ move || rt::see(%1) }]", 0),
                                   ("[(|| rt::see(%1)) as fn() -> String]", 0), ("[move || -> String { rt::see(%1) }]", 0), ("{|| move || rt::see(%1)}", 0),
                                   ("{move || || rt::see(%1)}", 0), ("[rt::see(%2); move || rt::see(%1)]", 1), ("[let a = rt::see(%2); move || { let _ = &a; rt::see(%1) }]", 1),
                                   ("{move || { rt::see(%2); move || rt::see(%1) }}", 1), ("{rt::see(%2); move || || rt::see(%1)}", 2)])
            self.want["%d@%d" % (i, state)] += times
            if outer:
                self.want["%d@%d" % (self.id, state)] += times * (2 if outer == 1 else 1)
            self.stats["closure in a closure"] += 1
            return "Nest get=%s;" % src.replace("%1", str(i)).replace("%2", str(self.id))
        if k == 4:
            self.lets.append("let n%d = rt::see_n(%d) as i32;" % (i, i))
            self.want["%d@0" % i] += 1
            self.stats["lazy variable in prop"] += 1
            return "Num get=%s;" % r.choice(["[n%d]", "[n%d]", "[{n%d}]", "[(n%d) + 0]", "[n%d + 1]", "[-n%d]", "[n%d as i32]", "[if true { n%d } else { 0 }]", "[{ let _ = n%d; 3 }]"]) % i
        get = r.choice(["get=[rt::see(%d)]", "get={move || rt::see(%d)}", 'get=f["{}", rt::see(%d)]', "get=[let a = rt::see(%d); a]"]) % i
        if k == 0:
            self.want["%d@%d" % (i, state)] += times
            self.stats["eager in prop"] += 1
            return r.choice(["rt::lazy::Eager text={rt::see(%d)};", "rt::lazy::Eager n={rt::see_n(%d)};",
                             'rt::lazy::Eager text={format!("{}", rt::see(%d))};']) % i
        if k == 1:
            for s in (state, 10, 2):
                self.want["%d@%d" % (i, s)] += times
            self.stats["lazy in prop"] += 1
            return "rt::lazy::Twice %s;" % get
        if k == 2:
            self.zero.add(i)
            self.stats["lazy in prop, unused"] += 1
            return "rt::lazy::NeverAsks %s;" % get
        if times != 1 or ctx in self.nested:
            return '"t"'
        self.lets.append("let sig%d = RwSignal::new(1);" % i)
        self.want["%d@%d" % (i, state)] += 2
        self.notes += ["memo 1|%d@%d" % (i, state)] * 2 + ["memo 7|%d@%d" % (i, state)]
        self.stats["lazy in memo"] += 1
        return "rt::lazy::Memos sig={sig%d} get=%s;" % (
            i, r.choice(['[format!("{}|{}", sig%d.get(), rt::see(%d))]', 'f["{}|{}", sig%d.get(), rt::see(%d)]']) % (i, i))


def case_of(cid, rng):
    m = Maker(rng, cid)
    body = "\n".join(m.node(3, (1, 1)) for _ in range(rng.choice([1, 1, 2, 3])))
    code = """#[component] fn Num<F: Fn() -> i32 + Send + Sync + 'static>(get: F) -> impl IntoView { leptos::html::i().child(format!("num{}", get() + get())) }
#[component] fn Nest<F: Fn() -> G + Send + Sync + 'static, G: Fn() -> String + Send + Sync + 'static>(get: F) -> impl IntoView { drop(get()); leptos::html::i().child(get()()) }
fn dir(_: leptos::tachys::renderer::types::Element, _: &'static str) {}
fn build() -> impl IntoView {
%s
rt::set(1);
let v = mview! {
%s
};
%s
v }
pub fn case() { rt::set(0); let v = build().into_view(); rt::set(2); rt::mark("built"); rt::html(v); }""" % (
        "\n".join(m.lets), body, "\n".join(m.post))
    c = render.Case(cid, code, info=body)
    c.m = m
    return c


def judge(case, res, run):
    b = common.basics(res)
    if b:
        return b
    m = case.m
    have, want = Counter(res.get("see")), m.want
    for k in list(want):
        if not want[k]:
            del want[k]
    if have != want:
        return "times", ("evaluations (id@state; 0 before, 1 while built, 2 when rendered): expected but not seen: %r; "
                         "seen but not expected: %r" % (dict(want - have), dict(have - want)))
    if Counter(res.get("note")) != Counter(m.notes):
        return "memo", "memos: expected %r, got %r" % (m.notes, res.get("note"))
    h = res.one("html")
    for s in m.shown:
        if s not in h:
            return "shown", "%s was not rendered: %s" % (s, h)
    if "drop" in [k for k, _ in res.log[:next(i for i, (k, v) in enumerate(res.log) if v == "built")]]:
        return "owned", "a value that a lazy closure owns was dropped before the view was rendered"
    run.stats.update(m.stats)
    run.count("evaluations_seen", sum(have.values()))
    run.count("lazy_never_asked", len(m.zero))
    return None


def run():
    r = Run("C09", "31 forms of values (braces, brackets, f-prefixed, closures, variables, owned and copied captures) as "
                   "children, attributes, class:, style:, prop:, on:, use:, attr: and props, in views that are built and "
                   "rendered at different states of the world, in components that build their children once, often, "
                   "or later. Every evaluation is logged with the state it saw. Distinct by source.")
    for rnd in r.rounds():
        rng = r.rng(rnd)
        cases = [case_of("c%d" % i, rng) for i in range(600 if r.quick else 1000)]
        results = render.run_all(render.split(cases, 18))
        for c in cases:
            res = results[c.id]
            bad = judge(c, res, r)
            r.evaluated(c.info, bool(c.m.want), sample={"template": c.info[:400], "evaluations": str(dict(c.m.want))[:300]})
            if bad:
                r.violation(bad[0], bad[1], render.standalone(c))
    return r.finish()
