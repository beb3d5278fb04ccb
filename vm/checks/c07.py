"""C07: the children of components, closure arguments and clone:."""
from collections import Counter

from .. import common, render, tgen
from ..check import Run

P = tgen.plain


class Kid:
    """A children type: how often it calls them, and what it renders of the results."""

    def __init__(self, head, wrap, many=False, fn=True, frag=False, empty=None):
        self.head, self.wrap, self.many, self.fn, self.frag, self.empty = head, wrap, many, fn, frag, empty


def each_li(runs):
    return [P("div", [P("li", r) for r in runs])]


KIDS = [
    Kid("rt::kids::Once", lambda rs: [P("section", rs[0])], fn=False),
    Kid("rt::kids::Many", each_li, many=True),
    Kid("rt::kids::Mut", each_li, many=True),
    Kid("rt::kids::TypedOnce", lambda rs: [P("section", rs[0])], fn=False),
    Kid("rt::kids::TypedMut", each_li, many=True),
    Kid("rt::kids::TypedMany", each_li, many=True),
    Kid("rt::kids::Maybe", lambda rs: [P("b", rs[0])], fn=False, empty=lambda: [P("i", ["none"])]),
    Kid("rt::kids::MaybeFn", lambda rs: [P("u", sum(rs, []))], many=True, empty=lambda: [P("i", ["none"])]),
    Kid("Show when=[true] fallback=[\"no\"]", lambda rs: list(rs[0])),
    Kid("Show when=[false] fallback=[\"no\"]", lambda rs: ["no"]),
    Kid("leptos::context::Provider value={1u64}", lambda rs: list(rs[0]), fn=False),
    Kid("rt::kids::Never", lambda rs: [P("i", ["never"])], fn=False),
]
RUNS = {"Show when=[false] fallback=[\"no\"]": 0, "rt::kids::Never": 0}
# fragments keep the nodes apart
FRAGS = [
    Kid("rt::kids::Parts", lambda rs: each_li(rs[0]), fn=False, frag=True),
    Kid("rt::kids::PartsFn", lambda rs: sum((each_li(r) for r in rs), []), many=True, frag=True),
    Kid("rt::kids::PartsMut", lambda rs: sum((each_li(r) for r in rs), []), many=True, frag=True),
]

# (type, [passed values], [(pattern, [(expression, [rendered, one per value])])])
PT = "rt::kids::Pt"
ARGS = [
    ("i32", ["5", "7", "-1"], [
        ("x", [("{x}", ["5", "7", "-1"]), ("[x + 1]", ["6", "8", "0"])]),
        ("mut x", [("{x += 1; x}", ["6", "8", "0"])]),
        ("x: i32", [("{x}", ["5", "7", "-1"])]),
        ("_", []),
        ("_x", []),
        ("n @ _", [("{n}", ["5", "7", "-1"])]),
        ("r#type", [("{r#type}", ["5", "7", "-1"])]),
        ("ref x", [("{*x}", ["5", "7", "-1"])]),
        ("x,", [("{x}", ["5", "7", "-1"])]),
        ("(x @ i32::MIN..=-1 | x @ 0..=i32::MAX)", [("{x}", ["5", "7", "-1"])]),
    ]),
    ("(i32, &'static str)", ['(1, "one")', '(2, "two")'], [
        ("(a, b)", [("{a}", ["1", "2"]), ("{b}", ["one", "two"]), ("f[\"{a}{b}\"]", ["1one", "2two"])]),
        ("(a, _)", [("{a}", ["1", "2"])]),
        ("(.., b)", [("{b}", ["one", "two"])]),
        ("(a, ..): (i32, &'static str)", [("{a}", ["1", "2"])]),
        ("t @ (_, _)", [("{t.1}", ["one", "two"])]),
        ("(a, b): (i32, &str)", [("{b.len() as i32 + a}", ["4", "5"])]),
    ]),
    (PT, ['rt::kids::Pt { x: 3, y: "why".to_string() }', 'rt::kids::Pt { x: 4, y: "zed".into() }'], [
        ("rt::kids::Pt { x, y }", [("{x}", ["3", "4"]), ("{y.clone()}", ["why", "zed"])]),
        ("rt::kids::Pt { x: q, .. }", [("{q}", ["3", "4"])]),
        ("p", [("{p.x}", ["3", "4"]), ("{p.y.clone()}", ["why", "zed"])]),
        ("rt::kids::Pt { y: ref z, x: _ }", [("{z.to_uppercase()}", ["WHY", "ZED"])]),
    ]),
    ("rt::kids::Tup", ['rt::kids::Tup(1, (2, "k"))'], [
        ("rt::kids::Tup(a, (b, c))", [("{a}", ["1"]), ("{b}", ["2"]), ("{c}", ["k"])]),
        ("rt::kids::Tup(a, inner @ (_, c))", [("{inner.0}", ["2"]), ("{c}", ["k"]), ("{a}", ["1"])]),
    ]),
    ("[u8; 3]", ["[1, 2, 3]", "[4, 5, 6]"], [
        ("[a, b, c]", [("{a}", ["1", "4"]), ("{b + c}", ["5", "11"])]),
        ("[a, .., c]", [("{a}", ["1", "4"]), ("{c}", ["3", "6"])]),
        ("[a, rest @ ..]", [("{a}", ["1", "4"]), ("{rest[1]}", ["3", "6"])]),
    ]),
    ("&'static (i32, i32)", ["&(1, 2)"], [
        ("&(a, b)", [("{a}", ["1"]), ("{b}", ["2"])]),
        ("(a, b)", [("{*a}", ["1"]), ("{*b}", ["2"])]),
    ]),
    ("Result<i32, i32>", ["Ok(1)", "Err(2)"], [
        ("(Ok(x) | Err(x))", [("{x}", ["1", "2"])]),
        ("x: Result<i32, i32>", [("{x.unwrap_or(9)}", ["1", "9"])]),
    ]),
    ("", [""], [("", [])]),
    ("std::collections::BTreeMap<String, Vec<Option<Result<u8, String>>>>", ["Default::default()", "[(String::new(), vec![])].into_iter().collect()"], [
        ("a: std::collections::BTreeMap<std::string::String, std::vec::Vec<std::option::Option<std::result::Result<std::primitive::u8, std::string::String>>>>",
         [("{a.len()}", ["0", "1"])]),
    ]),
    ("i32, u8, &'static str, bool, char, u64, i8, i16", ["1, 2, \"three\", true, '5', 6, 7, 8"], [
        ("a: i32, b: u8, c: &'static str, d: bool, e: char, f: u64, g: i8, h: i16", [
            ("{a}", ["1"]), ("{b}", ["2"]), ("{c}", ["three"]), ("{d.to_string()}", ["true"]), ("{e}", ["5"]), ("{f}", ["6"]), ("{g}", ["7"]), ("{h}", ["8"])]),
        ("a, _, c, _, e, _, g, h,", [("{a}", ["1"]), ("{c}", ["three"]), ("{e}", ["5"]), ("{g}", ["7"]), ("{h}", ["8"])]),
    ]),
    ("((i32, (u8, [u8; 4])), (char, &'static str))", ["((1, (2, [3, 4, 5, 6])), ('c', \"s\"))"], [
        ("((a, (b, [c, d, e, f])), (g, h))", [("{a}", ["1"]), ("{b}", ["2"]), ("{c}", ["3"]), ("{d}", ["4"]), ("{e}", ["5"]), ("{f}", ["6"]), ("{g}", ["c"]), ("{h}", ["s"])]),
        ("all @ ((a, (_, [.., f])), (_, _)): ((i32, (u8, [u8; 4])), (char, &'static str))", [("{all.1.1}", ["s"]), ("{a}", ["1"]), ("{f}", ["6"])]),
    ]),
    ("i32, u8", ["1, 2", "3, 4"], [
        ("a, b", [("{a}", ["1", "3"]), ("{b}", ["2", "4"])]),
        ("_, b", [("{b}", ["2", "4"])]),
        ("a: i32, b: u8,", [("{a}", ["1", "3"]), ("{b}", ["2", "4"])]),
    ]),
    ("Vec<Vec<u8>>, fn(u8) -> u8", ["vec![vec![1]], |x| x + 1"], [
        ("v: Vec<Vec<u8>>, f: fn(u8) -> u8", [("{f(v[0][0])}", ["2"])]),
        ("mut v, f", [("{v.push(vec![]); v.len() as i32}", ["2"]), ("{f(1)}", ["2"])]),
    ]),
]


class KComp(tgen.Comp):
    pass


class Maker:
    def __init__(self, rng):
        self.r = rng
        self.g = tgen.Gen(rng, special_text=0.1, nested=0)
        self.toks = []
        self.defs = []
        self.lets = []
        self.used = []
        self.n = 0
        self.stats = Counter()

    def tok(self):
        t = len(self.toks) + 1
        name = self.r.choice(["t%d", "tok_%d", "a%d_b", "T%d", "_c%d"]) % t
        self.toks.append(name)
        self.lets.append("let %s = rt::Tok(%d);" % (name, t))
        return t

    def body(self, depth, toks, many):
        """Children that show `toks`; may be run `many` times.

        Each child is a function from the run number of what binds the closure arguments around it."""
        r = self.r
        out = []
        for t in toks:
            out.append(tgen.Leaf("{%s.show()}" % self.toks[t - 1], ["tok%d" % t]))
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            out.append(self.child(depth, toks))
        if not out:
            out.append(self.g.leaf_text())
        r.shuffle(out)
        return out

    def child(self, depth, toks):
        r = self.r
        k = r.randrange(8)
        if depth > 0 and k < 3:
            return self.comp(depth, [t for t in toks if r.random() < 0.6])
        if depth > 0 and k == 3:
            return tgen.El(r.choice(["p", "div", "em"]), "html", children=[self.child(depth - 1, toks) for _ in range(r.randrange(3))])
        if k == 4:
            return self.g.leaf_lazy()
        if k == 5:
            # no statics that are moved: run several times
            t = "e%d" % self.g.uid()
            return tgen.Leaf('{%s}' % tgen.rstr(t), [t])
        return self.g.leaf_text()

    def comp(self, depth, toks, owned=()):
        r = self.r
        clones = []
        for t in toks:
            clones.append(tgen.Attr("clone:" + self.toks[t - 1], "clone", form="clone"))
        k = r.randrange(10)
        if k < 3 and (k < 2 or toks or owned):
            c = self.with_args(depth, list(toks) + list(owned))
        elif k == 3 and not toks and not owned:
            c = r.choice([tgen.Comp("rt::kids::NoKids", None), self.empty()])
            c.out = lambda i, c=c: [P("i", ["childless"])] if c.head.endswith("NoKids") else [P("i", ["none"])]
            c.times = 0
            self.stats["childless"] += 1
        elif k in (2, 3, 5) and not toks and not owned:
            c = self.of_leptos(depth)
        elif k == 4:
            # several plain elements, one per fragment node
            kid = r.choice(FRAGS)
            body = [tgen.El("b", "html", children=[b]) for b in self.body(depth - 1, list(toks) + list(owned), kid.many)]
            c = self.use(kid, body)
        else:
            kid = r.choice(KIDS)
            c = self.use(kid, self.body(depth - 1, list(toks) + list(owned), kid.many))
        c.clones = list(toks)
        c.attrs = c.attrs + clones
        r.shuffle(c.attrs)
        self.stats["clone"] += len(clones)
        return c

    def empty(self):
        c = tgen.Comp("rt::kids::Maybe", None)
        c.children = self.r.choice([None, []])
        c.paren = self.r.random() < 0.3
        return c

    def use(self, kid, body):
        r = self.r
        times = 1
        attrs = []
        if kid.many and r.random() < 0.8:
            times = r.choice([0, 1, 2, 3, 3])
            attrs.append(tgen.Attr("times=%d" % times, "kv", form="times"))
        head, rest = (kid.head.split(" ", 1) + [""])[:2]
        if rest:
            attrs.append(tgen.Attr(rest, "kv", form="builtin"))
        c = tgen.Comp(head, None, attrs=attrs, children=body, paren=r.random() < 0.3)
        c.times = RUNS.get(kid.head, times)
        if kid.frag:
            def nodes(i):
                return [kdom([b], i) for b in body]
            c.out = lambda i: kid.wrap([nodes(i)] * c.times)
        else:
            c.out = lambda i: kid.wrap([kdom(body, i)] * max(c.times, 1)) if c.times or not kid.many else kid.wrap([])
        self.stats["kind:" + head] += 1
        return c

    def of_leptos(self, depth):
        """The components of Leptos that keep, repeat or wait for their children. (They may clone them, too: no
        counted clones in there.)"""
        r = self.r
        k = r.randrange(6)
        self.waits = True
        self.stats["of_leptos"] += 1
        if k < 3:
            head, a = r.choice([("Suspense", 'fallback=["wait"]'), ("Suspense", ""), ("Transition", 'fallback={|| "wait"}'),
                                ("ErrorBoundary", 'fallback={|_| "bad"}')])
            c = tgen.Comp(head, None, attrs=[tgen.Attr(a, "kv", form="builtin")] if a else [], 
                          # (Leptos mixes up the order of what streams inside an error boundary)
                          children=self.body(0 if head == "ErrorBoundary" else depth - 1, [], False), paren=r.random() < 0.3)
            c.times = 1
            c.out = lambda i: kdom(c.children, i)
            return c
        body = self.body(depth - 1, [], True)
        ty, vals, pats = ARGS[0]
        pat, shows = r.choice(pats)
        vals = r.choice([vals, vals[:1], vals * 3, [], vals[1:]])
        if k == 5:
            vals = ["5"]
            pat, shows = r.choice([("&x", [("{x}", ["5"])]), ("x", [("{*x}", ["5"])]), ("&mut_x", [("{mut_x}", ["5"])]), ("_", [])])
            head, attrs = "Await", ["future={async { 5 }}"] + r.choice([[], ["blocking"], ["blocking=true"]])
        elif k == 4:
            head, attrs = "ForEnumerate", ["each=[vec![%s]]" % ", ".join(vals), "key={|_: &i32| 0}"]
            pat = "%s, %s" % (r.choice(["i_", "i_: ReadSignal<usize>"]), pat)
            shows = shows + [("[i_.get()]", [str(i) for i in range(len(vals))])]
        else:
            head, attrs = "For", ["each={move || vec![%s]}" % ", ".join(vals), "key={|x: &i32| x.to_string()}"]
        if not vals:
            attrs[0] = attrs[0].replace("vec![]", "Vec::<i32>::new()")
        for e, outs in shows:
            if r.random() < 0.8:
                l = tgen.Leaf(e, [], kind="arg")
                # the values were chosen again
                l.outs = outs if len(outs) == len(vals) else [outs[ARGS[0][1].index(v)] for v in vals]
                body.insert(r.randrange(len(body) + 1), l if r.random() < 0.6 else tgen.El("q", "html", children=[l]))
        c = tgen.Comp(head, None, attrs=[tgen.Attr(a, "kv", form="builtin") for a in attrs], children=body, paren=r.random() < 0.3, args="|%s|" % pat)
        c.times = len(vals)
        c.out = lambda i: sum((kdom(body, p) for p in range(len(vals))), [])
        self.stats["of_leptos_calls"] += len(vals)
        return c

    waits = False

    def with_args(self, depth, toks):
        r = self.r
        ty, vals, pats = r.choice(ARGS)
        pat, shows = r.choice(pats)
        times = r.choice([1, 1, 2, 3])
        passed = [r.randrange(len(vals)) for _ in range(times)]
        self.n += 1
        name = r.choice(["Arg%d", "With%dArgs", "ARG_%d"]) % self.n
        tag = r.choice(["div", "ol"])
        calls = "".join("v.push(children(%s).into_any());" % vals[p] for p in passed)
        self.defs.append(
            "#[component] pub fn %s<F, V>(children: F) -> impl IntoView where F: Fn(%s) -> V + Send + Sync + 'static, "
            "V: IntoView + 'static { let mut v: Vec<AnyView> = vec![]; %s leptos::html::%s().child(v) }"
            % (name, ty, calls, tag))
        body = self.body(depth - 1, toks, True)
        for e, outs in shows:
            if r.random() < 0.8:
                l = tgen.Leaf(e, [], kind="arg")
                l.outs = outs
                leaf = l if r.random() < 0.6 else tgen.El("q", "html", children=[l])
                body.insert(r.randrange(len(body) + 1), leaf)
        c = tgen.Comp(name, None, children=body, paren=r.random() < 0.3, args="|%s%s%s|" % (
            r.choice(["", " "]), pat, r.choice(["", " "])))
        c.times = times
        c.out = lambda i: [P(tag, sum((kdom(body, p) for p in passed), []))]
        self.stats["closures"] += 1
        self.stats["closure_calls"] += times
        return c


def kdom(nodes, i):
    """Expected nodes, when the innermost closure around got its i-th value."""
    out = []
    for n in nodes:
        if isinstance(n, tgen.Leaf):
            new = [n.outs[i]] if hasattr(n, "outs") else tgen.dom([n])
        elif isinstance(n, tgen.El):
            new = [tgen.X(n, n.tag, n.kind, kdom(n.children or [], i))]
        else:
            new = n.out(i)
        for x in new:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != "":
                out.append(x)
    return out


def merged(nodes):
    out = []
    for x in nodes:
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            elif x:
                out.append(x)
        else:
            x.children = merged(x.children)
            out.append(x)
    return out


def count_clones(nodes, times, out):
    for n in nodes:
        if isinstance(n, tgen.El):
            count_clones(n.children or [], times, out)
        elif isinstance(n, tgen.Comp):
            for t in n.clones:
                out[str(t)] += times
            count_clones(n.children or [], times * n.times, out)


def case_of(cid, rng):
    m = Maker(rng)
    nodes = []
    for _ in range(rng.choice([1, 1, 2])):
        toks = [m.tok() for _ in range(rng.choice([0, 1, 1, 2] if rng.random() < 0.9 else [5, 9]))]
        owned = [m.tok()] if rng.random() < 0.25 else []
        m.used += toks
        c = m.comp(2, toks, owned)
        nodes.append(tgen.El("main", "html", children=[c]) if rng.random() < 0.3 else c)
    body = tgen.src_all(nodes, rng)
    code = "%s\npub fn case() {\n%s\n%s\nlet v = mview! {\n%s\n};\n%s\nrt::html%s(v);\n}" % (
        "\n".join(m.defs), "\n".join(m.lets), "\n".join(tgen.lets(nodes)), body,
        "\n".join('rt::note(%s.show());' % m.toks[t - 1] for t in m.used),
        "_stream" if m.waits else "")
    c = render.Case(cid, code, model=nodes, info=body)
    c.stats = m.stats
    c.used = m.used
    return c


def judge(case, res, run):
    b = common.basics(res)
    if b:
        return b
    got, b = common.parsed(res)
    if b:
        return b
    d = tgen.tree_diff(merged(kdom(case.model, 0)), got)
    if d:
        return "children", d
    want = Counter()
    count_clones(case.model, 1, want)
    have = Counter(res.get("clone"))
    if want != have:
        return "clones", "clones by clone: expected %r, observed %r (of tokens)" % (
            dict(want - have) or "none other", dict(have - want) or "fewer")
    if res.get("note") != ["tok%d" % t for t in case.used]:
        return "original", "the originals changed: %r" % res.get("note")
    run.count("clones", sum(have.values()))
    run.stats.update(case.stats)
    return None


def run():
    r = Run("C07", "components of 15 children types, the components of Leptos that keep, repeat or wait for their children (rendered as a stream) (run zero to three times, kept, dropped or optional) and generated ones "
                   "that pass arguments of 9 types through 34 patterns, nested, in elements and in each other, with "
                   "instrumented values that are moved or cloned into the children. Documents and clone logs are "
                   "compared with the model. Non-trivial: some component runs children. Distinct by source.")
    for rnd in r.rounds():
        rng = r.rng(rnd)
        cases = [case_of("c%d" % i, rng) for i in range(500 if r.quick else 900)]
        results = render.run_all(render.split(cases, 16))
        for c in cases:
            res = results[c.id]
            bad = judge(c, res, r)
            r.evaluated(c.info, "childless" not in c.stats or len(c.stats) > 1,
                        sample={"template": c.info[:400], "html": (res.one("html") or "")[:400]})
            if bad:
                r.violation(bad[0], bad[1], render.standalone(c))
    return r.finish()
