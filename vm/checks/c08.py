"""C08: slots."""
from collections import Counter

from .. import comps, common, render, tgen
from ..check import Run

P = tgen.plain
WORDS = ["Then", "Else", "If", "Tab", "Bar", "Row", "Head", "Foot", "Item", "Type", "Loop", "Match", "For", "In", "Move",
         "Slot", "Children", "Props", "Show", "Static", "A", "X", "Ref", "Dyn", "Vec", "Box"]
# what the slot macro itself or the prelude cannot do without
BAD_NAMES = {"Slot", "Children", "Vec", "Box", "View", "Into", "Show", "For", "Show", "Props", "Builder"}
SORTS = [s for s in comps.SORTS if not s.startswith("fn_") and s not in ("sig", "any")]


def slot_name(r, used):
    while True:
        n = "".join(r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 2, 3])))
        if used and r.random() < 0.25:
            # beside a name it begins or ends with
            n = r.choice(sorted(used))
            n = r.choice([n + r.choice(["1", "2", "10", "B"]), n + r.choice(WORDS), r.choice(WORDS) + n, n + "s"])
        if n not in used and n not in BAD_NAMES:
            used.add(n)
            return n


def snake(n):
    return "".join(("_" if i and c.isupper() else "") + c.lower() for i, c in enumerate(n))


def kebab(n):
    return snake(n).replace("_", "-")


class SlotDef:
    """kids: none | once | fn | opt | render"""

    def __init__(self, name, props, kids, slots):
        self.name, self.props, self.kids, self.slots = name, props, kids, slots

    def source(self):
        fields, sets = [], []
        for p, sort in self.props:
            ty, at, _, sh = comps.SORTS[sort]
            fields.append("%s pub %s: %s" % (at, tgen.rident(p), ty))
            sets.append('.attr("data-%s", format!("{:?}", %s))' % (p.replace("_", "-"), sh.format("self." + tgen.rident(p))))
        fields += slot_fields(self.slots, "pub ")
        kids = {
            "none": "",
            "once": ".child((self.children)())",
            "fn": ".child(((self.children)(), (self.children)()))",
            "opt": ".child(self.children.map(|c| c()))",
            "render": ".child((self.children.run(1), self.children.run(2)))",
        }[self.kids]
        if self.kids != "none":
            fields.append({"once": "pub children: Children", "fn": "pub children: ChildrenFn",
                           "opt": "#[prop(optional)] pub children: Option<Children>",
                           "render": "#[prop(into)] pub children: rt::Render"}[self.kids])
        subs = "".join(".child(%s)" % slot_show(d, c, "self.") for d, c in self.slots)
        return ("#[slot] pub struct %s { %s }\nimpl %s { pub fn show(self) -> AnyView { "
                "leptos::html::custom(\"s-%s\")%s%s%s.into_any() } }" % (
                    self.name, ", ".join(fields), self.name, kebab(self.name), "".join(sets), subs, kids))


def slot_fields(slots, vis=""):
    out = []
    for d, card in slots:
        f = tgen.rident(snake(d.name))
        out.append({"one": "%s%s: %s", "opt": "#[prop(optional)] %s%s: Option<%s>", "many": "#[prop(optional)] %s%s: Vec<%s>",
                    "some": "%s%s: Vec<%s>"}[card] % (vis, f, d.name))
    return out


def slot_show(d, card, pre=""):
    f = pre + tgen.rident(snake(d.name))
    if card == "one":
        return "%s.show()" % f
    return "%s.into_iter().map(|s| s.show()).collect::<Vec<_>>()" % f


class Parent:
    def __init__(self, name, slots, kids):
        self.name, self.slots, self.kids = name, slots, kids

    def source(self):
        ps = slot_fields(self.slots)
        if self.kids:
            ps.append("#[prop(optional)] children: Option<Children>" if self.kids == "opt" else "children: Children")
        subs = "".join(".child(%s)" % slot_show(d, c) for d, c in self.slots)
        kids = {None: "", "opt": ".child(children.map(|c| c()))", "once": ".child(children())"}[self.kids]
        return "#[component] pub fn %s(%s) -> impl IntoView { leptos::html::custom(\"p-parent\")%s%s }" % (
            self.name, ", ".join(ps), subs, kids)


class Maker:
    def __init__(self, rng):
        self.r = rng
        self.g = tgen.Gen(rng, special_text=0.1, nested=0, max_nodes=6, depth=1, width=2, lazy=0)
        self.used, self.names = set(), set()
        self.defs, self.toks, self.stats, self.clones = [], [], Counter(), Counter()
        self.n = 0

    def slot_def(self, depth):
        r = self.r
        props = [(p, r.choice(SORTS)) for p in r.sample([p for p in comps.PROP_NAMES if p not in ("slots", "children_count")],
                                                       r.choice([0, 0, 1, 2, 3]))]
        subs = []
        if depth > 0 and r.random() < 0.45:
            subs = [(self.slot_def(depth - 1), r.choice(["one", "opt", "many", "some"])) for _ in range(r.choice([1, 1, 2, 3]))]
        d = SlotDef(slot_name(r, self.used), props, r.choice(["none", "once", "once", "fn", "opt", "render"]), subs)
        # a slot's prop and sub-slot must not share a name
        taken = {snake(s.name) for s, _ in subs} | {"children"}
        d.props = [(p, s) for p, s in d.props if p not in taken]
        self.defs.append(d.source())
        return d

    def parent(self):
        r = self.r
        self.n += 1
        slots = [(self.slot_def(2), r.choice(["one", "opt", "many", "many", "some"])) for _ in range(r.choice([1, 1, 2, 3, 4] if r.random() < 0.93 else [6, 9]))]
        p = Parent("Parent%d" % self.n, slots, r.choice([None, "opt", "once"]))
        self.defs.append(p.source())
        return p

    def contents(self, slots, kids, depth, inside, many=False, args=None):
        """(children nodes incl. slots, slots in order, children) of something with `slots` and `kids`.

        `inside`: within the children of some component; `many`: these children are run several times."""
        r = self.r
        items, shown = [], []
        for d, card in slots:
            n = {"one": 1, "opt": r.choice([0, 1]), "many": r.choice([0, 1, 2, 3, 4, 5, 7] + [9, 18, 28] * (depth > 0 and r.random() < 0.2)), "some": r.choice([1, 2, 3, 6])}[card]
            us = [self.use(d, depth, inside) for _ in range(n)]
            items += us
            shown += us
            self.stats["slots_%s_%d" % (card, n)] += 1
        body = []
        if kids and not (kids == "opt" and r.random() < 0.4):
            for _ in range(r.choice([1, 1, 2, 3])):
                body.append(self.text_or(depth, many))
            for e in args or []:
                body.append(e)
        # interleave: slots of one name stay in order among each other, and so do children
        r.shuffle(body)
        seq = [0] * len(items) + [1] * len(body)
        r.shuffle(seq)
        by = {}
        for u in items:
            by.setdefault(u.name, []).append(u)
        order = [n for n in by for _ in by[n]]
        r.shuffle(order)
        its = {n: iter(v) for n, v in by.items()}
        seq_items = iter([next(its[n]) for n in order])
        seq_body = iter(body)
        nodes = [next(seq_items) if s == 0 else next(seq_body) for s in seq]
        if items and body:
            self.stats["interleaved"] += 1
        return nodes, shown, body

    def text_or(self, depth, many):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return tgen.El(r.choice(["b", "p"]), "html", children=[self.g.leaf_text()])
        if k == 1 and depth > 0 and not many:
            return self.parent_use(self.parent(), depth - 1, True)
        if k == 2:
            return tgen.Comp("rt::Wrap", lambda c: [P("section", c)], children=[self.g.leaf_text()])
        return self.g.leaf_text()

    def use(self, d, depth, inside):
        r = self.r
        self.n += 1
        attrs, want = comps.use_props(self.g, d, self.names)
        args, leaves = "", []
        if d.kids == "render":
            v, e = r.choice([("x: i32", "{x}"), ("n: i32", "{n}"), ("mut x: i32", "{x += 0; x}")])
            args = "|%s|" % v
            l = tgen.Leaf(e, [], kind="arg")
            l.arg = True
            leaves = [l] if r.random() < 0.8 else []
        nodes, shown, body = self.contents(d.slots, {"none": None, "opt": "opt"}.get(d.kids, "once"), depth, inside,
                                           d.kids in ("fn", "render"), leaves)
        if body and not inside and r.random() < 0.3:
            t = len(self.toks) + 1
            self.toks.append("tk%d" % t)
            attrs = attrs + [tgen.Attr("clone:tk%d" % t, "clone", form="clone")]
            l = tgen.Leaf("{tk%d.show()}" % t, ["tok%d" % t])
            nodes.insert(r.randrange(len(nodes) + 1), l)
            body = [n for n in nodes if not isinstance(n, SlotUse)]
            self.clones[str(t)] += 1
            self.stats["clones"] += 1
            r.shuffle(attrs)
        if nodes:
            children = nodes
        else:
            children = r.choice([None, []])
            args = ""
        if not body:
            args = ""
        u = SlotUse(d, attrs, children, args, r.random() < 0.3)
        u.want, u.shown, u.body = want, shown, body
        self.stats["slots"] += 1
        if args:
            self.stats["slots_with_closures"] += 1
        if d.slots:
            self.stats["slots_with_slots"] += 1
        self.stats["props"] += len(want)
        return u

    def parent_use(self, p, depth, inside):
        r = self.r
        nodes, shown, body = self.contents(p.slots, p.kids, depth, inside)
        c = tgen.Comp(p.name, None, children=nodes or r.choice([None, []]), paren=r.random() < 0.3)
        c.shown, c.body = shown, body
        return c


class SlotUse(tgen.Comp):
    def __init__(self, d, attrs, children, args, paren):
        tgen.Comp.__init__(self, "slot:" + d.name, None, attrs=attrs, children=children, paren=paren, args=args)
        self.name, self.d = d.name, d


def out(n, arg):
    """Expected nodes of a child."""
    if isinstance(n, SlotUse):
        at = [("data-" + k.replace("_", "-"), v) for k, v in n.want.items()]
        kids = []
        for s in n.shown:
            kids += out(s, arg)
        for i in {"none": [], "once": [arg], "fn": [arg, arg], "opt": [arg], "render": [1, 2]}[n.d.kids]:
            for b in n.body:
                kids += out(b, i)
        return [P("s-" + kebab(n.name), kids, at)]
    if isinstance(n, tgen.Leaf):
        return [str(arg)] if hasattr(n, "arg") else tgen.dom([n])
    if isinstance(n, tgen.El) or not hasattr(n, "shown"):
        return tgen.dom([n])
    kids = []
    for s in n.shown:
        kids += out(s, arg)
    for b in n.body:
        kids += out(b, arg)
    return [P("p-parent", kids)]


def merged(nodes):
    o = []
    for x in nodes:
        if isinstance(x, str):
            if o and isinstance(o[-1], str):
                o[-1] += x
            elif x:
                o.append(x)
        else:
            x.children = merged(x.children)
            o.append(x)
    return o


def case_of(cid, rng):
    m = Maker(rng)
    uses = [m.parent_use(m.parent(), 1, False) for _ in range(rng.choice([1, 1, 2]))]
    body = tgen.src_all(uses, rng)
    lets = ["let %s = rt::Tok(%d);" % (t, i + 1) for i, t in enumerate(m.toks)] + tgen.lets(uses)
    code = "%s\npub fn case() {\n%s\nlet v = mview! {\n%s\n};\n%s\nrt::html(v);\n}" % (
        "\n".join(m.defs), "\n".join(lets), body, "\n".join("rt::note(%s.show());" % t for t in m.toks))
    c = render.Case(cid, code, model=uses, info=body)
    c.m = m
    return c


def judge(case, res, run):
    b = common.basics(res)
    if b:
        return b
    got, b = common.parsed(res)
    if b:
        return b
    want = merged([x for u in case.model for x in out(u, None)])
    d = tgen.tree_diff(want, got)
    if d:
        return "slots", d
    for x, g in tgen.pair_up(want, got):
        if x.tag.startswith("s-"):
            w, h = x.attrs(), dict(g.attrs)
            if w != h:
                return "props", "slot %s: expected %r, got %r" % (x.tag, w, h)
    have = Counter(res.get("clone"))
    if have != case.m.clones:
        return "clones", "clones: expected %r, observed %r" % (dict(case.m.clones), dict(have))
    run.stats.update(case.m.stats)
    return None


def run():
    r = Run("C08", "random parents with one to four slots (required, optional, lists; props of 16 sorts; children of five "
                   "kinds; slots of their own) and uses of them, slots and children in random interleavings. What the "
                   "parents received is rendered and compared with the model. Non-trivial: at least one slot. Distinct by source.")
    for rnd in r.rounds():
        rng = r.rng(rnd)
        cases = [case_of("c%d" % i, rng) for i in range(180 if r.quick else 500)]
        results = render.run_all(render.split(cases, 8))
        for c in cases:
            res = results[c.id]
            bad = judge(c, res, r)
            r.evaluated(c.info, "slot:" in c.info, sample={"template": c.info[:400], "html": (res.one("html") or "")[:400]})
            if bad:
                r.violation(bad[0], bad[1], render.standalone(c))
    return r.finish()
