"""C10: every expression once, in source order."""
from collections import Counter

from .. import attrs, comps, common, render, tgen
from ..check import Run


VOID = ["input", "img"]
TEXT = ["option", "textarea"]
NAMES = ["title", "id", "data-a", "data-b-c", "aria-label", "lang", "class", "style", "hidden", "tabindex", "x-y"]


def names_of(tag, r):
    """Some attributes that the element has."""
    if tag in ("circle", "my-el"):
        return NAMES + ["d", "cx", "value", "type", "name"]
    own = [a for a in tgen.HTML[tag] if "_" not in a]
    return NAMES + own + own + r.sample(attrs.GLOBAL, 3)


class Maker:
    def __init__(self, rng):
        self.r = rng
        self.id = 0
        self.want = Counter()
        self.order = []          # [(what, [ids], [ids])]: the first before the second
        self.lets, self.defs = [], []
        self.stats = Counter()

    def ev(self, e, times, ids=None, lazy=False):
        self.id += 1
        self.want[str(self.id)] += times
        if ids is not None and not lazy:
            ids.append(self.id)
        return "rt::ev(%d, %s)" % (self.id, e)

    def block(self, e, times, ids):
        """A braced value, possibly with statements and several observed expressions."""
        r = self.r
        k = r.randrange(8)
        if k > 5:
            # any shape of expression
            forms = ["match %s { x => x }", "Some(%s).unwrap()", "vec![%s].remove(0)", "'a: { break 'a %s }", "loop { break %s }", "(|| %s)()",
                     "std::convert::identity(%s)", "[%s].into_iter().next().unwrap()", "(%s,).0"]
            if '"' in e and e != '"x"':
                forms = forms[:3] + ['format!("{}", %s)', "%s.to_string()", "String::from(%s)", "%s.to_owned()", "Clone::clone(&%s)", 'format!("q").to_string() + &%s',
                                     "%s.to_string().clone()", "String::new() + &%s"]
            elif e == "true":
                forms += ["!!%s", "%s && true", "%s == true", "%s as bool"]
            return "{%s}" % (r.choice(forms) % self.ev(e, times, ids))
        if k == 0:
            a = self.ev("()", times, ids)
            b = self.ev(e, times, ids)
            self.order.append(("statements", ids[-2:-1], ids[-1:]))
            return "{%s; %s}" % (a, b)
        if k == 1:
            a = self.ev("true", times, ids)
            return "{if %s { %s } else { panic!() }}" % (a, self.ev(e, times, ids))
        if k == 2:
            return "{ let x = %s; x }" % self.ev(e, times, ids)
        return "{%s}" % self.ev(e, times, ids)

    def text(self, times, ids, where, eager_only=False):
        """A value of type string, or a closure."""
        r = self.r
        if eager_only or r.random() < 0.7:
            self.stats["eager in " + where] += 1
            return self.block(r.choice(['"a"', '"b".to_string()']), times, ids)
        self.stats["lazy in " + where] += 1
        k = r.randrange(3)
        e = self.ev('"l"', times, lazy=True)
        return ["[%s]" % e, 'f["{}", %s]' % e, "[let a = %s; a]" % e][k]

    def boolean(self, times, ids, where):
        r = self.r
        if r.random() < 0.7:
            self.stats["eager in " + where] += 1
            return self.block("true", times, ids)
        self.stats["lazy in " + where] += 1
        return "[%s]" % self.ev("true", times, lazy=True)

    def in_order(self, what, groups):
        groups = [g for g in groups if g]
        for a, b in zip(groups, groups[1:]):
            self.order.append((what, a, b))
        return [i for g in groups for i in g]

    def attrs(self, times, tag, comp=None):
        """Source of the attributes of an element or component, and its ids."""
        r = self.r
        used = set()
        kv, dirs, other, out = [], [], [], []

        def key(names):
            names = [n for n in names if n not in used]
            if not names:
                return None
            n = r.choice(names)
            used.add(n)
            return n
        for _ in range(r.choice([0, 1, 2, 3, 5, 7, 9] if r.random() < 0.94 else [16, 24])):
            k = r.randrange(10)
            ids = []
            s = None
            if k == 3 and not comp and tag not in ("my-el",) and r.random() < 0.4:
                if key(["ref"]):
                    s = "ref={%s}" % self.ev("NodeRef::new()", times, ids)
                    kv.append(ids)
                    self.stats["eager in ref"] += 1
            elif k < 4 and not comp:
                n = key(names_of(tag, r))
                if n:
                    s = "%s=%s" % (n, self.text(times, ids, "attribute"))
                    kv.append(ids)
            elif k < 4:
                n = key([p for p in comp])
                if n:
                    s = "%s=%s" % (n.replace("_", r.choice("-_")), self.text(times, ids, "prop", eager_only=True))
                    kv.append(ids)
            elif k == 4:
                n = key(["k1", "k-2", "k3", "\"k 4\"".replace(" ", ":")])
                if n:
                    s = "class:%s=%s" % (n, self.boolean(times, ids, "class:"))
                    dirs.append(ids)
            elif k == 5:
                n = key(["color", "margin-left", "width", "--v", "max_x", "float"])
                if n:
                    s = "style:%s=%s" % (n, self.text(times, ids, "style:"))
                    dirs.append(ids)
            elif k == 6:
                n = key(["value", "checked", "innerHTML", "class", "style", "title", "data-x", "type"])
                if n:
                    # not rendered, so nothing asks for it
                    s = "prop:%s=%s" % (n, self.text(times, ids, "prop:", eager_only=True))
                    dirs.append(ids)
            elif k == 7:
                n = key(r.sample(attrs.EVENTS, 3) + ["click", "input", "change", "load"])
                if n:
                    s = "on:%s=%s" % (n, self.block("|_| ()", times, ids))
                    self.stats["eager in on:"] += 1
                    dirs.append(ids)
            elif k == 8:
                s = "use:dir=%s" % self.block('"x"', times, ids)
                self.stats["eager in use:"] += 1
                dirs.append(ids)
            elif comp:
                n = key(["title", "data-q", "lang", "class", "style", "id", "value", "aria-label", "href", "tabindex"])
                if n:
                    s = "attr:%s=%s" % (n, self.text(times, ids, "attr:"))
                    dirs.append(ids)
            else:
                n = key(["spread1", "spread2", "spread3"])
                if n:
                    s = "{..%s}" % self.ev("leptos::tachys::html::attribute::custom::custom_attribute(\"data-%s\", \"y\")" % n, times, ids)
                    other.append(ids)
                    self.stats["eager in spread"] += 1
            if s:
                out.append(s)
        # attributes of one kind stay in order under any interleaving, so no shuffle is needed
        a = self.in_order("plain attributes" if not comp else "props", kv)
        b = self.in_order("directives", dirs)
        self.in_order("spreads", other)
        return " ".join(out), a + b + [i for o in other for i in o]

    def node(self, depth, times, ctx):
        """Source of a child and the ids of what is evaluated when it is built."""
        r = self.r
        ids = []
        k = r.randrange(16)
        if k < 3 or depth <= 0:
            return self.text(times, ids, "child"), ids
        if k == 3:
            a, b = self.ev('"a"', times, ids), self.ev('1', times, ids)
            return "{(%s, %s)}" % (a, b), ids
        if k == 4:
            return '"lit"', ids
        if k == 5:
            s, ids = self.nodes(depth - 1, times, ctx, 1)
            self.stats["nested template"] += 1
            return "{ mview! { %s } }" % s, ids
        if k == 6:
            s, _ = self.nodes(depth - 1, times, "later", 1)
            self.stats["nested lazy template"] += 1
            return "[mview! { %s }]" % s, []
        if k < 11:
            tag = r.choice(["p", "div", "span", "circle", "my-el", "section", "a", "input", "select", "button", "img", "option", "textarea", "form", "video", "label", "ol", "td", "meter"])
            at, ids = self.attrs(times, tag)
            s, sub = self.nodes(depth - 1, times, ctx) if tag not in VOID + TEXT else ("", [])
            if tag in VOID:
                return "%s %s;" % (tag, at), ids
            if not s and r.random() < 0.5:
                return "%s %s;" % (tag, at), ids
            o, c = r.choice(["{}", "()"])
            return "%s %s %s %s %s" % (tag, at, o, s, c), ids + sub
        if k == 11:
            s, ids = self.nodes(depth - 1, times, ctx, 1)
            return "rt::Wrap { %s }" % s, ids
        if k == 12:
            n = r.choice([0, 2, 3])
            s, sub = self.only(times * n) if r.random() < 0.5 else self.nodes(depth - 1, times * n, ctx, 1)
            self.stats["children run %d times" % n] += 1
            return "rt::kids::Many times=%d { %s }" % (n, s), []
        if k == 13:
            h, n = r.choice([("rt::lazy::Later", 1), ("Show when=[true] fallback=[()]", 1), ("rt::kids::Never", 0)])
            s, _ = self.only(times * n) if r.random() < 0.5 else self.nodes(depth - 1, times * n, "later", 1)
            self.stats["children of " + h.split(" ")[0]] += 1
            return "%s { %s }" % (h, s), []
        if k == 14:
            return self.component(depth, times, ctx)
        return self.slotted(depth, times, ctx)

    def nodes(self, depth, times, ctx, lo=0):
        r = self.r
        got = [self.node(depth, times, ctx) for _ in range(r.choice([max(lo, 0), 1, 2, 3, 4]))]
        ids = self.in_order("children", [i for _, i in got])
        return "\n".join(s for s, _ in got), ids

    def only(self, times):
        """A single value as all of the children."""
        ids = []
        s = self.text(times, ids, "only child")
        self.stats["only child"] += 1
        return s, ids

    def component(self, depth, times, ctx):
        r = self.r
        self.id += 1
        props = r.sample(["a", "value", "some_attr", "type", "x1", "data_index", "class", "style", "id", "key", "children_n", "show", "when"], r.choice([0, 1, 2, 3, 5]))
        name = "Comp%d" % self.id
        self.defs.append("#[component] pub fn %s(%s) -> impl IntoView { leptos::html::div() }" % (
            name, ", ".join("#[prop(optional, into)] %s: String" % tgen.rident(p) for p in props)))
        at, ids = self.attrs(times, None, comp=props or ["none"]) if props else ("", [])
        self.stats["components with props"] += 1
        return "%s %s;" % (name, at), ids

    def slotted(self, depth, times, ctx):
        r = self.r
        self.id += 1
        i = self.id
        props = r.sample(["a", "value", "some_attr"], r.choice([1, 2, 3]))
        self.defs.append("#[slot] pub struct Item%d { %s, #[prop(optional)] pub children: Option<Children> }" % (
            i, ", ".join("#[prop(optional, into)] pub %s: String" % p for p in props)))
        self.defs.append("#[component] pub fn List%d(#[prop(optional)] item%d: Vec<Item%d>, #[prop(optional)] children: "
                         "Option<Children>) -> impl IntoView { leptos::html::ul().child(item%d.into_iter().map(|s| "
                         "s.children.map(|c| c())).collect::<Vec<_>>()).child(children.map(|c| c())) }" % (i, i, i, i))
        parts, allids = [], []
        for _ in range(r.choice([1, 2, 3])):
            at, kv = [], []
            for p in props:
                if r.random() < 0.7:
                    ids = []
                    at.append("%s=%s" % (p, self.text(times, ids, "slot prop", eager_only=True)))
                    kv.append(ids)
            allids += self.in_order("slot props", kv)
            s, sub = self.nodes(depth - 1, times, ctx)
            allids += sub
            parts.append("slot:Item%d %s { %s }" % (i, " ".join(at), s))
        if r.random() < 0.5:
            s, sub = self.nodes(depth - 1, times, ctx, 1)
            allids += sub
            parts.insert(r.randrange(len(parts) + 1), s)
        self.stats["slots"] += len(parts)
        return "List%d { %s }" % (i, "\n".join(parts)), allids


def case_of(cid, rng):
    m = Maker(rng)
    body, ids = m.nodes(3, 1, "now", 1)
    code = """fn dir(_: leptos::tachys::renderer::types::Element, _: &'static str) {}
%s
pub fn case() { let v = mview! {
%s
};
let v = v.into_view(); rt::html(v); }""" % ("\n".join(m.defs).replace("item%d", "item"), body)
    c = render.Case(cid, code, info=body)
    c.m = m
    return c


def judge(case, res, run):
    b = common.basics(res)
    if b:
        return b
    m = case.m
    log = res.get("ev")
    want = +m.want
    have = Counter(log)
    if have != want:
        return "once", "evaluated less often than written: %r; more often: %r" % (dict(want - have), dict(have - want))
    pos = {}
    for i, e in enumerate(log):
        pos.setdefault(e, []).append(i)
    for what, a, b in m.order:
        a = [x for x in a if want.get(str(x))]
        b = [x for x in b if want.get(str(x))]
        if any(want[str(x)] != 1 for x in a + b) or not a or not b:
            run.count("order_not_judged")
            continue
        if max(pos[str(x)][0] for x in a) > min(pos[str(x)][0] for x in b):
            return "order", "%s: expression %r was not evaluated before %r (log: %s)" % (what, a, b, " ".join(log))
        run.count("ordered " + what)
    run.count("evaluations", len(log))
    run.stats.update(m.stats)
    return None


def run():
    r = Run("C10", "random templates in which every embedded expression, in every kind of position, reports its evaluation; "
                   "in components that run their children now, later, never or repeatedly, slots and nested templates. "
                   "The log is checked for exactly-once and for the order of siblings and of attributes of one kind. "
                   "Non-trivial: at least two evaluations. Distinct by source.")
    for rnd in r.rounds():
        rng = r.rng(rnd)
        cases = [case_of("c%d" % i, rng) for i in range(500 if r.quick else 900)]
        results = render.run_all(render.split(cases, 16))
        for c in cases:
            res = results[c.id]
            bad = judge(c, res, r)
            r.evaluated(c.info, sum(c.m.want.values()) > 1, sample={"template": c.info[:400], "log": " ".join(res.get("ev"))[:300]})
            if bad:
                r.violation(bad[0], bad[1], render.standalone(c))
    return r.finish()
