"""Templates with deliberate mistakes, whose place in the source is known.

A template is a tree of `El` and `Val`. A mistake is put in an attribute, a
child or the shape of an element; `emit` writes the source and finds the byte
ranges of every mistake and of the innermost element that contains it.
"""
import re

OUTER = '''use leptos::prelude::*;
#[component] pub fn Comp(#[prop(optional)] n: i32, #[prop(optional)] b: bool, #[prop(optional, into)] s: String,
    #[prop(optional)] children: Option<Children>, #[prop(optional)] then: Vec<Then>, #[prop(optional)] other: Option<Other>) -> impl IntoView {
    let _ = (n, b, s, then.len(), other.is_some()); leptos::html::div().child(children.map(|c| c())) }
#[slot] pub struct Then { #[prop(optional)] n: i32, #[prop(optional)] b: bool, #[prop(optional)] children: Option<ChildrenFn> }
#[slot] pub struct Other { #[prop(optional)] n: i32, #[prop(optional)] children: Option<ChildrenFn> }
#[component] pub fn Plain(#[prop(optional)] n: i32) -> impl IntoView { n }
#[component] pub fn Req(a: i32, b: String) -> impl IntoView { (a, b) }
#[component] pub fn Gen<T: Send + std::fmt::Display + 'static>(v: T) -> impl IntoView { v.to_string() }
#[component] pub fn Body(children: Children) -> impl IntoView { children() }
#[component] pub fn One(solo: Solo) -> impl IntoView { solo.n }
#[slot] pub struct Solo { n: i32 }
pub struct NoView; #[derive(Clone)] pub struct Yes;
'''

# for templates that mention variables
HEAD = '''fn d(_: leptos::tachys::renderer::types::Element) {}
let (x, val, some_var, x_y, r#move) = (true, "v", "v", "v", "v");
let _ = leptos_mview::mview! {'''


class Mistake:
    def __init__(self, kind, level="macro", rec=True, tag=False, after=False, before=False, inner=None):
        self.kind, self.level, self.rec = kind, level, rec
        self.tag, self.after, self.before = tag, after, before     # the element's tag / next token / previous token is fine too
        self.inner = inner                                         # substring of the item that is the offender
        self.item = None          # byte range
        self.el = None            # byte range of the innermost element, or of everything
        self.tagr = self.afterr = self.beforer = None

    def allowed(self):
        """Byte ranges where an error belongs."""
        out = [self.item]
        for want, r in ((self.tag, self.tagr), (self.after, self.afterr), (self.before, self.beforer)):
            if want and r:
                out.append(r)
        return out


class At:
    def __init__(self, text, mark=None, sel=False):
        self.text, self.mark, self.sel = text, mark, sel


class Val:
    def __init__(self, text, mark=None):
        self.text, self.mark = text, mark


class El:
    def __init__(self, kind, tag):
        self.kind, self.tag = kind, tag        # html svg web comp slot
        self.attrs = []
        self.args = None
        self.kids = None
        self.term = ";"
        self.parens = False
        self.mark = None
        self.closed = False       # no further mistakes inside


HTML = ["div", "span", "p", "section", "button", "em", "main"]
SVG = ["svg", "g", "circle", "path"]
WEB = ["my-el", "x-a-b"]


class Gen:
    def __init__(self, rng):
        self.r = rng

    def root(self):
        return [self.child(0, "root") for _ in range(self.r.choice([1, 1, 2, 3, 4]))]

    def child(self, depth, parent):
        r = self.r
        if r.random() < 0.3:
            return Val(r.choice(['"t"', '{"b"}', '["c"]', 'f["{}", 1]', '{1 + 1}', 'r"raw"', '"é λ"', '{let a = 1; a}']))
        return self.el(depth, parent)

    def el(self, depth, parent):
        r = self.r
        kind = r.choice(["html", "html", "html", "svg", "web", "comp", "comp"])
        tag = {"html": HTML, "svg": SVG, "web": WEB, "comp": ["Comp"]}[kind]
        e = El(kind, r.choice(tag))
        self.fill(e, depth)
        return e

    def slot(self, depth):
        e = El("slot", "slot:Then")
        self.fill(e, depth)
        return e

    def fill(self, e, depth):
        r = self.r
        k = e.kind
        if k != "slot":
            for _ in range(r.choice([0, 0, 1, 2])):
                s = r.choice([".a", ".b-c", "#d", ".e2"])
                if s == "#d" and any(a.text == "#d" for a in e.attrs):
                    continue
                e.attrs.append(At(s, sel=True))
        pool = self.pool(k)
        r.shuffle(pool)
        for a in pool[:r.choice([0, 0, 1, 1, 2, 3])]:
            e.attrs.append(At(a))
        if depth < 3 and r.random() < (0.75 if depth == 0 else 0.5):
            n = r.choice([0, 1, 1, 2, 3])
            e.kids = [self.child(depth + 1, k) for _ in range(n)]
            if k == "comp" and r.random() < 0.35:
                e.kids.insert(r.randrange(len(e.kids) + 1), self.slot(depth + 1))
            e.parens = r.random() < 0.15

    def pool(self, k):
        if k == "slot":
            return ["n=3", self.r.choice(["b", "b={true}"])]
        if k == "comp":
            return ["n=2", self.r.choice(["b", "b=true"]), 's="x"', 'class:x={true}', "class:y", 'attr:title="t"', 'style:color="red"', 'prop:value="v"']
        return ['title="t"' if k == "html" else 'x="1"', 'data-x={1}', 'data-y=[1]', 'data-z=f["{}", 2]',
                'class:on={true}', 'class:off=[false]', 'style:color="red"', 'prop:value="v"', 'class="k"']

    # mistakes

    def sites(self, roots):
        """(kind of place, element, list of the siblings or None)"""
        out = [("child", None, roots)]

        def walk(xs):
            for x in xs:
                if isinstance(x, El) and not x.closed:
                    out.append(("attr", x, None))
                    if x.kids is not None:
                        out.append(("child", x, x.kids))
                        walk(x.kids)
        walk(roots)
        return out

    def plain_el(self, kind, tag):
        e = El(kind, tag)
        e.closed = True
        return e


def emit(roots, rng=None, ws=(" ", " ", " ", "\n", "  ")):
    """Source text; fills in the ranges of the mistakes."""
    out = bytearray()
    toks = []       # (start, end) of the pieces, for the neighbours
    marks = []

    def sp():
        out.extend((rng.choice(ws) if rng else " ").encode())

    def put(text):
        a = len(out)
        out.extend(text.encode())
        toks.append((a, len(out)))
        return a, len(out)

    def item(obj, a, e, el, tag):
        m = obj.mark
        m.item = (a, e)
        if m.inner:
            i = bytes(out[a:e]).rfind(m.inner.encode())
            m.item = (a + i, a + i + len(m.inner.encode()))
        m.elref, m.tagr = el, tag
        m.tok = len(toks) - 1
        marks.append(m)

    def children(kids, el, tag):
        for k in kids:
            sp()
            if isinstance(k, Val):
                a, e = put(k.text)
                if k.mark:
                    item(k, a, e, el, tag)
            else:
                element(k)

    def element(x):
        start = len(out)
        rec = {"start": start, "end": None}
        tag = put(x.tag)
        for at in x.attrs:
            if not at.sel or at.text.startswith("#"):
                sp()
            elif rng and rng.random() < 0.3:
                sp()
            a, e = put(at.text)
            if at.mark:
                item(at, a, e, rec, tag)
        if x.args is not None:
            sp()
            put(x.args)
        if x.kids is not None:
            sp()
            put("(" if x.parens else "{")
            children(x.kids, rec, tag)
            sp()
            put(")" if x.parens else "}")
        elif x.term:
            if rng and rng.random() < 0.3:
                sp()
            put(x.term)
        rec["end"] = len(out)
        if x.mark:
            item(x, start, len(out), rec, tag)
    whole = {"start": 0, "end": None}
    sp()
    for k in roots:
        if isinstance(k, Val):
            a, e = put(k.text)
            if k.mark:
                item(k, a, e, whole, None)
        else:
            element(k)
        sp()
    whole["end"] = len(out)
    for m in marks:
        m.el = (m.elref["start"], m.elref["end"])
        i = m.tok
        m.afterr = toks[i + 1] if i + 1 < len(toks) else None
        first = next((j for j, t in enumerate(toks) if t[0] >= m.item[0]), 0)
        m.beforer = toks[first - 1] if first > 0 else None
    return out.decode(), marks


# The kinds of mistakes. Each is a function of (generator, roots) which puts one
# in a random place and returns it, or None if there is no place for it.

KINDS = {}


def kind(name):
    def deco(f):
        KINDS[name] = f
        return f
    return deco


def pick_child(g, roots, want=lambda e: True):
    s = [x for x in g.sites(roots) if x[0] == "child" and want(x[1])]
    return g.r.choice(s) if s else None


def pick_attr(g, roots, kinds=None, want=lambda e: True):
    s = [x for x in g.sites(roots) if x[0] == "attr" and (kinds is None or x[1].kind in kinds) and want(x[1])]
    return g.r.choice(s)[1] if s else None


def insert_child(g, site, node, last=False):
    kids = site[2]
    kids.insert(len(kids) if last else g.r.randrange(len(kids) + 1), node)


def insert_attr(g, el, at, last=False):
    """After the selectors."""
    n = sum(1 for a in el.attrs if a.sel)
    i = len(el.attrs) if last else g.r.randrange(n, len(el.attrs) + 1)
    if at.text[0] == "{" and i and el.attrs[i - 1].text.endswith("="):
        # a block after a missing value would be that value
        i -= 1
    el.attrs.insert(i, at)


def value_child(name, texts, **kw):
    @kind(name)
    def f(g, roots):
        site = pick_child(g, roots)
        m = Mistake(name, **kw)
        insert_child(g, site, Val(g.r.choice(texts), m))
        return m


value_child("literal child", ["3", "1.5", "'c'", "true", "b\"x\"", "b'x'", "1u8", "false", "-1", "c\"x\""])
value_child("stray tokens", ["(a)", ",", "@", "=", "!", "&x", "?", "+ 1", "'life", "()", "=> x", "$", "^", "<b>", "#", ". "], rec=False)
value_child("unknown prefix child", ['g["{}", 1]', 'format["x"]', 'F["x"]', 'ff["x"]', 'r#move["x"]', 'move[1]'])
value_child("extra semicolon", [";"])


def attr(name, texts, kinds=None, last=False, **kw):
    @kind(name)
    def f(g, roots):
        el = pick_attr(g, roots, kinds)
        if el is None:
            return None
        m = Mistake(name, **kw)
        t = g.r.choice(texts)
        if isinstance(t, tuple):
            t, m.inner = t
        insert_attr(g, el, At(t, m), last)
        return m


XML = ("html", "svg", "web")
attr("unknown directive", [("foo:x={1}", "foo"), ("foo:x", "foo"), ("cls:x={true}", "cls"), ('classes:a="x"', "classes"), ("bind:value={1}", "bind"), ("ons:click={|_| ()}", "ons"),
                           ("r#fn:x={1}", "r#fn"), ("let:x", "let"), ("foo:{x}", "foo"), ('foo:"x"={1}', "foo")], ("html", "svg", "web", "comp"))
attr("directive not for elements", [('attr:id="x"', "attr"), ("attr:hidden", "attr"), ("clone:x", "clone"), ("clone:{x}", "clone")], XML)
attr("directive on a slot", [("class:x={true}", "class"), ("class:x", "class"), ('style:color="red"', "style"), ("on:click={|_| ()}", "on"), ('attr:id="x"', "attr"), ("use:d", "use"),
                             ('prop:value="x"', "prop"), ("foo:x", "foo"), ("on:click:undelegated={|_| ()}", "on")], ("slot",))
attr("unknown modifier", [("on:click:delegated={|_| ()}", "delegated"), ("on:click:undelegate={|_| ()}", "undelegate"), ("on:input:capture={|_| ()}", "capture")], ("html", "svg", "web", "comp"))
attr("misplaced modifier", [("class:x:undelegated={true}", "undelegated"), ('style:color:undelegated="red"', "undelegated"), ('prop:value:m="x"', "m"), ("use:d:undelegated", "undelegated"),
                            ("class:{x}:undelegated", "undelegated")], ("html", "svg", "web", "comp"))
attr("modifier on a component directive", [('attr:id:undelegated="x"', "undelegated"), ("clone:x:undelegated", "undelegated")], ("comp",))
attr("modifier behind the value", [("on:click={|_| ()}:undelegated", ":undelegated"), ('class:x={true}:undelegated', ":undelegated"), ('data-q="x":undelegated', ":undelegated"), ("prop:value={x}:m", ":m"), ("use:d={x}:undelegated", ":undelegated"),
                                   "on:{click}:undelegated:undelegated", "on:click:undelegated={|_| ()}:undelegated"], ("html", "svg", "web", "comp"), rec=False, tag=True)
attr("unknown prefix value", [('data-q=g["{}", 1]', "g"), ('data-q=format["x"]', "format"), ('class:q=g["x"]', "g"), ('data-q=F["x"]', "F")], XML)
attr("unknown prefix prop", [('n=g[1]', "g"), ('class:q=g["x"]', "g"), ('attr:data-q=g["x"]', "g")], ("comp",))
attr("unknown prefix slot prop", [('n=g[1]', "g")], ("slot",))
attr("spread on a slot", ["{..()}", "{..x}"], ("slot",))
attr("value for clone", [("clone:x={1}", "{1}"), ('clone:x="y"', '"y"'), ("clone:x=true", "true"), ("clone:x=false", "false"), ("clone:x=1", "1")], ("comp",))
attr("string for an identifier", [('clone:"x"', '"x"'), ('use:"x"', '"x"'), ('on:"click"={|_| ()}', '"click"')], ("comp",))
attr("string for an identifier on elements", [('use:"x"', '"x"'), ('on:"click"={|_| ()}', '"click"')], XML)
attr("bad directive key", [("class:()", "()"), ("class:[1]={true}", "[1]"), ("style:={1}", "="), ("on:3={|_| ()}", "3"), ("class:.a={true}", ".a"), ("prop:'x={1}", "'x")],
     ("html", "svg", "web", "comp", "slot"), rec=False)
attr("stray attribute tokens", [", ", ("= 1", "="), ("+ x", "+"), ("@click={1}", "@"), (":x={1}", ":"), ('"data-x"="1"', '"data-x"'), ("'a'", "'a'"), ("=> {1}", "=>"), ("!x", "!"), ("3", "3")],
     ("html", "svg", "web", "comp", "slot"), rec=False, tag=True)
attr("raw identifier in a name", [('data-r#x="1"', "r#x"), ('data-a-r#x="1"', "r#x"), ('x-1-y-r#type={2}', "r#type"), ('class:a-b-r#c=true', "r#c"), ('style:a-r#b-c="x"', "r#b"),
                                     ('data--r#x', "r#x")], XML)


@kind("late selector")
def late_selector(g, roots):
    el = pick_attr(g, roots, None, lambda e: any(not a.sel for a in e.attrs))
    if el is None:
        return None
    m = Mistake("late selector", rec=False, tag=True)
    t = g.r.choice([".z", "#z"])
    m.inner = t[0]
    el.attrs.append(At(" " + t, m))
    return m


@kind("selector on a slot")
def selector_on_slot(g, roots):
    # one error stands for all of them
    el = pick_attr(g, roots, ("slot",), lambda e: not any(a.sel for a in e.attrs))
    if el is None:
        return None
    m = Mistake("selector on a slot")
    el.attrs.insert(0, At(g.r.choice([".z", "#z"]), m, sel=True))
    return m


KEYS = {"html": ["title", "class", "id", "data-q", "class:q", "style:color", "on:click", "prop:value"], "svg": ["x", "class", "data-q", "class:q", "on:click"],
        "web": ["x", "class", "data-q", "class:q"], "comp": ["n", "s", "class:q", "on:click", "attr:id"], "slot": ["n", "b"]}


@kind("missing value")
def missing_value(g, roots):
    el = pick_attr(g, roots)
    if el is None:
        return None
    m = Mistake("missing value", after=True)
    at = At(g.r.choice(KEYS[el.kind]) + g.r.choice(["=", " ="]), m)
    m.inner = "="
    el.mview_missing = True
    if el.kids is not None and not el.parens:
        # a block right after it would be its value
        n = sum(1 for a in el.attrs if a.sel)
        rest = [i for i in range(n, len(el.attrs)) if el.attrs[i].text[0].isalpha()]
        if not rest:
            el.attrs.append(At("hidden" if el.kind != "slot" else "b"))
            rest = [len(el.attrs) - 1]
        el.attrs.insert(g.r.choice(rest), at)
    else:
        insert_attr(g, el, at, True)
    return m


def cut_short(name, ends, **kw):
    """An element that ends where its children (or the template) do."""
    @kind(name)
    def f(g, roots):
        site = pick_child(g, roots, lambda e: True)
        k = g.r.choice(["html", "web", "comp", "svg"])
        e = g.plain_el(k, {"html": g.r.choice(HTML), "svg": g.r.choice(SVG), "web": "my-el", "comp": "Comp"}[k])
        if g.r.random() < 0.4:
            e.attrs.append(At(g.r.choice([".a", "#d"]), sel=True))
        if g.r.random() < 0.4:
            e.attrs.append(At(g.r.choice(["class:a={true}", "class:b"])))
        e.term = ""
        m = Mistake(name, tag=True, before=True, after=True, **kw)
        ts = g.r.choice(ends)
        if callable(ts):
            ts = ts(g, k)
        t, m.inner = ts
        e.attrs.append(At(t, m))
        insert_child(g, site, e, True)
        return m


cut_short("missing value at the end", [lambda g, k: (g.r.choice(KEYS[k]) + g.r.choice(["=", " ="]), "=")])
cut_short("cut short", [("class:", ":"), ("style :", ":"), ("on:", ":"), ("data-", "-"), ("data - x - ", "-"), ("on:click:", "on:click:"), ("use:", ":"), ("clone:", ":"), ("class:a-", "-"),
                        ("x -", "-"), ("{..}", "{..}"), ("on:click:undelegated=", "="), ("class:{a}:", "class:{a}:")], rec=False)


@kind("unwrapped value")
def unwrapped_value(g, roots):
    el = pick_attr(g, roots)
    if el is None:
        return None
    m = Mistake("unwrapped value")
    v = g.r.choice(["val", "some_var", "x-y", "r#move"])
    m.inner = v
    insert_attr(g, el, At("%s=%s" % (g.r.choice(KEYS[el.kind]), v), m))
    return m


@kind("unwrapped expression")
def unwrapped_expr(g, roots):
    el = pick_attr(g, roots)
    if el is None:
        return None
    m = Mistake("unwrapped expression", rec=False, tag=True)
    v = g.r.choice(["a + b", "!x", "&x", "|x| x", "*x", "-x", "..x", "(x)", "x.get()", "move || x", "x::y"])
    m.inner = v
    insert_attr(g, el, At("%s=%s" % (g.r.choice(KEYS[el.kind]), v), m), True)
    return m


@kind("missing terminator")
def missing_terminator(g, roots):
    site = pick_child(g, roots)
    k = g.r.choice(["html", "svg", "web", "comp"])
    e = g.plain_el(k, {"html": "span", "svg": "circle", "web": "my-el", "comp": "Comp"}[k])
    if g.r.random() < 0.5:
        e.attrs.append(At(g.r.choice([".a", "#d"]), sel=True))
    if g.r.random() < 0.5:
        e.attrs.append(At(g.r.choice(["data-x=1", "class:a={true}", "b"] if k != "comp" else ["n=1", "class:a", "b"])))
    e.term = ""
    m = Mistake("missing terminator", tag=True)
    e.mark = m
    insert_child(g, site, e, True)
    return m


def wrong_el(name, build, where=None, rec=True, **kw):
    @kind(name)
    def f(g, roots):
        site = pick_child(g, roots, where or (lambda e: True))
        if site is None:
            return None
        e = build(g)
        m = Mistake(name, rec=rec, **kw)
        if getattr(e, "inner", None):
            m.inner = e.inner
        e.mark = m
        e.closed = True
        insert_child(g, site, e)
        return m


def not_comp(e):
    return e is None or e.kind in XML


def is_comp(e):
    return e is not None and e.kind == "comp"


def slot_el(g):
    e = g.plain_el("slot", "slot:" + g.r.choice(["Then", "Other", "Nope"]))
    if g.r.random() < 0.5:
        e.kids = [Val('"x"')]
    if g.r.random() < 0.3:
        e.attrs.append(At("n=1"))
    return e


def bad_slot_name(g):
    e = g.plain_el("slot", "slot:" + g.r.choice(["div", "my-el", "svg", "then", "a::Then", "crate::Then", "Then<i32>", " ::Then", "math"]))
    if g.r.random() < 0.5:
        e.kids = [Val('"x"')]
    return e


def closure_on_element(g):
    e = g.plain_el(g.r.choice(XML), g.r.choice(["div", "p", "circle", "my-el"]))
    e.args = g.r.choice(["|x|", "|(a, b)|", "|_|", "|x: i32|"])
    e.kids = [Val('"x"')]
    e.inner = e.args
    return e


def closure_without_children(g):
    e = g.plain_el("comp", g.r.choice(["Comp", "Body", "div"]))
    e.args = g.r.choice(["|x|", "|(a, b)|"])
    e.inner = None
    return e


def unclosed_closure(g):
    e = g.plain_el("comp", "Comp")
    e.args = "|x"
    e.kids = [Val('"x"')]
    return e


def fn_generics(g):
    e = g.plain_el("comp", g.r.choice(["a::Comp(i32)", "Comp::<i32>::B(i32)"]))
    return e


wrong_el("slot outside a component", slot_el, not_comp)
wrong_el("bad slot name", bad_slot_name, is_comp)
wrong_el("closure arguments on an element", closure_on_element)
wrong_el("closure arguments without children", closure_without_children, tag=True)
wrong_el("unclosed closure arguments", unclosed_closure, rec=False)


# what the compiler finds in the expansion (the templates are type checked)

def typed_attr(name, texts, kinds, **kw):
    attr(name, texts, kinds, level="type", tag=kw.pop("tag", False), **kw)


typed_attr("wrong type of a prop", [('n="x"', '"x"'), ("n={1.5}", "1.5"), ("b=3", "3"), ("n=[1]", "[1]"), ("n={Yes}", "Yes"), ('n=f["x"]', 'f["x"]')], ("comp",))
typed_attr("wrong type of a bare prop", [("n", "n")], ("comp",))
typed_attr("wrong type of a slot prop", [('n="x"', '"x"'), ("b=3", "3"), ("n={Yes}", "Yes")], ("slot",))
typed_attr("unknown prop", [("zork=1", "zork"), ("zork", "zork"), ("zork-bar={2}", "zork-bar"), ("zork=[1]", "zork")], ("comp", "slot"))
typed_attr("unknown attribute of an element", [("zork=1", "zork"), ("zork", "zork"), ("hrefs={1}", "hrefs")], ("html",))
typed_attr("unknown event", [("on:zork={|_| ()}", "zork"), ("on:zork:undelegated={|_| ()}", "zork")], ("html", "svg", "web", "comp"))
typed_attr("handler that is not a function", [("on:click=3", "on:click=3"), ("on:click={Yes}", "on:click={Yes}")], ("html", "comp"))
typed_attr("wrong type of an attribute", [("data-q={NoView}", "NoView"), ("lang={NoView}", "NoView"), ("data-q=[NoView]", "NoView"), ("class=3", "class=3"), ("style={NoView}", "style={NoView}")], ("html",))
typed_attr("wrong type of an untyped attribute", [("q={NoView}", "NoView"), ("data-q=[NoView]", "NoView")], ("svg", "web"))
typed_attr("wrong type of a directive", ["class:q=3", "class:q={NoView}", "style:q={NoView}", "prop:q={NoView}", "class:q=[3]"], ("html", "svg", "web", "comp"))
typed_attr("missing value of a directive", ["class:q", "style:q", "prop:q", "on:click"], XML)
typed_attr("missing value of a component directive", ["style:q", "on:click", "attr:class"], ("comp",))
typed_attr("wrong type of a component's attribute", ["attr:id={NoView}", "attr:data-q={NoView}", "attr:class=3"], ("comp",))
typed_attr("unknown directive function", [("use:zork", "zork"), ("use:zork={1}", "zork")], ("html", "comp"))
typed_attr("unknown attribute of a component", [("attr:zork=1", "zork")], ("comp",))
typed_attr("spread of a non-attribute", [("{..3}", "3"), ("{..NoView}", "NoView")], ("html", "svg", "web"))
typed_attr("spread of a non-attribute on a component", [("{..3}", "3"), ("{..NoView}", "NoView")], ("comp",), tag=True)
typed_attr("undefined variable", [("data-q={zork}", "zork"), ("data-q=[zork]", "zork"), ('data-q=f["{}", zork]', "zork"), ("class:q={zork}", "zork"), ("data-q={zork + 1}", "zork"),
                                  ('data-q=f["{zork}"]', '"{zork}"'), ("data-q={let a = 1; zork}", "zork"), ("{zork}", "zork"), ("class:{zork}", "zork"), ("{..zork}", "zork")], ("html",))
typed_attr("undefined variable on a component", [("n={zork}", "zork"), ("class:q={zork}", "zork"), ("attr:data-q=[zork]", "zork"), ("{zork}", "zork"), ("class:{zork}", "zork")], ("comp",))
typed_attr("wrong node reference", [("ref={3}", "3")], ("html",))


def typed_child(name, texts, **kw):
    value_child(name, texts, level="type", **kw)


typed_child("child that is not a view", ["{NoView}", "[NoView]", "{let a = NoView; a}", "{(1, NoView)}"])
typed_child("undefined variable in a child", ["{zork}", "[zork]", 'f["{}", zork]', "{zork()}", "{let a = zork; a}"])


def typed_el(name, build, where=None, **kw):
    wrong_el(name, build, where, level="type", **kw)


def el_of(kind, tag, attrs=(), kids=None, inner=None, args=None):
    def f(g):
        e = g.plain_el(kind, g.r.choice(tag) if isinstance(tag, list) else tag)
        for a in attrs:
            e.attrs.append(At(a))
        e.kids = [Val(k) for k in kids] if kids is not None else None
        e.inner, e.args = inner, args
        return e
    return f


typed_el("unknown element", el_of("html", ["zork", "dvi", "Div_"], inner=None))
typed_el("unknown component", el_of("comp", ["Zork", "zork::Comp", "Zork<i32>"]))
typed_el("not a component", el_of("comp", ["NoView", "Yes", "not::Module", "String", "Vec<i32>"]))
typed_el("missing required prop", el_of("comp", "Req", ["a=1"], inner="Req"))
typed_el("missing children", el_of("comp", "Body", inner="Body"))
typed_el("children of a childless component", el_of("comp", "Plain", kids=['"kid"'], inner='"kid"'))
typed_el("closure arguments of plain children", el_of("comp", "Body", kids=['"kid"'], args="|x|", inner="|x|"))
typed_el("repeated prop", el_of("comp", "Req", ["a=1", 'b={String::new()}', "a=2"]))
typed_el("wrong generics", el_of("comp", "Gen<i32>", ['v="x"'], inner='"x"'))
typed_el("unknown type in generics", el_of("comp", "Gen<Zork>", ["v=1"], inner="Zork"))
typed_el("wrong node in children", el_of("comp", "Body", kids=['"a"', "{NoView}"], inner="NoView"))


def unknown_slot(g):
    e = g.plain_el("slot", "slot:Zork")
    e.inner = "Zork"
    return e


typed_el("unknown slot", unknown_slot, is_comp)


def single_slot_twice(g):
    e = g.plain_el("comp", "One")
    a, b = g.plain_el("slot", "slot:Solo"), g.plain_el("slot", "slot:Solo")
    a.attrs.append(At("n=1"))
    b.attrs.append(At("n=2"))
    e.kids = [a, b]
    return e


typed_el("a single slot given twice", single_slot_twice)


def clone_undefined(g):
    e = g.plain_el("comp", "Body")
    e.attrs.append(At("clone:zork"))
    e.kids = [Val('"a"')]
    e.inner = "zork"
    return e


typed_el("clone of an undefined variable", clone_undefined)
typed_el("missing required prop of a slot", lambda g: with_slot(g))


def with_slot(g):
    e = g.plain_el("comp", "One")
    s = g.plain_el("slot", "slot:Solo")
    e.kids = [s]
    e.inner = "Solo"
    return e


def ends_open(roots):
    """Whether something follows an element without a terminator, or a block is
    a shorthand (`p { a }` has an attribute)."""
    def walk(xs, parens=True):
        if len(xs) == 1 and not parens and isinstance(xs[0], (Val, El)):
            x = xs[0]
            t = x.text if isinstance(x, Val) else x.tag if x.kids is None and not x.term and not x.attrs and x.args is None else "{"
            if re.fullmatch(r"(r#)?[\w-]+", t):
                return True
        for i, x in enumerate(xs):
            if isinstance(x, El):
                if x.kids is None and x.term == "" and i != len(xs) - 1:
                    return True
                if x.kids and walk(x.kids, x.parens):
                    return True
        return False
    return walk(roots)


def keys_of(text):
    for c in "=:":
        if c in text and not text.startswith("{"):
            return text.split("=")[0].strip()
    return text


def plant(g, roots, name):
    """Puts a mistake of the kind; None if it does not fit."""
    m = KINDS[name](g, roots)
    if m is None or ends_open(roots):
        return None
    if m.level == "type":
        def walk(xs):
            for x in xs:
                if isinstance(x, El):
                    for a in x.attrs:
                        if a.mark is m:
                            k = keys_of(a.text)
                            x.attrs = [b for b in x.attrs if b is a or b.sel or keys_of(b.text) != k]
                    walk(x.kids or [])
        walk(roots)
    return m


def make(rng, name, emit_seed):
    """(source without the mistake, source with it, the mistake)"""
    import copy
    import random
    for _ in range(200):
        g = Gen(rng)
        roots = g.root()
        before = copy.deepcopy(roots)
        m = plant(g, roots, name)
        if m is None:
            continue
        clean, _ = emit(before, random.Random(emit_seed))
        src, marks = emit(roots, random.Random(emit_seed))
        return clean, src, m
    raise AssertionError("no place for " + name)


LEVEL = {}


def levels():
    """{kind: macro | type}"""
    import random
    if not LEVEL:
        for k in KINDS:
            LEVEL[k] = make(random.Random(k), k, 1)[2].level
    return LEVEL


# errors that are artefacts of expanding without the leptos crate
def macro_errors(a):
    return [e for e in a.errors if e.level == "error" and e.code is None and "`leptos`" not in e.message]


def errors(a):
    return [e for e in a.errors if e.level == "error"]
