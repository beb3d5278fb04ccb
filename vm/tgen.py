"""Random templates, and the document each of them means.

The model here is written from the documentation of the macro (README) and the
HTML/SVG/MathML vocabularies, not from the macro's implementation.
"""
import re

from .html import TABLES, VOID, RAW

HTML = TABLES["html"]
SVG = [t for t in TABLES["svg"] if t not in HTML]
MATH = list(TABLES["math"])
CONTAINER_HTML = [t for t in HTML if t not in VOID and t not in RAW]
COMMON_HTML = ["div", "p", "span", "ul", "li", "strong", "em", "section", "table", "tr", "td", "a", "h1", "button",
               "main", "label", "pre", "code", "article", "form"]
VOID_PLAIN = ["br", "hr", "img", "input", "wbr", "source", "col", "meta", "link"]


def rstr(s, rng=None):
    """A Rust string literal for `s`."""
    if rng is not None and rng.random() < 0.15 and "\r" not in s:
        n = 1
        while '"' + "#" * n in s:
            n += 1
        return 'r%s"%s"%s' % ("#" * n, s, "#" * n)
    out = []
    for c in s:
        if c == '"':
            out.append('\\"')
        elif c == "\\":
            out.append("\\\\")
        elif c == "\n":
            out.append("\\n")
        elif c == "\t":
            out.append("\\t")
        elif c == "\r":
            out.append("\\r")
        elif ord(c) > 126 and rng is not None and rng.random() < 0.3:
            out.append("\\u{%x}" % ord(c))
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


def kebab_to_snake(k):
    return k.replace("-", "_")


KEYWORDS = {"as", "async", "await", "break", "const", "continue", "dyn", "else", "enum", "extern", "false", "fn",
            "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static",
            "struct", "trait", "true", "type", "unsafe", "use", "where", "while", "abstract", "become", "box", "do",
            "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen"}


def rident(s):
    return "r#" + s if s in KEYWORDS else s


class Node:
    pass


class Leaf(Node):
    """Text or an embedded expression: `src` renders as `dom`."""

    def __init__(self, src, dom, evs=(), kind="text", lets=()):
        self.src_, self.dom_, self.evs, self.kind, self.lets = src, dom, list(evs), kind, list(lets)


class Attr:
    def __init__(self, src, cat, html=None, cls=None, style=None, att=None, evs=(), lets=(), toggle=False, form="?"):
        self.src = src          # source
        self.cat = cat          # kv | dir | spread
        self.html = html        # (name, value | True | None=absent)
        self.cls = cls          # [class names that are present]
        self.style = style      # [(property, value)]
        self.att = att          # attachment: ('on', event, undelegated, handler) ...
        self.evs = list(evs)
        self.lets = list(lets)  # statements needed before the template
        self.toggle = toggle    # class/style directive, rather than the attribute
        self.form = form
        self.atts = []          # attachments and attributes of a spread
        self.htmls = []


class El(Node):
    def __init__(self, tag, kind, sels=(), attrs=(), children=None, paren=False):
        self.tag, self.kind = tag, kind
        self.sels, self.attrs, self.children, self.paren = list(sels), list(attrs), children, paren


class Comp(Node):
    """A component whose rendering is `wrap(children dom)`."""

    def __init__(self, head, wrap, attrs=(), sels=(), children=None, paren=False, args=""):
        self.head, self.wrap = head, wrap
        self.sels, self.attrs, self.children, self.paren, self.args = list(sels), list(attrs), children, paren, args


# ------------------------------------------------------------------ emission

def ws(rng):
    r = rng.random()
    if r < 0.8:
        return " "
    if r < 0.9:
        return "\n    "
    if r < 0.95:
        return " /* c { */ "
    return "  // note }\n "


def src(node, rng):
    if isinstance(node, Leaf):
        return node.src_
    head = node.tag if isinstance(node, El) else node.head
    out = [head]
    for s, name in node.sels:
        # `#` needs a space before it, and Rust reads `-2.-a` as having a float in it
        glued = s == "." and not (name.startswith("-") and re.search(r"-[0-9]\w*$", out[-1]))
        out.append(("" if glued and rng.random() < 0.7 else " ") + s + name)
    for a in node.attrs:
        out.append(ws(rng) + a.src)
    if getattr(node, "args", ""):
        out.append(ws(rng) + node.args)
    if node.children is None:
        # `tag;`
        out.append((" " if rng.random() < 0.2 else "") + ";")
    else:
        body = src_all(node.children, rng)
        o, c = ("(", ")") if node.paren else ("{", "}")
        out.append(("" if node.paren and rng.random() < 0.7 and not node.attrs else " ") + o + ws(rng) + body + ws(rng) + c)
    return "".join(out)


def src_all(nodes, rng):
    return ws(rng).join(src(n, rng) for n in nodes)


def lets(nodes):
    """Statements that must precede the template."""
    out = []
    for n in nodes:
        if isinstance(n, Leaf):
            out += n.lets
            continue
        for a in n.attrs:
            out += a.lets
        out += lets(n.children or [])
    return out


# ------------------------------------------------------------------ expected

class X:
    """An expected element."""

    def __init__(self, node, tag, kind, children):
        self.node, self.tag, self.kind, self.children = node, tag, kind, children

    def attrs(self):
        """{name: value}, without class, style and id selectors."""
        out = {}
        for a in self.node.attrs:
            for n, v in ([a.html] if a.html else []) + a.htmls:
                if v is not None:
                    out[n] = v
        ids = [n for s, n in self.node.sels if s == "#"]
        if ids:
            out["id"] = " ".join(ids)
        return out

    def classes(self):
        out = [n for s, n in self.node.sels if s == "."]
        for a in self.node.attrs:
            out += a.cls or []
        return out

    def styles(self):
        plain, direct = [], []
        for a in self.node.attrs:
            (direct if a.toggle else plain).extend(a.style or [])
        return plain + direct

    def attachments(self):
        out = []
        for a in self.node.attrs:
            out += ([a.att] if a.att else []) + a.atts
        return out


def dom(nodes):
    """Expected nodes: str or X, adjacent text merged."""
    out = []

    def add(x):
        if isinstance(x, str):
            if x:
                if out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
        else:
            out.append(x)

    for n in nodes:
        if isinstance(n, Leaf):
            for x in n.dom_:
                if isinstance(x, Node):
                    for y in dom([x]):
                        add(y)
                else:
                    add(x)
        elif isinstance(n, El):
            add(X(n, n.tag, n.kind, dom(n.children or [])))
        else:
            for x in n.wrap(dom(n.children or [])):
                add(x)
    return out


def plain(tag, children, attrs=()):
    """An expected element that a helper component renders."""
    return X(El(tag, "html", attrs=[Attr("", "kv", html=a) for a in attrs]), tag, "html", children)


def els(nodes):
    for n in nodes:
        if isinstance(n, X):
            yield n
            yield from els(n.children)


# --------------------------------------------------------------- the generator

DEFAULTS = dict(
    depth=4, width=5, html=10, svg=2, math=1, custom=1, comp=0, text=6, expr=4, lazy=2, nested=1,
    tags="mix", max_nodes=40, ev=False, attrs=None, special_text=0.25,
)


class Gen:
    def __init__(self, rng, **opts):
        self.rng = rng
        self.o = dict(DEFAULTS)
        self.o.update(opts)
        self.n = 0
        self.evn = 0
        self.nodes = 0

    def uid(self):
        self.n += 1
        return self.n

    # -- text
    def text(self):
        r = self.rng
        t = "t%d" % self.uid()
        if r.random() < self.o["special_text"] / 5:
            return r.choice([" ", "\n", "  ", "\t", "\u00a0", " \n ", ",", "-", "0"])
        if r.random() < self.o["special_text"]:
            t = r.choice(["", " ", "  ", "\n", "\t", "{", "é", "\u00a0", "{{"]) + t + r.choice(
                ["\n", "\n\n", "\t", "\r\n", "\u00a0", "{{}}", "}", "\u200b", '""', "; ", "\\n", "\\\n  x", "/* */", "\u0301", "}}"," & co", "<b>", '"q"', "'", "\n x", " é🎉", "{}", "\\", "]", " -", "&lt;", "\t.", "{x}", "//", "%s"])
        if r.random() < 0.2:
            t += " "
        return t

    def ev(self, e):
        """Wraps an expression so that its evaluation is recorded."""
        if not self.o["ev"]:
            return e, []
        self.evn += 1
        return "rt::ev(%d, %s)" % (self.evn, e), [self.evn]

    def leaf_text(self):
        t = self.text()
        return Leaf(rstr(t, self.rng), [t])

    def leaf_expr(self):
        r = self.rng
        t = self.text()
        q = rstr(t)
        k = r.randrange(12)
        if k == 0:
            e, d = q, [t]
        elif k == 1:
            e, d = "String::from(%s)" % q, [t]
        elif k == 2:
            v = r.randrange(-99, 1000)
            e, d = "%di32" % v, [str(v)]
        elif k == 3:
            e, d = "Some(%s)" % q, [t]
        elif k == 4:
            e, d = "None::<&str>", []
        elif k == 5:
            t2 = self.text()
            e, d = "vec![%s, %s]" % (q, rstr(t2)), [t, t2]
        elif k == 6:
            e, d = "(%s, 7u8)" % q, [t, "7"]
        elif k == 7:
            e, d = "move || %s" % q, [t]
        elif k == 8:
            e, d = "%s.into_any()" % q, [t]
        elif k == 9:
            e, d = "if 1 + 1 == 2 { %s } else { \"no\" }" % q, [t]
        elif k == 10:
            e, d = "format!(\"{}|{{}}\", %s)" % q, [t + "|{}"]
        else:
            e, d = "'c'", ["c"]
        e, evs = self.ev(e)
        if r.random() < 0.2:
            e = "let x = %s; x" % e
        elif r.random() < 0.2:
            v = "v%d" % self.uid()
            return Leaf("{%s}" % v, d, evs, "block", ["let %s = %s;" % (v, e)])
        return Leaf("{%s%s%s}" % (r.choice(["", " "]), e, r.choice(["", " "])), d, evs, "block")

    def leaf_lazy(self):
        r = self.rng
        t = self.text()
        q = rstr(t)
        k = r.randrange(7)
        if k == 0:
            e, evs = self.ev(q)
            return Leaf("[%s]" % e, [t], evs, "bracket")
        if k == 1:
            v = r.randrange(1000)
            e, evs = self.ev("%d" % v)
            return Leaf("[%s]" % e, [str(v)], evs, "bracket")
        if k == 2:
            e, evs = self.ev(q)
            return Leaf("[let a = %s; a.to_string()]" % e, [t], evs, "bracket")
        if k == 3:
            e, evs = self.ev(q)
            return Leaf('f["<{}>", %s]' % e, ["<%s>" % t], evs, "fbracket")
        if k == 5:
            t0 = "t%d" % self.uid()
            return Leaf(*r.choice([('f["{{%s}}"]' % t0, ["{%s}" % t0]), ('f["%s"]' % t0, [t0]), ('f["%s{{"]' % t0, [t0 + "{"]), ('f[r"\\{{}}%s"]' % t0, ["\\{}" + t0]),
                                   ('f["{%s:>4}", %s=7]' % (t0, t0), ["   7"])]), [], "fbracket")
        if k == 4:
            e, evs = self.ev("1.5f64")
            return Leaf('f["{:.2}|{}", %s, %s]' % (e, q), ["1.50|" + t], evs, "fbracket")
        e, evs = self.ev("(%s, 3)" % q)
        return Leaf("[%s]" % e, [t, "3"], evs, "bracket")

    def leaf_nested(self, depth):
        """A `mview!` inside an embedded expression."""
        sub = self.children(depth - 1, lo=1)
        s = src_all(sub, self.rng)
        pre = "".join(lets(sub))
        k = self.rng.randrange(3)
        if k == 0:
            return Leaf("{ %s mview! { %s } }" % (pre, s), sub, [], "nested")
        if k == 1:
            return Leaf("[%s mview! { %s }]" % (pre, s), sub, [], "nested")
        return Leaf("{ %s move || mview! { %s }.into_any() }" % ("", pre + s) if not pre else
                    "{ %s mview! { %s }.into_any() }" % (pre, s), sub, [], "nested")

    # -- elements
    def tag(self):
        r, o = self.rng, self.o
        total = o["html"] + o["svg"] + o["math"] + o["custom"]
        x = r.random() * total
        if x < o["html"]:
            if r.random() < 0.12:
                return r.choice(VOID_PLAIN), "html"
            return (r.choice(COMMON_HTML) if r.random() < 0.6 else r.choice(CONTAINER_HTML)), "html"
        x -= o["html"]
        if x < o["svg"]:
            return r.choice(SVG), "svg"
        x -= o["svg"]
        if x < o["math"]:
            return r.choice(MATH), "math"
        return self.custom_tag(), "custom"

    def custom_tag(self):
        r = self.rng
        parts = [r.choice(["my", "x", "leptos", "el", "type", "a", "svg", "div", "xE"])]
        for _ in range(r.randrange(1, 3)):
            parts.append(r.choice(["island", "for", "b2", "2", "thing", "el_", "path", "10a", "circle", "Thing"]))
        return "-".join(parts)

    def children(self, depth, lo=0):
        r = self.rng
        n = r.randrange(lo, self.o["width"] + 1)
        return [self.node(depth) for _ in range(n)]

    def node(self, depth):
        r, o = self.rng, self.o
        self.nodes += 1
        elw = o["html"] + o["svg"] + o["math"] + o["custom"]
        full = self.nodes >= o["max_nodes"]
        ch = [("text", o["text"]), ("expr", o["expr"]), ("lazy", o["lazy"])]
        if depth > 0 and not full:
            ch += [("el", elw), ("nested", o["nested"]), ("comp", o["comp"])]
        x = r.random() * sum(w for _, w in ch)
        for k, w in ch:
            if x < w:
                break
            x -= w
        if k == "text":
            return self.leaf_text()
        if k == "expr":
            return self.leaf_expr()
        if k == "lazy":
            return self.leaf_lazy()
        if k == "nested":
            return self.leaf_nested(depth)
        if k == "comp":
            return self.comp(depth)
        return self.el(depth)

    def el(self, depth):
        tag, kind = self.tag()
        e = El(tag, kind)
        if self.o["attrs"]:
            self.o["attrs"](self, e)
        if tag not in VOID:
            if self.rng.random() < 0.8:
                e.children = self.children(depth - 1)
                if tag in RAW:
                    e.children = []
        if e.children is not None:
            e.paren = self.rng.random() < 0.3
        return e

    def comp(self, depth):
        """A component of the harness that only wraps its children."""
        r = self.rng
        k = r.randrange(4)
        ch = self.children(depth - 1, lo=1)
        if k == 0:
            return Comp("rt::Wrap", lambda c: [plain("section", c)], children=ch, paren=r.random() < 0.3)
        if k == 1:
            return Comp("rt::Frag", lambda c: c, children=ch, paren=r.random() < 0.3)
        if k == 2:
            return Comp("Leaf", lambda c: [plain("i", ["leaf"])], children=None)
        return Comp("rt::parts::Opt", lambda c: [plain("u", c)], children=[] if r.random() < 0.3 else ch)


def template(gen, lo=1):
    """(nodes) of a whole template."""
    n = gen.rng.choice([1, 1, 1, 2, 3, gen.o["width"]])
    return [gen.node(gen.o["depth"]) for _ in range(max(lo, n))]


# ------------------------------------------------------------------ comparison

def tree_diff(exp, got, path="root", attrs=False):
    """First difference between the expected and the rendered tree, or None."""
    for i in range(max(len(exp), len(got))):
        if i >= len(exp):
            return "%s: unexpected extra node %s" % (path, short(got[i]))
        if i >= len(got):
            return "%s: missing node %s" % (path, short(exp[i]))
        e, g = exp[i], got[i]
        if isinstance(e, str) or isinstance(g, str):
            if e != g:
                return "%s: node %d: expected %s, got %s" % (path, i, short(e), short(g))
            continue
        if e.tag.replace("use_", "use") != g.tag:
            return "%s: node %d: expected <%s>, got <%s>" % (path, i, e.tag, g.tag)
        d = tree_diff(e.children, g.children, path + ">" + e.tag, attrs)
        if d:
            return d
    return None


def short(x):
    if isinstance(x, str):
        return repr(x[:60])
    if x is None:
        return "nothing"
    return "<%s>" % x.tag


def pair_up(exp, got):
    """Pairs (expected, rendered) elements of two trees of the same shape."""
    e = [x for x in exp if not isinstance(x, str)]
    g = [x for x in got if not isinstance(x, str)]
    for a, b in zip(e, g):
        yield a, b
        yield from pair_up(a.children, b.children)
