"""Templates that are written once and emitted as they are, or produced by a
declarative macro with some of their parts substituted for fragments.

A template is a string with placeholders \\0N\\1 for its parts.
"""
import re

HOLE = re.compile("\0(\\d+)\1")

DEFS = r'''
#[component] pub fn Panel(#[prop(optional, into)] a: String, #[prop(optional)] num: i32, #[prop(optional)] flag: bool, #[prop(optional, into)] long_name: String, #[prop(optional)] children: Option<Children>) -> impl IntoView {
    leptos::html::section().child(format!("{a}|{num}|{flag}|{long_name}")).child(children.map(|c| c()))
}
#[component] pub fn Each<T: 'static + std::fmt::Debug>(item: T, #[prop(optional)] children: Option<Children>) -> impl IntoView {
    leptos::html::article().child(format!("{item:?} {}", std::any::type_name::<T>())).child(children.map(|c| c()))
}
#[component] pub fn Arg(#[prop(into)] children: rt::Render) -> impl IntoView { leptos::html::nav().child(children.run(7)) }
#[component] pub fn Pair<F: Fn(i32, &'static str) -> AnyView + Send + 'static>(children: F) -> impl IntoView { leptos::html::nav().child(children(3, "two")) }
#[component] pub fn Point<F: Fn((i32, i32)) -> AnyView + Send + 'static>(children: F) -> impl IntoView { leptos::html::nav().child(children((4, 5))) }
#[component] pub fn Lazy<F: Fn() -> &'static str + Send + Sync + 'static>(get: F) -> impl IntoView { leptos::html::i().child(format!("{}", get())).child("lazy") }
#[component] pub fn Many(children: ChildrenFn) -> impl IntoView { (children(), children()) }
#[slot] pub struct Then { #[prop(optional, into)] a: String, #[prop(optional)] children: Option<Children> }
#[slot] pub struct Item { #[prop(optional)] num: i32, children: ChildrenFn }
#[component] pub fn If(then: Then, #[prop(optional)] item: Vec<Item>, #[prop(optional)] children: Option<Children>) -> impl IntoView {
    leptos::html::main().child(then.a).child(then.children.map(|c| c())).child(item.into_iter().map(|i| (i.num, (i.children)()) ).collect::<Vec<_>>()).child(children.map(|c| c()))
}
pub fn direc(_: leptos::tachys::renderer::types::Element, _: &'static str) {}
pub fn direc2(_: leptos::tachys::renderer::types::Element) {}
pub mod deep { pub mod er { pub use super::super::*; } }
'''


class Tpl:
    """One random template."""

    def __init__(self, rng, size=None):
        self.r = rng
        self.holes = []       # (text, fragment kinds)
        self.vars = {}        # name -> hole
        self.lets = []        # (name, value)
        self.params = {}      # closure parameters: name -> hole
        self.n = 0
        self.left = size or rng.choice([3, 6, 10])
        self.body = self.nodes(rng.randint(1, 3), 0)
        words = set(re.findall(r"\w+", self.flat().replace("-", "_")))
        self.lets = [l for l in self.lets if l[0] in words]

    def hole(self, text, *kinds):
        self.holes.append((text, list(kinds)))
        return "\0%d\1" % (len(self.holes) - 1)

    def uid(self):
        self.n += 1
        return self.n

    def name(self):
        """A variable whose name means nothing: see rename."""
        return "q%d" % self.uid()

    def ident(self, s):
        return self.hole(s, "ident", "tt")

    # --- variables -------------------------------------------------------
    def var(self, value, ident=None):
        """A variable of the function around the template."""
        r = self.r
        same = [n for n, v in self.lets if n[0] == "q" and v.split("(")[0] == value.split("(")[0] and value.startswith('"')]
        if same and r.random() < 0.4 and ident is None:
            return self.vars[r.choice(same)]
        n = ident or self.name()
        self.lets.append((n, value))
        self.vars[n] = self.hole(n, "ident", "tt")
        return self.vars[n]

    def s(self):
        return '"s%d"' % self.uid()

    def expr(self, own=True):
        """An expression of type &'static str."""
        r = self.r
        k = r.randrange(8)
        if k <= 2:
            t = self.var(self.s())
        elif k == 3:
            t = "if %s == 1 { %s } else { %s }" % (self.number(), self.var(self.s()), self.string())
        elif k == 4:
            t = "rt::ident(%s)" % self.var(self.s())
        elif k == 5:
            b = "b%d" % self.uid()
            t = "{ let %s = %s; %s }" % (b, self.var(self.s()), b)
        elif k == 6:
            b = "b%d" % self.uid()
            t = "(|%s: &'static str| %s)(%s)" % (b, b, self.var(self.s()))
        else:
            t = self.string()
        return self.hole(t, "expr") if own else t

    def string(self):
        return self.hole(self.s() if self.r.random() < 0.8 else 'r#%s#' % self.s(), "literal", "tt")

    def number(self):
        return self.hole(str(self.r.randint(0, 3)), "literal", "tt")

    def boolean(self):
        r = self.r
        return r.choice([self.hole(r.choice(["true", "false"]), "literal", "ident", "tt"), self.hole("{ %s == 1 }" % self.number(), "block", "tt"),
                         "{%s}" % self.hole("1 < 2", "expr")])

    def value(self, kinds="lbcf"):
        """The value of an attribute: literal, block, closure or format."""
        r = self.r
        k = r.choice(kinds)
        if k == "l":
            return r.choice([self.string, self.string, lambda: self.hole(r.choice(["1", "2.5", "true", "'c'", "7"]), "literal", "tt")])() if kinds != "s" else self.string()
        if k == "s":
            return self.string()
        if k == "b":
            return self.hole("{ %s }" % self.expr(), "block", "tt")
        if k == "c":
            return r.choice(["[%s]" % self.expr(), self.hole("[ %s ]" % self.expr(), "tt")])
        return self.fmt()

    def fmt(self):
        r = self.r
        n = r.randint(0, 2)
        if n == 0:
            return "f[%s]" % self.string()
        return "f[%s%s]" % (self.hole('"%s"' % " ".join(["{}"] * n), "literal", "tt"), "".join(", " + self.expr() for _ in range(n)))

    # --- attributes ------------------------------------------------------
    def el_attrs(self):
        r = self.r
        out, used = [], set()

        def once(k):
            if k in used:
                return False
            used.add(k)
            return True
        for _ in range(r.choice([0, 1, 2, 4])):
            k = r.randrange(12)
            if k == 0:
                n = "data-%s" % r.choice("abcdefgh")
                if once(n):
                    out.append("data-%s=%s" % (self.ident(n[5:]), self.value()))
            elif k == 1:
                n = r.choice(["title", "lang", "dir", "slot"])
                if once(n):
                    out.append("%s=%s" % (self.ident(n), self.value("sbcf")))
            elif k == 2 and once("hidden"):
                out.append(self.ident("hidden"))
            elif k == 3:
                n = "c%d" % self.uid()
                out.append("class:%s=%s" % (self.ident(n) if r.random() < 0.5 else self.hole('"%s"' % n, "literal", "tt"), self.boolean()))
            elif k == 4:
                out.append("%s:%s=%s" % (self.ident("style"), self.ident(r.choice(["color", "top"])), self.value("sbc")))
            elif k == 5:
                ev = r.choice(["click", "input", "keydown"])
                out.append("on:%s={%s}" % (self.ident(ev), self.hole("rt::handler::<%d, _>" % self.uid(), "expr")))
            elif k == 6:
                out.append("prop:%s=%s" % (self.ident("value"), self.value("sb")))
            elif k == 7:
                out.append("use:%s" % self.ident("direc2") if r.random() < 0.5 else "use:%s=%s" % (self.ident("direc"), r.choice([self.string(), "{%s}" % self.expr()])))
            elif k == 8:
                out.append("{..%s}" % self.hole("leptos::tachys::html::attribute::custom::custom_attribute(\"data-sp%d\", %s)" % (self.uid(), self.s()), "expr"))
            elif k == 9 and once("ref"):
                out.append("ref={%s}" % self.var("NodeRef::new()"))
            elif k == 10:
                # the words of one name come from one place
                n = "alt%d" % self.uid()
                self.lets.append(("data_" + n, self.s()))
                self.vars["data_" + n] = self.hole("{data-%s}" % n, "tt")
                out.append(self.vars["data_" + n])
            elif k == 11:
                n = r.choice(["title", "lang", "dir", "slot"])
                if once(n):
                    if n not in self.vars:
                        self.lets.append((n, self.s()))
                        self.vars[n] = self.hole(n, "ident", "tt")
                    out.append("{%s}" % self.vars[n])
        return out

    def selectors(self):
        r = self.r
        out = []
        if r.random() < 0.4:
            for _ in range(r.randint(1, 2)):
                out.append(".k-%s" % self.ident("c%d" % self.uid()))
        if r.random() < 0.2:
            out.append(" #%s" % self.ident("id%d" % self.uid()))
        return "".join(out)

    # --- nodes -----------------------------------------------------------
    def nodes(self, n, depth):
        out = []
        for _ in range(n):
            out.append(self.node(depth))
        return "\n".join(out)

    def text(self):
        r = self.r
        return r.choice([self.string, self.string, lambda: "{%s}" % self.expr(), lambda: self.hole("{ %s }" % self.expr(), "block", "tt"), lambda: "[%s]" % self.expr(), self.fmt])()

    def kids(self, depth):
        r = self.r
        if r.random() < 0.15:
            return ";"
        t = self.nodes(r.randint(0, 2), depth + 1)
        a, z = r.choice([("{", "}"), ("{", "}"), ("(", ")")])
        t = "%s %s %s" % (a, t, z)
        return self.hole(t, "tt") if r.random() < 0.1 and "slot:" not in t else t

    def node(self, depth):
        r = self.r
        self.left -= 1
        if self.left <= 0 or depth > 3:
            return self.text()
        k = r.randrange(12)
        if k <= 1:
            return self.text()
        if k <= 5:
            tag = r.choice(["div", "p", "span", "b", "ul"])
            t = self.ident(tag)
            if r.random() < 0.2:
                t = "%s-%s" % (self.ident("my"), self.ident("el%d" % self.uid()))
            return "%s%s %s %s" % (t, self.selectors(), " ".join(self.el_attrs()), self.kids(depth))
        return self.comp(depth)

    def path(self, name):
        r = self.r
        k = r.randrange(5)
        if k <= 1:
            return self.hole(name, "ident", "tt", "path", "ty")
        full = r.choice(["deep::er::" + name, "self::" + name])
        if k <= 3:
            return self.hole(full, "path", "ty")
        return "%s::er::%s" % (self.ident("deep"), self.ident(name))

    def clones(self):
        r = self.r
        return ["clone:%s" % self.var("String::from(%s)" % self.s(), ident=None) for _ in range(r.choice([0, 0, 1]))]

    def comp(self, depth):
        r = self.r
        k = r.randrange(7)
        if k <= 1:
            at = [x for x in ["a=%s" % self.value("sb"), "num=%s" % r.choice([self.number(), "{%s}" % self.hole("1 + 1", "expr")]), "flag" if r.random() < 0.5 else "flag=%s" % self.boolean(),
                              "%s-%s=%s" % (self.ident("long"), self.ident("name"), self.value("sb"))] if r.random() < 0.5]
            r.shuffle(at)
            return "%s %s %s" % (self.path("Panel"), " ".join(at), self.kids(depth))
        if k == 2:
            ty, val = r.choice([("i32", self.number), ("u8", self.number), ("&'static str", self.string), ("Option<u8>", lambda: "{%s}" % self.hole("None", "expr"))])
            g = r.choice([self.hole(ty, "ty"), self.hole(ty, "ty"), ty])
            p = self.hole("Each", "ident", "tt") if r.random() < 0.5 else "deep::er::Each"
            return "%s%s<%s> item=%s %s" % (p, r.choice(["", "::"]), g, val(), self.kids(depth))
        if k == 3:
            n = self.name()
            h = self.hole(n, "ident", "tt")
            form = r.randrange(4)
            if form == 0:
                return "%s |%s: %s| { {%s} %s }" % (self.path("Arg"), h, self.hole("i32", "ty", "ident", "tt"), h, self.text())
            if form == 1:
                return "%s |%s: i32| { %s { {%s} } }" % (self.path("Arg"), h, self.ident("em"), h)
            if form == 2:
                return "%s |%s| { %s [%s] }" % (self.path("Arg"), h, self.text(), "%s" % h)
            return "%s |%s| { {%s + %s} }" % (self.path("Arg"), self.hole("_", "pat"), self.number(), self.number())
        if k == 4:
            then = "slot:%s a=%s %s" % (self.ident("Then"), self.value("sb"), self.kids(depth))
            items = ["slot:%s num=%s { %s }" % (self.ident("Item"), self.number(), self.text()) for _ in range(r.choice([0, 0, 1, 2]))]
            rest = [self.text() for _ in range(r.choice([0, 1]))]
            xs = [then] + items + rest
            return "%s { %s }" % (self.path("If"), " ".join(xs))
        if k == 5:
            return "%s get=[%s];" % (self.path("Lazy"), self.expr())
        v = self.var("String::from(%s)" % self.s(), ident=self.name())
        # `clone:` makes a copy, so that the children can be asked for twice
        return "%s clone:%s { {%s.clone()} %s }" % (self.path("Many"), v, v, self.text())

    # --- emission --------------------------------------------------------
    def flat(self, text=None):
        """The template as it is."""
        t = self.body if text is None else text
        while "\0" in t:
            t = HOLE.sub(lambda m: self.holes[int(m.group(1))][0], t)
        return t

    def split(self, rng, share, force=()):
        """(template with metavariables, [(name, fragment, text)])"""
        chosen, args = {}, []
        forced = set(force)

        def one(m):
            i = int(m.group(1))
            if i in chosen:
                return chosen[i]
            text, kinds = self.holes[i]
            if i in forced or (kinds and rng.random() < share):
                frag = rng.choice(kinds)
                if frag == "tt" and len(text.split()) > 1 and text[0] not in "{[(":
                    frag = kinds[0]
                # the text of the fragment is the caller's
                name = "$v%d" % len(args)
                args.append((name, frag, self.flat(text)))
                chosen[i] = name
            else:
                chosen[i] = HOLE.sub(one, text)
            return chosen[i]
        return HOLE.sub(one, self.body), args


def macro(tpl, rng, share=0.5, depth=None, module=False):
    """(macro definitions, the call) that produce the template."""
    body, args = tpl.split(rng, share, force=[int(HOLE.match(h).group(1)) for h in tpl.vars.values()] if module else ())
    depth = rng.choice([0, 0, 1, 2]) if depth is None else depth
    o = rng.choice(["mview! { %s }", "leptos_mview::mview!( %s )", "mview![ %s ]", "::leptos_mview::mview! { %s }"])
    defs = ["macro_rules! tpl0 { (%s) => { %s } }" % (" ".join("{ %s:%s }" % (n, f) for n, f, _ in args), o % body)]
    for d in range(depth):
        how = rng.randrange(3)
        if how == 0:
            defs.append("macro_rules! tpl%d { ($($t:tt)*) => { tpl%d! { $($t)* } } }" % (d + 1, d))
        else:
            defs.append("macro_rules! tpl%d { (%s) => { tpl%d! { %s } } }" % (d + 1, " ".join("{ %s:%s }" % (n, f) for n, f, _ in args), d, " ".join("{ %s }" % n for n, _, _ in args)))
    return "\n".join(defs), "tpl%d! { %s }" % (depth, " ".join("{ %s }" % t for _, _, t in args)), args


def rename(text, to):
    return re.sub(r"\bq\d+\b", lambda m: to.get(m.group(0), m.group(0)), text)
