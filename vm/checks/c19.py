"""C19: a template behaves like the one written with Leptos' own view!."""
import os
from collections import Counter

from .. import attrs, html, render, tgen
from ..check import Run
from .c04 import norm_ev
from .c16 import logs

DEFS = r'''
#[component] pub fn Card(#[prop(optional, into)] title: String, #[prop(optional)] num: i32, #[prop(optional)] wide: bool, #[prop(optional, into)] long_name: Option<String>, #[prop(optional, into)] r#type: String, #[prop(optional)] children: Option<Children>) -> impl IntoView {
    rt::mark(&format!("Card {title}|{num}|{wide}|{long_name:?}|{type}", r#type = r#type));
    leptos::html::section().class("card").child(children.map(|c| c()))
}
#[component] pub fn Gen<T: 'static + std::fmt::Debug>(item: T, #[prop(optional)] children: Option<Children>) -> impl IntoView { leptos::html::article().child(format!("{item:?} {}", std::any::type_name::<T>())).child(children.map(|c| c())) }
#[component] pub fn Lazy<F: Fn() -> String + Send + Sync + 'static>(get: F) -> impl IntoView { leptos::html::i().child(get()).child(get()) }
#[component] pub fn Many(children: ChildrenFn) -> impl IntoView { leptos::html::div().child((children(), children())) }
#[component] pub fn Typed<C: RenderHtml + Send + 'static>(children: TypedChildren<C>) -> impl IntoView { leptos::html::div().child(children.into_inner()()) }
#[component] pub fn TypedMany<C: RenderHtml + Send + 'static>(children: TypedChildrenFn<C>) -> impl IntoView { let c = children.into_inner(); leptos::html::div().child((c(), c())) }
#[component] pub fn Ask(#[prop(into)] children: rt::Render, #[prop(default = 3)] from: i32) -> impl IntoView { leptos::html::nav().child(children.run(from)).child(children.run(from + 1)) }
#[component] pub fn Pair<V: IntoView + 'static, F: Fn((i32, &'static str)) -> V + 'static>(children: F) -> impl IntoView { leptos::html::nav().child(children((4, "four"))).child(children((5, "five"))) }
#[slot] pub struct Then { #[prop(optional, into)] title: String, #[prop(optional)] is_on: bool, #[prop(optional)] children: Option<Children> }
#[slot] pub struct ElseIf { #[prop(default = 1)] cond: i32, #[prop(optional)] children: Option<ChildrenFn> }
#[slot] pub struct Row { #[prop(into)] children: rt::Render }
#[component] pub fn If(then: Then, #[prop(optional)] else_if: Vec<ElseIf>, #[prop(optional)] row: Option<Row>, #[prop(optional)] children: Option<Children>) -> impl IntoView {
    rt::mark(&format!("If {} {}", then.title, then.is_on));
    leptos::html::main().child(then.children.map(|c| c()))
        .child(else_if.into_iter().map(|e| leptos::html::p().child(e.cond).child(e.children.map(|c| (c(), c())))).collect::<Vec<_>>())
        .child(row.map(|r| (r.children.run(1), r.children.run(2))))
        .child(children.map(|c| c()))
}
#[component] pub fn Two() -> impl IntoView { (leptos::html::ul(), leptos::html::ol().class("two")) }
pub mod deep { pub use super::*; }
'''
HTML_TAGS = ["div", "p", "span", "ul", "li", "strong", "section", "a", "button", "label", "pre", "form", "h1", "main", "input", "br", "img", "hr"]
SVG_TAGS = ["svg", "g", "circle", "path"]
MATH_TAGS = ["math", "mi", "mrow"]
WIDE = ["data-type", "hx-get", "accept-charset", "x-foo", "aria-x"][:4]
CUSTOM_TAGS = ["my-el", "x-y-z"]
GLOBAL = ["title", "lang", "id", "tabindex", "role"]
BUILTIN = ["Show", "For", "ForEnumerate", "ErrorBoundary", "Suspense", "Transition", "Await"]
EVENTS = ["click", "input", "keydown", "focus", "dblclick", "change"]


class Both:
    """A random template in both syntaxes: every method gives a pair (mview!, view!)."""

    def __init__(self, rng):
        self.r, self.n, self.kinds, self.lets, self.args = rng, 0, Counter(), [], []
        self.left = rng.choice([3, 8, 16])
        self.max = rng.choice([2, 3, 4])
        ns = [self.node(0, False) for _ in range(rng.choice([1, 1, 2, 3]))]
        self.mview, self.view = (" ".join(n[i] for n in ns) for i in (0, 1))

    def uid(self):
        self.n += 1
        return self.n

    def kind(self, k):
        self.kinds[k] += 1

    def text(self):
        r = self.r
        return tgen.rstr("%s%d%s" % (r.choice(["", "", " ", "\n", "{{", "a<b ", "&amp; ", "é", "{}", "'q' "]), self.uid(), r.choice(["", "", "  ", " </p>", "\"", "\n", "\n\n", "\t", "}", "{x}", "\\"])))

    def expr(self):
        r = self.r
        return r.choice(["rt::ev(%d, %s)", "rt::ev(%d, %s).to_string()"]) % (self.uid(), tgen.rstr("v%d" % self.uid()))

    def lazy(self, e=None):
        """A closure."""
        k = self.r.randrange(3 if e is None else 2)
        e = e or self.expr()
        self.kind("closures")
        if k == 0:
            return "[%s]" % e, "{move || %s}" % e
        if k == 1:
            return "{move || %s}" % e, "{move || %s}" % e
        if self.r.random() < 0.3:
            f = self.r.choice(['"{{%d}}"', '"%d"', '"%d {{"', 'r"\\{{%d"', '"{:>4}", %d']) % self.uid()
            return "f[%s]" % f, "{move || format!(%s)}" % f
        f = '"%d {} {{}}", %s' % (self.uid(), e)
        return "f[%s]" % f, "{move || format!(%s)}" % f

    def value(self, lazy=True):
        k = self.r.randrange(3 if lazy else 2)
        if k == 0:
            t = self.text()
            return t, t
        if k == 1:
            e = self.expr()
            return "{%s}" % e, "{%s}" % e
        return self.lazy()

    def boolean(self, lazy=True):
        e = self.r.choice(["true", "false"])
        k = self.r.randrange(3 if lazy else 2)
        if k == 0:
            return e, e
        e = "rt::ev(%d, %s)" % (self.uid(), e)
        if k == 1:
            return "{%s}" % e, "{%s}" % e
        return self.lazy(e)

    def handler(self):
        h = "rt::handler::<%d, _>" % self.uid()
        return "{%s}" % h, "{%s}" % h

    def eq(self, key, v, vkey=None):
        return "%s=%s" % (key, v[0]), "%s=%s" % (vkey or key, v[1])

    # --- what elements and components share ------------------------------
    def directives(self, attr, used, many=5):
        """class:, style:, prop:, on:, use: and, with `attr`, attr: directives."""
        r = self.r
        out = []
        for _ in range(r.randrange(many)):
            k = r.randrange(6) if not self.hidden else r.choice([0, 1, 5])
            if k == 0:
                self.kind("class:")
                out.append(self.eq("class:%s%d" % (r.choice(["c", "a-b", "x_", "Big-", "c-2x-d", "hover-", "type-"]), self.uid()), self.boolean()))
            elif k == 1:
                self.kind("style:")
                n = r.choice(["color", "margin-left", "top", "z-index", "max_w", "grid_a_b", "float", "background-color", "border-top-left-radius", "order"])
                if n not in used:
                    used.add(n)
                    out.append(self.eq("style:" + n, self.value()))
            elif k == 2:
                self.kind("prop:")
                p = r.choice(["value", "checked", "selectedIndex", "innerHTML", "disabled", "data-x", "a_b", "scroll-top"])
                if p not in used:
                    used.add(p)
                    g = "rt::getter::<%d>" % self.uid()
                    out.append(self.eq("prop:" + p, ("{%s}" % g,) * 2))
            elif k == 3:
                self.kind("on:")
                e = r.choice(EVENTS if r.random() < 0.4 else attrs.EVENTS)
                if e not in used:
                    used.add(e)
                    und = ":undelegated" if r.random() < 0.2 else ""
                    out.append(self.eq("on:" + e + und, self.handler()))
            elif k == 4:
                self.kind("use:")
                d = r.choice(["bare", "conv", "unit", "val"])
                n = self.uid()
                self.lets.append("let dir%d = rt::directive_%s::<%d>;" % (n, d, n))
                if d == "bare":
                    # view! takes an element with nothing else for static text
                    out.append(("use:dir%d" % n, "use:dir%d={()}" % n))
                elif d == "unit":
                    out.append(self.eq("use:dir%d" % n, ("{rt::Unit::<%d>::from(())}" % n,) * 2))
                elif d == "conv":
                    out.append(self.eq("use:dir%d" % n, ("{rt::Conv::<%d>::from(rt::Raw)}" % n,) * 2))
                else:
                    out.append(self.eq("use:dir%d" % n, (r.choice(["{rt::Val::<%d>::from(\"p\")}", "{rt::Val::<%d>::from(3)}"]) % n,) * 2))
            elif k == 5 and attr:
                self.kind("attr:")
                a = r.choice(["title", "lang", "id"] if r.random() < 0.4 else attrs.CHECKED_KEYS + attrs.CUSTOM_KEYS)
                if a not in used:
                    used.add(a)
                    out.append(self.eq("attr:" + a, self.value()))
        return out

    def spread(self, used):
        self.kind("spread")
        n = self.uid()
        s = self.r.choice(["leptos::attr::custom::custom_attribute(\"data-s%d\", \"%d\")" % (n, n), "leptos::attr::custom::custom_attribute(\"data-t%d\", true)" % n, "(leptos::ev::on(leptos::ev::submit, rt::handler::<%d, _>), leptos::attr::custom::custom_attribute(\"data-u%d\", \"\"))" % (n, n)])
        self.lets.append("let spread%d = %s;" % (n, s))
        return "{..spread%d}" % n, "{..spread%d}" % n

    def node_ref(self, ty):
        self.kind("ref")
        n = self.uid()
        self.lets.append("let nr%d = NodeRef::<leptos::%s>::new();" % (n, ty))
        return "ref={nr%d}" % n, "node_ref={nr%d}" % n

    # --- nodes -----------------------------------------------------------
    # Whether what is being made is in a closure, whose type does not tell what is attached.
    hidden = False
    # Whether there is something that renders in time only.
    waits = False

    def hidden_children(self, *args, **kw):
        was, self.hidden = self.hidden, True
        ns = self.children(*args, **kw)
        self.hidden = was
        return ns

    def children(self, depth, many, args=(), lo=0, tokens=()):
        """`many`: the children may be rendered more than once, so they are all Fn."""
        r = self.r
        ns = [self.node(depth + 1, many) for _ in range(r.choice([lo, 1, 1, 2, 3]))]
        for a in args:
            self.kind("closure arguments used")
            ns.insert(r.randint(0, len(ns)), ("{%s}" % a,) * 2)
        for t in tokens:
            ns.insert(r.randint(0, len(ns)), ("{%s.show()}" % t,) * 2)
        return ns

    def block(self, ns, par=True):
        m = " ".join(n[0] for n in ns)
        v = " ".join(n[1] for n in ns)
        return (("(%s)" if par and self.r.random() < 0.3 else " { %s }") % m), v

    def leaf(self):
        k = self.r.randrange(5)
        if k == 0:
            return self.lazy()
        if k == 1:
            e = self.expr()
            return "{%s}" % e, "{%s}" % e
        if k == 2:
            e = self.r.choice(["Some(\"o%d\")", "None::<&str>.or(Some(\"%d\"))", "vec![1, %d]", "(1, \"t%d\")", "%d", "Ok::<_, std::fmt::Error>(\"%d\")", "leptos::html::b().child(%d)", "view! { <i>%d</i> }"]) % self.uid()
            return "{%s}" % e, "{%s}" % e
        t = self.text()
        return t, t

    def node(self, depth, many):
        self.left -= 1
        k = self.r.randrange(14)
        if depth >= self.max or self.left < 0 or k < 2:
            return self.leaf()
        return self.element(depth, many) if k < 8 else self.component(depth, many) if k < 12 else self.conditional(depth, many) if k == 12 else self.nested(depth, many)

    def nested(self, depth, many):
        """A template in an expression."""
        self.kind("nested templates")
        n = self.node(depth + 1, many)
        return "{mview! { %s }}" % n[0], "{view! { %s }}" % n[1]

    def element(self, depth, many):
        r = self.r
        self.kind("elements")
        lang = r.choice(["html"] * 6 + ["svg", "math", "custom"])
        tag = r.choice({"html": HTML_TAGS, "svg": SVG_TAGS, "math": MATH_TAGS, "custom": CUSTOM_TAGS}[lang])
        if r.random() < 0.5:
            # any that Leptos has; `a`, `script` and `title` have the language of their parent in view!
            tag = r.choice({"html": [t for t in tgen.CONTAINER_HTML if t not in ("title",)], "svg": tgen.SVG, "math": tgen.MATH,
                            "custom": ["a-b", "my-el-2", "x-y_z", "svg-icon", "p-q", "font-size"]}[lang])
        if tag == "use":
            tag = "use_"
        self.kind(lang)
        at, used, sel = [], set(), ""
        vat = []
        if r.random() < 0.3:
            # selectors are attributes in view!
            cs = ["s%d%s" % (self.uid(), r.choice(["", "-x", "_y"])) for _ in range(r.randrange(3))]
            sel = "".join("." + c for c in cs)
            if r.random() < 0.4:
                i = "i%d" % self.uid()
                sel += " #" + i
                vat.append('id="%s"' % i)
                used.add("id")
            if cs:
                vat.append('class="%s"' % " ".join(cs) if r.random() < 0.7 else " ".join("class:%s=true" % c for c in cs))
                used.add("class")
            self.kind("selectors")
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            n = r.choice(GLOBAL + ["data-x", "data-a-b", "aria-label", "class", "style"] + {"input": ["value", "name", "type"], "a": ["href"], "img": ["src", "alt"]}.get(tag, []))
            if r.random() < 0.4:
                n = r.choice({"html": attrs.GLOBAL + tgen.HTML.get(tag, []), "svg": attrs.SVG_NAMES, "math": attrs.GLOBAL + tgen.TABLES["math"].get(tag, []),
                              "custom": attrs.CUSTOM_NAMES}[lang] + attrs.ARIA + WIDE)
            if n in used or {n} & {"style", "class"} and lang == "custom":
                continue
            used.add(n)
            self.kind("attributes")
            if n == "style":
                at.append(self.eq(n, ('"width: 1px; left: %dpx"' % self.uid(),) * 2))
            elif n == "class":
                at.append(self.eq(n, r.choice([("\"u v\"",) * 2, self.lazy('"u w".to_string()')])))
            else:
                at.append(self.eq(n, self.value()))
        if r.random() < 0.3:
            n = r.choice(["hidden", "inert", "data-flag", "autofocus"] if lang in ("html", "custom") else ["data-flag"])
            k = r.randrange(3)
            self.kind("boolean")
            if lang == "custom" and n == "autofocus":
                n = "hidden"
            at.append((n, n + "=true" if r.random() < 0.3 or "-" in n or True else n) if k == 0 else self.eq(n, self.boolean(lazy=False)))
        if r.random() < 0.1 and "inner_html" not in used and tag not in ("input", "br", "img", "hr"):
            e = '"<b>%d</b>".to_string()' % self.uid()
            at.append(self.eq("inner_html", ("{%s}" % e,) * 2 if lang == "custom" or r.random() < 0.7 else self.lazy(e)))
            used.add("inner_html")
            self.kind("inner_html")
        at += self.directives(False, used, r.choice([1, 2, 4]))
        if r.random() < 0.1 and not many and not self.hidden:
            at.append(self.spread(used))
        if r.random() < 0.1 and lang == "html" and not self.hidden:
            at.append(self.node_ref("html::" + tag.capitalize()))
        r.shuffle(at)
        ma, va = " ".join(a[0] for a in at), " ".join(vat + [a[1] for a in at])
        if tag in ("input", "br", "img", "hr") or "inner_html" in used:
            return "%s%s %s;" % (tag, sel, ma), "<%s %s></%s>" % (tag, va, tag) if "inner_html" in used else "<%s %s/>" % (tag, va)
        ns = self.children(depth, many)
        if not ns and r.random() < 0.5:
            return "%s%s %s;" % (tag, sel, ma), "<%s %s></%s>" % (tag, va, tag)
        m, v = self.block(ns, par=not ma)
        if tag == "textarea":
            m, v = " { }", ""
        return "%s%s %s%s" % (tag, sel, ma, m), "<%s %s>%s</%s>" % (tag, va, v, tag)

    def comp(self, name, props, ns=None, bind=None, many=True, clones=()):
        """A use of a component."""
        r = self.r
        self.kind("components")
        p = name if "::" in name else r.choice([name] * 3 + (["leptos::prelude::" + name] if name in BUILTIN else ["deep::" + name, "self::" + name]))
        if "<" in name:
            self.kind("generic components")
        at = list(props) + [("clone:" + c,) * 2 for c in clones]
        dirs, sel, vsel = [], "", []
        if r.random() < 0.4:
            used = set()
            if r.random() < 0.4:
                c = "k%d" % self.uid()
                sel += "." + c
                vsel.append("class:%s=true" % c)
            if r.random() < 0.2:
                i = "i%d" % self.uid()
                sel += " #" + i
                vsel.append("attr:id=\"%s\"" % i)
                used.add("id")
            was, self.hidden = self.hidden, self.hidden or name in BUILTIN
            dirs = self.directives(True, used, 4)
            if r.random() < 0.15 and not many and not self.hidden:
                dirs.append(self.spread(used))
            self.hidden = was
            self.kind("decorated components")
        r.shuffle(at)
        ma, va = " ".join(a[0] for a in at + dirs), " ".join([a[1] for a in at] + vsel + [a[1] for a in dirs])
        if isinstance(bind, tuple):
            ma += " |%s|" % ", ".join(bind)
            va += " let(%s)" % ", ".join(bind)
        elif bind:
            ma += " |%s|" % bind
            va += " let(%s)" % bind if not bind.isidentifier() or r.random() < 0.5 else " let:%s" % bind
            self.kind("closure arguments")
        if ns is None:
            return "%s%s %s;" % (p, sel, ma), "<%s %s/>" % (p, va)
        m, v = self.block(ns, par=not ma)
        vp = p if "<" not in p else p
        return "%s%s %s%s" % (p, sel, ma, m), "<%s %s>%s</%s>" % (p, va, v, p)

    def card_props(self):
        r = self.r
        out = []
        if r.random() < 0.4:
            out.append(self.eq("title", self.value(lazy=False)))
        if r.random() < 0.3:
            out.append(self.eq("num", r.choice([("3", "3"), ("{1 + 2}", "{1 + 2}"), ("{rt::ev(%d, 8)}" % self.uid(),) * 2])))
        if r.random() < 0.3:
            out.append(("wide", "wide=true") if r.random() < 0.5 else self.eq("wide", self.boolean(lazy=False)))
        if r.random() < 0.3:
            out.append(self.eq("long-name", self.value(lazy=False), "long_name"))
        if r.random() < 0.3:
            out.append(self.eq("type", self.value(lazy=False), "r#type"))
        return out

    def token(self):
        n = self.uid()
        self.lets.append("let tok%d = rt::Tok(%d);" % (n, n))
        return "tok%d" % n

    def builtin(self, depth, many):
        """The components of Leptos itself."""
        r = self.r
        k = r.choice(BUILTIN + ["Provider"])
        toks = [self.token() for _ in range(r.choice([0, 0, 0, 1]))] if not many and self.clonable else []
        self.kind("<%s>" % k)
        self.waits |= k in ("Suspense", "Transition", "Await")
        fallback = [self.eq("fallback", r.choice([self.lazy('"f%d"' % self.uid()), self.lazy(self.nested_expr(depth))]))]
        if k == "Show":
            return self.comp(k, [self.eq("when", self.lazy("rt::ev(%d, %s)" % (self.uid(), r.choice(["true", "true", "1 > 2"]))))] + (fallback if r.random() < 0.6 else []),
                             self.hidden_children(depth, True, lo=1, tokens=toks), clones=toks, many=many)
        if k in ("For", "ForEnumerate"):
            x, i = "x%d" % self.uid(), "i%d" % self.uid()
            each = self.eq("each", self.lazy(r.choice(["vec![1, 2, 3]", "0..2", "rt::ev(%d, [7, 8])" % self.uid(), "Vec::<i32>::new()"])))
            key = self.eq("key", ("{%s}" % r.choice(["|k| *k", "|k: &i32| k.to_string()", "Clone::clone"]),) * 2)
            if k == "For":
                return self.comp(k, [each, key], self.hidden_children(depth, True, [x] * r.randrange(3), lo=1, tokens=toks), bind=x, clones=toks, many=many)
            return self.comp(k, [each, key], self.hidden_children(depth, True, [x, "move || %s.get()" % i], lo=1), bind=(i, x), many=many)
        if k == "ErrorBoundary":
            e = "{Err::<&'static str, std::fmt::Error>(std::fmt::Error)}"
            ns = self.hidden_children(depth, True, lo=1, tokens=toks) + ([(e, e)] if r.random() < 0.5 else [])
            return self.comp(k, [self.eq("fallback", ("{|errors| format!(\"{} bad\", errors.get().into_iter().count())}",) * 2)], ns, clones=toks, many=many)
        if k in ("Suspense", "Transition"):
            return self.comp(k, fallback if r.random() < 0.7 else [], self.hidden_children(depth, True, lo=1, tokens=toks), clones=toks, many=many)
        if k == "Await":
            x = "x%d" % self.uid()
            return self.comp(k, [self.eq("future", ("{async { rt::ev(%d, 5) }}" % self.uid(),) * 2)] + ([("blocking", "blocking=true")] if r.random() < 0.5 else []),
                             self.hidden_children(depth, True, ["*" + x] * r.randrange(3), lo=1), bind=x, many=many)
        return self.comp("leptos::context::Provider", [self.eq("value", r.choice([("{3u64}",) * 2, ("true", "true"), ('"ctx"', '"ctx"')]))],
                         self.children(depth, many, lo=1, tokens=toks), clones=toks, many=many)

    def nested_expr(self, depth):
        self.kind("nested templates")
        return "leptos::html::em().child(rt::ev(%d, 1))" % self.uid()

    def component(self, depth, many):
        r = self.r
        k = r.randrange(12)
        if k > 8:
            return self.builtin(depth, many)
        toks = [self.token() for _ in range(r.choice([0, 0, 0, 1, 2]))] if not many and self.clonable else []
        if toks:
            self.kind("clone:")
        if k <= 1:
            if r.random() < 0.3:
                return self.comp("Card", self.card_props())
            return self.comp("Card", self.card_props(), self.children(depth, many, lo=1, tokens=toks), clones=toks, many=many)
        if k == 2:
            t, v = r.choice([("i32", "1"), ("String", '{"g".to_string()}'), ("u8", "{7}"), ("bool", "{!false}")])
            if r.random() < 0.5:
                return self.comp("Gen<%s>" % t, [("item=" + v,) * 2])
            return self.comp("Gen<%s>" % t, [("item=" + v,) * 2], self.children(depth, many, lo=1))
        if k == 3:
            e = self.lazy("rt::ev(%d, \"x\".to_string())" % self.uid())
            return self.comp("Lazy", [self.eq("get", e)], many=many)
        if k == 4:
            return self.comp(r.choice(["Many", "TypedMany"]), [], self.children(depth, True, lo=1, tokens=toks), clones=toks, many=many)
        if k == 5:
            return self.comp("Typed", [], self.children(depth, many, lo=1, tokens=toks), clones=toks, many=many)
        if k == 6:
            x = "x%d" % self.uid()
            return self.comp("Ask", r.choice([[], [self.eq("from", ("9", "9"))]]), self.children(depth, True, [x] * r.randrange(3), lo=1), bind=x)
        if k == 7:
            x, y = "x%d" % self.uid(), "y%d" % self.uid()
            return self.comp("Pair", [], self.children(depth, True, [x, y]), bind="(%s, %s)" % (x, y))
        return self.comp("Two", [], many=many)

    clonable = True

    def slot(self, name, props, ns, bind=None):
        self.kind("slots")
        at = [p for p in props]
        ma, va = " ".join(a[0] for a in at), " ".join(a[1] for a in at)
        if bind:
            ma += " |%s|" % bind
            va += " let:%s" % bind
        how = self.r.choice(["slot", "slot:" + "".join(("_" if c.isupper() and i else "") + c.lower() for i, c in enumerate(name))])
        if ns is None:
            return "slot:%s %s;" % (name, ma), "<%s %s %s/>" % (name, how, va)
        m, v = self.block(ns, par=not ma)
        return "slot:%s %s%s" % (name, ma, m), "<%s %s %s>%s</%s>" % (name, how, va, v, name)

    def conditional(self, depth, many):
        r = self.r
        props = []
        if r.random() < 0.5:
            props.append(self.eq("title", self.value(lazy=False)))
        if r.random() < 0.3:
            props.append(("is-on", "is_on=true"))
        ns = [self.slot("Then", props, self.children(depth + 1, many, lo=1) if r.random() < 0.8 else None)]
        for i in range(r.choice([0, 0, 1, 2, 3])):
            ns.append(self.slot("ElseIf", [self.eq("cond", ("%d" % i,) * 2)] if r.random() < 0.6 else [], self.children(depth + 1, True, lo=1) if r.random() < 0.8 else None))
        if r.random() < 0.3:
            x = "x%d" % self.uid()
            ns.append(self.slot("Row", [], self.children(depth + 1, True, [x], lo=1), bind=x))
        if r.random() < 0.6:
            for n in self.children(depth, many, lo=1):
                ns.insert(r.randint(0, len(ns)), n)
        # view! makes a prop of every slot's name, in the order it pleases
        return self.comp("If", [], ns, many=many)


def canon(nodes):
    out = []
    for n in nodes:
        if isinstance(n, str):
            if out and isinstance(out[-1], str):
                out[-1] += n
            else:
                out.append(n)
            continue
        at = []
        for k, v in n.attrs:
            if k == "class" and isinstance(v, str):
                v = tuple(sorted(v.split()))
            if k == "style" and isinstance(v, str):
                v = tuple(sorted(x.strip() for x in v.split(";") if x.strip()))
            at.append((k, v))
        out.append((n.tag, tuple(sorted(at, key=str)), tuple(canon(n.children))))
    return out


def attached(ty):
    """Everything attached anywhere in a view."""
    out = Counter()

    def walk(t):
        if t.last == "On" and len(t.args) == 2:
            e, f = t.args
            out["on", norm_ev(e.last), f.last + repr(f.args)] += 1
            return
        if t.last == "Property" and len(t.args) == 2:
            out["prop", repr(t.args[1])] += 1
            return
        if t.last == "Directive":
            out["use", repr(t.args[1])] += 1
            return
        if t.last == "NodeRefAttr":
            out["ref", t.args[0].last] += 1
        for a in t.args:
            walk(a)
    walk(html.parse_type(ty))
    return out


def observed(log):
    out = {"html": None, "attached": None, "marks": [], "events": Counter()}
    for k, v in log:
        if k == "html":
            try:
                out["html"] = canon(html.parse(v))
            except html.ParseError:
                # (Leptos loses track of some closing tags in streams)
                out["html"] = "not HTML"
        elif k == "type":
            out["attached"] = attached(v)
        elif k in ("mark", "prop", "note"):
            out["marks"].append((k, v))
        else:
            out["events"][k, v] += 1
    return out


def case_of(cid, rng):
    t = Both(rng)
    lets = "\n".join(t.lets)
    obs = "obs_stream" if t.waits else "obs"
    code = "fn ours() {\n%s\nlet v = mview! {\n%s\n};\nrt::%s(v);\n}\nfn theirs() {\n%s\nlet v = view! {\n%s\n};\nrt::%s(v);\n}\npub fn case() { ours(); rt::note(\"---\"); theirs() }" % (lets, t.mview, obs, lets, t.view, obs)
    c = render.Case(cid, code, model=t, info=t.mview)
    return c


def judge(c, log):
    sep = next((i for i, (k, v) in enumerate(log) if k == "note" and v == "---"), None)
    if sep is None:
        return "log", "no separator"
    a, b = observed(log[:sep]), observed(log[sep + 1:])
    for k in ("html", "attached", "marks", "events"):
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, Counter):
                x, y = sorted(map(str, (x - y).elements())), sorted(map(str, (y - x).elements()))
            return k, "%s differs\nmview! { %s }\n%s\nview! { %s }\n%s" % (k, c.model.mview, str(x)[:1500], c.model.view, str(y)[:1500])
    return None


def run():
    r = Run("C19", "random templates written both with mview! and with Leptos' own view!; both views have to render the same document, attach the same listeners, properties, directives and references, "
            "and pass the same props, children and slots to the same components")
    r.min_evals = 100
    prelude = render.PRELUDE + "pub mod defs { use leptos::prelude::*; use vh_rt as rt; %s }\n" % DEFS
    uses = render.USES + " use crate::defs::*;"
    for rnd in r.rounds():
        rng = r.rng(rnd)
        cases = [case_of("c%d" % i, rng) for i in range(640 if r.quick else 1500)]
        results = render.run_all(render.split(cases, 40, prelude=prelude, uses=uses, shim=True))
        for c in cases:
            res = results[c.id]
            src = render.Program([c], prelude, uses).source
            if res.status != "ok":
                # does view! take it?
                only = render.Case("c0", c.code.replace("ours();", "").replace(c.code[:c.code.index("fn theirs")], ""))
                c.again = only
                continue
            r.evaluated(c.info, sample={"mview": c.model.mview[:400], "view": c.model.view[:400]} if rng.random() < 0.01 else None)
            for k, n in c.model.kinds.items():
                r.count(k, n)
            bad = judge(c, logs(c, res))
            if bad:
                r.violation("c19:" + bad[0], bad[1], src())
        again = [c for c in cases if results[c.id].status != "ok"]
        for i, c in enumerate(again):
            c.again.id = "c%d" % i
        theirs = render.run_all(render.split([c.again for c in again], 40, prelude=prelude, uses=uses, shim=True)) if again else {}
        for c in again:
            res = results[c.id]
            if theirs[c.again.id].status == "ok":
                r.evaluated(c.info)
                r.violation("c19:" + res.status, "view! takes it, mview! does not: %s\n%s\nview! { %s }" % (render.first_line(res.diag) or res.panic, c.model.mview, c.model.view), render.Program([c], prelude, uses).source())
            else:
                r.count("undecided: not valid in view!")
                if os.environ.get("VERIF_SHOW"):
                    print("NOT VALID", render.first_line(theirs[c.again.id].diag)[:300], "|", c.model.view[:300])
    return r.finish()
