"""C18: every shorthand means its documented long form."""
import os
import re

from .. import html, macros, render
from ..check import Run
from .c16 import logs

HOLE = macros.HOLE
DEFS = r'''
#[component] pub fn Card(#[prop(optional, into)] a: String, #[prop(optional)] num: i32, #[prop(optional)] wide: bool, #[prop(optional)] is_tall_x: bool, #[prop(optional, into)] long_name: String, #[prop(optional, into)] r#type: String, #[prop(optional)] children: Option<Children>) -> impl IntoView {
    rt::mark(&format!("{a}|{num}|{wide}|{is_tall_x}|{long_name}|{type}", r#type = r#type));
    leptos::html::section().child(children.map(|c| c()))
}
#[allow(non_snake_case)] #[component] pub fn Big_card_with_many_words(#[prop(optional, into)] a: String, #[prop(optional)] children: Option<Children>) -> impl IntoView { leptos::html::h5().child(a).child(children.map(|c| c())) }
#[component] pub fn Gen<T: 'static + std::fmt::Debug>(item: T, #[prop(optional)] children: Option<Children>) -> impl IntoView { leptos::html::article().child(format!("{item:?} {}", std::any::type_name::<T>())).child(children.map(|c| c())) }
#[component] pub fn Gen2<A: 'static, B: 'static>(#[prop(optional)] _a: std::marker::PhantomData<(A, B)>) -> impl IntoView { std::any::type_name::<(A, B)>() }
#[component] pub fn Lazy<F: Fn() -> String + Send + Sync + 'static>(get_it: F) -> impl IntoView { leptos::html::i().child(get_it()).child(get_it()) }
#[component] pub fn Ask(#[prop(into)] children: rt::Render) -> impl IntoView { leptos::html::nav().child(children.run(7)) }
#[component] pub fn Many(children: ChildrenFn) -> impl IntoView { (children(), children()) }
#[slot] pub struct Then { #[prop(optional, into)] a: String, #[prop(optional)] is_on: bool, #[prop(optional, into)] long_name: String, #[prop(optional)] children: Option<Children> }
#[slot] pub struct Each<T: 'static> { item: T, #[prop(optional)] children: Option<Children> }
#[component] pub fn If(then: Then, #[prop(optional)] children: Option<Children>) -> impl IntoView {
    leptos::html::main().child((then.a, then.is_on, then.long_name)).child(then.children.map(|c| c())).child(children.map(|c| c()))
}
#[component] pub fn WithEach(each: Each<u8>) -> impl IntoView { leptos::html::main().child(each.item).child(each.children.map(|c| c())) }
pub const W: &str = "w";
pub mod deep { pub use super::*; }
#[derive(Clone)] pub struct Par(&'static str);
impl From<&'static str> for Par { fn from(x: &'static str) -> Par { Par(x) } }
pub fn dire(_: leptos::tachys::renderer::types::Element, _: Par) {}
'''


class Sugar:
    """A random template; every site has several spellings, the first of which is the shortest."""

    def __init__(self, rng):
        self.r, self.sites, self.lets, self.n = rng, [], {}, 0
        self.kinds = []
        self.left = rng.choice([2, 5, 9])
        self.body = " ".join(self.node(0) for _ in range(rng.randint(1, 3)))

    def site(self, kind, *spellings, typed=True):
        if not typed:
            kind += " "
        self.sites.append(spellings)
        self.kinds.append(kind)
        return "\0%d\1" % (len(self.sites) - 1)

    def uid(self):
        self.n += 1
        return self.n

    def let(self, name, value):
        """A variable; the same name has the same value everywhere."""
        return self.lets.setdefault(name, value)

    def text(self):
        return '"s%d"' % self.uid()

    def expr(self):
        """A string that logs that it is asked for."""
        return 'rt::ev(%d, %s)' % (self.uid(), self.text())

    def lit(self, text=None):
        t = text or self.text()
        return self.site("literal as a block", t, "{%s}" % t, "{ %s }" % t)

    def lazy(self, ty="str"):
        """A value that is asked for later."""
        r = self.r
        if ty == "bool":
            e = "rt::ev(%d, %s)" % (self.uid(), r.choice(["true", "false"]))
            return self.site("brackets", "[%s]" % e, "{move || %s}" % e, "{ move || { %s } }" % e)
        if r.random() < 0.5:
            k = r.randint(0, 2)
            f = ", ".join(['"' + " ".join(["{}"] * k) + 'f%d"' % self.uid()] + [self.expr() for _ in range(k)] + ([] if r.random() < 0.7 else []))
            if r.random() < 0.2:
                f = '"{x:?} {0}", %s, x = %s' % (self.expr(), self.expr())
            elif r.random() < 0.3:
                f = r.choice(['"{{f%d}}"', '"f%d{{"', '"}}f%d"', 'r"\\{{f%d"', 'r#"f"%d{{}}"#', '"f%d\\n"', '"{:>5}|{{}}", %d', 'concat!("{{", %d)']) % self.uid()
            if r.random() < 0.2:
                f += ","
            return self.site("format", "f[%s]" % f, "[format!(%s)]" % f, "{move || format!(%s)}" % f)
        if r.random() < 0.25:
            w = "w%d" % self.uid()
            self.let(w, self.text())
            e = r.choice([w, w, "W", "(W)", "{W}"] + ["3", "W.len()", "Some(W)"] * (ty != "style"))
            return self.site("brackets", "[%s]" % e, "{move || %s}" % e)
        e = r.choice(["%s", "%s.to_string()", "{ let x = %s; x }", "let x = %s; x"] + ["Some(%s)"] * (ty != "style")) % self.expr()
        return self.site("brackets", "[%s]" % e, "{move || { %s }}" % e if e.startswith("let") else "{move || %s}" % e)

    def value(self, lazy=True, ty="str"):
        k = self.r.randrange(3 if lazy else 2)
        return self.lit() if k == 0 else "{%s}" % self.expr() if k == 1 else self.lazy(ty)

    # --- attributes ------------------------------------------------------
    def short(self, kind, fmt, key, var, keys):
        """A brace shorthand: `fmt` has the place of the key."""
        return self.site(kind, *([fmt % ("{%s}" % key)] + [(fmt % k) + "={%s}" % var for k in keys]))

    def class_short(self):
        a = self.r.choice(["red", "big-x", "a-b-c", "is_on", "loop", "w-full"])
        v = a.replace("-", "_")
        v = "r#loop" if v == "loop" else v
        self.let(v, self.r.choice(["true", "false", "|| true", "move || false"]))
        return self.short("class shorthand", "class:%s", a, v, [a, '"%s"' % a])

    def style_short(self):
        a = self.r.choice(["color", "margin-left", "z-index"])
        v = a.replace("-", "_")
        self.let(v, '"v%d"' % self.uid())
        return self.short("style shorthand", "style:%s", a, v, [a, '"%s"' % a])

    def el_attrs(self, tag):
        r = self.r
        out, used = [], set()
        self.used = used
        for _ in range(r.choice([0, 1, 2, 4, 6])):
            k = r.randrange(13)
            key = k
            if k == 0:
                key = r.choice(["title", "lang", "data-a", "data-b-c", "aria-label", "data-d"])
            if k == 1:
                key = r.choice(["hidden", "inert", "data-on", "autofocus"])
            if k == 2:
                key = r.choice(["title", "lang", "data-a", "data-b-c", "aria-label", "class", "id", "style"] + {"label": ["for"] * 3, "input": ["type"] * 3}.get(tag, []))
            if key in used and k not in (3, 4, 9) or {"class", "style"} & {key} & used:
                continue
            used.add(key)
            if k == 0:
                out.append("%s=%s" % (key, self.value()))
            elif k == 1:
                out.append(self.site("boolean", key, key + "=true", key + "={true}"))
            elif k == 2:
                v = key.replace("-", "_")
                v = "r#" + v if v in ("for", "type") else v
                self.let(v, '"v%d"' % self.uid())
                out.append(self.site("attribute shorthand", "{%s}" % key, "%s={%s}" % (key, v)))
            elif k == 3:
                out.append("class:%s=%s" % (r.choice(["u%d" % self.uid(), '"u%d"' % self.uid(), "a-%s" % r.choice("xyz")]), r.choice([lambda: self.lazy("bool"), lambda: self.lit("true"), lambda: self.lit("false")])()))
            elif k == 4:
                out.append("style:%s=%s" % (r.choice(["top", "border-top", "--x"]), self.value(ty="style")))
            elif k == 5:
                out.append(self.class_short())
            elif k == 6:
                out.append(self.style_short())
            elif k == 7:
                p = r.choice(["value", "innerHTML", "checked"])
                self.let(p, '"p%d"' % self.uid())
                out.append(r.choice([lambda: self.short("prop shorthand", "prop:%s", p, p, [p]), lambda: "prop:%s=%s" % (p, self.value())])())
            elif k == 8:
                e = r.choice(["click", "input", "keydown"])
                self.let(e, "rt::handler::<%d, _>" % self.uid())
                out.append(self.short("on shorthand", "on:%s", e, e, [e]))
            elif k == 9:
                out.append("use:dire=%s" % r.choice([lambda: self.lit(), lambda: "{%s}" % self.expr()])())
            elif k == 10:
                out.append("on:%s={rt::handler::<%d, _>}" % (r.choice(["focus", "blur"]), self.uid()))
        return out

    def selectors(self):
        """Classes and ids, which go first."""
        r = self.r
        k = r.randrange(5)
        cs = ["k%d-%s" % (self.uid(), r.choice(["x", "y_z", "q-r"])) for _ in range(r.choice([1, 1, 2, 3]))]
        i = "i%d" % self.uid()
        if k == 0:
            return ""
        if k == 1:
            return self.site("id selector", " #%s" % i, ' id="%s"' % i, ' id={"%s"}' % i, typed=False)
        if k == 2:
            return self.site("class selectors", "".join("." + c for c in cs), ' class="%s"' % " ".join(cs), "".join(" class:%s=true" % c for c in cs), typed=False)
        return self.site("selectors", "%s #%s" % ("".join("." + c for c in cs), i), "%s" % "".join(" .%s" % c for c in cs) + " #" + i if r.random() < 0.5 else ' class="%s" id="%s"' % (" ".join(cs), i), typed=False)

    # --- nodes -----------------------------------------------------------
    def kids(self, depth, need=False):
        r = self.r
        if not need and r.random() < 0.2:
            return ";"
        t = " ".join(self.node(depth + 1) for _ in range(r.randint(0, 3)))
        return self.site("parentheses", "(%s)" % t, "{%s}" % t, " { %s } " % t)

    def leaf(self):
        k = self.r.randrange(4)
        if k == 0:
            return self.text()
        if k == 1:
            return "{%s}" % self.expr()
        return self.lazy()

    def prop(self, key):
        """A prop with a name of several words, on a component or slot."""
        r = self.r
        kebab, snake = key.replace("_", "-"), key
        v = "r#" + key if key == "type" else key
        if r.random() < 0.5:
            self.let(v, '"v%d"' % self.uid())
            return self.site("prop shorthand", "{%s}" % kebab, "{%s}" % snake, "%s={%s}" % (kebab, v), "%s={%s}" % (snake, v))
        x = self.value(lazy=False)
        return self.site("hyphens", *["%s=%s" % (k, x) for k in {kebab: 1, snake: 1}])

    def flag(self, key):
        kebab = key.replace("_", "-")
        return self.site("boolean", *[k + v for v in ("", "=true", "={true}") for k in {kebab: 1, key: 1}])

    def path(self, name):
        return self.r.choice([name, name, "deep::" + name, "self::" + name, "crate::defs::deep::" + name])

    def node(self, depth):
        r = self.r
        self.left -= 1
        if depth > 3 or self.left < 0:
            return self.leaf()
        k = r.randrange(13)
        if k <= 1:
            return self.leaf()
        if k <= 6:
            tag = r.choice(["div", "p", "span", "b", "input", "my-el", "svg", "label"])
            if tag == "input":
                at = self.el_attrs(tag)
                return "input%s %s;" % ("" if {"class", "id"} & self.used else self.selectors(), " ".join(at))
            at = self.el_attrs(tag)
            sel = self.selectors()
            if "class" in self.used or "id" in self.used:
                sel = ""
            return "%s%s %s %s" % (tag, sel, " ".join(at), self.kids(depth))
        if k == 8 and r.random() < 0.2:
            names = ["Big-card-with-many-words", "Big_card_with_many_words", "Big-card_with-many_words", "Big_card-with-many-words"]
            r.shuffle(names)
            return "%s %s %s" % (self.site("hyphens", *names), self.prop("a") if r.random() < 0.5 else "", self.kids(depth))
        if k <= 8:
            at = [f() for f in [lambda: self.prop("a"), lambda: self.prop("long_name"), lambda: self.prop("type"), lambda: self.flag("wide"), lambda: self.flag("is_tall_x"), lambda: "num=%s" % self.lit("3")] if r.random() < 0.4]
            if r.random() < 0.4:
                at += [f() for f in [self.class_short, self.style_short, lambda: self.attr_dir()] if r.random() < 0.5]
            r.shuffle(at)
            sel = self.csel() if r.random() < 0.3 else ""
            return "%s%s %s %s" % (self.path("Card"), sel, " ".join(at), self.kids(depth))
        if k == 9:
            t, v = r.choice([("i32", "1"), ("&'static str", '"g"'), ("Option<u8>", "{None}"), ("Vec<Vec<i8>>", "{vec![]}"), ("[u8; 2]", "{[1, 2]}")])
            p = self.path("Gen")
            if r.random() < 0.2:
                return self.site("turbofish", p.replace("Gen", "Gen2") + "<u8, String>;", p.replace("Gen", "Gen2") + "::<u8, String>;")
            return "%s item=%s %s" % (self.site("turbofish", "%s<%s>" % (p, t), "%s::<%s>" % (p, t)), v if v[0] == "{" else self.lit(v), self.kids(depth))
        if k == 10:
            e = self.expr()
            return r.choice([lambda: "%s %s=%s;" % (self.path("Lazy"), self.site("hyphens", "get-it", "get_it"), self.site("brackets", "[%s.to_string()]" % e, "{move || %s.to_string()}" % e)),
                             lambda: "Lazy get_it=%s;" % self.site("format", 'f["{}", %s]' % e, '[format!("{}", %s)]' % e, '{move || format!("{}", %s)}' % e)])()
        if k == 11:
            if r.random() < 0.3:
                t = " ".join(self.node(depth + 1) for _ in range(r.randint(0, 2)))
                return "%s %s" % (self.path("Ask"), self.site("parentheses", "|n| ({n} %s)" % t, "|n| {{n} %s}" % t))
            if r.random() < 0.3:
                # the children are asked for twice
                return "Many (%s)" % self.site("brackets", "[%s]" % (e := self.expr()), "{move || %s}" % e)
            return "%s ( slot:%s )" % (self.path("WithEach"), "Each %s=%s %s" % ("item", self.lit("3"), self.kids(depth)))
        at = [f() for f in [lambda: self.prop("a"), lambda: self.prop("long_name"), lambda: self.flag("is_on")] if r.random() < 0.5]
        slot = "slot:Then %s %s" % (" ".join(at), self.kids(depth))
        t = slot + " " + " ".join(self.leaf() for _ in range(r.randint(0, 2)))
        return "%s %s" % (self.path("If"), self.site("parentheses", "(%s)" % t, "{%s}" % t))

    def csel(self):
        c = "k%d-w" % self.uid()
        i = "i%d" % self.uid()
        return self.r.choice([lambda: self.site("class selector on a component", "." + c, " class:%s=true" % c, ' class:"%s"={true}' % c, typed=False), lambda: self.site("id selector on a component", " #" + i, ' attr:id="%s"' % i, typed=False)])()

    def attr_dir(self):
        k = self.r.choice(["title", "lang"])
        self.let(k, '"v%d"' % self.uid())
        return self.short("attr shorthand", "attr:%s", k, k, [k])

    # --- emission --------------------------------------------------------
    def spell(self, choose):
        """(the template with each site spelled as chosen, the sites that are in it)"""
        seen = {}

        def one(m):
            i = int(m.group(1))
            if i not in seen:
                seen[i] = choose(i)
            return HOLE.sub(one, self.sites[i][seen[i]])
        return HOLE.sub(one, self.body), seen


def same(log, typed):
    """What has to be the same: attributes are a set; types only if no selector is spelled differently."""
    out = []
    for k, v in log:
        if k == "html":
            try:
                v = canon(html.parse(v))
            except html.ParseError:
                pass
        if k == "type" and not typed:
            continue
        out.append((k, v))
    return out


def canon(nodes):
    """The order of attributes and of classes is not part of what a shorthand means."""
    return [n if isinstance(n, str) else (n.tag, sorted((k, sorted(v.split()) if k == "class" and v else v) for k, v in (n.attrs.items() if isinstance(n.attrs, dict) else n.attrs)), canon(n.children)) for n in nodes]


def run():
    r = Run("C18", "random templates whose shorthands are each spelled in several documented ways; all spellings of a template must render the same document, evaluate the same expressions in the same order, "
            "pass the same props and have the same view type (except where a selector is an attribute in one and a directive in the other)")
    r.min_evals = 100
    for rnd in r.rounds():
        rng = r.rng(rnd)
        n = 300 if r.quick else 800
        cases, groups = [], []
        for i in range(n):
            t = Sugar(rng)
            got = []
            for j in range(4):
                if j < 2:
                    text, seen = t.spell(lambda i: 0 if j == 0 else len(t.sites[i]) - 1)
                else:
                    text, seen = t.spell(lambda i: rng.randrange(len(t.sites[i])))
                if any(text == x for x, _, _ in got):
                    continue
                words = set(re.findall(r"[A-Za-z_]\w*", text.replace("-", "_")))
                lets = "\n".join("let %s = %s;" % l for l in t.lets.items() if l[0].replace("r#", "") in words)
                c = render.Case("c%d_%d" % (i, j), "pub fn case() {\n%s\nlet v = mview! {\n%s\n};\nrt::obs(v);\n}" % (lets, text), info=text)
                got.append((text, seen, c))
                cases.append(c)
            groups.append((t, got))
        prelude = render.PRELUDE + "pub mod defs { use leptos::prelude::*; use vh_rt as rt; %s }\n" % DEFS
        uses = render.USES + " use crate::defs::*;"
        results = render.run_all(render.split(cases, 40, prelude=prelude, uses=uses))
        for t, got in groups:
            base = next((g for g in reversed(got) if results[g[2].id].status == "ok"), None)
            if base is None:
                r.count("undecided: no spelling compiles")
                if os.environ.get("VERIF_SHOW"):
                    print("NOT VALID", render.first_line(results[got[0][2].id].diag)[:200], "|", got[0][0][:300])
                r.seen("why", render.first_line(results[got[0][2].id].diag)[:80])
                continue
            rb = logs(base[2], results[base[2].id])
            for text, seen, c in got:
                if c is base[2]:
                    continue
                res = results[c.id]
                differ = [i for i in seen if seen[i] != base[1].get(i)]
                r.evaluated(text + base[0], sample={"spelling": text[:400], "other": base[0][:400]} if rng.random() < 0.01 else None)
                for i in differ:
                    r.count(t.kinds[i].strip())
                src = lambda: "// the same as: %s\n%s" % (base[0].replace("\n", " "), render.Program([c], prelude, uses).source())
                if res.status != "ok":
                    r.violation("c18:" + res.status, "%s: %s\n%s\nbut this is accepted:\n%s" % (res.status, render.first_line(res.diag) or res.panic, text, base[0]), src())
                    continue
                typed = all(t.kinds[i][-1] != " " for i in differ)
                a, b = same(rb, typed), same(logs(c, res), typed)
                if a != b:
                    x = next(((x, y) for x, y in zip(a, b) if x != y), (len(a), len(b)))
                    r.violation("c18:differs", "two spellings differ:\n%s\n%s\nand\n%s\n%s" % (base[0], str(x[0])[:700], text, str(x[1])[:700]), src())
    return r.finish()
