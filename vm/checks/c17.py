"""C17: valid templates compile without warnings."""
import os
import re

from .. import comps, corpus, fuzz, macros, render
from ..check import Run
from .c16 import own, plain

LINTS = """#![warn(unused, nonstandard_style, future_incompatible, let_underscore, refining_impl_trait)]
#![recursion_limit = "4096"]
#![type_length_limit = "100000000"]
"""
DEFS = r'''
pub fn take<T>(_: T) {}
pub fn one() -> i32 { 1 }
#[must_use] pub fn must() -> &'static str { "must" }
pub unsafe fn danger() -> &'static str { "danger" }
pub const fn constant() -> &'static str { "constant" }
pub struct St { pub a: &'static str, pub b: Option<&'static str> }
pub static TEXT: &str = "text";
pub mod low { pub fn f() -> &'static str { "low" } }
#[component] pub fn Txt(a: &'static str, #[prop(optional)] b: &'static str, #[prop(optional)] flag: bool, #[prop(optional)] r#type: &'static str, #[prop(optional)] long_name: &'static str, #[prop(optional)] children: Option<Children>) -> impl IntoView {
    leptos::html::section().child((a, b, flag, r#type, long_name)).child(children.map(|c| c()))
}
#[component] pub fn Fun<F: Fn() -> &'static str + Send + 'static>(get: F, #[prop(optional)] num: i32) -> impl IntoView { leptos::html::i().child(get()).child(num) }
#[component] pub fn Gen<T: 'static + Send>(item: T) -> impl IntoView { drop(item); leptos::html::i() }
#[slot] pub struct Sl { #[prop(optional)] a: &'static str, #[prop(optional)] children: Option<Children> }
#[component] pub fn WithSl(sl: Sl, #[prop(optional)] children: Option<Children>) -> impl IntoView { leptos::html::i().child(sl.a).child(sl.children.map(|c| c())).child(children.map(|c| c())) }
#[component] pub fn Ask(#[prop(into)] children: rt::Render) -> impl IntoView { leptos::html::nav().child(children.run(7)) }
#[component] pub fn Twice(children: ChildrenFn) -> impl IntoView { (children(), children()) }
#[component] pub fn Bare() -> impl IntoView { leptos::html::i() }
'''
# expressions of type &'static str without warnings of their own, and whether they diverge
TEXTS = [
    "v", "w", '"lit"', "TEXT", "low::f()", "must()", "unsafe { danger() }", "const { constant() }", "st.a", "st.b.unwrap_or(\"none\")", "(v, 1).0", "[v, w][0]", "if c { v } else { w }",
    "match n { 1 => v, _ => w }", "{ let x = v; x }", "(|| v)()", "(|x: &'static str| x)(v)", "identity(v)", "identity::<&'static str>(v)", "loop { break v }", "'l: { if c { break 'l v } w }",
    "Some(v).map(|x| x).unwrap()", "vec![v, w][n as usize]", "St { a: v, b: None }.a", "&*v", "if let Some(x) = st.b { x } else { v }", "v as &'static str", "tup.0", "arr[0]", "r#type",
    "if !c && n == 1 || c { v } else { w }", "{ fn inner() -> &'static str { \"inner\" } inner() }", "{ struct L(&'static str); L(v).0 }", "{ use low::f; f() }", "{ let mut k = n; k += 1; if k == 0 { v } else { w } }",
    "std::convert::identity(v)", "<str as AsRef<str>>::as_ref(v)", "mac!(v)", "mac![w]", "mac! { v }", "match c { true => v, false => w }", "{ let (x, _) = (v, w); x }", "{ take(one()); v }",
    "if c { v } else if n == 2 { w } else { \"z\" }", "{ let _ = must(); v }", "{ #[allow(unused)] let y = 1; v }", "unsafe { let x = danger(); x }",
    "todo!()", "panic!(\"no {}\", n)", "unreachable!()", "std::process::exit(0)", "{ return; }", "loop {}", "{ let x = v; if c { return; } x }", "unimplemented!()",
]
DIVERGE = ("todo!", "panic!", "unreachable!", "std::process", "{ return; }", "loop {}", "unimplemented!")
BOOLS = ["c", "true", "n == 1", "!c", "c && n > 2", "matches!(n, 1..=3)", "v.is_empty()", "if c { false } else { true }", "{ let x = c; x }", "st.b.is_some()", "n as i64 > 0", "(1..3).contains(&n)",
         "v == w", "c & c", "match n { 0 => true, _ => false }", "mac!(c)"]
NUMS = ["n", "1", "-n", "one()", "n + 1", "n as i32", "{ let x = n; x }", "tup.1", "-1", "n * (n + 1)", "v.len() as i32", "if c { 1 } else { 2 }", "<i32>::default()", "i32::MAX", "mac!(n)", "1_000i32", "!n", "n << 1"]
LETS = """let v: &'static str = "v"; let w: &'static str = "w"; let c = true; let n = 1; let st = St { a: "a", b: Some("b") }; let tup = ("t", 2); let arr = ["x", "y"]; let r#type: &'static str = "type";
let name: &'static str = "name"; let long_name: &'static str = "long"; let title = "title"; let data_x = "x"; let s = String::from("s"); let s2 = String::from("s2"); let node = NodeRef::<leptos::html::P>::new(); let active = true; let click = |_: leptos::ev::MouseEvent| ();
let value = "val"; let color = "red"; let a: &'static str = "a"; let flag = false; let dire = |_: leptos::tachys::renderer::types::Element, _: &'static str| ();
"""
USED = "let _ = (&v, &w, &c, &n, &st.a, &tup, &arr, &r#type, &name, &long_name, &title, &data_x, &s, &s2, &node, &active, &click, &value, &color, &a, &flag, &dire, identity(1), mac!(1));"
# positions: `@` is an expression, and whether it may diverge there
T = [("p title={@};", 0), ("p title=[@];", 0), ('p title=f["{}", @];', 0), ('p title=f["{} {x}", @, x = @];', 0), ("p style={@};", 0), ("p class={@};", 0), ("p class=[@];", 0), ("p style:color={@};", 0), ("p style:color=[@];", 0),
     ("p data-x={@};", 0), ("input prop:value={@};", 0), ("input prop:value=[@];", 0), ("p use:dire={@};", 0), ("p use:dire={@} id=\"k\";", 0),
     ("p { {@} }", 0), ("p { [@] }", 0), ("{@}", 0), ("[@]", 0), ('f["{}", @]', 0), ('p { f["{}", @] }', 0), ("p ({@})", 0), ("p ([@] {@} \"x\")", 0), ("{@} {@}", 0),
     ("Txt a={@};", 1), ("Txt a={@} b={@};", 1), ("Txt b={@} a=\"x\" { {@} }", 0), ("Txt long-name={@} a={@} flag;", 1), ("Txt a=\"x\" type={@};", 1), ("Fun get=[@];", 1), ("Fun get=[@] num=3;", 1), ("Txt a={@} { p { {@} } \"t\" }", 0),
     ("Txt a=\"x\" { [@] }", 0), ("Txt a=\"x\" class:on=true style:color={@};", 0), ("Txt.k #i a={@};", 1), ("Gen<&'static str> item={@};", 1), ("Gen item={@};", 0), ("Gen::<&'static str> item={@};", 1),
     ("WithSl { slot:Sl a={@}; }", 1), ("WithSl { slot:Sl a={@} { {@} } {@} }", 0), ("WithSl { slot:Sl { [@] } }", 0), ("WithSl { slot:Sl clone:s { {s.clone()} {@} } }", 0), ("Ask |x| { {x} {@} }", 0), ("Ask |x: i32| { {x + n} [@] }", 0),
     ("Ask |_| { {@} }", 0), ("Twice clone:s { {s.clone()} {@} }", 0), ("Twice clone:s clone:s2 { {s.clone()} {s2.clone()} }", 0), ("Twice { {@} p { {@} } }", 0), ("p on:click={move |_| { let _ = @; }};", 0), ("p on:click={move |_| take(@)};", 0),
     ("button {..leptos::tachys::html::attribute::custom::custom_attribute(\"data-q\", @)};", 0), ("Bare {..leptos::tachys::html::attribute::custom::custom_attribute(\"data-q\", @)};", 0), ("svg { path d={@}; }", 0),
     ("p { span title={@} { {@} b { [@] } } }", 0), ("br; {@}", 0), ("my-el a-b={@} { {@} }", 0), ("Txt a=\"x\" prop:value={@};", 0), ("Txt a=\"x\" on:click={move |_| { let _ = @; }};", 0), ("Txt a=\"x\" attr:title={@};", 0),
     ("Txt a=\"x\" use:dire={@};", 0)]
B = ["p class:on={@};", "p class:on=[@];", 'p class:"a-b"={@};', "p hidden={@};", "p hidden=[@];", "Txt a=\"x\" flag={@};", "Txt a=\"x\" class:on={@};", "Txt a=\"x\" class:on=[@];", "input prop:checked={@} checked={@};"]
N = ["p tabindex={@};", "p { {@} }", "p { [@] }", "Fun get=[v] num={@};", "Ask |x| { {x + @} }", "Gen<i32> item={@};", 'p { f["{}", @] }', 'p title=f["{}{:?}", @, @];']
# templates without an expression
FIXED = ["", "p;", "p {}", "p ()", '"text"', '"a" "b"', "br; br;", "p.k #i;", "p {title};", "p {data-x};", "p class:{active};", "p style:{color};", "p on:{click};", "input prop:{value};", "Txt {a};", "Txt {a} {long-name} {type};",
         "Txt {a} {flag};", "p class:active={active};", "p { {} }", "{}", "p ref={node};", "{()}", "{(v, w)}", "Bare;", "Bare; Bare;", "WithSl { slot:Sl; }", "WithSl { slot:Sl {} }", "Txt a=\"x\" ()",
         "Ask |_| {}", "Ask |_x| { p; }", "Ask |x| { p { {x} } }", "p { p { p { p; } } }", "Twice clone:s { {s.clone()} }", "Twice { p; }", "svg; math;", "my-el;", "div.a.b.c-d #e class:f=true class=\"g\" style=\"h:i\" {}", 'p title="x" title-x=1 data-y=true data-z=\'c\';',
         "Txt a=\"a\" flag;", "Txt.k a=\"a\" flag=true b=\"b\";", "{ let x = v; x }", "[ let x = v; x ]", "p on:click={|_| ()};", "p on:click={move |ev| { drop(ev); }};", "p on:click={click};", 'f["plain"]', "p title=f[\"plain\"];", "p { {mview! { b; }} }",
         "{move || mview! { b { {v} } }}", "p { {if c { Some(mview! { b; }) } else { None }} }", "b (b () b ())", "Bare clone:s;", "Bare clone:s clone:n;", "Txt a=\"a\" clone:v;", "Txt a=\"a\" clone:s2 {}", "WithSl { slot:Sl clone:s; }", "WithSl clone:s { slot:Sl; }", "WithSl clone:s { slot:Sl clone:n clone:s2 {} }", "ul { {(0..3).map(|i| mview! { li { {i} } }).collect::<Vec<_>>()} }"]


def matrix(rng, n):
    """n templates of one position with one expression in it, each with the expressions."""
    out = []
    for i in range(n):
        k = rng.random()
        if k < 0.7:
            t, div = rng.choice(T)
            pool = [e for e in TEXTS if div or not e.startswith(DIVERGE)]
            pool = [e for e in pool if "return" not in e or div or "break" in e and ("[@" not in t and "{ {@} }" not in t and "||" not in t and "|_|" not in t)]
        elif k < 0.8:
            t, pool = rng.choice(B), BOOLS
        elif k < 0.9:
            t, pool = rng.choice(N), NUMS
        else:
            t, pool = rng.choice(FIXED), [""]
        es = []

        def put(m):
            e = rng.choice(pool)
            if es and e.startswith(DIVERGE):
                e = "v"
            es.append(e)
            return e
        out.append((re.sub("@", put, t), es))
    return out


def function(id, template, how):
    """A case that builds the view in some place."""
    body = {"let": "let view = mview! { %s }; take(view);", "block": "match n { _ => take(mview! { %s }) }", "fn": "fn _g(_: ()) {} rt::html(mview! { %s });", "closure": "let f = move || mview! { %s }; take(f());", "any": "let view = mview! { %s }.into_any(); take(view);",
            "vec": "let views = [mview! { %s }]; take(views);", "paren": "take(mview!( %s ));", "bracket": "let view = mview![ %s ]; take(view);"}[how] % template
    return render.Case(id, "pub fn case() {\n%s%s\n%s\n}" % (LETS, USED, body), info=template)


def blank(code):
    """Without comments and strings."""
    return fuzz.LEX.sub(lambda m: re.sub(r"[^\w]", " ", m.group(0)) if m.group(0)[-1] in "\"'#" and len(m.group(0)) > 1 else m.group(0), plain(code))


def warnings(res):
    for d in res.diag:
        if d["level"] == "warning":
            p = [s for s in d["spans"] if s["is_primary"]]
            yield d, p


def text_of(d, p):
    return p[0]["text"][0]["text"][p[0]["text"][0]["highlight_start"] - 1:p[0]["text"][0]["highlight_end"] - 1] if p and p[0]["text"] else ""


def excused(c, d, p):
    """Warnings about code that the user wrote, which is there without the template as well."""
    code = (d.get("code") or {}).get("code")
    word = re.search(r"`([^`]*)`", d["message"])
    word = word.group(1) if word else ""
    if code == "non_snake_case":
        # the user called a variable so
        return bool(re.search(r"\b(let|clone ?:|mut) *%s\b|\|[^|]*\b%s\b[^|]*\|" % (word, word), c.code))
    if code == "unused_variables":
        # the generators of the corpus write closures that do not use their arguments; the other templates use all of them
        if c.id[0] == "k" and any(re.search(r"\b%s\b" % re.escape(word), m.group(1)) for m in re.finditer(r"\|([^|]*)\|\s*[{(]", blank(c.code))):
            return True
        # an argument of a component or function that the user defined
        return bool(p) and not inside(c, p[0]) and not re.match(r"\s*let ", p[0]["text"][0]["text"])
    if code == "unused_mut":
        return bool(re.search(r"\|[^|]*\bmut\b[^|]*\||let mut", c.code))
    if code in ("dead_code", "unused_imports", "unused_braces") and p:
        # outside of the template
        return not any(inside(c, s) for s in p)
    return False


def inside(c, s):
    """Whether the span is in the template."""
    while s.get("expansion"):
        s = s["expansion"]["span"]
    i = c.code.index("mview!")
    first = c.code[:i].count("\n")
    return s["line_start"] - c.first >= first and not re.match(r"\s*(rt::note|#\[)", s["text"][0]["text"] if s["text"] else "")


def run():
    r = Run("C17", "expressions free of warnings in every position of templates, and templates of every other kind, compiled with the lint groups unused, nonstandard_style and future_incompatible "
            "in both editions: no warning in a template, about a template, or about what only the template uses")
    r.min_evals = 100
    comps.SNAKE_ONLY = True
    for rnd in r.rounds():
        rng = r.rng(rnd)
        n = 400 if r.quick else 1500
        files = []  # (cases, keywords)
        ownp = LINTS + "#[allow(warnings)] pub mod defs { use leptos::prelude::*; use vh_rt as rt; %s }\n" % macros.DEFS
        uses = render.USES.replace("use ", "#[allow(unused)] use ")
        mp = LINTS + "#[allow(warnings)] pub mod defs { use leptos::prelude::*; use vh_rt as rt; pub use std::convert::identity; %s }\n#[allow(unused)] macro_rules! mac { ($e:expr) => { $e } }\n" % DEFS
        muses = uses + " #[allow(unused)] use crate::defs::*;"
        for ed in ("2021", "2024"):
            # each expression on its own, which must be free of warnings too
            alone = []
            for i, (e, ty) in enumerate([(e, "&'static str") for e in TEXTS] + [(e, "bool") for e in BOOLS] + [(e, "i32") for e in NUMS]):
                alone.append(render.Case("z%d" % i, "pub fn case() {\n%s%s\nlet _v: %s = %s;\n}" % (LETS, USED, ty, e), info=e))
            files += [(p, "alone", ed) for p in render.split(alone, 60, prelude=mp, uses=muses, run=False, edition=ed)]
            ms = [function("x%s_%d" % (ed[2:], i), t, "fn" if any(e.startswith(DIVERGE) or "return" in e for e in es) else rng.choice(["let", "block", "fn", "closure", "any", "vec", "paren", "bracket"])) for i, (t, es) in enumerate(matrix(rng, n // 2))]
            files += [(p, "matrix", ed) for p in render.split(ms, 25, prelude=mp, uses=muses, run=False, edition=ed)]
            cs = [c for _, c in corpus.cases(rng, n // 8, prefix="k%s_" % ed[2:])]
            files += [(p, "corpus", ed) for sh in (False, True) for p in render.split([c for c in cs if corpus.shim(c) == sh], 12, prelude=LINTS, uses=uses, run=False, edition=ed, shim=sh)]
            ts = [(lambda t: own(t, "t%s_%d" % (ed[2:], i), "mview! {\n%s\n}" % t.flat(), {}, rng))(macros.Tpl(rng)) for i in range(n // 8)]
            files += [(p, "own", ed) for p in render.split(ts, 12, prelude=ownp, uses=muses, run=False, edition=ed)]
        for p, kind, ed in files:
            p.all = list(p.cases)
        lost = set()
        results = {}
        # the references use the same names in both editions
        for ed in ("2021", "2024"):
            got = render.run_all([p for p, _, e in files if e == ed])
            for p, kind, e in files:
                if e == ed:
                    results[id(p)] = {c.id: got[c.id] for c in p.all}
                    if kind == "alone":
                        for c in p.all:
                            res = got[c.id]
                            if res.status != "ok" or any(True for _ in warnings(res)):
                                lost.add((ed, c.info))
                                r.seen("expressions left out (%s)" % ed, c.info)
        for p, kind, ed in files:
            if kind == "alone":
                continue
            p.cases = p.all
            p.source()
            for a, b, c in p.ranges:
                c.first = a
            for c in p.all:
                res = results[id(p)][c.id]
                if kind == "matrix" and any(e in c.info for d, e in lost if d == ed):
                    continue
                if res.status != "ok":
                    r.count("undecided: does not compile")
                    if kind == "matrix" and os.environ.get("VERIF_SHOW"):
                        print("NOT VALID", c.info, render.first_line(res.diag)[:200])
                    continue
                r.evaluated(c.code + ed, sample={"template": c.info[:300], "edition": ed} if rng.random() < 0.005 else None)
                r.count(kind)
                for d, sp in warnings(res):
                    code = (d.get("code") or {}).get("code") or ""
                    # warnings of other compilations of the same program name lines before others were taken out
                    if excused(c, d, sp):
                        r.count("excused: " + code)
                        continue
                    r.violation("c17:" + code, "warning (edition %s): %s: %r\ntemplate: %s" % (ed, d["message"], text_of(d, sp), c.info[:1500]), "// rustc --edition %s\n" % ed + render.Program([c], p.prelude, p.uses).source())
    return r.finish()
