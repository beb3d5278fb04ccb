"""C16: templates mean the same in every scope, edition and macro."""
import random
import re

from .. import corpus, expand, fuzz, macros, render
from ..check import Run
from .c15 import plain

WORD = re.compile(r"[A-Za-z_]\w*")
KEYWORDS = set("""as async await break const continue crate dyn else enum extern false fn for gen if impl in let loop match mod move mut pub ref return self Self static struct super trait true type
unsafe use where while abstract become box do final macro override priv typeof unsized virtual yield try union raw safe macro_rules
bool char str i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64 _ case rt vh_rt mview leptos_mview""".split())
# what the expansion of a template may use, by any way of writing it
CURATED = """std core alloc leptos tachys html svg mathml prelude component children attr event class style prop directive element custom into boxed vec format option result clone convert marker string fmt
Box Vec String Option Some None Result Ok Err Into From Clone Copy Default ToString ToOwned Iterator IntoIterator Fn FnMut FnOnce Send Sync Sized Drop AsRef Debug Display
View IntoView IntoRender IntoAny AnyView Fragment ChildrenFragment ToChildren Children IntoAttribute IntoAttributeValue IntoClass IntoStyle IntoProperty IntoDirective NodeRef Attribute Attr HtmlElement ElementChild Render RenderHtml
ClassAttribute StyleAttribute OnAttribute PropAttribute DirectiveAttribute NodeRefAttribute CustomAttribute GlobalAttributes AddAnyAttr ElementExt Props Builder Component Suspense Show For Signal RwSignal Memo Effect
component_view component_props_builder to_children into_view into_render into_any into_attribute_value builder build child node_ref on add_any_attr view panic todo unreachable unimplemented compile_error
concat stringify format_args write assert assert_eq debug_assert matches println dbg include line file env cfg custom_attribute custom_element drop mem div p span a b i input button ul li section title lang hidden value click""".split()
# variables that an expansion could bind
LOCALS = "__x x e v el view child children slot slots builder props this value key handler f args inner result res tmp elem node component attr attrs __view __children __el __slot __attr __value __props __builder class style t s it c n i cloned closure dir event".split()


def expansions(bodies):
    """The names that the macro puts into the expansions of these templates, and those of them that are bound."""
    items = [expand.Item("e%d" % i, plain(b), outer="use leptos_mview::mview; use leptos::prelude::*;") for i, b in enumerate(bodies)]
    got = expand.ask_all(expand.deal(items, 40), "exp_n", want_text=True)
    used, bound = set(), set()
    for it in items:
        t = got[it.id].text or ""
        t = re.sub(r'"(?:[^"\\]|\\.)*"', '""', t)
        own = set(WORD.findall(it.body))
        used |= set(WORD.findall(t)) - own
        bound |= set(re.findall(r"\blet (?:mut )?([a-z_]\w*)", t)) - own
        for ps in re.findall(r"\|([^|]{1,60})\|", t):
            bound |= set(re.findall(r"\b([a-z_]\w*)\b(?! *[:(<])", re.sub(r":[^,|]*", "", ps))) - own
    return used - KEYWORDS, {b for b in bound - KEYWORDS if not b.startswith("r#")}


def scope(rng, names, keep, variables=True):
    """Items and variables of all these names that mean something else."""
    out = []
    for n in sorted(names):
        if n in KEYWORDS or n in keep or n == "_" or not re.match(r"[A-Za-z_]", n):
            continue
        if n[0].isupper():
            out.append(rng.choice(["struct %s;", "enum %s {}", "struct %s(u8);", "trait %s {}", "union %s { a: u8 }", "type %s = ();", "struct %s<'a>(&'a u8);"]) % n)
            if rng.random() < 0.3:
                out.append("macro_rules! %s { ($($t:tt)*) => { compile_error!(\"captured\") } }" % n)
        else:
            if rng.random() < 0.7:
                out.append("mod %s { pub struct Captured; pub fn captured() {} }" % n)
            else:
                out.append("#[allow(non_camel_case_types)] struct %s {}" % n)
            out.append(rng.choice(["fn %s() -> Captured0 { Captured0 }", "fn %s<T>(_: T) -> Captured0 { Captured0 }", "let %s = Captured0;" if variables else "fn %s() {}"]) % n)
            out.append("macro_rules! %s { ($($t:tt)*) => { compile_error!(\"captured\") } }" % n)
    rng.shuffle(out)
    return "struct Captured0;\n" + "\n".join(out)


def hostile(c, rng, names, id):
    """The case in a function full of other names."""
    i = c.code.index("pub fn case() {") + len("pub fn case() {")
    # another function may build the view
    j = c.code.index("mview! {")
    k = c.code.rindex("\n", 0, j)
    keep = set(WORD.findall(c.code[i:])) | set(WORD.findall(c.code[k:])) | set(WORD.findall(c.code[c.code.rindex("{", 0, j - 9):]))
    fn = [m for m in re.finditer(r"fn \w+\([^)]*\)[^{;]*\{", c.code[:j])][-1]
    keep |= set(WORD.findall(c.code[fn.start():]))
    some = [n for n in sorted(names) if rng.random() < 0.9]
    return render.Case(id, c.code[:fn.end()] + "\n" + scope(rng, some, keep) + "\n" + c.code[fn.end():], model=c.model, info=c.info)


def tokens(c, rng, id):
    """The case with the template produced by a macro, and some tokens of it substituted for fragments."""
    body = plain(c.info)
    if "$" in body or c.code.count(c.info) != 1 or "mview!" in body or "macro_rules" in c.code:
        return None
    inside = set(WORD.findall(" ".join(re.findall(r'"(?:[^"\\]|\\.)*"', body))))
    seen, args, out, last = {}, [], [], 0
    share = rng.choice([0.1, 0.4, 0.8])
    for m in fuzz.LEX.finditer(body):
        t = m.group(0)
        kinds = []
        if re.fullmatch(r"[A-Za-z]\w*|r#\w+", t) and t not in ("f", "r", "br", "b") and t not in inside:
            kinds = ["ident", "tt"] if t not in ("true", "false") else ["ident", "tt", "literal"]
        elif t[0] == '"' or (t[0] == "'" and t[-1] == "'") or (t[0] == "r" and t[-1] in '"#'):
            kinds = ["literal", "tt"]
        elif t[0].isdigit() and not (m.start() and body[m.start() - 1] in "-." or body[m.end():m.end() + 1] in ("-", ".")):
            kinds = ["literal", "tt"]
        if not kinds:
            continue
        if kinds[0] == "ident":
            # after a digit the dot would be lexed as part of a number
            if re.search(r"[-=\s]\d\w*\.$", body[:m.start()]):
                seen[t] = None
            # all or none of the same name: they may be bound by a closure or `let` of the template
            if t not in seen:
                seen[t] = None
                if rng.random() < share:
                    seen[t] = "$v%d" % len(args)
                    args.append((seen[t], rng.choice(kinds), t))
            v = seen[t]
        else:
            v = None
            if rng.random() < share:
                v = "$v%d" % len(args)
                args.append((v, rng.choice(kinds), t))
        if v:
            out.append(body[last:m.start()] + v)
            last = m.end()
    text = "".join(out) + body[last:]
    d = "macro_rules! tpl { (%s) => { mview! {\n%s\n} } }\n" % (" ".join("{ %s:%s }" % (n, f) for n, f, _ in args), text)
    call = "tpl! { %s }" % " ".join("{ %s }" % t for _, _, t in args)
    i = c.code.index(c.info)
    a, z = c.code.rindex("mview!", 0, i), c.code.index("}", i + len(c.info)) + 1
    s = max(c.code.rfind("\n", 0, a), c.code.rfind("let v = ", 0, a) - 1, c.code.rfind("{ ", 0, a) + 1)
    return render.Case(id, c.code[:s + 1] + d + c.code[s + 1:a] + call + c.code[z:], model=c.model, info=d + call)


def moved(c, old):
    """The case names its own module."""
    c.code = re.sub(r"\b%s\b" % old, c.id, c.code)
    return c


def own(t, id, text, names, rng, scoped=False, macro="", top=""):
    """A case of a template of vm/macros.py."""
    lets = "\n".join("let %s = %s;" % l for l in t.lets)
    code = macros.rename("%s\npub fn case() {\n%s\n%s\nlet v = %s;\nrt::obs(v);\n}" % (top, lets, macro, text), names)
    c = render.Case(id, code, info=text + macro + top)
    if scoped:
        i = code.index("pub fn case() {") + len("pub fn case() {")
        c.code = code[:i] + "\n" + scope(rng, scoped, set(WORD.findall(code[i:])) | set(WORD.findall(macro + text + top)) | {"Captured0"}) + code[i:]
    return c


METHODS = """into from into_attribute_value into_view into_render into_any to_string try_into into_class into_style into_property into_directive into_attr child children build view add_any_attr to_children
as_ref borrow to_owned into_inner get run call with render to_html into_owned as_str node_ref attr class style prop on directive""".split()


def inherent(rng, id, with_methods):
    """A template over values of types which have, or don't have, methods of their own that are named as those of
    the traits which the expansion needs. Both variants from the same state of `rng`."""
    def own_methods(t):
        m = rng.sample(METHODS[1:], rng.randint(len(METHODS) // 2, len(METHODS) - 1)) + ["into"][t != "Txt":]     # slot builders call `into` themselves
        return "impl %s { %s }" % (t, " ".join("pub fn %s(self) -> Self { rt::note(\"own method %s\"); self }" % (x, x) for x in m)) if with_methods else ""
    val = lambda: "Txt(\"t%d\")" % rng.randrange(1000)
    n = [0]

    def uid():
        n[0] += 1
        return n[0]

    def value():
        k = rng.randrange(4)
        return "{%s}" % val() if k else "{ let a = %s; a }" % val()

    def attrs(comp):
        out = []
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(3)
            if k == 0:
                out.append("%s:direc=%s" % ("use", value()))
            elif k == 1 and not comp:
                out.append("data-a%d=%s" % (uid(), value()))
            elif comp and "a=" not in " ".join(out):
                out.append("a=%s" % value())
        return " ".join(out)

    def node(d):
        k = rng.randrange(7 if d else 3)
        if k == 0:
            return "{%s}" % val()
        if k == 1:
            return "f[\"{}\", %s]" % val()
        if k == 2:
            return "span %s;" % attrs(False)
        if k == 3:
            return "%s %s { %s }" % (rng.choice(["p", "circle", "x-y", "div"]), attrs(False), nodes(d - 1))
        if k == 4:
            return "Panel %s { %s }" % (attrs(True), nodes(d - 1))
        if k == 5:
            return "Holder { %s %s }" % (" ".join("slot:Own a=%s { %s }" % (value(), nodes(d - 1)) for _ in range(rng.randint(1, 3))), node(d - 1))
        return "Taking { slot:Sole a=%s; %s }" % (value(), node(d - 1))

    def nodes(d):
        return " ".join(node(d) for _ in range(rng.randint(1, 3)))
    text = nodes(2)
    code = """
#[derive(Clone)] pub struct Txt(&'static str);
%s
impl std::fmt::Display for Txt { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
impl From<Txt> for &'static str { fn from(t: Txt) -> Self { rt::note("from"); t.0 } }
impl From<Txt> for String { fn from(t: Txt) -> Self { t.0.to_string() } }
impl leptos::attr::IntoAttributeValue for Txt { type Output = &'static str; fn into_attribute_value(self) -> &'static str { self.0 } }
impl IntoRender for Txt { type Output = &'static str; fn into_render(self) -> &'static str { self.0 } }
#[slot] pub struct Own { #[prop(into)] a: String, children: Children }
#[slot] pub struct Sole { #[prop(into)] a: String }
%s
%s
#[component] pub fn Holder(own: Vec<Own>, #[prop(optional)] children: Option<Children>) -> impl IntoView { leptos::html::ul().child(own.into_iter().map(|o| (o.a, (o.children)())).collect::<Vec<_>>()).child(children.map(|c| c())) }
#[component] pub fn Taking(sole: Sole, #[prop(optional)] children: Option<Children>) -> impl IntoView { leptos::html::ol().child(sole.a).child(children.map(|c| c())) }
pub fn case() {
let v = mview! {
%s
};
rt::obs(v);
}""" % (own_methods("Txt"), own_methods("Own"), own_methods("Sole"), text)
    return render.Case(id, code, info=text)


def logs(c, res):
    return [(k, v.replace(c.id + "::", "K::") if isinstance(v, str) else v) for k, v in res.log]


def run():
    r = Run("C16", "templates of every kind compiled and rendered in a clean function, and again among items, variables and macros that have the names which the expansion uses, with variables of the names which the "
                   "expansion binds, in both editions, and produced by declarative macros that substitute fragments of all sorts; all the logs (documents, types, calls) must be those of the clean one")
    r.min_evals = 100
    for rnd in r.rounds():
        rng = r.rng(rnd)
        n = 96 if r.quick else 240
        m = 90 if r.quick else 300
        plainc = corpus.cases(rng, n)
        tpls = [macros.Tpl(rng) for _ in range(m)]
        used, bound = expansions([c.info for _, c in plainc] + [t.flat() for t in tpls])
        r.count("names the expansions use", len(used))
        r.count("names the expansions bind", len(bound))
        names = (used | set(CURATED)) - {"leptos_mview"}
        cases = {"2021": [], "2024": []}
        pairs = []  # (kind, clean case, other case)

        def add(kind, base, c, ed):
            cases[ed].append(c)
            if base is not None:
                pairs.append((kind, base, c, ed))
        for i, (s, c) in enumerate(plainc):
            add(None, None, c, "2021")
            for kind, ed in (("scope", rng.choice(["2021", "2024"])), ("tokens", rng.choice(["2021", "2024"]))):
                o = hostile(c, rng, names, "%sh" % c.id) if kind == "scope" else tokens(c, rng, "%st" % c.id)
                if o:
                    o = moved(o, c.id)
                    add("%s: %s" % (kind, s), c, o, ed)
        pool = sorted((bound | set(LOCALS)) - KEYWORDS)
        for i, t in enumerate(tpls):
            base = own(t, "b%d" % i, "mview! {\n%s\n}" % t.flat(), {}, rng)
            add(None, None, base, "2021")
            qs = sorted(set(re.findall(r"\bq\d+\b", t.flat() + str(t.lets))))
            picked = [b for b in pool if b not in set(WORD.findall(t.flat()))]
            # names that are really bound come first
            rng.shuffle(picked)
            picked.sort(key=lambda b: b not in bound and rng.random() < 0.7)
            to = dict(zip(qs, picked))
            add("own: names and scope", base, own(t, "n%d" % i, "mview! {\n%s\n}" % t.flat(), to, rng, scoped=names), rng.choice(["2021", "2024"]))
            for j in range(2):
                module = rng.random() < 0.4
                defs, call, args = macros.macro(t, rng, share=rng.choice([0.15, 0.5, 0.9]), module=module)
                for _, f, _ in args:
                    r.count("fragments: " + f)
                ren = to if rng.random() < 0.5 else {}
                add("own: macro", base, own(t, "m%d_%d" % (i, j), call, ren, rng, macro="" if module else defs, top=defs if module else "", scoped=rng.choice([None, names])), rng.choice(["2021", "2024"]))
        for i in range(20 if r.quick else 80):
            seed = rng.random()
            a, b = inherent(random.Random(seed), "ia%d" % i, False), moved(inherent(random.Random(seed), "ib%d" % i, True), "ia%d" % i)
            add(None, None, a, "2021")
            add("own methods", a, b, rng.choice(["2021", "2024"]))
        prelude = render.PRELUDE + "pub mod defs { use leptos::prelude::*; use vh_rt as rt; %s }\n" % macros.DEFS
        uses = render.USES + " use crate::defs::*;"
        progs = [p for ed, cs in cases.items() for sh in (False, True)
                 for p in render.split([c for c in cs if corpus.shim(c) == sh], 14, prelude=prelude, uses=uses, edition=ed, shim=sh)]
        results = render.run_all(progs)
        for kind, a, b, ed in pairs:
            ra, rb = results[a.id], results[b.id]
            if ra.status != "ok":
                r.count("undecided: the clean one is %s" % ra.status)
                continue
            r.evaluated(b.code, sample={"kind": kind, "edition": ed, "code": b.code[-500:]} if rng.random() < 0.01 else None)
            r.count(kind)
            r.count("edition " + ed)
            src = lambda: "// rustc --edition %s\n" % ed + render.Program([b], prelude, uses).source()
            if rb.status == "compile":
                d = rb.diag[0]
                r.violation("c16:compile:" + d["message"][:40], "compiles on its own, but not here (%s, edition %s): %s" % (kind, ed, render.first_line(rb.diag)), src())
            elif rb.status != "ok":
                r.violation("c16:" + rb.status, "works on its own, but panics here (%s, edition %s): %s" % (kind, ed, rb.panic), src())
            elif logs(a, ra) != logs(b, rb):
                x = next(((x, y) for x, y in zip(logs(a, ra), logs(b, rb)) if x != y), (len(ra.log), len(rb.log)))
                r.violation("c16:differs", "means something else here (%s, edition %s):\n%s\non its own:\n%s" % (kind, ed, str(x[1])[:600], str(x[0])[:600]), src())
    return r.finish()
