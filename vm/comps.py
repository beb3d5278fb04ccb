"""Random components, and uses of them."""
from .tgen import Attr, KEYWORDS, kebab_to_snake, rident, rstr

PROP_NAMES = ["a", "value", "some_attr", "data_index", "x1", "type", "for", "loop", "on_thing", "class", "style", "id",
              "a_b_c", "children_count", "key", "item_2", "of_10_px", "show", "ref_count", "title", "name", "async",
              "build_it", "props", "view", "slots", "match", "r", "f", "clone", "aria_label", "_b", "mv_3x"]

# of names made up
SNAKE_ONLY = False     # no names that rustc warns of
PIECES = ["_a", "__b", "_1", "__2x", "_", "é", "_ñ", "X", "_Y", "_type", "___c", "_for", "0", "_10px"]


def values(g, ty):
    """(source, received Debug, form) for a value of a prop of sort `ty`."""
    r = g.rng
    n = g.uid() + 10

    def pick(*opts):
        return r.choice(opts)
    if ty == "i32":
        return pick((str(n), str(n), "lit"), ("{%d}" % n, str(n), "block"), ("{%d + 1}" % n, str(n + 1), "block"),
                    ("{let x = %d; x}" % n, str(n), "block"), ("{-%d}" % n, str(-n), "block"), 
                    ("%di32" % n, str(n), "lit"), ("0x%x" % n, str(n), "lit"))
    if ty == "u8":
        return pick((str(n % 200), str(n % 200), "lit"), ("b'a'", "97", "lit"), ("{7u8}", "7", "block"))
    if ty == "bool":
        return pick(("true", "true", "lit"), ("false", "false", "lit"), ("{1 == 1}", "true", "block"),
                    ("{1 == 2}", "false", "block"), (None, "true", "bare"), (None, "true", "bare"))
    if ty in ("str", "into"):
        q = '"s%d %s"' % (n, r.choice(["", "x", "é", "\\n", "\\\\", "{}"]))
        d = q
        o = [(q, d, "lit"), ("{%s}" % q, d, "block"), ('{if true { %s } else { "" }}' % q, d, "block")]
        if ty == "into":
            o += [("{%s.to_string()}" % q, d, "block"), ("{String::from(%s)}" % q, d, "block"), ("{'q'}", '"q"', "block"),
                  ("'w'", '"w"', "lit")]
        return r.choice(o)
    if ty == "String":
        return pick(('{"s%d".to_string()}' % n, '"s%d"' % n, "block"), ('{format!("{}", %d)}' % n, '"%d"' % n, "block"))
    if ty == "f64":
        return pick(("%d.5" % n, "%d.5" % n, "lit"), ("{%d as f64 / 2.0}" % (2 * n), "%d.0" % n, "block"))
    if ty == "char":
        return pick(("'c'", "'c'", "lit"), ("{'d'}", "'d'", "block"))
    if ty == "fn_i32":
        return pick(("[%d]" % n, "%d" % n, "bracket"), ("[%d + 1]" % n, str(n + 1), "bracket"),
                    ("{move || %d}" % n, str(n), "closure"), ("[let a = %d; a]" % n, str(n), "bracket"))
    if ty == "fn_string":
        return pick(('["s%d".to_string()]' % n, '"s%d"' % n, "bracket"), ('f["{}-{:?}", %d, "q"]' % n, '"%d-\\"q\\""' % n, "f"),
                    ('f["{{}}%d"]' % n, '"{}%d"' % n, "f"))
    if ty == "opt":       # stripped
        return pick(("{%d}" % n, "Some(%d)" % n, "block"), (str(n), "Some(%d)" % n, "lit"))
    if ty == "opt_no_strip":
        return pick(("{Some(%d)}" % n, "Some(%d)" % n, "block"), ("{None}", "None", "block"))
    if ty == "into_opt":
        return pick(('"t%d"' % n, 'Some("t%d")' % n, "lit"), ('{"t%d"}' % n, 'Some("t%d")' % n, "block"))
    if ty == "vec":
        return pick(("{vec![1, %d]}" % n, "[1, %d]" % n, "block"), ("{Vec::new()}", "[]", "block"))
    if ty == "sig":
        return pick(("{RwSignal::new(%d)}" % n, str(n), "block"), ("{Signal::derive(move || %d)}" % n, str(n), "block"),
                    (str(n), str(n), "lit"))
    if ty == "any":       # the type is the value's own
        t = pick("u8", "i64", "u64", "usize", "i8", "f32", "u128")
        if t == "f32":
            return pick(("%d.5f32" % n, "f32 %d.5" % n, "lit"), ("{%d.5f32}" % n, "f32 %d.5" % n, "block"))
        m = n % 100
        return pick(("%d%s" % (m, t), "%s %d" % (t, m), "lit"), ("{%d%s}" % (m, t), "%s %d" % (t, m), "block"), ("%d_%s" % (m, t), "%s %d" % (t, m), "lit"),
                    ("0x%x_%s" % (m, t), "%s %d" % (t, m), "lit"), (str(m), "i32 %d" % m, "lit"), ("%d.25" % m, "f64 %d.25" % m, "lit"), ("'z'", "char 'z'", "lit"),
                    ('"q"', '&str "q"', "lit"), ("b'a'", "u8 97", "lit"), ('b"ab"', "&[u8; 2] [97, 98]", "lit"), ("true", "bool true", "lit"))
    raise AssertionError(ty)


# sort: (declared type, prop attribute, debug of the default or None if required, how to show it)
SORTS = {
    "i32": ("i32", "", None, "&{0}"),
    "u8": ("u8", "", None, "&{0}"),
    "bool": ("bool", "", None, "&{0}"),
    "bool_opt": ("bool", "#[prop(optional)]", "false", "&{0}"),
    "str": ("&'static str", "", None, "&{0}"),
    "into": ("String", "#[prop(into)]", None, "&{0}"),
    "into_default": ("String", '#[prop(into, default = "dflt".to_string())]', '"dflt"', "&{0}"),
    "String": ("String", "", None, "&{0}"),
    "f64": ("f64", "", None, "&{0}"),
    "char": ("char", "#[prop(default = 'z')]", "'z'", "&{0}"),
    "i32_default": ("i32", "#[prop(default = 7)]", "7", "&{0}"),
    "fn_i32": ("impl Fn() -> i32 + 'static", "", None, "&{0}()"),
    "fn_string": ("impl Fn() -> String + 'static", "", None, "&{0}()"),
    "opt": ("Option<i32>", "#[prop(optional)]", "None", "&{0}"),
    "opt_strip": ("Option<i32>", "#[prop(strip_option)]", None, "&{0}"),
    "opt_no_strip": ("Option<i32>", "#[prop(optional_no_strip)]", "None", "&{0}"),
    "into_opt": ("Option<String>", "#[prop(optional, into)]", "None", "&{0}"),
    "vec": ("Vec<i32>", "#[prop(optional)]", "[]", "&{0}"),
    "any": ("impl std::fmt::Debug + 'static", "", None, ""),
    "sig": ("Signal<i32>", "#[prop(into)]", None, "&{0}.get_untracked()"),
}
VALUE_OF = {"bool_opt": "bool", "into_default": "into", "i32_default": "i32", "opt_strip": "opt"}

TYPES = ["i32", "String", "Vec<i32>", "Vec<Vec<u8>>", "Option<Vec<Option<u8>>>", "(i32, u8)", "()", "[u8; 3]",
         "&'static str", "fn(i32) -> u8", "fn() -> Vec<u8>", "std::collections::HashMap<u8, Vec<u8>>", "[i32; {1 + 2}]",
         "Box<dyn Fn(i32) -> Option<u8>>", "(Vec<Vec<Vec<i32>>>,)", "<u8 as std::ops::Add>::Output", "&'static [u8]"]


class Def:
    """A generated component definition."""

    def __init__(self, name, module, props, generics):
        self.name, self.module, self.props, self.generics = name, module, props, generics

    def source(self, body="()", extra_params="", root=""):
        ps = []
        show = []
        for n, sort in self.props:
            ty, at, _, sh = SORTS[sort]
            ps.append("%s %s: %s" % (at, rident(n), ty))
            if sort == "any":
                show.append('rt::prop("%s", "%s", &rt::WithType(&%s));' % (self.name, n, rident(n)))
            elif sort.startswith("fn_"):
                show.append('rt::prop("%s", "%s", &(%s)());' % (self.name, n, rident(n)))
            else:
                show.append('rt::prop("%s", "%s", %s);' % (self.name, n, sh.format(rident(n))))
        g, where = "", ""
        tys = [x for x in self.generics if x != "const"]
        gl = []
        for i, x in enumerate(self.generics):
            if x == "const":
                gl.append("const N%d: usize" % i)
                ps.append("#[prop(optional)] _c%d: rt::Const<N%d>" % (i, i))
                show.append('rt::note(format!("%s const {}", N%d));' % (self.name, i))
            else:
                gl.append("T%d: 'static" % i)
                show.append('rt::note(format!("%s type {}", std::any::type_name::<T%d>()));' % (self.name, i))
                ps.append("#[prop(optional)] _p%d: std::marker::PhantomData<T%d>" % (i, i))
        if gl:
            g = "<%s>" % ", ".join(gl)
        if extra_params:
            ps.append(extra_params)
        c = "#[component] pub fn %s%s(%s) -> impl IntoView { rt::mark(\"%s\"); %s %s }" % (
            self.name, g, ", ".join(ps), self.name, " ".join(show), body)
        return self.wrap(c)

    def wrap(self, c):
        for m in reversed(self.module):
            c = "pub mod %s { use leptos::prelude::*; use vh_rt as rt; %s }" % (m, c)
        return c


def definition(g, generic=None):
    r = g.rng
    n = g.uid()
    name = r.choice(["Comp%d", "C%dX", "HTMLThing%d", "Div%d", "A_%d"]) % n
    module = r.choice([[], [], [], ["m%d" % n], ["m%d" % n, "inner"]])
    names = r.sample(PROP_NAMES, min(len(PROP_NAMES), r.choice([0, 1, 2, 3, 5, 8] if r.random() < 0.94 else [12, 17, 24])))
    for i in range(r.choice([0, 0, 1, 2]) if not SNAKE_ONLY else 0):
        names.append("q%d" % g.uid() + "".join(r.choice(PIECES) for _ in range(r.choice([1, 2, 3] if r.random() < 0.85 else [6, 10]))))
    generics = []
    if r.random() < 0.35 if generic is None else generic:
        generics = [r.choice(["ty", "ty", "const"]) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6]))]
        # const parameters come last
        generics.sort(key=lambda x: x == "const")
    # `impl Fn` parameters do not mix with explicit generics
    sorts = [x for x in SORTS if not (generics and (x.startswith("fn_") or x == "any"))]
    return Def(name, module, [(p, r.choice(sorts)) for p in names], generics)


def kebab_spelling(g, n):
    """`n` with some of its underscores (where possible) as hyphens."""
    r = g.rng
    if "_" not in n.strip("_") or r.random() < 0.4:
        return n
    lead = len(n) - len(n.lstrip("_"))
    body = n[lead:].rstrip("_")
    out = "".join(("-" if c == "_" and r.random() < 0.8 else c) for c in body)
    # a segment that starts with a digit only exists after a hyphen... both are fine for the lexer
    return n[:lead] + out + n[lead + len(body):]


def use_props(g, d, names):
    """Random attributes for a use of `d`: (attrs, {prop: received})."""
    r = g.rng
    want = {}
    out = []
    for p, sort in d.props:
        default = SORTS[sort][2]
        if default is not None and r.random() < 0.45:
            want[p] = default
            continue
        src, dbg, form = values(g, VALUE_OF.get(sort, sort))
        key = kebab_spelling(g, p)
        if src is None:
            out.append(Attr(key if p not in ("self",) else p, "kv", form="bare"))
        elif form in ("block", "lit", "closure", "bracket") and r.random() < 0.2 and p not in names:
            names.add(p)
            e = src
            if form == "bracket":
                e = "move || {%s}" % src[1:-1]
            if form == "lit" and VALUE_OF.get(sort, sort) == "u8" and src.isdigit():
                e = src + "u8"
            a = Attr("{%s}" % key, "kv", form="shorthand", lets=["let %s = %s;" % (rident(p), e)])
            out.append(a)
        else:
            out.append(Attr(("r#" + p if p in KEYWORDS and p not in ("self", "crate", "super", "Self") and key == p and r.random() < 0.5
                             else key) + "=" + src, "kv", form=form))
        want[p] = dbg
    r.shuffle(out)
    return out, want


def head(g, d, cid):
    """A spelling of the component with its generics: (source, what it notes)."""
    r = g.rng
    path = "::".join(d.module + [d.name])
    k = r.randrange(6)
    if k == 0:
        path = "self::" + path
    elif k == 1:
        path = "crate::%s::%s" % (cid, path)
    elif k == 2:
        path = "super::%s::%s" % (cid, path)
    notes = []
    if d.generics:
        args = []
        for x in d.generics:
            if x == "const":
                v = r.randrange(10, 90)
                args.append(r.choice([
                    "%d", "{%d}", "{%d + 0}", "{0 + %d}", "{ %d - 3 + 3 }", "%dusize", "{let x = %d; x}", "{%d | 0}",
                    "{if true { %d } else { 0 }}", "{usize::MAX & %d}", "{ const A: usize = %d; A }",
                    "{[0, %d][1]}", "{-(-%d_i32) as usize}", "{\"12\".len() - 2 + %d}", "{match 1u8 { 1 => %d, _ => 2 }}",
                    "{std::mem::size_of::<[u8; %d]>()}", "{ !!%d }", "{ %d << 0 >> 0 }"]) % v)
                notes.append("%s const %d" % (d.name, v))
            else:
                t = r.choice(TYPES)
                args.append(t)
                notes.append((d.name, t))
        path += r.choice(["<%s>", "::<%s>", " < %s >", "::<%s,>"]) % ", ".join(args)
    return path, notes
