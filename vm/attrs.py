"""Random attributes, selectors and directives, and what each of them means."""
import re

from .tgen import Attr, El, Gen, HTML, KEYWORDS, kebab_to_snake, rident, rstr
from .html import TABLES, VOID

GLOBAL = [a for a in TABLES["glob"] if "_" not in a and a not in ("is",)]
ARIA = [a.replace("_", "-") for a in TABLES["aria"]]
EVENTS = TABLES["events"]

SVG_NAMES = ["viewBox", "stroke-width", "d", "x1", "fill", "xlink-href", "type", "in", "for", "as", "id", "href",
             "preserveAspectRatio", "gradientUnits", "aria-label", "data-k", "x", "_a", "loop", "clip-path", "k-2",
             "gradient_units", "aria-hidden", "tabindex", "accent-height-2x"]
CUSTOM_NAMES = SVG_NAMES + ["my-prop", "whatever", "x-y-z", "prop1", "data-a-b", "async", "on_thing", "class-name",
                            "style-it", "ref-count"]
KEBAB = ["data-index", "data-a-b-c", "x-foo", "data-1", "my-attr-2x", "data-0xff", "accept-charset", "http-equiv",
         "data-type", "data--x", "hx-get", "data-a_b", "v-if", "data-match", "ref-x", "on-x", "class-x", "style-x",
         "data-aria-x", "x-aria", "for-each", "aria_x-y", "data-1_000", "data-0x1f", "x-3u8", "x-1_0-b",
         "data-0b11", "x-007", "x-1_", "x-2i64-a", "data-100_000_000", "data-18446744073709551616",
         "x-340282366920938463463374607431768211456-a", "x-4294967296"]
# only usable where no other word is next to the hyphen at the edge
EDGE = ["a-b-", "x--"]


def attr_name(g, e):
    """A name that element `e` takes."""
    r = g.rng
    if r.random() < 0.06:
        # a name of many parts
        return "%s-" % r.choice(["data", "x", "hx", "data-_", "ng"]) + "-".join(
            r.choice(["a", "b2", "on", "in", "7", "30px", "x_y", "Z", "name", "type", "", "self", "2d", "é"]) for _ in range(r.choice([2, 4, 6, 9, 14]))) + "-q"
    if e.kind == "svg":
        return r.choice(SVG_NAMES)
    if e.kind == "custom":
        return r.choice(CUSTOM_NAMES)
    own = TABLES["math"][e.tag] if e.kind == "math" else HTML[e.tag]
    own = [a for a in own if "_" not in a]
    pools = [GLOBAL, ARIA, KEBAB]
    if own:
        pools += [own, own]
    return r.choice(r.choice(pools))


def spaced(g, name):
    """Optionally writes a kebab name with spaces around its hyphens."""
    if "-" in name and g.rng.random() < 0.06:
        return name.replace("-", " - ")
    return name


def written(g, name):
    """A spelling of attribute name `name`."""
    r = g.rng
    if "-" not in name and name in KEYWORDS and r.random() < 0.4:
        return "r#" + name
    return spaced(g, name)


def value_text(g):
    r = g.rng
    if r.random() < 0.12:
        # words that a rewriting of values may take for something else
        return r.choice(["", "", "", " ", "\n", "true", "false", "none", "None", "0", "1", "null", "undefined", "a", "class", "title", "{}", "-"])
    return r.choice(["", "", "", "", "", " ", "\n", "{", "{{", "\t", "\u00a0", "-"]) + "v%d" % g.uid() + r.choice([
        " ", "\n", "\n\n", "\t", "\r", "}", "{{}}", "{x}", "}}", "\u00a0", "\\n", "_", "-", "//", "/* */", "\u0301", "%s",
        "", "", "", "", "", "", "", " x", "-y", "/a?b=c&d", '"', "'", "<i>", " é", "{}", "=", "\\",
                                       "#1", "\n", ";"])


def value(g, cat="kv"):
    """(source, value | True | None, evs, lets, form). `cat` limits the types."""
    r = g.rng
    k = r.randrange(13)
    t = value_text(g)
    q = rstr(t, r)
    if k == 0:
        return q, t, [], [], "lit-str"
    if k == 1:
        n, v = r.choice([("0", 0), ("1", 1), ("7", 7), ("42", 42), ("-3", -3), ("1000000", 1000000), ("0xff", 255),
                         ("1_000", 1000), ("0b101", 5), ("0o17", 15), ("-1_0", -10), ("00", 0), ("0x1F_u8", 31)])
        return n, str(v), [], [], "lit-int"
    if k == 2:
        return r.choice([("true", True, [], [], "lit-true"), ("false", None, [], [], "lit-false")])
    if k == 3:
        return r.choice([("1.5", "1.5", [], [], "lit-float"), ("5u8", "5", [], [], "lit-suffix"),
                         ("-2i64", "-2", [], [], "lit-suffix"), ("'c'", "c", [], [], "lit-char"),
                         ("2.5f32", "2.5", [], [], "lit-float"), ("1e3", "1000", [], [], "lit-float"),
                         ("2.5e-1", "0.25", [], [], "lit-float"), ("-0.5", "-0.5", [], [], "lit-float"),
                         ("300u16", "300", [], [], "lit-suffix"), ("5_000_000_000i64", "5000000000", [], [], "lit-suffix"),
                         ("0.1f64", "0.1", [], [], "lit-float"), ("'\\u{e9}'", "é", [], [], "lit-char"),
                         ("'\\''", "'", [], [], "lit-char"), ("18446744073709551615u64", "18446744073709551615", [], [], "lit-suffix")])
    e, v = expr(g)
    e, evs = g.ev(e)
    if k in (4, 5):
        return "{%s}" % e, v, evs, [], "block"
    if k == 6:
        return "{let y = %s; y}" % e, v, evs, [], "block-stmt"
    if k == 7:
        n = "v%d" % g.uid()
        return "{%s}" % n, v, evs, ["let %s = %s;" % (n, e)], "block-var"
    if k == 8:
        return "{move || %s}" % e, v, evs, [], "closure"
    if k in (9, 10):
        return "[%s]" % e, v, evs, [], "bracket"
    if k == 11 and r.random() < 0.4:
        m = "t%d" % g.uid()
        return r.choice([('f["{{%s}}"]' % m, "{%s}" % m), ('f["%s"]' % m, m), ('f["}}%s"]' % m, "}" + m),
                         ('f[r"\\{{%s"]' % m, "\\{" + m), ('f["{%s:>3}", %s = 2]' % (m, m), "  2"),
                         ('f["\\n{}%s\\n", 1,]' % m, "\n1%s\n" % m)]) + ([], [], "f-plain")
    if k == 11:
        e, evs = g.ev(q)
        return 'f["{}-{:03}", %s, 7]' % e, t + "-007", evs, [], "f"
    e, evs = g.ev("3")
    return 'f["<{0}{{}}{0}>", %s]' % e, "<3{}3>", evs, [], "f"


def expr(g):
    """(expression, attribute value)."""
    r = g.rng
    t = value_text(g)
    q = rstr(t)
    return r.choice([
        (q, t), ("String::from(%s)" % q, t), ("1 + 2", "3"), ("1 == 1", True), ("1 == 2", None),
        ("Some(%s)" % q, t), ("None::<&str>", None), ("%s.to_string()" % q, t), ("Some(4u8)", "4"),
        ("if true { %s } else { \"no\" }" % q, t), ("-5i32", "-5"), ("std::sync::Arc::<str>::from(%s)" % q, t),
        ("Some(true)", True), ("true.to_string()", "true"), ("format!(\"{}{}\", 1, %s)" % q, "1" + t),
    ])


def kv(g, e, used):
    """A key-value attribute that is not in `used` yet, or None."""
    r = g.rng
    for _ in range(20):
        name = attr_name(g, e)
        if name not in used and name not in ("class", "style", "ref"):
            break
    else:
        return None
    used.add(name)
    if r.random() < 0.12:
        return Attr(written(g, name), "kv", html=(name, True), form="bare")
    if r.random() < 0.2:
        # brace shorthand
        x, v = expr(g)
        x, evs = g.ev(x)
        var = rident(kebab_to_snake(name))
        if var != "_" and not var.isdigit() and not var[0].isdigit():
            if r.random() < 0.15:
                x = "move || " + x
            return Attr("{%s}" % written(g, name).replace("r#", "" if r.random() < 0.5 else "r#"), "kv", html=(name, v),
                        evs=evs, lets=["let %s = %s;" % (var, x)], form="shorthand")
    s, v, evs, lets, form = value(g)
    eq = r.choice(["=", "=", "=", " = "])
    return Attr(written(g, name) + eq + s, "kv", html=(name, v), evs=evs, lets=lets, form=form)


# ----------------------------------------------------------- classes and styles

CLASS_NAMES = ["a", "b-c", "blue-100", "red", "active", "x_y", "-m-2", "md-flex-1", "type", "for", "self", "w-1x",
               "--v", "a--b", "is-2-3", "_u", "crate", "loop-x", "t-10px", "C", "big-Big"]
CLASS_STR = ["md:hover", "w-[10px]", "a/b", "1st", "x.y", "complex-[class]-name", "é", "a@b"]
STYLE_KEYS = ["color", "background-color", "--var-x", "--v", "margin-top", "z-index", "width", "-webkit-flex", "float",
              "position", "grid-area", "--my_var", "max_w", "--v-1_0", "_m", "--_a_-b_"]
STYLE_STR = ["--odd.name", "doesn't-exist", "font-size"]
STYLE_VALS = ["red", "1px solid black", "calc(1px + 2em)", "0", "url(x)", "var(--q)", "10%", "#fff"]


TAILS = ["-a", "-2", "-b-c", "_d", "__e", "--f", "_", "-_g", "_-h", "-é", "_Ω", "X", "-Big", "-10px", "-3-x", "-type", "-for-", "9"]


# every spelling of a number has to come out as it is written
NUMBERS = ["-1_000", "-0x1f", "-3u8", "-0b11", "-007", "-1_0-b", "-2i64", "-1__0", "-0xFF-a", "-0o7", "-1_", "-99999999999999999999", "-4294967296"]


def tail(r):
    """The rest of a name that has begun with a letter."""
    out = "".join(r.choice(TAILS) for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3, 6, 10]))).rstrip("-")
    # `-2__e` would be half of a number
    if re.search(r"-[0-9][0-9_]*[eExbo]", out):
        out = ""
    return out + r.choice(NUMBERS) if r.random() < 0.2 else out


def selectors(g, n_cls=None, n_id=None):
    r = g.rng
    pool = r.sample(CLASS_NAMES, len(CLASS_NAMES))
    out = [(".", "w%d" % g.uid() + tail(r) if r.random() < 0.3 else pool.pop()) for _ in range((r.randrange(4) if r.random() < 0.95 else r.choice([6, 10, 14])) if n_cls is None else n_cls)]
    out += [("#", "i%d" % g.uid() + tail(r)) for _ in
            range(r.choice([0, 0, 1, 1, 2, 3, 7] if r.random() < 0.3 else [0, 0, 1, 1, 2]) if n_id is None else n_id)]
    if out and r.random() < 0.15:
        # an id and a class of one name
        s, n = r.choice(out)
        out.append((".#"[s == "."], n))
    r.shuffle(out)
    return out


def cond(g):
    """(source, holds, evs, form) for a class condition."""
    r = g.rng
    h = r.random() < 0.6
    b = "true" if h else "false"
    k = r.randrange(5)
    if k == 0:
        return b, h, [], "lit"
    e, evs = g.ev("1 %s 1" % ("==" if h else "!="))
    if k == 1:
        return "{%s}" % e, h, evs, "block"
    if k == 2:
        return "[%s]" % e, h, evs, "bracket"
    if k == 3:
        return "{move || %s}" % e, h, evs, "closure"
    return "{RwSignal::new(%s)}" % e, h, evs, "signal"


def class_dir(g, used, name=None):
    r = g.rng
    if name:
        key = spaced(g, name)
    elif r.random() < 0.2:
        name = r.choice(CLASS_STR)
        key = rstr(name)
    else:
        name = r.choice(CLASS_NAMES)
        key = spaced(g, name)
    if name in used:
        return None
    used.add(name)
    s, h, evs, form = cond(g)
    # brace shorthand
    var = kebab_to_snake(name)
    if not key.startswith('"') and var not in ("self", "crate") and r.random() < 0.25:
        e, evs = g.ev("1 %s 1" % ("==" if h else "!="))
        if r.random() < 0.5:
            e = "move || " + e
        return Attr("class:{%s}" % key, "dir", cls=[name] if h else [], toggle=True, evs=evs,
                    lets=["let %s = %s;" % (rident(var), e)], form="shorthand")
    return Attr("class:%s=%s" % (key, s), "dir", cls=[name] if h else [], toggle=True, evs=evs, form=form)


def style_dir(g, used):
    r = g.rng
    if r.random() < 0.2:
        name = r.choice(STYLE_STR)
        key = rstr(name)
    else:
        name = r.choice(STYLE_KEYS)
        key = spaced(g, name)
    if name in used:
        return None
    used.add(name)
    v = r.choice(STYLE_VALS)
    q = rstr(v)
    k = r.randrange(6)
    if k == 0:
        return Attr("style:%s=%s" % (key, q), "dir", style=[(name, v)], toggle=True, form="lit")
    e, evs = g.ev(r.choice([q, q + ".to_string()"]))
    if k == 1:
        return Attr("style:%s={%s}" % (key, e), "dir", style=[(name, v)], toggle=True, evs=evs, form="block")
    if k == 2:
        return Attr("style:%s=[%s]" % (key, e), "dir", style=[(name, v)], toggle=True, evs=evs, form="bracket")
    if k == 3:
        e, evs = g.ev("2")
        return Attr('style:%s=f["{}px", %s]' % (key, e), "dir", style=[(name, "2px")], toggle=True, evs=evs, form="f")
    if k == 4 and not key.startswith('"'):
        var = rident(kebab_to_snake(name))
        return Attr("style:{%s}" % key, "dir", style=[(name, v)], toggle=True, evs=evs,
                    lets=["let %s = %s;" % (var, e)], form="shorthand")
    return Attr("style:%s={move || %s}" % (key, e), "dir", style=[(name, v)], toggle=True, evs=evs, form="closure")


def style_dir_for(g, name):
    """A style directive that overrides property `name`."""
    v = "OVER%d" % g.uid()
    return Attr("style:%s=%s" % (name, g.rng.choice(['"%s"', '{"%s"}', '["%s"]']) % v), "dir", style=[(name, v)],
                toggle=True, form="override")


def class_attr(g, used):
    r = g.rng
    names = [n for n in r.sample(["p", "q-r", "base", "btn-2", "x:y", "lg"], r.randrange(1, 3)) if n not in used]
    if not names:
        return None
    used.update(names)
    v = " ".join(names)
    q = rstr(v)
    k = r.randrange(6)
    if k == 0:
        return Attr("class=%s" % q, "kv", cls=names, form="lit")
    e, evs = g.ev(r.choice([q, q + ".to_string()"]))
    if k == 1:
        return Attr("class={%s}" % e, "kv", cls=names, evs=evs, form="block")
    if k == 2:
        return Attr("class=[%s]" % e, "kv", cls=names, evs=evs, form="bracket")
    if k == 3:
        return Attr("{class}", "kv", cls=names, evs=evs, lets=["let class = %s;" % e], form="shorthand")
    if k == 4:
        e, evs = g.ev(rstr(names[0]))
        used.add(names[0] + "-3")
        return Attr('class=f["{}-3", %s]' % e, "kv", cls=[names[0] + "-3"], evs=evs, form="f")
    return Attr("class={move || %s}" % e, "kv", cls=names, evs=evs, form="closure")


def style_attr(g):
    r = g.rng
    decl = [(k, r.choice(STYLE_VALS)) for k in r.sample(STYLE_KEYS, r.randrange(1, 3))]
    v = "; ".join("%s: %s" % d for d in decl) + r.choice(["", ";"])
    q = rstr(v)
    k = r.randrange(5)
    if k == 0:
        return Attr("style=%s" % q, "kv", style=decl, form="lit")
    e, evs = g.ev(r.choice([q, q + ".to_string()"]))
    if k == 1:
        return Attr("style={%s}" % e, "kv", style=decl, evs=evs, form="block")
    if k == 2:
        return Attr("style=[%s]" % e, "kv", style=decl, evs=evs, form="bracket")
    if k == 3:
        return Attr("{style}", "kv", style=decl, evs=evs, lets=["let style = %s;" % e], form="shorthand")
    return Attr("style={move || %s}" % e, "kv", style=decl, evs=evs, form="closure")


# --------------------------------------------------- listeners, properties, etc.

PROP_KEYS = ["value", "checked", "innerText", "data-x", "type", "scroll-top", "a_b", "disabled", "selectedIndex",
             "indeterminate", "for", "inner-h-2x", "textContent", "--p"]


def fresh(a, names):
    """`a`, unless it needs a variable that the template already has."""
    if a is None:
        return None
    vs = [l.split("=")[0].split(":")[0].strip() for l in a.lets]
    if any(v in names for v in vs):
        return None
    names.update(vs)
    return a


def on(g, event=None, form=None):
    """A listener. `att` is ('on', event, undelegated, handler)."""
    r = g.rng
    ev = event or (r.choice(EVENTS) if r.random() < 0.7 else r.choice(["click", "input", "change", "submit"]))
    n = g.uid()
    und = r.random() < 0.3 if form is None else "undelegated" in form
    mod = ":undelegated" if und else ""
    att = ("on", ev, und, n)
    if (form and "shorthand" in form) or (form is None and r.random() < 0.2):
        return Attr("on:{%s}%s" % (ev, mod), "dir", att=att, form="on-shorthand",
                    lets=["let %s = rt::handler::<%d, _>;" % (rident(ev), n)])
    k = r.randrange(3)
    e, evs = g.ev("rt::handler::<%d, _>" % n)
    if k == 0:
        e = "let h = %s; h" % e
    return Attr("on:%s%s=%s{%s}" % (ev, mod, r.choice(["", "", " "]), e), "dir", att=att, evs=evs,
                form="on-undelegated" if und else "on")


def prop(g, used):
    """A property: `att` is ('prop', key, what identifies the value in its type)."""
    r = g.rng
    key = r.choice([k for k in PROP_KEYS if k not in used] or ["zz%d" % g.uid()])
    used.add(key)
    n = g.uid()
    k = r.randrange(5)
    if k == 0:
        return Attr("prop:{%s}" % key, "dir", att=("prop", key, n), form="prop-shorthand",
                    lets=["let %s = rt::getter::<%d>;" % (rident(kebab_to_snake(key)), n)])
    e, evs = g.ev("rt::getter::<%d>" % n)
    if k == 1:
        return Attr("prop:%s={%s}" % (rstr(key), e), "dir", att=("prop", key, n), evs=evs, form="prop-str-key")
    if k == 2:
        e, evs = g.ev('"x".to_string()')
        return Attr("prop:%s=[%s]" % (key, e), "dir", att=("prop", key, "closure"), evs=evs, form="prop-bracket")
    return Attr("prop:%s={%s}" % (spaced(g, key), e), "dir", att=("prop", key, n), evs=evs, form="prop")


def prop_value(g, used, bare=False):
    """A property with a value that can be shown: `att` is ('prop', key, Debug of the value)."""
    r = g.rng
    key = r.choice([k for k in PROP_KEYS if k not in used] or ["zz%d" % g.uid()])
    used.add(key)
    n = g.uid()
    q = '"p%d"' % n
    k = r.randrange(8)
    if k == 0:
        return Attr("prop:{%s}" % spaced(g, key), "dir", att=("prop", key, q), form="prop-shorthand",
                    lets=["let %s = %s;" % (rident(kebab_to_snake(key)), q)])
    key_s = rstr(key) if r.random() < 0.2 else spaced(g, key)
    if bare and r.random() < 0.15:
        return Attr("prop:%s" % key_s, "dir", att=("prop", key, "true"), form="prop-bare")
    v, d = r.choice([(q, q), (str(n), str(n)), ("true", "true"), ("false", "false"), ("%d.5" % n, "%d.5" % n),
                     ("{%s}" % q, q), ("{%s.to_string()}" % q, q), ("{%d + 1}" % n, str(n + 1)),
                     ("{let x = %s; x}" % q, q), ("{Some(%s)}" % q, "Some(%s)" % q)])
    return Attr("prop:%s=%s" % (key_s, v), "dir", att=("prop", key, d), form="prop-" + ("block" if v[0] == "{" else "lit"))


def use(g):
    """A directive: `att` is ('use', function, id, what its parameter converts from)."""
    r = g.rng
    n = g.uid()
    k = r.randrange(6)
    var = "d%s%d" % (r.choice(["", "u-", "ir-a-"]), n)
    ident = kebab_to_snake(var)
    if k == 0:
        return Attr("use:%s" % var, "dir", att=("use", "unit", n, "%d" % n), form="use-unit",
                    lets=["let %s = rt::directive_unit::<%d>;" % (ident, n)])
    if k == 1:
        return Attr("use:%s" % var, "dir", att=("use", "bare", n, None), form="use-bare",
                    lets=["let %s = rt::directive_bare::<%d>;" % (ident, n)])
    let = ["let %s = rt::directive_val::<%d>;" % (ident, n)]
    if k == 2:
        return Attr('use:%s="w%d"' % (var, n), "dir", att=("use", "val", n, "%d=w%d" % (n, n)), form="use-lit", lets=let)
    if k == 3 and r.random() < 0.6:
        c = r.choice("aZ9")
        lit, shown = r.choice([
            ("'%s'" % c, "c" + c), ("true", "btrue"), ("false", "bfalse"), ("%d.5" % n, "f%d.5" % n),
            ("1e2", "f100"), ('r#"r"%d"#' % n, 'r"%d' % n), ('"a\\tb%d\\u{41}"' % n, "a\tb%dA" % n), ('b"xy"', "xxy"),
            ('c"xy"', "zxy"), ("b'x'", "y120"), ("%du8" % (n % 200), "y%d" % (n % 200)), ("0x%x_i32" % n, "%d" % n),
            ("%d_000" % n, "%d000" % n), ("0b11", "3"), ('""', ""), ("0", "0")])
        return Attr("use:%s=%s" % (var, lit), "dir", att=("use", "val", n, "%d=%s" % (n, shown)), form="use-lit", lets=let)
    if k == 3:
        return Attr("use:%s=%d" % (var, n), "dir", att=("use", "val", n, "%d=%d" % (n, n)), form="use-lit", lets=let)
    e, evs = g.ev("rt::Raw::<%d>" % n)
    let = ["let %s = rt::directive_conv::<%d>;" % (ident, n)]
    if k == 4:
        e = "let x = %s; x" % e
    return Attr("use:%s={%s}" % (var, e), "dir", att=("use", "conv", n, "%d" % n), evs=evs, form="use-param", lets=let)


def ref(g):
    n = g.uid()
    if g.rng.random() < 0.15:
        return Attr("{ref}", "kv", att=("ref",), form="ref-shorthand", lets=["let r#ref = NodeRef::new();"])
    e, evs = g.ev("r%d" % n)
    return Attr("ref={%s}" % e, "kv", att=("ref",), evs=evs, form="ref", lets=["let r%d = NodeRef::new();" % n])


def spread(g):
    """A spread of a few attributes and listeners; `atts` and `html` list them."""
    r = g.rng
    n = g.uid()
    items, atts, attrs = [], [], []
    for i in range(r.randrange(1, 4)):
        m = g.uid()
        if r.random() < 0.5:
            name = "data-s%d" % m
            items.append('leptos::tachys::html::attribute::custom::custom_attribute("%s", "v%d")' % (name, m))
            attrs.append((name, "v%d" % m))
        else:
            ev = r.choice(["click", "input", "keydown", "blur"])
            items.append("leptos::tachys::html::event::on(leptos::ev::%s, rt::handler::<%d, _>)" % (ev, m))
            atts.append(("on", ev, False, m))
    tup = "(%s,)" % ", ".join(items)
    k = r.randrange(5)
    lets = []
    if k == 0:
        lets = ["let sp%d = %s;" % (n, tup)]
        e, evs = g.ev("sp%d" % n)
        src = "{..%s}" % e
    elif k == 1:
        e, evs = g.ev(tup)
        src = "{..%s}" % e
    elif k == 2:
        e, evs = g.ev(tup)
        src = "{ .. { let a = %s; a } }" % e
    elif k == 3:
        lets = ["let sf%d = || %s;" % (n, tup)]
        e, evs = g.ev("sf%d()" % n)
        src = "{ ..%s}" % e
    else:
        e, evs = g.ev(items[0] if len(items) == 1 else tup)
        src = "{..%s}" % e
    a = Attr(src, "spread", lets=lets, evs=evs, form="spread")
    a.atts, a.htmls = atts, attrs
    return a


# ------------------------------------------------------------------ components

CUSTOM_KEYS = ["data-index", "data-a_b", "data-some_id-x", "x-a_b", "hx-on_x", "data-_c", "data-a-b", "x-foo", "data-1", "accept-charset", "http-equiv", "hx-get", "data-type"]
CHECKED_KEYS = [k for k in TABLES["keys"] if ("-" not in k or k.startswith("aria-")) and k not in ("class", "style", "id")
                and "_" not in k]


def attr_dir(g, used):
    """An `attr:` directive on a component."""
    r = g.rng
    name = r.choice([k for k in r.choice([CUSTOM_KEYS, CHECKED_KEYS, CHECKED_KEYS]) if k not in used] or ["data-z%d" % g.uid()])
    used.add(name)
    if r.random() < 0.1:
        return Attr("attr:%s" % spaced(g, name), "dir", html=(name, True), form="attr-bare")
    if r.random() < 0.2:
        x, v = expr(g)
        x, evs = g.ev(x)
        if r.random() < 0.2:
            x = "move || " + x
        return Attr("attr:{%s}" % name, "dir", html=(name, v), evs=evs, form="attr-shorthand",
                    lets=["let %s = %s;" % (rident(kebab_to_snake(name)), x)])
    s, v, evs, lets, form = value(g)
    return Attr("attr:%s=%s" % (spaced(g, name), s), "dir", html=(name, v), evs=evs, lets=lets, form="attr-" + form)


def attr_class_style(g, used):
    r = g.rng
    if r.random() < 0.5:
        a = class_attr(g, used)
        if a is None:
            return None
    else:
        a = style_attr(g)
    a.src = "attr:" + a.src
    a.cat = "dir"
    a.form = "attr-cs-" + a.form
    return a
