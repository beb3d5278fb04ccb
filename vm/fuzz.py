"""Token sequences: anything that the lexer accepts."""
import random
import re

from . import mistakes

IDENTS = ["a", "b", "div", "span", "p", "br", "input", "Comp", "Show", "For", "svg", "circle", "math", "my", "el", "class", "style", "attr", "on", "use", "prop", "clone", "slot",
          "ref", "f", "r", "x", "data", "aria", "click", "undelegated", "hidden", "type", "self", "Self", "crate", "super", "_", "r#div", "r#fn", "r#type", "move", "fn", "for",
          "in", "as", "true", "false", "dyn", "impl", "async", "await", "let", "match", "static", "where", "é", "Ω", "ΩMEGA", "日本", "__", "_x", "A", "T", "U1", "aB", "ref_", "use_",
          "union", "try", "gen", "macro", "yield", "abstract", "box", "typeof", "std", "leptos", "Then", "IfX", "macro_rules", "default", "auto", "safe", "raw", "loop", "if", "else"]
LITS = ['"s"', '""', '"é"', 'r"r"', 'r#"q"#', 'b"b"', 'br"b"', "b'c'", "'c'", "1", "0", "1u8", "1.5", "1.", "1e3", "0xff", "0b1", "1_000", "2f32", '"a{}b"', '"{"', "'\\n'", '"\\u{1F600}"',
        "12345678901234567890123456789012345678901", '"a" ', 'c"s"', "1i128", "0o7", "1.0e-5f64", '"</script>"', "3usize"]
PUNCT = [";", ":", "::", ",", ".", "..", "...", "..=", "=", "==", "=>", "->", "-", "--", "|", "||", "&", "&&", "#", "!", "?", "@", "$", "+", "*", "/", "%", "^", "~", "<", ">", "<<", ">>",
         "<=", ">=", "!=", "+=", "-=", "<-", "'life", "'_", "'a", "'static"]
GROUPS = [("{", "}"), ("(", ")"), ("[", "]")]

NUMS = ["0", "00", "007", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "340282366920938463463374607431768211456",
        "1_", "1__0", "0xff", "0xFFFFFFFFFFFFFFFFFFFF", "0b11", "0o7", "1u8", "256u8", "1zz", "1e3", "1E5", "1e999", "1.5", "1.0f32", "1._", "9" * 300]
STRS = ['""', '" "', '"\\0"', '"\\n\\t\\r"', '"{"', '"{}"', '"}{"', '"{{"', '"\\u{10FFFF}"', '"\\""', '"--"', '"-"', '"1"', '"a b"', '"é"', '"日本 語"', '"\\u{202e}"', '"\\\\"',
        '"a\\\n   b"', 'r"\\"', 'r##"a"#b"##', '"%s"' % ("x" * 500), '"self"', '"fn"', '"A"', '"<b>"', '"&amp;"', 'b"a"', 'c"a"', "'a'", "b'a'", '"a"u8', '"a"_x']
PHRASES = ["div", "div ;", 'class = "x"', "class : x = {true}", "on : click = {|_| ()}", "{ .. x }", ". a", "# b", "| x |", "| ( a , b ) |", "slot : Then", "slot :", 'f [ "{}" , 1 ]', "Comp < T >",
           "Comp :: < T > ;", "a :: B", ":: a :: B ;", "clone : x", "clone : { x }", "attr : id", "prop : x = 1", "use : d", "use : d = { 1 }", "on : { click } : undelegated", "- - x", "a - b",
           "data - x = 1", "a - 1", 'div { "a" }', 'Comp | x | { "a" }', "{ x }", "[ x ]", "x [ 1 ]", "= ;", "Fn ( i32 )", "a :: Fn ( i32 ) -> T", "< T as X > :: Y", "x :", ": x", "class :", "style : - - v", "a = b = c",
           "my - el . a # b", "Comp . a # b # c", "r#fn", "r#a - b", "slot : A :: B ;", "slot : a ;", "slot : slot : A ;", "{ { } }", "{ ( ) }", '"a" ;', "! x", "ref = { r }", "class = { a } class = { b }"]


class Fuzz:
    def __init__(self, rng):
        self.r = rng

    def token(self):
        r = self.r
        k = r.random()
        return r.choice(IDENTS if k < 0.45 else LITS if k < 0.6 else PUNCT)

    def soup(self, n, depth=0):
        r = self.r
        out = []
        while n > 0:
            k = r.random()
            if k < 0.22 and depth < 5:
                m = min(n, r.choice([0, 1, 2, 3, 5, 8]))
                a, z = r.choice(GROUPS)
                out.append(a + " " + self.soup(m, depth + 1) + " " + z)
                n -= m + 1
            elif k < 0.45:
                p = r.choice(PHRASES)
                out.append(p)
                n -= len(p.split())
            else:
                out.append(self.token())
                n -= 1
        return self.glue(out)

    def glue(self, toks):
        """With or without spaces, where that does not make another token."""
        out = ""
        for t in toks:
            tight = out and self.r.random() < 0.35 and PUN.match(out[-1]) and (t[0].isalpha() or t[0] in "{[(\"_" or PUN.match(t[0])) \
                and not (out[-1] in "/'" or t[0] in "/*" or t[0] == "'") and not (out.endswith("#"))
            out += t if tight or not out else " " + t
        return out

    def template(self):
        r = self.r
        g = mistakes.Gen(r)
        roots = g.root()
        ks = sorted(mistakes.KINDS)
        for _ in range(r.choice([0, 0, 1, 2])):
            mistakes.KINDS[r.choice(ks)](g, roots)
        return mistakes.emit(roots, random.Random(r.random()))[0]

    def rename(self, src):
        """Unusual names in the places of the names of a template."""
        r = self.r
        toks = lex(src)
        for i, t in enumerate(toks):
            if re.fullmatch(r"[A-Za-z_]\w*", t) and t not in KEEP and r.random() < 0.4:
                n = r.choice(ODD)
                if r.random() < 0.5:
                    n = "".join(r.choice(ODD_CHARS) for _ in range(r.randrange(1, 9)))
                    n = n if n[0] == "_" or n[0].isalpha() else "x" + n
                    n = "x_" if n == "_" else n
                if t[0].isupper() and n[0].islower() and n[0].upper().isidentifier() and len(n[0].upper()) == 1:
                    n = n[0].upper() + n[1:]
                toks[i] = n
            elif re.fullmatch(r"[0-9]\w*", t) and r.random() < 0.5:
                toks[i] = r.choice(NUMS)
            elif re.fullmatch(r'"[^"]*"', t) and r.random() < 0.25:
                toks[i] = r.choice(STRS)
            elif t == "-" and r.random() < 0.3:
                toks[i] = "- %s" % r.choice(NUMS + ["-", ""]) if toks[i + 1:i + 2] == ["-"] else "- %s -" % r.choice(NUMS)
        return " ".join(toks)

    def mutate(self, src):
        """Changes a few tokens of a template; the delimiters stay balanced."""
        r = self.r
        tree = parse(lex(src))
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            lists = []

            def walk(xs):
                lists.append(xs)
                for x in xs:
                    if isinstance(x, list):
                        walk(x[1])
            walk(tree)
            xs = r.choice(lists)
            k = r.randrange(9)
            i = r.randrange(len(xs) + 1)
            if k == 0 and xs:
                del xs[min(i, len(xs) - 1)]
            elif k == 1 and xs:
                xs.insert(i, dup(r.choice(xs)))
            elif k == 2:
                xs.insert(i, self.token())
            elif k == 3 and xs:
                xs[min(i, len(xs) - 1)] = self.token()
            elif k == 4 and len(xs) > 1:
                j = r.randrange(len(xs))
                i = min(i, len(xs) - 1)
                xs[i], xs[j] = xs[j], xs[i]
            elif k == 5:
                del xs[i:]
            elif k == 6:
                j = r.randrange(i, len(xs) + 1)
                xs[i:j] = [[r.choice(GROUPS), xs[i:j]]]
            elif k == 7:
                gs = [q for q, x in enumerate(xs) if isinstance(x, list)]
                if gs:
                    q = r.choice(gs)
                    if r.random() < 0.5:
                        xs[q:q + 1] = xs[q][1]
                    else:
                        xs[q][0] = r.choice(GROUPS)
            else:
                xs[i:i] = lex(r.choice(PHRASES)) if not set("{[(") & set(r.choice(PHRASES)) else []
        flat = []

        def out(xs):
            for x in xs:
                if isinstance(x, list):
                    flat.append(x[0][0])
                    out(x[1])
                    flat.append(x[0][1])
                else:
                    flat.append(x)
        out([x for x in tree])
        return " ".join(flat)


KEEP = {"slot", "class", "style", "attr", "on", "use", "prop", "clone", "f", "ref", "undelegated", "true", "false", "let", "move", "r", "b", "c", "br", "if", "else"}
ODD = ["é", "Ω", "ΩMEGA", "日本", "__", "_x", "x_", "A", "T", "aB", "ABC", "ABc", "HTMLElement", "X1Y2", "x1", "_1", "__a__", "ǅungla", "ﬁ", "ß", "Éa", "aÉ", "ñañ", "r#type", "r#fn", "Ünter_Über", "_Ω", "a" * 300,
       "A" * 300, "macro_rules", "dyn", "async", "gen", "Self", "self", "super", "crate", "Türkiyeİ", "ıx", "Дом", "ДОМ", "ქარ", "Აბ", "ᏸᏹ", "𝒳y", "a𝒳"]
ODD_CHARS = list("abzABZ019___éÉßΩωДд日İıǅ𝒳ᏸ")

PUN = re.compile(r"[-:.=|<>&!?@,;+*^~%#$/]")
LEX = re.compile(r'''\b(?:b|c)?r(?P<h>\#*)"(?s:.)*?"(?P=h)|(?:b|c|r|br|cr)?\#*"(?:[^"\\]|\\.)*"\#*|b?'(?:[^'\\]|\\.[^']*)'|'[A-Za-z_]\w*|r\#\w+|\d[\w]*(?:\.\d\w*)?|\w+|::|\.\.=?|=>|->|[{}()\[\]]|[^\s\w]''')


def lex(src):
    return [m.group(0) for m in LEX.finditer(src)]


def dup(x):
    return [x[0], [dup(y) for y in x[1]]] if isinstance(x, list) else x


def parse(toks):
    opens = {a: (a, z) for a, z in GROUPS}
    closes = {z for _, z in GROUPS}
    stack = [[]]
    pairs = []
    for t in toks:
        if t in opens:
            stack.append([])
            pairs.append(opens[t])
        elif t in closes:
            if len(stack) > 1:
                xs = stack.pop()
                stack[-1].append([pairs.pop(), xs])
        else:
            stack[-1].append(t)
    while len(stack) > 1:
        xs = stack.pop()
        stack[-1].append([pairs.pop(), xs])
    return stack[0]


# fragments that declarative macros can substitute: they arrive in invisible groups
FRAGS = [("expr", ["1", '"s"', "a + b", "x", "{ 1 }", "-1", "true", "f(x)", "|a| a", "[1]", "(a, b)", "m!{}"]), ("ident", ["div", "x", "Comp", "r#fn", "_x", "clone", "slot"]),
         ("literal", ["1", '"s"', "true", "-1", "'c'", "1.5"]), ("tt", ["x", "{x}", "[x]", "(x)", ":", '"s"', "=", "|"]), ("ty", ["i32", "Vec<i32>", "Comp", "&str", "a::B"]),
         ("path", ["Comp", "a::B", "::a::B", "Comp::<i32>", "Vec<i32>"]), ("block", ["{ 1 }", "{ x }", '{ "s" }', "{}"]), ("pat", ["x", "(a, b)", "_", "1"]), ("stmt", ["let a = 1", "x", "f()"]),
         ("lifetime", ["'a"]), ("vis", ["pub", "", "pub(crate)"]), ("meta", ["x", "x = 1", "x(y)"]), ("item", ["fn g() {}", "struct S;"])]


def metavars(rng, src, n):
    """(macro definition, call) with some tokens of src replaced by fragments; None if src has a `$`."""
    toks = lex(src)
    if "$" in toks or not toks:
        return None
    params, args = [], []
    for i in range(n):
        frag, texts = rng.choice(FRAGS)
        text = rng.choice(texts)
        places = [j for j, t in enumerate(toks) if t not in "{}()[]" and not t.startswith("$")]
        if not places:
            break
        name = "$v%d" % i
        j = rng.choice(places)
        if rng.random() < 0.6:
            toks[j] = name
        else:
            toks.insert(j, name)
        params.append("{ %s:%s }" % (name, frag))
        args.append("{ %s }" % text)
    return " ".join(params), " ".join(args), " ".join(toks)
