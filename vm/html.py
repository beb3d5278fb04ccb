"""Parsers for what the monitors record: rendered HTML and Rust type names."""
import html as _html
import json
import os
import re

TABLES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables.json")))
VOID = set(TABLES["void"])
RAW = set(TABLES["raw"])


class ParseError(Exception):
    pass


class El:
    __slots__ = ("tag", "attrs", "children")

    def __init__(self, tag, attrs=None, children=None):
        self.tag = tag
        self.attrs = attrs if attrs is not None else []
        self.children = children if children is not None else []

    def attr(self, k):
        for a, v in self.attrs:
            if a == k:
                return v
        return None

    def __repr__(self):
        return "<%s %r %r>" % (self.tag, self.attrs, self.children)


_ATTR = re.compile(r'\s+([^\s=/>"\']+)(?:="([^"]*)")?')
_TAG = re.compile(r"<([A-Za-z][^\s/>]*)")


def parse(s):
    """Parses tachys' SSR output into a list of nodes (str or El).

    Comments are dropped (`<!>` separates text nodes and stands for an empty
    view), and adjacent text is merged.
    """
    pos = 0
    root = El("#root")
    stack = [root]

    def text(t):
        if not t:
            return
        c = stack[-1].children
        if c and isinstance(c[-1], str):
            c[-1] += t
        else:
            c.append(t)

    while pos < len(s):
        if s.startswith("<!--", pos):
            end = s.find("-->", pos)
            if end < 0:
                raise ParseError("unterminated comment")
            pos = end + 3
        elif s.startswith("<!", pos):
            end = s.find(">", pos)
            if end < 0:
                raise ParseError("unterminated marker")
            pos = end + 1
        elif s.startswith("</", pos):
            end = s.find(">", pos)
            name = s[pos + 2:end]
            if len(stack) < 2 or stack[-1].tag != name:
                raise ParseError("unexpected closing tag %s at %d" % (name, pos))
            stack.pop()
            pos = end + 1
        elif s[pos] == "<":
            m = _TAG.match(s, pos)
            if not m:
                raise ParseError("stray < at %d" % pos)
            el = El(m.group(1))
            pos = m.end()
            while True:
                a = _ATTR.match(s, pos)
                if not a:
                    break
                el.attrs.append((a.group(1), None if a.group(2) is None else _html.unescape(a.group(2))))
                pos = a.end()
            rest = re.compile(r"\s*/?>").match(s, pos)
            if not rest:
                raise ParseError("malformed tag %s at %d: %r" % (el.tag, pos, s[pos:pos + 30]))
            pos = rest.end()
            stack[-1].children.append(el)
            if el.tag in VOID:
                continue
            if el.tag in RAW:
                end = s.find("</%s>" % el.tag, pos)
                if end < 0:
                    raise ParseError("unterminated raw element")
                t = re.sub(r"<!--.*?-->|<!>", "", s[pos:end])
                if t:
                    el.children.append(t)
                pos = end + len(el.tag) + 3
                continue
            stack.append(el)
        else:
            end = s.find("<", pos)
            if end < 0:
                end = len(s)
            text(_html.unescape(s[pos:end]))
            pos = end
    if len(stack) != 1:
        raise ParseError("unclosed element " + stack[-1].tag)
    return root.children


def styles(v):
    """Declarations of a style attribute, in order."""
    out = []
    for d in (v or "").split(";"):
        d = d.strip()
        if d:
            k, _, x = d.partition(":")
            out.append((k.strip(), x.strip()))
    return out


# ---------------------------------------------------------------- type names

class Ty:
    """A type: `name` is its path without generics, '(' for tuples."""
    __slots__ = ("name", "args")

    def __init__(self, name, args):
        self.name = name
        self.args = args

    @property
    def last(self):
        return self.name.rsplit("::", 1)[-1]

    def __repr__(self):
        return self.name + ("<%s>" % ", ".join(map(repr, self.args)) if self.args else "")


def parse_type(s):
    t, i = _ptype(s, 0)
    return t


def _ws(s, i):
    while i < len(s) and s[i] in " ":
        i += 1
    return i


def _list(s, i, close):
    out = []
    while True:
        i = _ws(s, i)
        if i >= len(s):
            return out, i
        if s[i] == close:
            return out, i + 1
        if s[i] == ",":
            i += 1
            continue
        j = i
        t, i = _ptype(s, i)
        if i == j:  # cannot make progress: skip one character
            i += 1
        else:
            out.append(t)


def _ptype(s, i):
    i = _ws(s, i)
    if i >= len(s):
        return Ty("?", []), i
    if s[i] == "(":
        args, i = _list(s, i + 1, ")")
        return Ty("(", args), i
    if s[i] == "&":
        i += 1
        m = re.compile(r"\s*('\w+\s+)?(mut )?").match(s, i)
        t, i = _ptype(s, m.end())
        return Ty("&", [t]), i
    if s[i] == "[":
        args, i = _list(s, i + 1, "]")
        return Ty("[", args), i
    if s.startswith(("dyn ", "fn(", "unsafe ", "for<", "extern ", "impl ")  , i):
        # opaque to us: take it up to the end of this argument
        depth = 0
        j = i
        while j < len(s):
            if s.startswith("->", j):
                j += 2
                continue
            c = s[j]
            if c == '"':
                j += 1
                while j < len(s) and s[j] != '"':
                    j += 2 if s[j] == "\\" else 1
            elif c in "<([{":
                depth += 1
            elif c in ">)]}":
                if depth == 0:
                    break
                depth -= 1
            elif c == "," and depth == 0:
                break
            j += 1
        return Ty(s[i:j].strip(), []), j
    # a path
    name = []
    args = []
    while i < len(s):
        c = s[i]
        if c == "<":
            if not name:
                # `<T as Trait>::x`
                a, i = _list(s, i + 1, ">")
                name.append("<>")
                continue
            a, i = _list(s, i + 1, ">")
            args = args + a
            continue
        if c == "{":
            depth = 0
            j = i
            while j < len(s):
                if s[j] == "{":
                    depth += 1
                elif s[j] == "}":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            name.append(s[i:j + 1])
            i = j + 1
            continue
        if c in ",>)] ;":
            if c == " " and s.startswith(" as ", i):
                i += 4
                continue
            if c in " ;":
                i += 1
                if c == ";":
                    continue
                break
            break
        if c == '"':
            j = i + 1
            while j < len(s) and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            name.append(s[i:j + 1])
            i = j + 1
            continue
        name.append(c)
        i += 1
    return Ty("".join(name), args), i


ATTR_KINDS = {"Attr", "CustomAttr", "Class", "Style", "On", "Property", "Directive", "NodeRefAttr", "InnerHtml"}


class TEl:
    """An element as seen in the type of a view."""

    def __init__(self, module, name, attrs, children):
        self.module, self.name, self.attrs, self.children = module, name, attrs, children

    def __repr__(self):
        return "TEl(%s::%s, %r)" % (self.module, self.name, self.attrs)


def flat_attrs(t):
    if t.name == "(":
        out = []
        for a in t.args:
            out += flat_attrs(a)
        return out
    return [t]


def elements(t):
    """All elements in a type, in document order (nested ones after their parent)."""
    out = []

    def walk(t):
        if t.last == "HtmlElement" and len(t.args) == 3:
            e = t.args[0]
            out.append(TEl(e.name.rsplit("::", 1)[0], e.last, flat_attrs(t.args[1]), t.args[2]))
            walk(t.args[2])
            return
        for a in t.args:
            walk(a)

    walk(t)
    return out


def kind_of(module):
    """Language of an element, from the module its type is in (None: unknown)."""
    parts = module.split("::")
    if "svg" in parts:
        return "svg"
    if "mathml" in parts:
        return "math"
    if parts[-1] == "custom":
        return "custom"
    if "html" in parts:
        return "html"
    return None
