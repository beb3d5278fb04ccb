"""Valid templates of every kind, from the generators of the rendering checks."""
from . import tgen
from .checks import c01, c02, c03, c04, c05, c06, c07, c08, c09, c10


def nodes_case(cid, nodes, rng):
    return c02.case_of(cid, nodes, rng)


SOURCES = {
    "tree": lambda cid, r: c01.case_of(cid, tgen.template(tgen.Gen(r)), r),
    "attributes": lambda cid, r: nodes_case(cid, c02.one(r, r.randrange(1000)), r),
    "classes": lambda cid, r: nodes_case(cid, c03.one(r), r),
    "directives": lambda cid, r: nodes_case(cid, c04.one(r, False), r),
    "shown directives": lambda cid, r: nodes_case(cid, c04.one(r, True), r),
    "props": lambda cid, r: c05.case_of(cid, r, r.random() < 0.4),
    "component directives": lambda cid, r: nodes_case(cid, c06.one(r, False), r),
    "shown component directives": lambda cid, r: nodes_case(cid, c06.one(r, True), r),
    "children": lambda cid, r: c07.case_of(cid, r),
    "slots": lambda cid, r: c08.case_of(cid, r),
    "reactive": lambda cid, r: c09.case_of(cid, r),
    "order": lambda cid, r: c10.case_of(cid, r),
}


def shim(c):
    """Whether the case needs harness/shim, which has what the real leptos lacks (see DESIGN.md)."""
    return "undelegated" in c.code


def cases(rng, n, prefix="zk", only=None):
    """n cases, as (source, Case)."""
    names = sorted(only or SOURCES)
    return [(s, SOURCES[s]("%s%d" % (prefix, i), rng)) for i in range(n) for s in [names[i % len(names)]]]
