"""What the rendering checks share."""
from . import html, render, tgen


def template_case(cid, nodes, rng, obs="rt::obs(v);", pre="", model=None):
    """A case that builds a template in a function and observes the view."""
    body = tgen.src_all(nodes, rng)
    lets = pre + "\n".join(tgen.lets(nodes))
    code = "pub fn case() {\n%s\nlet v = mview! {\n%s\n};\n%s\n}" % (lets, body, obs)
    return render.Case(cid, code, model=nodes if model is None else model, info=body)


def basics(res):
    """(signature, message) if the case could not even be observed, or None."""
    if res.status == "compile":
        return "template-rejected", "valid template does not compile: " + render.first_line(res.diag)
    if res.status == "panic":
        return "panic", "building or rendering the view panicked: " + str(res.panic)
    return None


def parsed(res):
    """(tree, None) or (None, violation)."""
    h = res.one("html")
    try:
        return html.parse(h or ""), None
    except html.ParseError as e:
        return None, ("malformed", "rendered document is malformed: %s\n%s" % (e, h))
