"""Describing real elements for the specification Spaces, making random ones."""
from quickly.dom import base, element, lily, read, scm, tex

ATTRS = ("before", "after_head", "between", "before_tail", "after")
PREFS = ["", " ", "\n", "\n\n", "  ", "\n\n\n"]


def request(s):
    return [s.count("\n"), s.count(" ")]


def white(q):
    return "\n" * q[0] + " " * q[1]


class Strange(Exception):
    """Not a tree the specification speaks about."""


def tree(n, pieces=None):
    h, t = n.write_head() or "", n.write_tail() or ""
    sp = {}
    for a in ATTRS:
        s = getattr(n, "space_" + a)
        q = request(s)
        if white(q) != s:
            raise Strange("request")
        sp[a] = q
    if n.head_point() is not None and not h and (len(n) or t):
        raise Strange("no head text")
    if n.tail_point() is not None and not t:
        raise Strange("no tail text")
    return dict(h=h, t=t, sp=sp, doc="y" if isinstance(n, base.Document) and not isinstance(n, tex.Document) else "n",
                one="t" if isinstance(n, tex.Comment) else "y" if isinstance(n, (base.SinglelineComment, base.Newline)) else "n",
                nl="y" if isinstance(n, tex.Text) and h.startswith("\n") else "n", kids=[tree(c) for c in n])


class Plain(element.TextElement):
    pass


class Word(element.TextElement):
    space_before = space_after = " "


class Block(element.BlockElement):
    head, tail = "{", "}"
    space_after_head = space_between = space_before_tail = " "


class Group(element.Element):
    space_before, space_between = "\n", " "


def build(ty, i):
    if ty == "Plain":
        return Plain("p%d" % i)
    if ty == "Word":
        return Word("w%d" % i)
    if ty == "Comment":
        return lily.SinglelineComment(str(i))
    return {"Block": Block, "Group": Group, "Line": base.Line, "Column": base.Column, "Doc": base.Document,
            "Newline": base.Newline, "BlankLine": base.BlankLine}[ty]()


def respace(root, rng, n):
    """Set the spacing of some elements."""
    nodes = [root] + list(root.descendants())
    for _ in range(n):
        x = rng.choice(nodes)
        a = "space_" + rng.choice(ATTRS)
        if rng.random() < .2:
            delattr(x, a)
        else:
            setattr(x, a, rng.choice(PREFS))


def decorate(root, rng):
    """Put some of the generic elements in, that do not come from a document."""
    for _ in range(rng.randrange(0, 4)):
        nodes = [x for x in [root] + list(root.descendants()) if len(x)]
        if not nodes:
            return
        x = rng.choice(nodes)
        i = rng.randrange(len(x) + 1)
        r = rng.random()
        if r < .5:
            x.insert(i, rng.choice([base.Newline, base.BlankLine])())
        elif r < .7:
            x.insert(i, rng.choice([lily.SinglelineComment, lily.MultilineComment])(rng.choice(["x", "%% y"])))
        else:
            c = rng.choice([base.Line, base.Column, Group])
            y = x[i:i + 2]
            del x[i:i + 2]
            x.insert(i, c(*y))
