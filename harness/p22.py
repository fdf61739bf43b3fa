"""P22: positions of elements, finding them, and selections (spec: Positions)."""
import random
import types

import parce
from quickly import find
from quickly.dom import base, edit, element, lily, read

from . import core, corpus, docs, p08

NO = 100000000


class Item(element.BlockElement):
    head = "("
    tail = ")"


class Thing(element.HeadElement):
    head = "x"


class Bare(element.Element):
    pass


def token(pos, end):
    return types.SimpleNamespace(pos=pos, end=end, text="x" * (end - pos))


def build(t):
    """A tree of elements with the texts of the specification's tree."""
    nodes = []
    path = []
    for n in t:
        head = () if n["hb"] == NO else (token(n["hb"], n["he"]),)
        tail = () if n["tb"] == NO else (token(n["tb"], n["te"]),)
        if tail:
            node = Item()
            node.head_origin, node.tail_origin = head, tail
        elif head:
            # a block without its end, or just a head
            node = Item() if len(nodes) % 2 else Thing()
            node.head_origin = head
            if len(nodes) % 4 == 1:
                node.tail_origin = ()
        else:
            node = Bare()
        del path[n["d"]:]
        if path:
            path[-1].append(node)
        path.append(node)
        nodes.append(node)
    return nodes


class Doc(parce.Document):
    """A document with a given tree."""
    tree = None

    def get_transform(self, wait=False):
        return self.tree if self.tree is not None else super().get_transform(wait)


class Select(edit.Edit):
    readonly = True

    def edit_range(self, r):
        seen = set()
        if r.ancestor() in self.nodes[:1] and r.is_full():
            seen.add(id(r.ancestor()))
        for n in self.nodes:
            if n in r:
                seen.add(id(n))
        # walk through the range, which must give the same
        walked = set()
        for n in r.descendants():
            if r.in_range():
                walked.add(id(n))
        self.walked = walked | (seen & {id(r.ancestor())})
        self.seen = seen
        return r


def indices(nodes, ids):
    return [i + 1 for i, n in enumerate(nodes) if id(n) in ids]


def select(nodes, doc, a, b, how):
    """Which nodes are in the range when a .. b is selected."""
    e = Select()
    e.nodes = nodes
    e.range_from_root = "root" in how
    if "cursor" in how:
        e.range_from_cursor = True
        e.edit(parce.Cursor(doc, a))
    elif "all" in how:
        e.edit(parce.Cursor(doc).select_all())
    elif "document" in how:
        e.edit(doc)
    else:
        e.edit(parce.Cursor(doc, a, b))
    return indices(nodes, e.walked if "walk" in how else e.seen)


def ask(nodes, k, i, p, e=0):
    number = {id(n): j + 1 for j, n in enumerate(nodes)}
    n = nodes[i - 1]
    if k == "child":
        r = [n.find_child(p)]
    elif k == "descendants":
        return [number.get(id(x), -1) for x in n.find_descendants(p, e)]
    elif k == "descendant":
        r = [n.find_descendant(p, e)]
    elif k == "right":
        r = [n.find_descendant_right(p)]
    else:
        r = [n.find_descendant_left(p)]
    return [0 if x is None else number.get(id(x), -1) for x in r]


def span(n):
    pos, end = n.pos, n.end
    return [NO if pos is None else pos, NO if end is None else end]


def sel(how, **args):
    return dict(how=how, whole="walk" in how, **args)


HOWS = ["", "-root", "-walk", "-root-walk"]


def play(cases):
    res = []
    for c in cases:
        r, err = core.guarded(play_one, c)
        res.append(r if r else dict(err=err, t=c["t"], spans=[], texts=[], q=[], sel=[]))
    return res


def play_one(c):
    """All questions of the specification; only the trees with a different answer remain."""
    nodes = build(c["t"])
    size = c["n"]
    places = range(size + 1)
    line = dict(err="", t=c["t"], spans=[span(n) for n in nodes], texts=[], q=[], sel=[])
    for i in range(1, len(nodes) + 1):
        for p in places:
            for k in ("child", "right", "left"):
                r = ask(nodes, k, i, p)
                if r != [c[k][i - 1][p]]:
                    line["q"].append(dict(k=k, i=i, p=p, e=0, r=r))
    for p in places:
        for e in places:
            r = ask(nodes, "descendants", 1, p, e)
            if r != c["down"][p][e]:
                line["q"].append(dict(k="descendants", i=1, p=p, e=e, r=r))
            r = ask(nodes, "descendant", 1, p, e)
            if r != (c["down"][p][e][-1:] or [0]):
                line["q"].append(dict(k="descendant", i=1, p=p, e=e, r=r))
    d = Doc(text="x" * size)
    d.tree = nodes[0]
    n = 0
    for a in range(size):
        for b in range(a + 1, size + 1):
            n += 1
            how = HOWS[n % 4]
            line["sel"].append(sel("range" + how, a=a, b=b, **{"in": select(nodes, d, a, b, how)}))
    a = n % (size + 1)
    line["sel"].append(sel("cursor", a=a, b=NO - 1, **{"in": select(nodes, d, a, a, "cursor")}))
    line["sel"].append(sel("all", a=0, b=size, **{"in": select(nodes, d, 0, 0, "all")}))
    return line


# ---- real documents

def own(n):
    head = getattr(n, "head_origin", ())
    tail = getattr(n, "tail_origin", ())
    return dict(hb=head[0].pos if head else NO, he=head[-1].end if head else NO,
                tb=tail[0].pos if tail else NO, te=tail[-1].end if tail else NO)


def flat(text):
    return "".join(text.split())


def real(seeds):
    res = []
    for seed in seeds:
        rng = random.Random(seed)
        while True:
            lang, text = ("lilypond", corpus.document(rng, rng.choice([1, 1, 2, 3]))) if rng.random() < .8 else ("scheme", corpus.scheme(rng)) if rng.random() < .3 else p08.embed(rng)
            if rng.random() < .5:
                lang, text = docs.wide(rng)
            if len(text) <= 500:
                break
        r, err = core.guarded(real_one, rng, lang, text)
        res.append(r if r else dict(err=err, t=[], spans=[], texts=[["", text]], q=[], sel=[]))
    return [r for r in res if len(r["t"]) <= 70]


def real_one(rng, lang, text):
    d, tree = p08.open_doc(text, lang)
    nodes = [tree] + list(tree.descendants())
    depth = {id(tree): 0}
    t = []
    for n in nodes:
        for c in n:
            depth[id(c)] = depth[id(n)] + 1
        t.append(dict(d=depth[id(n)], **own(n)))
    line = dict(err="", text=text, t=t, spans=[span(n) for n in nodes], texts=[], q=[], sel=[])
    for n, o in zip(nodes, t):
        if o["hb"] != NO and not isinstance(n, base.Unknown):
            line["texts"].append([flat(n.write_head()), flat(text[o["hb"]:o["he"]])])
        if o["tb"] != NO:
            line["texts"].append([flat(n.write_tail()), flat(text[o["tb"]:o["te"]])])
    size = len(text)
    edges = sorted({0, size} | {x for s in line["spans"] for x in s if x != NO})

    def place():
        return rng.choice(edges) if rng.random() < .6 else rng.randrange(size + 1)
    for _ in range(12):
        k = rng.choice(["child", "descendants", "descendant", "right", "left"])
        i = 1 if rng.random() < .5 else rng.randrange(len(nodes)) + 1
        p = place()
        e = rng.choice([0, p, place()])
        line["q"].append(dict(k=k, i=i, p=p, e=e, r=ask(nodes, k, i, p, e)))
    for _ in range(6):
        a, b = sorted((place(), place()))
        if a < b:
            how = rng.choice(HOWS)
            line["sel"].append(sel("range" + how, a=a, b=b, **{"in": select(nodes, d, a, b, how)}))
    a = place()
    line["sel"].append(sel("cursor", a=a, b=NO - 1, **{"in": select(nodes, d, a, a, "cursor")}))
    how = rng.choice(["all", "document"])
    line["sel"].append(sel(how, a=0, b=size, **{"in": select(nodes, d, 0, 0, how)}))
    return line


CFG = "SPECIFICATION Spec\nCONSTANTS MaxNodes = %d\nGaps = %s\nCHECK_DEADLOCK FALSE\nINVARIANTS Wellformed Coherent SelectedBetween Emit\n"


def run(rep):
    cases = []
    for n, gaps in [(5 if rep.thorough else 4, "{0, 1}"), (6 if rep.thorough else 5, "{1}")]:
        r = core.run_tlc("PositionsMC", CFG % (n, gaps), workers=8, heap="8g")
        rep.add_tlc("PositionsMC-%d" % n, r)
        cases += r.lines
    rep.exhaustive = True
    rep.log("%d trees of the model" % len(cases))
    lines = core.pmap_chunks(play, cases)
    lines += core.pmap_chunks(real, [rep.rng.randrange(1 << 40) for _ in range(20000 if rep.thorough else 2000)])
    rep.log("%d events" % len(lines))
    rep.sample({k: lines[-1][k] for k in ("t", "spans", "sel")})
    verdicts, st = core.judge("PositionsTrace", lines)
    rep.add_judge("PositionsTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s" % (c, line["err"][:60]))
