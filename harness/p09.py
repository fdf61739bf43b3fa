"""P09: indented output (spec: Indent)."""
import random
import re

from . import core, corpus, docs, trees
from quickly.dom import base, element, lily, read, scm, util


class AlignBlock(trees.Block):
    def indent_align_indices(self):
        yield 0


class SecondBlock(trees.Block):
    def indent_align_indices(self):
        yield 1
        yield 0


class Mark(element.TextElement):
    def indent_override(self):
        return 0


class Spaced(element.Element):
    space_between = " "


class SpacedWord(trees.Plain):
    space_after_head = space_between = " "


def build(nodes):
    stack = []
    for i, n in enumerate(nodes, 1):
        t = n["ty"]
        x = {"A": AlignBlock, "B": trees.Block, "C": SecondBlock, "G": Spaced}[t]() if t in "ABCG" else SpacedWord("w%d" % i) if t == "W" else Mark("%%%%%d" % i)
        if n["nb"]:
            x.space_before = "\n"
        if n["nt"]:
            x.space_before_tail = "\n"
        del stack[n["dep"]:]
        if stack:
            stack[-1].append(x)
        stack.append(x)
    return stack[0]


def lines_of(text):
    """The lines of the output, white lines empty."""
    r = [x if x.strip() else "" for x in text.split("\n")]
    return r[:-1] if r and r[-1] == "" else r + ["(no newline at end)"]


def indented(root, ctx, form):
    kw = dict(indent_width=ctx["width"], start_indent=ctx["start"], max_align_indent=ctx["max"])
    if form % 2:
        from quickly.dom.indent import Indenter
        ind = Indenter(**kw)
        if form % 4 == 3:
            ind.write(root)         # an Indenter can be used again
        return ind.write(root)
    return root.write_indented(**kw)


def play(jobs):
    res = []
    for j, st in jobs:
        text, err = core.guarded(lambda: indented(build(st["nodes"]), st["ctx"], j))
        res.append(err or ("" if lines_of(text) == st["lines"] else "differs:\n" + text))
    return res


def tree(n):
    r = trees.tree(n)
    def more(n, r):
        r["ind"] = "y" if n.indent_children() else "n"
        if r["ind"] == "y" and not r["h"]:
            raise trees.Strange("block without text")
        r["al"] = list(n.indent_align_indices())
        ov = n.indent_override()
        if r["h"] and not r["h"].strip():
            raise trees.Strange("white text")
        r["ov"] = -1 if ov is None else ov
        for c, k in zip(n, r["kids"]):
            more(c, k)
    more(n, r)
    return r


def pieces(doc):
    return [(p.pos, p.end, p.text()) for p in doc.points() if p.text()]


def multiline(r):
    return "\n" in r["h"] or "\n" in r["t"] or any(multiline(k) for k in r["kids"])


def real(seeds):
    res = []
    for seed in seeds:
        rng = random.Random(seed)
        r = rng.random()
        if r < .5:
            lang, text = docs.wide(rng)
            doc, err = core.guarded(getattr(read, docs.READ[lang] + "_document"), text, True)
        elif r < .9:
            text = corpus.document(rng)
            doc, err = core.guarded(read.lily_document, text, True)
        else:
            text = corpus.respace(" ".join(corpus.scheme(rng) for _ in range(rng.randrange(1, 5))), rng, .4)
            doc, err = core.guarded(read.scm_document, text, True)
        if err:
            continue
        try:
            before = tree(doc)
            if rng.random() < .8:
                mx = rng.choice([10, 10, 1, 2])
                ps = pieces(doc)
                _, err = core.guarded(util.add_newlines, doc, text, "\n", mx)
                if err:
                    res.append(dict(kind="layout", err=err, tree=before, ctx=dict(width=2, start=0, max=16), lines=[], bare=[], plain=[], ml="y", src=text))
                    continue
                if all(p[0] is not None for p in ps) and all(a[1] <= b[0] for a, b in zip(ps, ps[1:])):
                    src = [text.count("\n", e, p[0]) for e, p in zip([0] + [p[1] for p in ps], ps)]
                    res.append(dict(kind="newlines", before=before, after=tree(doc), src=src, max=mx, text=text))
            if rng.random() < .5:
                trees.decorate(doc, rng)
            trees.respace(doc, rng, rng.choice([0, 2, 8]))
            t = tree(doc)
        except trees.Strange:
            continue
        ctx = rng.choice([dict(width=2, start=0, max=16), dict(width=2, start=0, max=16), dict(width=rng.randrange(0, 9), start=rng.randrange(0, 9), max=rng.randrange(0, 30))])
        (w, e1), (o, e2) = core.guarded(doc.write), core.guarded(lambda: indented(doc, ctx, seed))
        strip = lambda s: [x.strip() for x in s.strip().split("\n")]
        res.append(dict(kind="layout", err=e1 or e2 or "", tree=t, ctx=ctx, lines=lines_of(o or ""), bare=strip(o or ""), plain=strip(w or ""),
                        ml="y" if multiline(t) else "n", src=text))
    return res


def run(rep):
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxNodes = %d\nTypes = {%s}\nCHECK_DEADLOCK FALSE\nINVARIANTS Sane Emit\n"
    every = '"A", "B", "C", "W", "X", "G"'
    cases = []
    for name, n, types in [("all", 3 if rep.thorough else 2, every), ("blocks", 4 if rep.thorough else 3, '"A", "W"')]:
        r = core.run_tlc("IndentMC", cfg % (n, types), workers=8, heap="6g")
        rep.add_tlc("IndentMC-" + name, r)
        cases += r.lines
    num, depth = (10000, 12) if rep.thorough else (1500, 9)
    r = core.run_tlc("IndentMC", cfg % (depth, every), workers=8, heap="6g", simulate=num, depth=depth + 3, seed=rep.seed)
    rep.add_tlc("IndentMC-simulation", r)
    cases += r.lines
    rep.log("%d trees of the model" % len(cases))
    for c, err in zip(cases, core.pmap_chunks(play, list(enumerate(cases)))):
        rep.traces += 1
        if err:
            rep.violation("model-" + err.split(":")[0], "model-layout", dict(case=c, err=err))
    rep.log("performed")
    lines = core.pmap_chunks(real, [rep.rng.randrange(1 << 40) for _ in range(20000 if rep.thorough else 1500)])
    rep.log("%d documents" % len(lines))
    rep.sample(cases[-1])
    verdicts, st = core.judge("IndentTrace", lines)
    rep.add_judge("IndentTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s" % (c, line.get("err", "").split(":")[0]))
