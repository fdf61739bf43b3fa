"""P11: relative and absolute music sounds the same (spec: Sounding)."""
import random

import parce
from quickly import find
from quickly.dom import edit, lily, read
from quickly.node import Range
from quickly.relative import Abs2rel, Rel2abs, abs2rel, rel2abs

from . import core, music


def first_absolute(tokens):
    """Whether the first pitch is absolute by the version."""
    for t in tokens:
        if t["t"].startswith("\\version"):
            return tuple(map(int, t["t"].split('"')[1].split("."))) >= (2, 18)
    return False


def run_edit(rng, ed, text, sel, ev, part=False):
    """Edit the text in one of the possible ways; return the new text."""
    doc = parce.Document(find("lilypond"), text, transformer=True)
    if sel:
        if ev["op"] in ("rel2abs", "transpose") and not part and rng.random() < .5:
            # one element in a document
            root = doc.get_transform(True)
            node = root.find_descendant_right(sel[0])
            if node is not None and (node.pos, node.end) == tuple(sel):
                ev["how"] = "element"
                ed.edit(node if rng.random() < .5 else Range(node))
                root.edit(doc)
                return doc.text()
        ed.edit(parce.Cursor(doc, sel[0], sel[1]))
        return doc.text()
    x = rng.random()
    if x < .4:
        ed.edit(doc)
        return doc.text()
    root = doc.get_transform(True)
    if root is None:
        return text
    ev["how"] = "node"
    if x < .6:
        ed.edit(root)
    elif x < .8:
        ed.edit(Range(root))
    else:
        # a tree that was not read from a document
        root = read.lily_document(text)
        ed.edit(root)
        ev["how"] = "tree"
        return root.write()
    if rng.random() < .5:
        root.edit(doc)
        return doc.text()
    return root.write()


def select(rng, writer, parts, before):
    """Some of the pieces: the position in the text, tokens before and after it."""
    i = rng.randrange(len(parts))
    j = rng.randrange(i, len(parts))
    lo, hi = writer.pos[parts[i][0]][0], writer.pos[parts[j][1] - 1][1]
    a = sum(1 for p in before.pos if p[1] <= lo and p[0] < lo)
    b = sum(1 for p in before.pos if p[0] >= hi and p[1] > hi)
    return (lo, hi), a, b


def convert(jobs):
    res = []
    for seed, tokens, op in jobs:
        rng = random.Random(seed)
        parts = None
        if tokens is None:
            tokens, parts = music.document(rng)
        else:
            tokens = music.closed(tokens)
            if rng.random() < .5:
                tokens.insert(0, music.tok("text", t="\\version \"%s\"" % rng.choice(["2.18.2", "2.18", "2.18.0"])))
        w = music.Writer(tokens, rng)
        before = music.read(w.text)
        ev = dict(op=op, first=first_absolute(tokens), before=before.out, after=[], lo=0, hi=0, iv=[0, 0], err="",
                  startpitch=True, text=w.text, result="", how="doc")
        param = None
        if rng.random() < .2:
            param = ev["first"] = rng.random() < .5
        sel = None
        if parts and op in ("rel2abs", "abs2rel") and rng.random() < .4:
            sel, ev["lo"], ev["hi"] = select(rng, w, parts, before)
        if op.startswith("part"):
            # any part of the text
            sel = sorted(rng.sample(range(len(w.text) + 1), 2)) if len(w.text) > 1 else None
        def act():
            start = ev["startpitch"] = rng.random() < .6
            if op in ("rel2abs", "part-rel2abs"):
                return run_edit(rng, Rel2abs(first_pitch_absolute=param), w.text, sel, ev)
            if op in ("abs2rel", "part-abs2rel"):
                return run_edit(rng, Abs2rel(start_pitch=start, first_pitch_absolute=param), w.text, sel, ev)
            a, b = Abs2rel(start_pitch=start, first_pitch_absolute=param), Rel2abs(first_pitch_absolute=param)
            if rng.random() < .5:
                a, b = b, a
            return run_edit(rng, b, run_edit(rng, a, w.text, None, ev), None, ev)
        text, err = core.guarded(act)
        if not err:
            ev["result"] = text
            try:
                ev["after"] = music.read(text).out
                if sorted(before.comments) != sorted(music.read(text).comments):
                    err = "comments lost"
            except Exception as e:
                err = "unreadable result"
        ev["err"] = err or ""
        res.append(ev)
    return res


def model(rep, length):
    r = core.run_tlc("SoundingMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nMaxDepth = 3\nCHECK_DEADLOCK FALSE\nCONSTRAINT Prune\nINVARIANTS Laws Emit\n" % length, workers=8, heap="6g")
    rep.add_tlc("SoundingMC", r)
    rep.exhaustive = True
    return r.lines


def run(rep):
    cases = model(rep, 8 if rep.thorough else 7)
    rep.log("%d pieces of music of the model" % len(cases))
    n = 40000 if rep.thorough else 5000
    if len(cases) > n:
        cases = rep.rng.sample(cases, n)
    jobs = [(rep.rng.randrange(1 << 40), c, rep.rng.choice(["rel2abs", "abs2rel", "both"])) for c in cases]
    jobs += [(rep.rng.randrange(1 << 40), None, rep.rng.choice(["rel2abs", "rel2abs", "abs2rel", "abs2rel", "both", "part-rel2abs", "part-abs2rel"])) for _ in range(60000 if rep.thorough else 7000)]
    lines = core.pmap_chunks(convert, jobs)
    rep.log("%d conversions" % len(lines))
    rep.sample(lines[-1])
    verdicts, st = core.judge("SoundingTrace", lines)
    rep.add_judge("SoundingTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s:%s" % (c, line["op"], line["err"][:60]))
