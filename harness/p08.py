"""P08: writing a modified tree back (spec: Edits)."""
import random
from fractions import Fraction

import parce
from quickly import find
from quickly.dom import base, element, htm, lily, read, scm, tex, util

from . import core, corpus, docs


def open_doc(text, lang="lilypond"):
    d = parce.Document(find(lang), text, transformer=True)
    return d, d.get_transform(True)


def spelling(tree):
    """What the pieces of text are before anything is modified."""
    return {(x.pos, x.end): core.guarded(x.text)[0] for x in tree.points() if x.pos is not None}


def points(tree, text, before):
    """The points of the tree for the specification.

    A piece is modified if it says so, or its text is not what it was before.

    """
    res = []
    p = 0
    for x in tree.points():
        if x.pos is None:
            t = x.text()
            if not t:
                continue
            res.append(dict(pos=-1, end=-1, text=t, bare=strip(t), mod="n"))
        else:
            now = core.guarded(x.text)[0]
            mod = x.modified or now != before.get((x.pos, x.end), now)
            t = x.text() if mod or x.pos < p else text[x.pos:x.end]
            res.append(dict(pos=x.pos, end=x.end, text=t, bare=strip(t), mod="y" if mod else "n"))
            p = max(p, x.end)
    return res


def strip(text):
    return "".join(c for c in text if c not in " \n\t\r\f")


def same(a, b):
    return strip(a) == strip(b)


def event(d, tree, text, unchanged, rng, before):
    """Write the tree back, and describe that."""
    moved = False
    p = 0
    for x in tree.points():
        if x.pos is not None:
            if x.pos < p:
                moved = True
            p = max(p, x.end)
    if moved:
        # a piece that is written anew may be spelled otherwise; not in question
        for x in tree.points():
            if x.pos is not None and not x.modified:
                t, err = core.guarded(x.text)
                if err or not same(t, text[x.pos:x.end]):
                    return None
    pts = points(tree, text, before)
    root = d.builder().root
    if rng.random() < .25 and text:
        toks = list(root.tokens())
        if toks:
            i = rng.randrange(len(toks))
            j = rng.randrange(i, len(toks))
            a, b = rng.choice([(toks[i].pos, toks[j].end), (toks[i].pos, None), (None, toks[j].end), (toks[i].end, toks[j].end), (None, 0), (0, 0), (toks[i].pos, toks[i].pos)])
            e, err = core.guarded(lambda: list(tree.edits(root, a, b)))
            return dict(kind="range", doc=text, pts=pts, edits=[dict(pos=x[0], end=x[1], text=x[2]) for x in e or []],
                        err=err or "", **{"from": root.pos if a is None else a, "to": root.end if b is None else b})
    e, err = core.guarded(lambda: list(tree.edits(root)))
    n, err2 = core.guarded(lambda: tree.edit(d)) if not err else (0, None)
    r = dict(kind="all", doc=text, pts=pts, edits=[dict(pos=x[0], end=x[1], text=x[2]) for x in e or []], err=err or err2 or "",
             result=d.text(), bare=strip(d.text()), count=n if n is not None else -1, unchanged="y" if unchanged else "n", reads="n/a")
    if not r["err"]:
        reader = getattr(read, type(tree).__module__.split(".")[-1] + "_document")
        t, err = core.guarded(tree.write)
        if not err:
            a, err = core.guarded(reader, t)
            if not err and trimmed(a).equals(trimmed(tree)):
                b, err = core.guarded(reader, r["result"])
                r["reads"] = err or ("same" if trimmed(b).equals(tree) else "differs")
    return r


def trimmed(tree):
    """White space at the end of a comment says nothing."""
    for n in tree.descendants():
        if isinstance(n, base.SinglelineComment):
            n.head = n.head.rstrip()
    return tree


# ---- histories of the model

def play(jobs):
    res = []
    for seed, c in jobs:
        rng = random.Random(seed)
        r, err = core.guarded(play_one, c, rng)
        res.append(r if r else dict(kind="all", doc="", err=err))
    return res


def play_one(c, rng):
    o, cl = rng.choice([("{", "}"), ("{ ", " }"), ("<<", ">>"), ("\\score { ", "}"), ("", "")])
    text = o + "".join(" " * g + "\\x" + "abcdef"[i] for i, g in enumerate(c["gaps"])) + cl
    d, tree = open_doc(text)
    before = spelling(tree)
    m = tree[0] if o else tree
    for st in c["hist"]:
        i, j = st["i"] - 1, st["j"] - 1
        if st["op"] == "del":
            m.pop(i)
        elif st["op"] == "new":
            m.insert(i, lily.IdentifierRef("n"))
        elif st["op"] == "copy":
            m[i].replace_with(m[i].copy_with_origin())
        elif st["op"] == "mod":
            m[i].head = "m"
        else:
            m.insert(j, m.pop(i))
    return event(d, tree, text, not c["hist"], rng, before)


# ---- real documents

def new_node(rng):
    r = rng.random()
    if r < .5:
        n = lily.Note(rng.choice(corpus.NOTES), octave=rng.choice([0, 1, -1]))
        if rng.random() < .5:
            n.duration = Fraction(1, rng.choice([1, 2, 4, 8]))
        return n
    return rng.choice([lambda: lily.Rest(duration=Fraction(1, 4)), lambda: lily.MusicList(lily.Note("c"), lily.Note("d")),
                       lambda: lily.MultilineComment(" new "), lambda: lily.SinglelineComment(" new"),
                       lambda: lily.IdentifierRef("foo"), lambda: lily.Clef(lily.Symbol("bass")),
                       lambda: lily.Markup("markup", lily.MarkupWord("hi")) if rng.random() < .3 else lily.PipeSymbol(),
                       lambda: lily.SimultaneousMusicList(lily.Note("g", lily.Octave(1)))])()


LISTS = (lily.MusicList, lily.Document, lily.SimultaneousMusicList, lily.Score, lily.ChordBody)


def modify(tree, rng):
    """One modification; what was done or None."""
    nodes = list(tree.descendants())
    if not nodes:
        return None
    r = rng.random()
    if r < .4:
        c = [n for n in nodes if isinstance(n, element.TextElement) and isinstance(n, (lily.Note, lily.String, lily.Int, base.Comment, lily.Symbol, lily.Octave, lily.Duration, scm.String, scm.Number, htm.Text, scm.Identifier))]
        if not c:
            return None
        n = rng.choice(c)
        if isinstance(n, lily.Note):
            n.head = rng.choice(corpus.NOTES)
        elif isinstance(n, lily.Octave):
            n.head = rng.choice([1, 2, -1])
        elif isinstance(n, lily.Duration):
            n.head = Fraction(1, rng.choice([1, 2, 4, 8])) * rng.choice([1, 1, Fraction(3, 2)])
        elif isinstance(n, (lily.Int, scm.Number)):
            n.head = rng.randrange(100)
        elif isinstance(n, base.Comment):
            n.head = " changed "
        elif isinstance(n, htm.Text):
            n.head = "changed"
        else:
            n.head = rng.choice(["abc", "xyz"])
        return "head"
    c = [n for n in [tree] + nodes if isinstance(n, LISTS)]
    if not c:
        return None
    m = rng.choice(c)
    note = isinstance(m, lily.ChordBody)
    if r < .55 and len(m):
        m.pop(rng.randrange(len(m)))
    elif r < .7:
        m.insert(rng.randrange(len(m) + 1), lily.Note("a") if note else new_node(rng))
    elif r < .8 and len(m):
        m[rng.randrange(len(m))].replace_with(lily.Note("a") if note else new_node(rng))
    elif r < .85 and len(m) > 1:
        i = rng.randrange(len(m))
        m.insert(rng.randrange(len(m)), m.pop(i))
    elif r < .9 and len(m) and not note:
        i = rng.randrange(len(m))
        k = m[i:i + 2]
        del m[i:i + 2]
        m.insert(i, lily.MusicList(*k))
    elif r < .93 and len(m):
        m.reverse() if False else None
        m[:] = list(m)[::-1]
    elif r < .94:
        n = rng.choice(nodes)
        n.replace_with(n.copy_with_origin())
    elif r < .96:
        n = [n for n in nodes if isinstance(n, lily.Note)]
        if not n:
            return None
        n = rng.choice(n)
        if rng.random() < .5:
            n.duration = rng.choice([None, Fraction(1, 16)])
        else:
            n.octave = rng.choice([0, 3])
    else:
        n = [n for n in nodes if isinstance(n, lily.MusicList)]
        if not n:
            return None
        n = rng.choice(n)
        n.replace_with(n.copy())
    return "structure"


def embed(rng):
    if rng.random() < .5:
        a = ["<p style=\"color:red;\">%s</p>", "<h1>Hi &amp; <b>x</b></h1>\n%s\n<br/>", "%s", "<div><!-- c -->%s</div>\n<script>a < b</script>"]
        w = rng.choice(["<lilypond>%s\n</lilypond>", "<lilypond relative=\"2\"> %s </lilypond>", "<lilypond>\n%s\n</lilypond>"])
        return "html", "\n".join(rng.choice(a) % (w % corpus.document(rng, 1)) for _ in range(rng.randrange(1, 3)))
    a = ["\\section{x}\n%s\nText $a$ %% comment\n", "%s", "\\begin{document}%s\\end{document}"]
    w = rng.choice(["\\lilypond{ %s }", "\\begin{lilypond}\n%s\n\\end{lilypond}", "\\begin[staffsize=3]{lilypond}%s\n\\end{lilypond}"])
    return "latex", "\n".join(rng.choice(a) % (w % corpus.document(rng, 1)) for _ in range(rng.randrange(1, 3)))


def real(seeds):
    res = []
    for seed in seeds:
        rng = random.Random(seed)
        while True:
            lang, text = ("lilypond", corpus.document(rng, rng.choice([1, 1, 2, 3]))) if rng.random() < .8 else ("scheme", corpus.scheme(rng)) if rng.random() < .2 else embed(rng)
            if rng.random() < .4:
                lang, text = docs.wide(rng, size=320)
            if len(text) <= 320:
                break
        r, err = core.guarded(open_doc, text, lang)
        if err or r[1] is None:
            res.append(dict(kind="all", doc=text, err=err or "no tree"))
            continue
        d, tree = r
        done = []
        before = spelling(tree)
        if rng.random() < .8:
            for _ in range(rng.choice([1, 1, 2, 3, 6])):
                x, err = core.guarded(modify, tree, rng)
                if err:
                    res.append(dict(kind="all", doc=text, err="modify " + err))
                    break
                if x:
                    done.append(x)
        e, err = core.guarded(event, d, tree, text, not done, rng, before)
        if err:
            res.append(dict(kind="all", doc=text, err=err))
        elif e is not None:
            res.append(e)
    return res


def run(rep):
    r = core.run_tlc("EditsMC", "SPECIFICATION Spec\nCONSTANTS Tokens = %d\nMaxOps = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Possible Emit\n"
                     % ((4, 3) if rep.thorough else (3, 2)), workers=8, heap="6g")
    rep.add_tlc("EditsMC", r)
    rep.exhaustive = True
    cases = r.lines
    rep.log("%d histories of the model" % len(cases))
    if len(cases) > 60000:
        cases = rep.rng.sample(cases, 60000)
    lines = [x for x in core.pmap_chunks(play, [(rep.rng.randrange(1 << 30), c) for c in cases])]
    rep.log("performed")
    lines += core.pmap_chunks(real, [rep.rng.randrange(1 << 40) for _ in range(40000 if rep.thorough else 8000)])
    rep.log("%d events" % len(lines))
    rep.sample(lines[-1])
    verdicts, st = core.judge("EditsTrace", lines)
    rep.add_judge("EditsTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s" % (c, line["err"][:60]))
