"""P23: the tree of an edited document (spec: Reader, Reparse)."""
import json
import random

import parce
import parce.transform
import parce.treebuilder
import parce.work
from quickly import find
from quickly.dom import base

from . import core, corpus, docs, p08

ALPHABETS = 8      # see spec/Reparse.tla


def document(text, lang="lilypond"):
    lexicon = find(lang)
    w = parce.work.Worker(parce.treebuilder.TreeBuilder(lexicon), parce.transform.Transformer())
    return parce.Document(lexicon, text, worker=w, transformer=True)


def nodes(tree):
    """[depth, type, text, begin, end] for all nodes of the tree."""
    res = []
    seen = set()
    flags = dict(once="y", parents="y")

    def rec(node, depth):
        for n in node:
            h = n.write_head() if not isinstance(n, base.Unknown) else ""
            begin, end = n.pos, n.end
            res.append([depth, type(n).__name__, h if isinstance(h, str) else "", -1 if begin is None else begin, -1 if end is None else end])
            if id(n) in seen:
                flags["once"] = "n"
            seen.add(id(n))
            if n.parent is not node:
                flags["parents"] = "n"
            rec(n, depth + 1)
    rec(tree, 0)
    return res, flags


def lexed(root):
    """What parce has made of the text."""
    return [(t.pos, t.text, repr(t.action), [c.lexicon.name for c in t.ancestors()]) for t in root.tokens()]


def compare(d, lang):
    """The event describing the current state of the edited document."""
    text = d.text()
    r = dict(text=text, model="n", doc=[], got=[], want=[], once="y", parents="y", err="")
    fresh = document(text, lang)
    if lexed(d.get_root(True)) != lexed(fresh.get_root(True)):
        return None     # that is not quickly
    tree, new = d.get_transform(True), fresh.get_transform(True)
    if tree is None and new is None:
        return None
    r["want"], _ = nodes(new)
    r["got"], flags = nodes(tree)
    r.update(flags)
    return r


def apply(d, a, b, s):
    """Edit the document; False if parce fails (Transformer.invalidate_node)."""
    try:
        d[a:b] = s
    except KeyError:
        return False
    return True


# ---- the histories of the model

def play(cases):
    res = []
    for c in cases:
        r, err = core.guarded(play_one, c)
        if err:
            res.append(dict(text=json.dumps(c["hist"]), model="y", doc=[], got=[], want=[], once="y", parents="y", err=err))
        elif r:
            res.append(r)
    return res


def play_one(c):
    toks = list(c["hist"][0]["new"])
    d = document(" ".join(toks))
    d.get_transform(True)
    for e in c["hist"][1:]:
        i, j, new = e["i"], e["j"], list(e["new"])
        # the text range of the tokens i..j, with the separating spaces
        starts, p = [], 0
        for t in toks:
            starts.append(p)
            p += len(t) + 1
        starts.append(p)
        after = toks[:i] + new + toks[j:]
        if i < len(toks):
            a, b = starts[i], starts[j] if j < len(toks) else max(0, starts[j] - 1)
        else:
            a = b = max(0, p - 1)
        s = " ".join(new)
        if j < len(toks) and new:
            s += " "
        if i and j == len(toks):
            if i < len(toks):
                a -= 1
            s = (" " + s) if new else s
        toks = after
        if a == b and not s:
            continue
        if not apply(d, a, b, s):
            return None
        d.get_transform(True)
        assert d.text() == " ".join(toks), (d.text(), toks)
    r = compare(d, "lilypond")
    if r:
        r["model"] = "y"
        r["doc"] = toks
    return r


# ---- real documents

def real(seeds):
    res = []
    for seed in seeds:
        rng = random.Random(seed)
        while True:
            lang, text = ("lilypond", corpus.document(rng, rng.choice([1, 2, 3]))) if rng.random() < .8 else ("scheme", corpus.scheme(rng)) if rng.random() < .2 else p08.embed(rng)
            if rng.random() < .5:
                lang, text = docs.wide(rng)
            if len(text) <= 600:
                break
        r, err = core.guarded(real_one, rng, lang, text)
        if err:
            res.append(dict(text=text, model="n", doc=[], got=[], want=[], once="y", parents="y", err=err))
        else:
            res += r
    return res


def piece(rng, lang):
    r = rng.random()
    if r < .3:
        return rng.choice(["4", "c", "<c e>", "-.", "{", "}", "%{ x %}", "% y\n", "\\p", "\\foo", "\"", "#'a", " ", "3/4", "<<", ">>", "\\grace ", "-1", "(", "\\markup ", "%{", "\\mm", "=", "[", "]"])
    if r < .8:
        return corpus.music(rng, 2) if lang != "scheme" else corpus.scheme(rng, 2)
    return ""


def real_one(rng, lang, text):
    d = document(text, lang)
    d.get_transform(True)
    res = []
    for _ in range(rng.choice([1, 1, 2, 4, 8])):
        text = d.text()
        tokens = list(d.get_root(True).tokens())
        if tokens and rng.random() < .7:
            i = rng.randrange(len(tokens))
            j = min(len(tokens) - 1, i + rng.choice([0, 0, 0, 1, 2, 5]))
            a, b = tokens[i].pos, tokens[j].end
            if rng.random() < .4:
                a = b = rng.choice([a, b])
        else:
            a = rng.randrange(len(text) + 1)
            b = min(len(text), a + rng.choice([0, 0, 1, 2, 5, 20]))
        if rng.random() < .25 and a < b:
            # twice the same place: there and back
            old = text[a:b]
            s = piece(rng, lang)
            if not apply(d, a, b, s):
                return res
            d.get_transform(True)
            if not apply(d, a, a + len(s), old):
                return res
        elif not apply(d, a, b, piece(rng, lang)):
            return res
        d.get_transform(True)
        r = compare(d, lang)
        if r is None:
            return res
        res.append(r)
    return res


CFG = "SPECIFICATION Spec\nCONSTANTS Which = %d\nMaxLen = %d\nMaxEdits = %d\nMaxNew = %d\nMutate = FALSE\nWalk = %s\nCHECK_DEADLOCK FALSE\nINVARIANTS Fresh Emit\n"


def run(rep):
    cases = []
    for n in range(1, ALPHABETS + 1):
        r = core.run_tlc("Reparse", CFG % (n, 3 if rep.thorough or n < 3 else 2, 1, 1, "FALSE"), workers=8, heap="8g")
        rep.add_tlc("Reparse-%d" % n, r)
        cases += r.lines
    rep.exhaustive = True
    rep.log("%d histories of the model" % len(cases))
    for n, length, edits, num in [(1, 8, 4, 1500), (0, 12, 5, 3000)]:
        r = core.run_tlc("Reparse", CFG % (n, length, edits, 3, "TRUE"), workers=1, simulate=num * (20 if rep.thorough else 1), depth=edits + 2, seed=rep.seed)
        rep.add_tlc("Reparse-simulation-%d" % n, r)
        cases += r.lines
    lines = core.pmap_chunks(play, cases)
    rep.log("%d performed" % len(lines))
    lines += core.pmap_chunks(real, [rep.rng.randrange(1 << 40) for _ in range(30000 if rep.thorough else 2500)])
    rep.log("%d events" % len(lines))
    rep.sample({k: lines[-1][k] for k in ("text", "got")})
    verdicts, st = core.judge("ReparseTrace", lines)
    rep.add_judge("ReparseTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s" % (c, line["err"][:60]))
