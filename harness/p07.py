"""P07: writing a tree combines whitespace preferences by one rule (spec: Spaces)."""
import random

from . import core, corpus, docs, trees
from quickly.dom import lily, read, scm


def play(jobs):
    """Perform histories of the model; the problems found."""
    res = []
    for hist in jobs:
        r, err = core.guarded(play_one, hist)
        res.append(dict(bad=r or [], err=err or ""))
    return res


def play_one(hist):
    nodes, bad = [], []
    old = None
    for k, st in enumerate(hist):
        op, i, arg = st["op"], st["i"], st["arg"]
        if op in ("root", "add"):
            n = trees.build(arg, len(nodes) + 1)
            if op == "add":
                nodes[i - 1].append(n)
            nodes.append(n)
        elif op == "set":
            setattr(nodes[i - 1], "space_" + arg, trees.white(st["q"]))
        elif op == "del":
            delattr(nodes[i - 1], "space_" + arg)
        elif op == "copy":
            old = nodes[0]
            order = [old] + list(old.descendants())
            new = (old.copy if k % 2 else old.copy_with_origin)()
            norder = [new] + list(new.descendants())
            if len(order) != len(norder) or any(a is b for a in order for b in norder):
                return [(k, "copy-shape")]
            at = {id(a): b for a, b in zip(order, norder)}
            nodes = [at[id(n)] for n in nodes]
        if nodes[0].write() != st["text"]:
            bad.append((k, "text-after-" + op))
        if old is not None and old.write() != st["old"]:
            bad.append((k, "original-after-" + op))
        x = nodes[(i or 1) - 1]
        if any(getattr(x, "space_" + a) != trees.white(st["sp"][a]) for a in trees.ATTRS):
            bad.append((k, "value-after-" + op))
        if bad:
            break
    return bad


def real(seeds):
    res = []
    for seed in seeds:
        rng = random.Random(seed)
        r = rng.random()
        if r < .5:
            lang, text = docs.wide(rng)
            doc, err = core.guarded(getattr(read, docs.READ[lang] + "_document"), text, rng.random() < .5)
        elif r < .9:
            text = corpus.document(rng)
            doc, err = core.guarded(read.lily_document, text, rng.random() < .5)
        else:
            text = corpus.scheme(rng)
            doc, err = core.guarded(read.scm_document, text, True)
        if err:
            continue            # reading is another property
        try:
            if rng.random() < .6:
                trees.decorate(doc, rng)
            trees.respace(doc, rng, rng.choice([0, 2, 5, 12]))
            t = trees.tree(doc)
        except trees.Strange:
            continue
        (w, e1), (c, e2), (o, e3) = core.guarded(doc.write), core.guarded(lambda: doc.copy().write()), core.guarded(lambda: doc.copy_with_origin().write())
        res.append(dict(tree=t, text=w or "", copy=c or "", ocopy=o or "", err=e1 or e2 or e3 or "", src=text))
    return res


def run(rep):
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxNodes = %d\nDepth = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Emit %s\n"
    r = core.run_tlc("SpacesMC", cfg % (3, 3, "DefaultIsUnset EdgesFree"), workers=8, heap="6g")
    rep.add_tlc("SpacesMC", r)
    hists = r.lines
    num, depth = (6000, 18) if rep.thorough else (1000, 13)
    r = core.run_tlc("SpacesMC", cfg % (7, depth, ""), workers=8, heap="6g", simulate=num, depth=depth + 2, seed=rep.seed)
    rep.add_tlc("SpacesMC-simulation", r)
    hists = hists + r.lines
    rep.log("%d histories of the model" % len(hists))
    for h, res in zip(hists, core.pmap_chunks(play, hists)):
        rep.traces += 1
        if res["err"]:
            rep.violation("error:" + res["err"].split(":")[0], "error", dict(hist=h, err=res["err"]))
        for k, c in res["bad"]:
            rep.violation(c, c, dict(hist=h[:k + 1]))
    rep.log("performed")
    lines = core.pmap_chunks(real, [rep.rng.randrange(1 << 40) for _ in range(20000 if rep.thorough else 1500)])
    rep.log("%d documents" % len(lines))
    rep.sample(hists[-1])
    verdicts, st = core.judge("SpacesTrace", lines)
    rep.add_judge("SpacesTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s" % (c, line["err"].split(":")[0]))
