"""P16: the value of variables, also in included files (spec: Includes)."""
import os
import random
import re
import shutil
import tempfile

import parce

import quickly
from quickly.dom import lily
from quickly.dom.scope import Scope
from quickly.pitch import PitchProcessor
from quickly.time import Time

from . import core

MODES = ["major", "minor", "dorian", "lydian"]
NOITEM = dict(k="", n="", v="", refs=[], len=0, p=[])
SET_BLOCKS = ["header", "paper", "layout", "midi"]


def item(k, **kw):
    return dict(NOITEM, k=k, **kw)


# ------------------------------------------------------------------- rendering

def music(x):
    inner = []
    if x["len"] > 0:
        inner.append("s1*%d" % x["len"])
    inner += ["\\" + n for n in x["refs"]]
    return inner


def block_kinds(items):
    """For every "in" the kind of block: one with assignments, or with blocks."""
    kinds = {}
    stack = []
    for i, x in enumerate(items):
        if x["k"] == "in":
            if stack:
                kinds[stack[-1]] = True
            kinds[i] = False
            stack.append(i)
        elif x["k"] == "out":
            stack.pop()
    return kinds


def allowed(items):
    """Without the assignments in blocks that only have other blocks, such as a score."""
    kinds = block_kinds(items)
    res, stack = [], []
    for i, x in enumerate(items):
        if x["k"] == "in":
            stack.append(i)
        elif x["k"] == "out":
            stack.pop()
        if not (x["k"] == "set" and stack and kinds[stack[-1]]):
            res.append(x)
    return res


def render(rng, f):
    """The text of a file."""
    out = []
    kinds = block_kinds(f["items"])
    blocks = []
    n = 0

    def gap():
        out.append(rng.choice(["\n", "\n", " ", "\n\n", " %{ \\include \"x\" %} ", " % { x = \n", "\n%{ } %}\n"]))
    if rng.random() < .2:
        out.append('\\version "2.24.0"\n')
    for i, x in enumerate(f["items"]):
        k = x["k"]
        if k == "in":
            # what is directly in it
            depth, direct = 0, set()
            for y in f["items"][i + 1:]:
                if y["k"] == "in":
                    depth += 1
                elif y["k"] == "out":
                    if depth == 0:
                        break
                    depth -= 1
                elif depth == 0:
                    direct.add(y["k"])
            b = rng.choice(SET_BLOCKS) if not kinds[i] else rng.choice(["book", "bookpart", "score"])
            out.append("\\%s {" % b)
            blocks.append(b)
        elif k == "out":
            out.append("}")
            blocks.pop()
        elif k == "inc":
            out.append('\\include "%s"' % "/".join(x["p"]).replace("//", "/"))
        elif k == "set":
            eq = rng.choice([" = ", " = ", "=", " = %{ = %} "])
            if x["len"] == -1:
                v = "\\" + x["refs"][0]
            elif x["v"] in MODES:
                v = "\\" + x["v"]
            elif not blocks and (x["len"] or x["refs"]):
                # the first thing tells which value it is
                v = rng.choice(["{ \\bar \"%s\" ", "\\relative { \\bar \"%s\" ", "\\new Staff { \\bar \"%s\" ", "\\new Voice \\with { a = \"b\" } { \\bar \"%s\" "]) % x["v"]
                v += " ".join(music(x)) + " }"
            else:
                v = rng.choice(['"%s"', '\\markup "%s"', '\\markup { \\bold "%s" }', "#\"%s\""]) % x["v"]
            out.append(x["n"] + eq + v)
        elif k == "use":
            if not blocks:
                u = rng.choice(["{ \\%s }", "\\score { { \\%s } }", "\\new Staff << \\%s >>", "\\markup { \\%s }", "\\book { \\score { \\new Voice { \\%s } } }",
                                "{ \\key c \\%s }", "{ c4 \\repeat volta 2 { d \\key es \\%s } }"])
            elif blocks[-1] in SET_BLOCKS:
                u = rng.choice(["aa = \\%s", "ab = \\markup { \\%s }"])
            elif blocks[-1] == "score":
                u = rng.choice(["{ \\%s }", "{ \\key c \\%s }", "\\new Staff << { \\%s } >>"])
            else:
                u = rng.choice(["\\markup { \\%s }", "\\score { { \\%s } }"])
            out.append(u % x["n"])
        n += 1
        gap()
    return "".join(out)


def identify(node):
    """Which value a node is."""
    if node is None:
        return ""
    if isinstance(node, lily.Reference):
        return "ref"
    if isinstance(node, lily.Mode):
        return node.head
    for m in [node, *node.descendants()]:
        if type(m).__name__ == "String":
            if not (m.parent and isinstance(m.parent, lily.EqualSign)) and m.head != "b":
                return m.head
    return "?" + type(node).__name__


# ----------------------------------------------------------------- observation

def tops(tree, items):
    """The node of every item."""
    res = {}
    stack = [iter([n for n in tree if not isinstance(n, (lily.SinglelineComment, lily.MultilineComment, lily.Version))])]
    for i, x in enumerate(items):
        if x["k"] == "out":
            if next(stack.pop(), None) is not None:
                return None
            continue
        n = next(stack[-1], None)
        if n is None:
            return None
        ok = {"in": lily.Block, "inc": lily.Include, "set": lily.Assignment}.get(x["k"])
        if ok and not isinstance(n, ok):
            return None
        if x["k"] == "set" and n.get_name() != x["n"]:
            return None
        if x["k"] == "in":
            stack.append(iter([m for m in n if not isinstance(m, (lily.SinglelineComment, lily.MultilineComment))]))
        res[i] = n
    return res if next(stack[-1], None) is None else None


def observe(rng, c, on_disk):
    files = c["files"]
    text = [render(rng, f) for f in files]
    base = ""
    # no path may lead out of the scratch folder
    deepest = min([len(f["at"]) - 1 for f in files] + [len(p) for p in c["path"]])
    if any(x["p"].count("..") > deepest for f in files for x in f["items"]):
        on_disk = False
    if on_disk:
        base = tempfile.mkdtemp(prefix="p16-", dir=core.scratch())
    web = not on_disk and rng.random() < .3 and all(re.fullmatch(r"[\w .-]+|/", t) for p in [f["at"] for f in files] + c["path"]
                                                    + [x["p"] for f in files for x in f["items"]] for t in p)
    if web:
        # full urls; the factory is asked for the path
        base = rng.choice(["http://example.org", "https://www.example.org:8080", "file://"])
    url = [base + "/" + "/".join(f["at"]) for f in files]
    for i, f in enumerate(files):
        for x in f["items"]:
            if x["k"] == "inc" and x["p"][0] == "/" and base and (on_disk or rng.random() < .5):
                text[i] = text[i].replace('"/' + "/".join(x["p"][1:]) + '"', '"' + base + "/" + "/".join(x["p"][1:]) + '"')
    number = {u: i + 1 for i, u in enumerate(url)}
    if on_disk:
        for u, t in zip(url, text):
            os.makedirs(os.path.dirname(u), exist_ok=True)
            with open(u, "w") as f:
                f.write(t)
        docs = [quickly.load(u, lexicon=quickly.find("lilypond")) for u in url]
        factory = None
    else:
        docs = [quickly.Document(text=t, root_lexicon=quickly.find("lilypond"), url=u, transformer=True) if hasattr(quickly, "Document")
                else parce.Document(quickly.find("lilypond"), t, url=u, transformer=True) for t, u in zip(text, url)]
        known = dict(zip([u[len(base):] for u in url], docs))
        if rng.random() < .5:
            factory = known.get
        else:
            def factory(name):
                if name in known:
                    return known[name]
                raise FileNotFoundError(name)
    try:
        trees = [d.get_transform(True) for d in docs]
        places = [tops(t, f["items"]) for t, f in zip(trees, files)]
        if None in places:
            return dict(skip=True)
        line = dict(err="", c=c, text=text, base=base, q=[])
        root = rng.randrange(len(files)) if rng.random() < .3 else 0
        scope = Scope(docs[root], factory=factory)
        scope.relative_include = c["rel"]
        for p in c["path"]:
            scope.include_path.append(base + "/" + "/".join(p) + rng.choice(["", "/"]))
        ask(rng, line, number, scope, places, files, docs)
    finally:
        if on_disk:
            shutil.rmtree(base, ignore_errors=True)
    return line


def chain_of(scope, number):
    res = []
    while scope:
        res.insert(0, number.get(scope.document().url, -1))
        scope = scope.parent
    return res


def ask(rng, line, number, root, places, files, docs):
    q = line["q"]
    limit = 60
    # the places: chains of includes
    todo = [(root, [])]
    while todo and limit > 0:
        scope, above = todo.pop(0)
        f = number[scope.document().url]
        mine = places[f - 1]
        if scope is not root:
            # the document of the scope, not ours
            mine = tops(scope.document().get_transform(True), files[f - 1]["items"])
            if mine is None:
                raise ValueError("the included document is not the file: %r" % scope.document().text())
        for i, x in enumerate(files[f - 1]["items"]):
            here = above + [[f, i + 1]]
            if x["k"] == "inc":
                node = mine[i]
                new = scope.include_scope(node.filename, node)
                q.append(dict(kind="include", place=here, n="", r=dict(file=number.get(new.document().url, -1) if new else 0)))
                base = line["base"]
                q.append(dict(kind="urls", place=here, n="", r=dict(urls=[u[len(base) + 1:].split("/") if u.startswith(base + "/") else [u]
                                                                          for u in scope.urls(node.filename)])))
                if new and number.get(new.document().url, -1) not in [f] + [p[0] for p in above]:
                    todo.append((new, here))
            elif x["k"] in ("use", "set"):
                refs = [n for n in [mine[i], *mine[i].descendants()] if isinstance(n, lily.Reference) and (x["k"] == "use" or n.get_name() in x["refs"])]
                if x["k"] == "use":
                    refs = [n for n in refs if n.get_name() == x["n"]]
                    if len(refs) != 1:
                        raise ValueError("reference not read")
                for n in refs:
                    limit -= 1
                    questions(q, here, n, scope, number, x, docs[f - 1])


def found(r, number):
    if r is None:
        return dict(val="", at=[])
    return dict(val=identify(r[0]), at=chain_of(r[1], number))


def questions(q, here, n, scope, number, x, doc):
    name = n.get_name()
    r = n.get_value_with_scope(scope)
    q.append(dict(kind="value", place=here, n=name, r=found(r, number)))
    v = n.get_value(scope)
    if v is not (r[0] if r else None):
        q.append(dict(kind="value", place=here, n=name, r=dict(val="get_value: %r" % v, at=[])))
    q.append(dict(kind="alone", place=here, n=name, r=dict(val=identify(n.get_value()))))
    steps = 0
    while r and isinstance(r[0], lily.Reference):
        steps += 1
        if steps > 100:
            raise ValueError("endless references")
        r = r[0].get_value_with_scope(r[1])
    q.append(dict(kind="follow", place=here, n=name, r=found(r, number)))
    if isinstance(n, lily.IdentifierRef):
        length = Time(scope).length(n)
        q.append(dict(kind="length", place=here, n=name, r=dict(len=int(length) if length == int(length) else str(length))))
    if isinstance(n.parent, lily.Key):
        s = n.parent.key_signature(PitchProcessor(), scope)
        q.append(dict(kind="mode", place=here, n=name, r=dict(val=s.mode if s else "")))


def complete(rng, c):
    """Other names, uses and values for a case of the model."""
    names = dict(zip("xy", rng.sample(["music", "foo", "a-b", "title", "xyz", "Piano"], 2)))
    dirs = dict(zip("dl", rng.sample(["scores", "my lib", "lib", "x.y", "a#b", "50%"], 2)))
    base = dict(zip("rxn", rng.sample(["root.ly", "x.ily", "the notes.ly", "parts.inc", "a#1.ly", "a;b?c=d.ly", "20%20.ly", "noext", "x.html", "a:b.ly"], 3)))

    def path(p):
        return [base.get(t, t) if i == len(p) - 1 else dirs.get(t, t) for i, t in enumerate(p)]
    files = []
    for f in c["files"]:
        items = []
        depth = 0
        for x in f["items"]:
            depth += (x["k"] == "in") - (x["k"] == "out")
            x = dict(x, n=names.get(x["n"], x["n"]), refs=[names[n] for n in x["refs"]], p=path(x["p"]))
            if x["k"] == "set" and x["len"] != -1:
                if rng.random() < .2 and not depth:
                    x.update(v=rng.choice(MODES), len=0)
                elif depth or rng.random() < .3:
                    x.update(len=0)
            if rng.random() < .3:
                items.append(item("use", n=rng.choice(list(names.values()))))
            items.append(x)
            if rng.random() < .1:
                items.append(item("use", n=rng.choice(list(names.values()))))
        items += [item("use", n=n) for n in names.values()]
        items = allowed(items)
        files.append(dict(at=path(f["at"]), items=items))
    return dict(c, files=files, path=[[dirs.get(t, t) for t in p] for p in c["path"]])


def big(rng):
    """A set of files."""
    dirs = rng.sample([[], ["a"], ["b"], ["a", "c"], ["lib"], ["a b"], ["a#"]], rng.choice([1, 2, 3]))
    bases = rng.sample(["x.ly", "y.ly", "defs.ily", "z z.ly", "vars", "m.inc", "a;b.ly", "n.txt"], rng.choice([2, 3, 4]))
    ats = [d + [b] for d in dirs for b in bases]
    rng.shuffle(ats)
    ats = ats[:rng.choice([2, 3, 4, 5])]
    names = ["x", "y", "foo", "bar-baz", "title"][:rng.choice([1, 2, 3, 5])]
    vid = 0
    files = []
    for at in ats:
        items = []
        depth = 0
        for _ in range(rng.choice([1, 3, 6, 9])):
            r = rng.random()
            if r < .3:
                if rng.random() < .8:
                    other = rng.choice(ats)
                    if rng.random() < .15:
                        p = ["/"] + other
                    else:
                        # relative to the folder of this file, the first file, or another folder
                        d = rng.choice([at[:-1], ats[0][:-1], rng.choice(dirs)])
                        k = 0
                        while k < min(len(d), len(other) - 1) and d[k] == other[k]:
                            k += 1
                        p = [".."] * (len(d) - k) + other[k:]
                        if rng.random() < .1:
                            p = ["."] + p
                        if rng.random() < .1 and p[0] != "..":
                            p = ["q", ".."] + p
                else:
                    p = rng.choice([["nope.ly"], ["..", "nope", "x.ly"], ["/", "nope.ly"], ["nederlands.ly"]])
                items.append(item("inc", p=p))
            elif r < .45:
                vid += 1
                items.append(item("set", n=rng.choice(names), v="v%d" % vid) if depth or rng.random() < .5
                             else item("set", n=rng.choice(names), v="v%d" % vid, len=rng.choice([0, 1, 2, 3]), refs=[rng.choice(names) for _ in range(rng.choice([0, 0, 1, 2]))]))
            elif r < .55:
                items.append(item("set", n=rng.choice(names), v="ref", len=-1, refs=[rng.choice(names)]))
            elif r < .6 and not depth:
                items.append(item("set", n=rng.choice(names), v=rng.choice(MODES)))
            elif r < .7 and depth < 3:
                items.append(item("in"))
                depth += 1
            elif r < .8 and depth and items[-1]["k"] != "in":
                items.append(item("out"))
                depth -= 1
            else:
                items.append(item("use", n=rng.choice(names)))
        for _ in range(depth):
            if items[-1]["k"] == "in":
                items.append(item("set", n=rng.choice(names), v="ref", len=-1, refs=[rng.choice(names)]))
            items.append(item("out"))
        items.append(item("use", n=rng.choice(names)))
        files.append(dict(at=at, items=allowed(items)))
    path = [rng.choice([d for d in dirs if d] + [["nope"]]) for _ in range(rng.choice([0, 0, 1, 2]))]
    return dict(files=files, rel=rng.random() < .7, path=path)


def one(rng, c):
    r, err = core.guarded(observe, rng, c, rng.random() < .25)
    return r or dict(err=err, c=c, text=[], q=[])


def play(jobs):
    res = []
    for seed, c in jobs:
        rng = random.Random(seed)
        res.append(one(rng, complete(rng, c)))
    return res


def real(seeds):
    res = []
    for seed in seeds:
        rng = random.Random(seed)
        res.append(one(rng, big(rng)))
    return res


CFG = "SPECIFICATION Spec\nCONSTANTS NFiles = %d\nMaxItems = %d\nBlocks = %s\nCHECK_DEADLOCK FALSE\nINVARIANTS FindsIt Finite Ends Emit\nPROPERTY Terminates\n"


def run(rep):
    cases = []
    for n, items, blocks in [(2, 4 if rep.thorough else 3, "TRUE"), (3, 4 if rep.thorough else 3, "FALSE")]:
        r = core.run_tlc("IncludesMC", CFG % (n, items, blocks), workers=8, heap="10g", timeout=3000)
        rep.add_tlc("IncludesMC-%d-%d" % (n, items), r)
        cases += r.lines
    rep.exhaustive = True
    rep.log("%d sets of files of the model" % len(cases))
    if not rep.thorough:
        cases = rep.rng.sample(cases, min(len(cases), 6000))
    lines = core.pmap_chunks(play, [(rep.rng.randrange(1 << 40), c) for c in cases])
    rep.log("%d performed" % len(lines))
    lines += core.pmap_chunks(real, [rep.rng.randrange(1 << 40) for _ in range(30000 if rep.thorough else 4000)])
    skipped = sum(1 for x in lines if x.get("skip"))
    lines = [x for x in lines if not x.get("skip")]
    rep.log("%d sets of files, %d more not read as they were meant" % (len(lines), skipped))
    rep.sample(lines[-1])
    verdicts, st = core.judge("IncludesTrace", lines)
    rep.add_judge("IncludesTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s" % (c, line["err"][:60]))
