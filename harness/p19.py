"""P19: reading, writing and reading again (spec: Literals, Datum, RoundTrip)."""
import math
import random
import re
from fractions import Fraction

import parce

from quickly import find
from quickly.dom import htm, lily, read, scm, util
from quickly.dom.element import HeadElement, TextElement

from . import core, corpus, docs


def codes(text):
    return [ord(c) for c in text]


def dump(n):
    return (type(n).__name__, repr(getattr(n, "head", None)), tuple(dump(c) for c in n))


# ------------------------------------------------------------------- literals

def ratio(v):
    if isinstance(v, complex):
        re_, im = ratio(v.real), ratio(v.imag)
        return dict(n=re_["n"], d=re_["d"], m=im["n"], e=im["d"])
    if isinstance(v, tuple):
        f = Fraction(*v)
    elif isinstance(v, float) and not math.isfinite(v):
        return dict(n=2 if v != v else 1 if v > 0 else -1, d=0, m=0, e=1)
    elif isinstance(v, float):
        f = Fraction(repr(v))
    else:
        f = Fraction(v)
    return dict(n=f.numerator, d=f.denominator, m=0, e=1)


STRINGS = {"lily": (lily.String, "x = \"%s\"", read.lily_document), "scm": (scm.String, "(a \"%s\" b)", read.scm_document)}
NUMBERS = {"lily": (lily.Number, "x = %s", read.lily_document), "scm": (scm.Number, "(a %s b)", read.scm_document)}


def only(tree, cls):
    nodes = [n for n in tree.descendants() if isinstance(n, cls)]
    if len(nodes) != 1:
        raise ValueError("%d %s in %s" % (len(nodes), cls.__name__, dump(tree)))
    return nodes[0]


def literal_ok(kind, k, text):
    """Leave out what is not valid, or what the parce lexers take for something else."""
    if k == "str":
        return kind == "lily" or not re.search(r"\\['\n]", re.sub(r"\\\\", "", text))
    if kind == "lily":
        return bool(re.fullmatch(r"-?\d+(\.\d+)?|\d+/\d+", text))
    # (divisions in complex numbers are not exact)
    if text[-1:] in "iI" and "/" in text or re.search("[iI].", text) and not re.search(r"[-+](inf|nan)\.0", text):
        return False
    if text[-1:] in "iI":
        return True
    return bool(re.fullmatch(r"[-+]inf\.0|\+nan\.0|(#[dD])?[+-]?(\d+|\d+/\d+|\d+\.\d*|\.\d+|\d+(\.\d*)?[eE][+-]?\d)|#[bB][+-]?[01]+|#[oO][+-]?[0-7]+|#[xX][+-]?[0-9a-fA-F]+", text))


def read_literal(kind, k, text):
    cls, template, reader = (STRINGS if k == "str" else NUMBERS)[kind]

    def once(x):
        doc = reader(template % x, True)
        n = only(doc, cls)
        v = codes(n.head) if k == "str" else ratio(n.head)
        w = n.write()
        # what stands between the quotes, or the text of the number
        return v, (w[1:-1] if k == "str" else w), doc
    v, w, doc = once(text)
    v2, w2, doc2 = once(w)
    return dict(op="read", k=k, kind=kind, err="", t=codes(text), v=v, w=codes(w), w2=codes(w2), r=v2)


def number_node(kind, v, rng):
    if kind == "lily":
        return lily.Int(v) if isinstance(v, int) else lily.Float(v) if isinstance(v, float) else lily.Fraction(v)
    if isinstance(v, complex) and rng.random() < .4:
        return rng.choice([scm.Hex, scm.Oct, scm.Bin])(v)
    if isinstance(v, int) and rng.random() < .4:
        return rng.choice([scm.Hex, scm.Oct, scm.Bin])(v)
    return scm.Number(Fraction(*v) if isinstance(v, tuple) else v)


def new_literal(kind, k, value, rng):
    cls, template, reader = (STRINGS if k == "str" else NUMBERS)[kind]
    if k == "str":
        node = cls("".join(map(chr, value)))
        if rng.random() < .5:
            node = cls("x")
            node.head = "".join(map(chr, value))
    else:
        node = number_node(kind, value, rng)
    w = node.write()
    back = only(reader(template % (w[1:-1] if k == "str" else w), True), cls).head
    return dict(op="new", k=k, kind=kind, err="", t=[], v=value if k == "str" else ratio(value),
                w=codes(w[1:-1] if k == "str" else w), w2=[], r=codes(back) if k == "str" else ratio(back))


def play_literals(items):
    res = []
    for op, kind, k, arg, seed in items:
        rng = random.Random(seed)
        if op == "read":
            r, err = core.guarded(read_literal, kind, k, "".join(map(chr, arg)))
        else:
            r, err = core.guarded(new_literal, kind, k, (complex(*arg[1:]) if arg[0] == "c" else tuple(arg[1])) if k == "num" and isinstance(arg, list) else arg, rng)
        res.append(r or dict(op=op, k=k, kind=kind, err=err, t=arg if op == "read" else [], v=[], w=[], w2=[], r=[], arg=arg))
    return res


STRCHARS = codes("antxbr0\\\"' \n\té%{}#;/é\u4e2d")


def random_literals(rng, n):
    res = []
    for _ in range(n):
        kind = rng.choice(["lily", "scm"])
        seed = rng.randrange(1 << 40)
        r = rng.random()
        chars = [rng.choice(STRCHARS) for _ in range(rng.randrange(0, 12))]
        if r < .3:
            res.append(("new", kind, "str", chars, seed))
        elif r < .5:
            text = "".join(map(chr, chars))
            # between quotes: no bare quote, no lone backslash
            text = "".join(rng.choice(["\\n", "\\t", "\\\\", "\\\"", "\\\\" if kind == "scm" else "\\'"]) if c in "\\\"" else c for c in text)
            if kind == "lily" or not re.search(r"\\[^\\\"]", re.sub(r"\\[\\\"]", "", text)) or rng.random() < .1:
                res.append(("read", kind, "str", codes(text), seed))
        elif r < .75:
            v = rng.choice([rng.choice([math.inf, -math.inf, math.nan]) if kind == "scm" else 7, ["c", rng.choice([0, 1.5, -3, 200, math.inf]), rng.choice([1, -1, .25, 7, 0.0, -math.inf])] if kind == "scm" else 5, rng.randrange(-20000, 20000), rng.randrange(0, 5000) / rng.choice([10, 100, 4, 8]), ["frac", [rng.randrange(1, 100), rng.randrange(1, 100)]]])
            res.append(("new", kind, "num", v, seed))
        elif kind == "lily":
            t = rng.choice([str(rng.randrange(10000)), "-%d" % rng.randrange(1000), "%d.%d" % (rng.randrange(100), rng.randrange(1000)), "%d/%d" % (rng.randrange(100), rng.randrange(1, 100)), "-0.%02d" % rng.randrange(100)])
            res.append(("read", kind, "num", codes(t), seed))
        else:
            sign = rng.choice(["", "", "+", "-"])
            t = rng.choice([sign + str(rng.randrange(10000)), "#x" + sign + "%x" % rng.randrange(60000), "#X" + "%X" % rng.randrange(60000), "#b" + sign + bin(rng.randrange(500))[2:], "#o" + sign + oct(rng.randrange(5000))[2:],
                            sign + "%d/%d" % (rng.randrange(100), rng.randrange(1, 100)), sign + "%d.%d" % (rng.randrange(100), rng.randrange(1000)), sign + ".%d" % rng.randrange(1, 100), sign + "%de%d" % (rng.randrange(1, 10), rng.randrange(-3, 4)), "#d%d" % rng.randrange(100), sign + "%d." % rng.randrange(100)])
            if rng.random() < .25:
                real = lambda: rng.choice(["%d" % rng.randrange(1000), "%d.%d" % (rng.randrange(100), rng.randrange(1000)), "%d/%d" % (rng.randrange(100), rng.choice([1, 2, 4, 8])), "%de%d" % (rng.randrange(1, 10), rng.randrange(0, 4)), "inf.0"])
                pm = lambda: rng.choice("+-")
                t = rng.choice([pm() + "inf.0", "+nan.0", (pm() + real() if rng.random() < .8 else "") + pm() + rng.choice(["", real(), real()]) + "i", "#x%x%s%xi" % (rng.randrange(500), pm(), rng.randrange(500)), "#b" + bin(rng.randrange(50))[2:] + pm() + "i", "#x#i%x/%x" % (rng.randrange(500), rng.choice([1, 2, 4, 8])), "#i#b%s/100" % bin(rng.randrange(50))[2:], "#i%d" % rng.randrange(99)])
            res.append(("read", kind, "num", codes(t), seed))
    return res


# ---------------------------------------------------------------- Scheme data

ATOMS = ["a", "foo-bar", "ly:x?", "1+", "-foo", "1", "-2", "1.5", "1/2", "\"s\"", "\"\"", "#t", "#f", "#\\a", "#\\space", "...", "+", "->x", "#xff"]
QUOTES = ["'", "`", ",", ",@"]
KIND = {scm.List: "(", scm.Vector: "#(", scm.Quote: "quote", scm.Dot: "dot", scm.SinglelineComment: "comment", scm.MultilineComment: "comment"}
SCMTOKEN = re.compile(r"#!.*?!#|;[^\n]*|\"(?:[^\"\\]|\\.)*\"|#\(|,@|['`,()]|#\\(?:[A-Za-z]+|.)|[^\s()'`,\";]+", re.S)


def flatten(tree):
    res = []

    def walk(n, parent):
        k = next((v for c, v in KIND.items() if isinstance(n, c)), "atom")
        res.append(dict(k=k, p=parent, t=n.write_head()))
        j = len(res)
        for c in n:
            walk(c, j)
    for n in tree:
        walk(n, 0)
    return res


def render_datum(rng, toks):
    txt, out = [], []
    for k in toks:
        t = rng.choice(ATOMS) if k == "atom" else rng.choice(QUOTES) if k == "quote" else "." if k == "dot" else rng.choice(["; x", ";;", "#! y !#"]) if k == "comment" else k
        txt.append(t)
        out.append(t)
        if t[0] == ";":
            out.append("\n")
        elif k == "atom" or k == "dot" or t[0] == "#" and k == "comment":
            out.append(rng.choice([" ", "\n", "  "]))
        else:
            out.append(rng.choice(["", "", " ", "\n"]) if k in ("(", "#(", ")") else "")
    return txt, "".join(out)


def datum(items):
    res = []
    for toks, seed in items:
        rng = random.Random(seed)
        txt, text = render_datum(rng, toks)
        r, err = core.guarded(datum_one, toks, txt, text)
        res.append(r or dict(toks=toks, txt=txt, text=text, tree=[], w=[], again=False, err=err))
    return res


def datum_one(toks, txt, text):
    a = read.scm_document(text, True)
    w = a.write()
    b = read.scm_document(w, True)
    return dict(toks=toks, txt=txt, text=text, err="", tree=flatten(a), w=SCMTOKEN.findall(w), again=dump(a) == dump(b) and b.write() == w)


def random_datum(rng, depth=0):
    """The tokens of a few data."""
    toks = []
    n = rng.randrange(0 if depth else 1, 5)
    for _ in range(n):
        if rng.random() < .1:
            toks.append("comment")
        while rng.random() < .2:
            toks.append("quote")
        if depth > 4 or rng.random() < .5:
            toks.append("atom")
        elif rng.random() < .3:
            toks += ["#("] + random_datum(rng, depth + 1) + [")"]
        else:
            inner = random_datum(rng, depth + 1)
            if rng.random() < .3 and any(k != "comment" for k in inner):
                inner += ["dot"] + rng.choice([[], ["comment"]]) + rng.choice([["atom"], ["quote", "atom"], ["(", ")"], ["(", "atom", "dot", "atom", ")"]]) + rng.choice([[], [], ["comment"]])
            toks += ["("] + inner + [")"]
    return toks


# ------------------------------------------------------------------ documents

WORDS = {}


def transformed(lang, text):
    if lang == "lilypond":
        return read.lily_document(text, True)
    if lang == "scheme":
        return read.scm_document(text, True)
    d = parce.Document(find(lang), text, transformer=True)
    tree = d.get_transform(True)
    util.replace_unknown(tree, d.text())
    return tree


def tokens(lang, text, words):
    res = []
    for w, s in docs.tokens(text, lang):
        res.append(dict(w=words.setdefault(w, len(words) + 1) if s is None else 0, s=[] if s is None else codes(s), kind="lily" if lang == "lilypond" else "scm"))
    return res


def document(lang, text):
    a = transformed(lang, text)
    w = a.write()
    b = transformed(lang, w)
    w2 = b.write()
    words, shapes = {}, {}

    def shape(n):
        """The tree as numbers: of the type and contents of each node, and the number of its children."""
        res = [[shapes.setdefault((type(n).__name__, repr(getattr(n, "head", None))), len(shapes) + 1), len(n)]]
        for c in n:
            res.extend(shape(c))
        return res
    return dict(lang=lang, text=text, out=w, err="", t1=tokens(lang, text, words), t2=tokens(lang, w, words), t3=tokens(lang, w2, words),
                same=w == w2, tree1=shape(a), tree2=shape(b))


def documents(items):
    res = []
    for lang, seed in items:
        rng = random.Random(seed)
        text = make(lang, rng)
        if len(text) > 1500 or excluded(lang, text):
            continue
        r, err = core.guarded(document, lang, text)
        res.append(r or dict(lang=lang, text=text, out="", err=err, t1=[], t2=[], t3=[], same=True, tree1=[], tree2=[]))
    return res


def make(lang, rng):
    if lang == "lilypond":
        return docs.lilypond(rng)
    if lang == "scheme":
        return "\n".join(corpus.scheme(rng) for _ in range(rng.randrange(1, 4)))
    return (docs.html if lang == "html" else docs.latex)(rng)


def excluded(lang, text):
    return False


STRCFG = "SPECIFICATION Spec\nCONSTANTS\nMaxStr = %d\nMaxNum = %d\nChars = {97, 110, 116, 92, 34, 39, 10}\nNumChars = {48, 49, 57, 97, 45, 43, 46, 47, 35, 120, 101, 105}\nCHECK_DEADLOCK FALSE\nINVARIANTS WriteRead ReadWrite Laws Emit\n"
DATCFG = "SPECIFICATION Spec\nCONSTANTS\nMaxLen = %d\nKinds = {\"(\", \"#(\", \")\", \"quote\", \"dot\", \"atom\", \"comment\"}\nCHECK_DEADLOCK FALSE\nINVARIANTS Inverse Preorder Parents OneEach Emit\n"


def as_listed(line):
    """The listed finding: in Scheme strings \\n, \\t etc. denote the letter, and the
    backslash before other characters itself."""
    t = "".join(map(chr, line["t"]))
    v = re.sub(r"\\(.)", lambda m: m[1] if m[1] in LISTED_ESCAPES else m[0], t, flags=re.S)
    return line["kind"] == "scm" and line["err"] == "" and line["v"] == codes(v) and line["w"] == codes(re.sub(r"([\\\"])", r"\\\1", v)) and line["w2"] == line["w"]


LISTED_ESCAPES = "abfnrtv|\\\""


def key_literal(line, c):
    return "%s:%s:%s" % (c, line["kind"], line["err"][:60])


def run(rep):
    # literals
    r = core.run_tlc("LiteralsMC", STRCFG % ((5, 5) if rep.thorough else (4, 4)), workers=8, heap="8g")
    rep.add_tlc("LiteralsMC", r)
    items = []
    for x in r.lines:
        for kind in ("lily", "scm"):
            seed = rep.rng.randrange(1 << 40)
            if literal_ok(kind, x["k"], "".join(map(chr, x["t"]))):
                items.append(("read", kind, x["k"], x["t"], seed))
            if x["k"] == "str":
                items.append(("new", kind, "str", x["t"], seed))
    rep.log("%d literals of the model" % len(items))
    items += random_literals(rep.rng, 60000 if rep.thorough else 8000)
    lines = core.pmap_chunks(play_literals, items)
    rep.sample({k: lines[-1][k] for k in ("op", "k", "kind", "t", "v", "w")})
    verdicts, st = core.judge("LiteralsTrace", lines)
    rep.add_judge("LiteralsTrace", st)
    for line, bad, info in verdicts:
        for c in bad:
            # an escape other than \\ and \" in a Scheme string is a listed finding
            k = "scheme-escape" if info["special"] and c in ("read", "write") and as_listed(line) else key_literal(line, c)
            rep.violation(k, c, dict(line=line, clause=c, info=info))
    rep.log("%d literals judged" % len(lines))
    # Scheme data
    r = core.run_tlc("DatumMC", DATCFG % (7 if rep.thorough else 6), workers=8, heap="8g")
    rep.add_tlc("DatumMC", r)
    cases = [(x["toks"], rep.rng.randrange(1 << 40)) for x in r.lines]
    if len(cases) > 60000:
        cases = rep.rng.sample(cases, 60000)
    rep.log("%d data of the model" % len(cases))
    cases += [(random_datum(rep.rng), rep.rng.randrange(1 << 40)) for _ in range(20000 if rep.thorough else 2000)]
    lines = core.pmap_chunks(datum, cases)
    rep.sample({k: lines[-1][k] for k in ("text", "tree")})
    verdicts, st = core.judge("DatumTrace", lines)
    rep.add_judge("DatumTrace", st)
    rep.violations_from(verdicts, lambda line, c: "datum-%s:%s" % (c, line["err"][:60]))
    rep.exhaustive = True
    # documents
    n = 24000 if rep.thorough else 3000
    todo = [(lang, rep.rng.randrange(1 << 40)) for lang in ["lilypond"] * n + ["scheme"] * (n // 8) + ["html"] * (n // 4) + ["latex"] * (n // 4)]
    lines = core.pmap_chunks(documents, todo)
    rep.log("%d documents" % len(lines))
    rep.sample({k: lines[-1][k] for k in ("lang", "text", "out")})
    verdicts, st = core.judge("RoundTripTrace", lines)
    rep.add_judge("RoundTripTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s-%s:%s" % (line["lang"], c, line["err"][:60]))
