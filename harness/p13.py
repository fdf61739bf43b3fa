"""P13: editing the rhythm (spec: Rhythm)."""
import concurrent.futures
import random
from fractions import Fraction

import parce
from quickly import duration, find, rhythm
from quickly.dom import lily, read

from . import core, lytok
from .p14 import bits

ALPHABETS = 14      # see spec/RhythmMC.tla
OPS = ["explicit", "implicit", "perline", "remove", "scaling", "fraction", "transform", "copy", "copyexplicit", "paste", "pasteonce"]


def value(d):
    """(duration, scaling) of [log, dots, num, den]."""
    log, dots, num, den = d
    b = Fraction(1, 1 << log) if log >= 0 else Fraction(1 << -log)
    return b * 2 - b / (1 << dots), Fraction(num, den)


def written(v):
    """[log, dots, num, den] of (duration, scaling); [] for None."""
    if v is None:
        return []
    b = bits(Fraction(v[0]))
    s = Fraction(v[1]).limit_denominator(1000) if isinstance(v[1], float) else Fraction(v[1])
    if b != list(range(b[0], b[0] + len(b))):
        return [b[0], -1, s.numerator, s.denominator]
    return [b[0], len(b) - 1, s.numerator, s.denominator]


def toks(text):
    return [dict(k=t["k"], t=t["t"], d=t["d"], l=t["line"]) for t in lytok.tokens(text)]


def selections(text):
    """Pairs of token numbers a selection can start and end with."""
    ts = lytok.tokens(text)
    starts, ends = [], []
    chord = False
    for i, t in enumerate(ts):
        after = ts[i + 1]["k"] if i + 1 < len(ts) else "close"
        before = ts[i - 1] if i else dict(k="", t="")
        if not chord and t["k"] in ("note", "rest", "word", "chord", "skip", "argd") and before["k"] not in ("cmd", "argd", "dir") and before["t"] != "\\tempo":
            starts.append(i)
        if t["k"] == "chord":
            chord = True
        elif t["k"] == "endchord":
            chord = False
        if not chord and t["k"] in ("note", "rest", "word", "endchord", "skip", "dur") and after not in ("dur", "mod", "dir", "com") \
                and not (i + 1 < len(ts) and ts[i + 1]["t"] == "\\rest") and before["t"] not in ("\\relative", "\\key"):
            ends.append(i)
    return [(i, j) for i in starts for j in ends if i <= j]


def perform(rng, op, text):
    """The event for one operation on the text."""
    old = toks(text)
    r = dict(op=op, text=text, old=old, new=[], sel=[True] * len(old), list=[], t=dict(log=0, dots=0, num=1, den=1), err="")
    if op == "explicit":
        e = rhythm.RhythmExplicit()
    elif op == "implicit":
        e = rhythm.RhythmImplicit()
    elif op == "perline":
        e = rhythm.RhythmImplicitPerLine()
    elif op == "remove":
        e = rhythm.Remove()
    elif op == "scaling":
        e = rhythm.RemoveScaling()
    elif op == "fraction":
        e = rhythm.RemoveFractionScaling()
    elif op == "transform":
        s = rng.choice([Fraction(1), Fraction(1), Fraction(2), Fraction(2, 3), Fraction(1, 2)])
        r["t"] = dict(log=rng.choice([-1, 0, 1, 2]), dots=rng.choice([-1, 0, 0, 1, 2]), num=s.numerator, den=s.denominator)
        e = rhythm.RhythmTransform(duration.Transform(r["t"]["log"], r["t"]["dots"], s))
    elif op in ("copy", "copyexplicit"):
        e = rhythm.CopyRhythm(op == "copyexplicit")
    else:
        d = [None if rng.random() < .3 else value([rng.choice([0, 1, 2, 3, 4]), rng.choice([0, 0, 1, 2]), rng.choice([1, 1, 2]), rng.choice([1, 1, 3])]) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
        r["list"] = [written(x) for x in d]
        e = rhythm.PasteRhythm(d, op == "paste")
    how = rng.choice(["document", "node", "cursor", "cursor"]) if op != "perline" else rng.choice(["document", "cursor"])
    if how == "cursor":
        pairs = selections(text)
        if not pairs:
            how = "document"
        else:
            i, j = rng.choice(pairs)
            r["sel"] = [i <= n <= j for n in range(len(old))]
    r["how"] = how
    if how == "node":
        m = read.lily_document(text)
        res, err = core.guarded(e.edit, m)
        new = m.write() if not err else ""
    else:
        d = parce.Document(find("lilypond"), text, transformer=True)
        target = d
        if how == "cursor":
            ts = lytok.tokens(text)
            target = parce.Cursor(d, ts[i]["pos"], ts[j]["end"])
        res, err = core.guarded(e.edit, target)
        new = d.text()
    r["err"] = err or ""
    r["result"] = new
    r["new"] = toks(new)
    if op.startswith("copy") and not err:
        r["list"] = [written(x) for x in res]
    return r


def layout(rng, text):
    """The text with other whitespace."""
    res = []
    words = text.split(" ")
    for i, w in enumerate(words):
        if i:
            glue = w[0] in "1248" and words[i - 1][-1] in "ceq>a" and not words[i - 1].startswith("\\") and rng.random() < .7
            res.append("" if glue else rng.choice([" ", " ", " ", "\n", "\n  "]))
        res.append(w)
    return "".join(res)


def play(jobs):
    res = []
    for seed, case, ops in jobs:
        rng = random.Random(seed)
        text = " ".join(case["text"])
        got = [[t["k"], t["t"], list(t["d"])] for t in toks(text)]
        want = [[k, t, list(d)] for k, t, d in case["toks"]]
        assert got == want, (text, got, want)
        for op in rng.sample(OPS, ops):
            res.append(perform(rng, op, layout(rng, text)))
    return res


def longer(jobs):
    """Longer random documents, put together from those of the model."""
    res = []
    for seed, cases in jobs:
        rng = random.Random(seed)
        text = " ".join(" ".join(c["text"]) for c in cases)
        if rng.random() < .5:
            text = rng.choice(["{ %s }", "<< %s >>", "\\score { { %s } }", "musicOne = { %s }", "\\relative { %s }", "\\new Staff { %s }"]) % text
        res.append(perform(rng, rng.choice(OPS), layout(rng, text)))
    return res


def run(rep):
    cases = []
    def model(n):
        length = 5 if rep.thorough and n != 2 else 4
        return core.run_tlc("RhythmMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nWhich = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Possible Emit\n" % (length, n), workers=2, heap="3g")
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        results = list(pool.map(model, range(1, ALPHABETS + 1)))
    for n, r in enumerate(results, 1):
        rep.add_tlc("RhythmMC-%d" % n, r)
        cases += r.lines
    rep.exhaustive = True
    rep.log("%d documents of the model" % len(cases))
    few = cases if rep.thorough else rep.rng.sample(cases, 5000)
    lines = core.pmap_chunks(play, [(rep.rng.randrange(1 << 40), c, len(OPS) if rep.thorough else 3) for c in few])
    rep.log("%d operations" % len(lines))
    lines += core.pmap_chunks(longer, [(rep.rng.randrange(1 << 40), rep.rng.sample(cases, rep.rng.randrange(1, 5))) for _ in range(40000 if rep.thorough else 6000)])
    rep.sample({k: lines[-1][k] for k in ("op", "text", "result")})
    verdicts, st = core.judge("RhythmTrace", lines)
    rep.add_judge("RhythmTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s:%s" % (line["op"], c, line["err"][:60]))
