"""P21: the counterparts of spanners (spec: Spanners)."""
import random

from quickly.dom import lily, read

from . import core

TEXTS = {"slur": ("(", ")"), "phrasing": (r"\(", r"\)"), "beam": ("[", "]"), "ligature": (r"\[", r"\]"),
         "text": (r"\startTextSpan", r"\stopTextSpan"), "trill": (r"\startTrillSpan", r"\stopTrillSpan"),
         "melisma": (r"\melisma", r"\melismaEnd")}
KINDS = sorted(TEXTS)
CLASS = {"slur": lily.Slur, "phrasing": lily.PhrasingSlur, "beam": lily.Beam, "ligature": lily.Ligature,
         "text": lily.TextSpanner, "trill": lily.TrillSpanner, "melisma": lily.Melisma}
#: spelled ids
IDS = ["1", "2", "12", '"a b"', "foo", "#'foo", "#1", "#'(x . y)", '"1"']


def spanner(rng, x):
    """The post event."""
    t = TEXTS[x["c"]][x["h"] == "stop"]
    i = "\\=" + x["id"] if x["id"] else ""
    if i and (i[2] in "#f" or not i[-1].isdigit() and rng.random() < .5):
        i += " "
    r = rng.random()
    if r < .1 and i:
        i += " %{ c %} "
    tweak = "\\tweak color #red " if rng.random() < .1 else ""
    d = rng.choice("^_-") if rng.random() < .2 or tweak else ""
    r = rng.random()
    if t[0] == "\\" and t[1] == "m" or r < .4:
        return (d + tweak if d else "") + i + t
    return i + (d + tweak if d else "") + t


def write(rng, tokens):
    """The music, with the place of every spanner in the text."""
    out = []
    size = 0
    at = {}
    closing = []

    def put(s):
        nonlocal size
        out.append(s)
        size += len(s)
    top = rng.random() < .3      # contexts may be assignments and scores
    n = 0
    for i, x in enumerate(tokens):
        if x["k"] == "in":
            top_level = top and all(c == "" for c in closing)
            kind = rng.choice(["assign", "score", "new"]) if top_level else "new"
            if kind == "new":
                a, b = rng.choice([("\\new Voice { ", "} "), ("\\new Staff << ", ">> "), ("\\new Staff = \"x\" \\with { } { ", "} "), ("\\new Voice \\relative { ", "} ")])
            elif kind == "assign":
                a, b = "music%s = { " % "abcdefgh"[n % 8], "}\n"
            else:
                a, b = "\\score { { ", "} \\layout { } }\n"
            n += 1
            put(a)
            closing.append(b)
        elif x["k"] == "out":
            while closing[-1] == "wrap":
                closing.pop()
                put(closing.pop())
            put(closing.pop())
        else:
            r = rng.random()
            if r < .15:
                put(rng.choice(["%{ x %} ", "r4 ", "\\bar \"|\" ", "\\stemUp ", "d'4-. ", "<e g>8 ", "\\grace { f } ", "\\tempo 4 = 60 ", "% comment (\n"]))
            if rng.random() < .1:
                a, b = rng.choice([("{ ", "} "), ("<< ", ">> "), ("\\repeat volta 2 { ", "} "), ("\\relative c' { ", "} "), ("\\tuplet 3/2 { ", "} "), ("\\context Voice { ", "} ")])
                put(a)
                closing += [b, "wrap"]
            t = spanner(rng, x)
            r = rng.random()
            if r < .7:
                put(rng.choice(["c", "c4", "d'", "r", "<c e>", "s1*2", "a~", "f\\p"]))
                at[i] = size, size + len(t)
                put(t + " ")
            elif r < .85:
                put("<c e")
                at[i] = size, size + len(t)
                put(t + " g>4 ")
            else:
                put("c-. ")
                at[i] = size, size + len(t)
                put(t + " ")
            if closing and closing[-1] == "wrap" and rng.random() < .4:
                closing.pop()
                put(closing.pop())
    while closing:
        c = closing.pop()
        if c != "wrap":
            put(c)
    text = "".join(out)
    return text, at


def observe(rng, tokens):
    text, at = write(rng, tokens)
    tree = read.lily_document(text, True)
    found = {}
    for n in tree.descendants():
        if isinstance(n, lily.Spanner):
            # the token it is written for
            i = next((i for i, v in at.items() if v[0] <= n.pos and n.end <= v[1]), None)
            if i is not None:
                found[id(n)] = i
                at[i] = at[i][:2] + (n,)
    line = dict(err="", e=tokens, text=text, got=[0] * len(tokens), lim=[], nodes=sum(1 for _ in tree.descendants()))
    if len(found) != sum(x["k"] == "span" for x in tokens):
        return None                 # not read as it was meant
    for i, (_, _, n) in at.items():
        if type(n) is not CLASS[tokens[i]["c"]] or n.head != tokens[i]["h"]:
            return None

    def number(m):
        return 0 if m is None else found.get(id(m), -2) + 1
    for i, (_, _, n) in at.items():
        line["got"][i] = number(n.find_parallel())
        for limit in (line["nodes"], rng.choice([1, 2, 3, 5, 8, 13, 21])):
            line["lim"].append(dict(i=i + 1, n=limit, got=number(n.find_parallel(limit))))
    return line


def play(jobs):
    res = []
    for seed, c in jobs:
        r, err = core.guarded(observe, random.Random(seed), rename(random.Random(seed), c["e"]))
        if r:
            res.append(r)
        elif err:
            res.append(dict(err=err, e=c["e"], text="", got=[], lim=[], nodes=0))
    return res


def rename(rng, tokens):
    """Other kinds of spanners and ids for the ones in the model."""
    k = rng.sample(KINDS, 3)
    i = rng.sample(IDS, 3)
    kinds = dict(zip("pqr", k))
    ids = dict(zip("123", i), **{"": ""})
    return [dict(x, c=kinds.get(x["c"], x["c"]), id=ids.get(x["id"], x["id"])) for x in tokens]


def real(seeds):
    res = []
    for seed in seeds:
        rng = random.Random(seed)
        kinds = rng.sample(KINDS, rng.choice([1, 2, 3]))
        ids = [""] * rng.choice([1, 2]) + rng.sample(IDS, rng.choice([1, 2]))
        tokens = []
        depth = 0
        for _ in range(rng.choice([4, 8, 16, 30])):
            r = rng.random()
            if r < .1 and depth < 4:
                tokens.append(dict(k="in", c="", h="", id=""))
                depth += 1
            elif r < .2 and depth and tokens[-1]["k"] != "in":
                tokens.append(dict(k="out", c="", h="", id=""))
                depth -= 1
            else:
                tokens.append(dict(k="span", c=rng.choice(kinds), h=rng.choice(["start", "stop"]), id=rng.choice(ids)))
        for _ in range(depth):
            tokens.append(dict(k="out", c="", h="", id=""))
        r, err = core.guarded(observe, rng, tokens)
        if r:
            res.append(r)
        elif err:
            res.append(dict(err=err, e=tokens, text="", got=[], lim=[], nodes=0))
    return res


CFG = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nIds = %s\nKinds = %s\nCHECK_DEADLOCK FALSE\nINVARIANTS Coherent Emit\n"


def run(rep):
    cases = []
    for n, ids, kinds in [(6, '{""}', '{"p"}'), (4, '{"", "1"}', '{"p", "q"}'), (4, '{"", "1", "2"}', '{"p"}')]:
        r = core.run_tlc("SpannersMC", CFG % (n + rep.thorough, ids, kinds), workers=8, heap="8g")
        rep.add_tlc("SpannersMC-%s-%s" % (ids, kinds), r)
        cases += r.lines
    rep.exhaustive = True
    rep.log("%d pieces of music of the model" % len(cases))
    lines = core.pmap_chunks(play, [(rep.rng.randrange(1 << 40), c) for c in cases])
    rep.log("%d performed" % len(lines))
    lines += core.pmap_chunks(real, [rep.rng.randrange(1 << 40) for _ in range(30000 if rep.thorough else 3000)])
    rep.log("%d events" % len(lines))
    rep.sample(lines[-1])
    verdicts, st = core.judge("SpannersTrace", lines)
    rep.add_judge("SpannersTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s" % (c, line["err"][:60]))
