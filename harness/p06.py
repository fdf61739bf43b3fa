"""P06: canonical order of children, properties of elements (spec: ElementProps)."""
import random
from fractions import Fraction

from . import core
from quickly.dom import base, lily, read, scm

OCC = {"octave": "Octave", "accidental": "Accidental", "oct_check": "OctCheck", "duration": "Duration"}
CTX = {"Drum": r"\drummode { %s }", "Figure": r"\figuremode { %s }", "LyricText": r"\lyricmode { %s }", "LyricSkip": r"\lyricmode { %s }",
       "LyricItem": r"\lyricmode { %s }", "Pitch": r"\transpose %s c { d }"}


def make_kid(kid, cls, rng):
    k, v = kid["k"], kid["v"]
    if k in ("Octave", "OctCheck"):
        return getattr(lily, k)(int(v))
    if k == "Accidental":
        return lily.Accidental(v)
    if k == "Duration":
        d = lily.Duration(Fraction(v))
        for q in kid["sc"]:
            d.append(lily.DurationScaling(Fraction(*q)))
        return d
    if k == "Comment":
        return lily.MultilineComment(" x ") if rng.random() < .7 else lily.SinglelineComment(" x")
    if k == "Articulations":
        return lily.Articulations(lily.Direction(1, lily.Articulation("."))) if rng.random() < .5 else lily.Articulations(lily.Tie())
    if k == "RestModifier":
        return lily.RestModifier()
    if k == "ChordBody":
        return lily.ChordBody(lily.Note("c", lily.Octave(1)), lily.Note("e"))
    if k == "Content":
        return rng.choice([lambda: lily.String("bla"), lambda: lily.Scheme("#", scm.Identifier("foo")), lambda: lily.Markup("markup", lily.MarkupWord("hi"))])()
    if k == "Text":
        return rng.choice([lambda: lily.String("Allegro"), lambda: lily.Markup("markup", lily.MarkupWord("hi"))])()
    if k == "EqualSign":
        return lily.EqualSign()
    if k == "Int":
        return lily.Int(60)
    if k == "FigureBody":
        return lily.FigureBody(lily.FigureStep(6), lily.FigureStep(4, lily.FigureAccidental(1)))
    if k == "Fraction":
        return lily.Fraction((3, 2))
    if k == "Music":
        return lily.MusicList(lily.Note("c"), lily.Note("d"))
    raise KeyError(k)


def make(cls, kids):
    head = {"Note": "a", "Pitch": "fis", "PitchedRest": "g", "Drum": "bd", "LyricText": "word"}.get(cls)
    c = getattr(lily, cls)
    return c(head, *kids) if head else c(*kids)


GROUPS = [("Octave", lily.Octave), ("Accidental", lily.Accidental), ("OctCheck", lily.OctCheck), ("Duration", lily.Duration),
          ("Comment", base.Comment), ("Articulations", lily.Articulations), ("RestModifier", lily.RestModifier),
          ("ChordBody", lily.ChordBody), ("FigureBody", lily.FigureBody), ("EqualSign", lily.EqualSign), ("Int", lily.Int), ("Fraction", lily.Fraction)]


def pair(f):
    """Huge numbers (there are none in the specification) become 0/1."""
    if not isinstance(f, (int, Fraction)):
        f = Fraction(0)
    f = Fraction(f)
    return [f.numerator, f.denominator] if max(f.numerator, f.denominator) < 1000000 and f > 0 else [0, 1]


def kid_of(n, cls):
    for k, c in GROUPS:
        if isinstance(n, c):
            break
    else:
        k = {"LyricItem": "Content", "Tempo": "Text", "Tuplet": "Music"}.get(cls, "?")
    v = str(n.head) if k in ("Octave", "OctCheck", "Duration", "Accidental") else "x"
    sc = []
    if k == "Duration":
        sc = [pair(s.head) for s in n / lily.DurationScaling]
        if not isinstance(n.head, Fraction):
            v = "type " + str(type(n.head))
    return dict(k=k, v=v, sc=sc)


def kids_of(n, cls):
    return [kid_of(c, cls) for c in n]


def props(n):
    """All properties as text, in the form of the specification."""
    r = dict(octave="0", accidental="none", oct_check="none", duration="none", scaling=[0, 0])
    if isinstance(n, lily.Pitchable):
        r["octave"] = str(n.octave)
        r["accidental"] = str(n.accidental).replace("None", "none")
        r["oct_check"] = str(n.oct_check).replace("None", "none")
    if isinstance(n, lily.HandleDuration):
        d, s, both = n.duration, n.scaling, n.duration_scaling
        if (both is None) != (d is None) or both and both != (d, s):
            return dict(r, duration="duration_scaling differs")
        r["duration"] = "none" if d is None else str(d)
        if s is not None:
            r["scaling"] = pair(s)
    return r


def lazy(f, rng):
    """A value as a Fraction, or the float or int for it."""
    f = Fraction(f)
    c = [f, f]
    if Fraction(float(f)).limit_denominator() == f:
        c.append(float(f))
    if f.denominator == 1:
        c.append(int(f))
    return rng.choice(c)


def perform(n, op, rng):
    o, v = op["op"], op["v"]
    q = tuple(op["q"])
    if o == "add":
        n.add(make_kid(dict(k=op["k"], v=v, sc=[]), type(n).__name__, rng))
    elif o in ("octave", "oct_check", "accidental", "duration"):
        if v == "none":
            if o == "octave" or rng.random() < .5:
                delattr(n, o)
            else:
                setattr(n, o, None)
        else:
            setattr(n, o, v if o == "accidental" else lazy(v, rng) if o == "duration" else int(v))
    elif o == "scaling":
        if q == (0, 0):
            if rng.random() < .5:
                del n.scaling
            else:
                n.scaling = None
        else:
            n.scaling = lazy(Fraction(*q), rng)
    elif o == "duration_scaling":
        if v == "none":
            if rng.random() < .5:
                del n.duration_scaling
            else:
                n.duration_scaling = None
        else:
            n.duration_scaling = lazy(v, rng), None if q == (0, 0) else lazy(Fraction(*q), rng)


AGAIN = {}


def again(n):
    """The properties after writing and reading."""
    cls = type(n).__name__
    text = n.write()
    key = cls, text
    if key not in AGAIN:
        def go():
            d = read.lily_document(CTX.get(cls, "{ %s }") % (text + "\n"))
            return props(next(d // type(n)))
        r, err = core.guarded(go)
        AGAIN[key] = r if not err else dict(octave=err, accidental="", oct_check="", duration="", scaling=[0, 0], text=text)
    return AGAIN[key]


def step(n, cls, op, rng):
    """One event, the operation performed on n."""
    before = kids_of(n, cls)
    old = list(n)
    olddump = [c.write() for c in old]
    head = n.head if hasattr(n, "head") else None
    holder = n.parent
    around = [c.write() for c in holder if c is not n] if holder is not None else []
    _, err = core.guarded(lambda: perform(n, op, rng))
    after = kids_of(n, cls)
    touched = OCC.get(op["op"], "Duration")
    ok = (head == (n.head if hasattr(n, "head") else None) and all(c.parent is n for c in n)
          and ([c.write() for c in holder if c is not n] if holder is not None else []) == around
          and [id(c) for c in old if kid_of(c, cls)["k"] != touched or op["op"] == "add"]
          == [id(c) for c in n if (kid_of(c, cls)["k"] != touched if op["op"] != "add" else any(c is x for x in old))]
          and all(c.write() == t for c, t in zip(old, olddump) if kid_of(c, cls)["k"] != touched))
    p, err2 = core.guarded(lambda: props(n))
    none = dict(octave="?", accidental="?", oct_check="?", duration="?", scaling=[0, 0])
    a, err3 = core.guarded(lambda: again(n))
    return dict(cls=cls, kids=before, op=op, failed=bool(err), err=str(err or err2 or err3 or ""), after=after, props=p or none, again=a or none, around=bool(ok))


def build(cls, kids, rng):
    n = make(cls, [make_kid(k, cls, rng) for k in kids])
    lily.MusicList(lily.Note("c", lily.Octave(1)), n, lily.Note("d", lily.Duration(Fraction(1, 8))))
    return n


def model_events(jobs):
    res = []
    for i, st in jobs:
        rng = random.Random(i)
        for op in st["ops"]:
            res.append(step(build(st["cls"], st["kids"], rng), st["cls"], op, rng))
    return res


NAMES = dict(Note=["Octave", "Accidental", "OctCheck", "Duration", "Articulations"], Pitch=["Octave", "Accidental", "OctCheck"],
             PitchedRest=["Octave", "Accidental", "OctCheck", "Duration", "RestModifier", "Articulations"],
             Figure=["FigureBody", "Duration", "Articulations"], Chord=["ChordBody", "Duration", "Articulations"], Skip=["Duration"], LyricText=["Duration"], LyricSkip=["Duration"],
             LyricItem=["Content", "Duration"], Tempo=["Text", "Duration", "EqualSign", "Int"], Tuplet=["Fraction", "Duration", "Music"],
             **{c: ["Duration", "Articulations"] for c in ("Rest", "MultiMeasureRest", "Space", "Q", "Drum", "Unpitched")})
DURS = ["1/4", "1/8", "1/2", "1", "2", "4", "8", "3/8", "7/16", "3/2", "3/64", "1/128", "15/8"]


def history(seeds):
    """A random life of one element, values from everywhere."""
    res = []
    for seed in seeds:
        rng = random.Random(seed)
        cls = rng.choice(["Note"] * 4 + ["PitchedRest", "Chord"] * 2 + sorted(NAMES))
        n = build(cls, [], rng)
        for _ in range(rng.randrange(3, 14)):
            ops = ["add"] * 2
            if isinstance(n, lily.Pitchable):
                ops += ["octave", "accidental", "oct_check"] * 2
            if isinstance(n, lily.HandleDuration):
                ops += ["duration", "scaling", "duration_scaling"]
            o = rng.choice(ops)
            op = dict(op=o, k="", v="", q=[0, 0])
            q = Fraction(rng.randrange(1, 12), rng.randrange(1, 12))
            q = [q.numerator, q.denominator]
            if o == "add":
                free = [k for k in NAMES[cls] if not any(x["k"] == k for x in kids_of(n, cls))]
                if not free:
                    continue
                op["k"] = rng.choice(free)
                op["v"] = dict(Octave=str(rng.choice([-3, -1, 1, 2])), OctCheck=str(rng.randrange(-3, 4)), Accidental=rng.choice(["forced", "cautionary"]),
                               Duration=rng.choice(DURS)).get(op["k"], "x")
            elif o == "octave":
                op["v"] = rng.choice(["none", str(rng.randrange(-6, 7))])
            elif o == "oct_check":
                op["v"] = rng.choice(["none", str(rng.randrange(-6, 7))])
            elif o == "accidental":
                op["v"] = rng.choice(["none", "forced", "cautionary"])
            elif o == "duration":
                op["v"] = rng.choice(["none"] + DURS)
            elif o == "scaling":
                op["q"] = rng.choice([[0, 0], [1, 1], q, q])
            else:
                op["v"] = rng.choice(["none"] + DURS)
                op["q"] = [0, 0] if op["v"] == "none" else rng.choice([[1, 1], q, [0, 0]])
            if rng.random() < .15:
                n.insert(rng.randrange(len(n) + 1), lily.MultilineComment(" x "))
            d = next(n / lily.Duration, None)
            if rng.random() < .1 and d is not None and len(d) < 3:
                d.append(lily.DurationScaling(Fraction(rng.randrange(1, 5), 3)))
            res.append(step(n, cls, op, rng))
    return res


def run(rep):
    cls = "{" + ", ".join('"%s"' % c for c in sorted(NAMES)) + "}"
    r = core.run_tlc("ElementPropsMC", "SPECIFICATION Spec\nCONSTANTS MaxComments = %d\nCls = %s\nCHECK_DEADLOCK FALSE\n"
                     "INVARIANTS InOrder SetGet NeverStuck Emit\n" % (2 if rep.thorough else 1, cls), workers=8, heap="6g")
    rep.add_tlc("ElementPropsMC", r)
    states = r.lines
    plain = [s for s in states if not any(k["k"] == "Comment" for k in s["kids"])]
    more = [s for s in states if any(k["k"] == "Comment" for k in s["kids"])]
    limit = 4000 if rep.thorough else 800
    if len(more) > limit:
        more = rep.rng.sample(more, limit)
    rep.exhaustive = True
    rep.log("model: %d states, %d without comments" % (len(states), len(plain)))
    lines = core.pmap_chunks(model_events, [(rep.rng.randrange(1 << 30), s) for s in plain + more])
    rep.log("%d transitions performed" % len(lines))
    lines += core.pmap_chunks(history, [rep.rng.randrange(1 << 40) for _ in range(40000 if rep.thorough else 2500)])
    rep.log("%d events" % len(lines))
    rep.sample(lines[-1])
    verdicts, st = core.judge("ElementPropsTrace", lines)
    rep.add_judge("ElementPropsTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s:%s" % (c, line["op"]["op"], line["op"]["k"]))
