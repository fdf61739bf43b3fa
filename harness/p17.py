"""P17: MIDI keys and key signatures (spec: Keys)."""
from fractions import Fraction

from . import core
from quickly import key as K, pitch as P


def semis(v):
    """An alteration as a number of semitones."""
    x = Fraction(v) * 2
    return int(x) if x.denominator == 1 else str(v)


def alters(a):
    """Ways to write an alteration of a semitones."""
    yield a / 2 if a % 2 else a // 2
    yield Fraction(a, 2)
    yield a / 2


def fl(f):
    return tuple(sorted(x / 2 for x in f))


def pt(p):
    return [p.octave, p.note, semis(p.alter)]


def sig(s):
    return [semis(x) for x in s]


def answers(q):
    o = q["o"]
    if o == "tomidi":
        for a in alters(q["a"]):
            yield lambda: P.Pitch(q["oc"], q["n"], a).to_midi()
        yield lambda: P.Pitch(q["oc"], q["n"], q["a"] / 2).to_midi(P.MAJOR_SCALE)
    elif o == "frommidi":
        f = fl(q["f"])
        yield lambda: pt(P.Pitch.from_midi(q["k"], flats=f))
        yield lambda: pt(P.Pitch.from_midi(q["k"], P.MAJOR_SCALE, list(f)))
        if f == (1.5, 5):
            yield lambda: pt(P.Pitch.from_midi(q["k"]))
    elif o == "offset":
        yield lambda: sig(K.alterations(q["off"]))
        yield lambda: sig(K.alterations(q["off"], P.MAJOR_SCALE))
    elif o == "sig":
        off = K.mode_offset[q["m"]]
        for a in alters(q["a"]):
            yield lambda: sig(K.accidentals(q["n"], a, K.alterations(off)))
            yield lambda: sig(K.KeySignature(q["n"], a, q["m"]).accidentals)
            yield lambda: sig(K.KeySignature(q["n"], a, K.alterations(off)).accidentals)
        if q["m"] == "major":
            yield lambda: sig(K.accidentals(q["n"], q["a"] / 2))
            if not q["a"]:
                yield lambda: sig(K.accidentals(q["n"]))
                yield lambda: sig(K.KeySignature(q["n"]).accidentals)
            yield lambda: sig(K.KeySignature(q["n"], q["a"] / 2).accidentals)
    elif o == "custom":
        m = [x / 2 for x in q["m"]]
        for a in alters(q["a"]):
            yield lambda: sig(K.accidentals(q["n"], a, m))
            yield lambda: sig(K.KeySignature(q["n"], a, m).accidentals)
    elif o == "chrom":
        for a in alters(q["a"]):
            yield lambda: [[n, semis(x)] for n, x in K.chromatic_scale(q["n"], a, flats=fl(q["f"]))]
        if fl(q["f"]) == (1.5, 5):
            yield lambda: [[n, semis(x)] for n, x in K.chromatic_scale(q["n"], q["a"] / 2)]
    elif o == "tonic":
        yield lambda: (lambda n, a: [n, semis(a)])(*K.tonic(q["sf"]))
    elif o == "spell":
        def by(s, *args):
            return lambda: [pt(s().pitch(k, *args)) for k in range(132)]
        f = fl(q["f"])
        a = q["a"] / 2
        yield by(lambda: K.KeySignature(q["n"], a, q["m"]), f)
        yield by(lambda: K.KeySignature(q["n"], Fraction(q["a"], 2), K.alterations(K.mode_offset[q["m"]])), list(f))

        def one():
            s = K.KeySignature(q["n"], a, q["m"])
            s.pitch(60)             # the first answer must not stick
            s.flats = f
            return [pt(s.pitch(k)) for k in range(132)]
        yield one
        if f == (1.5, 5):
            yield by(lambda: K.KeySignature(q["n"], a, q["m"]))


def replay(cases):
    bad = []
    for c in cases:
        q = c["q"]
        if q["o"] == "spell":       # the table of the first octave, an octave further every 12 keys
            c["want"] = [[c["want"][k % 12][0] + k // 12] + c["want"][k % 12][1:] for k in range(132)]
        for i, fn in enumerate(answers(q)):
            r, err = core.guarded(fn)
            if err or r != c["want"]:
                want = c["want"]
                if q["o"] == "spell" and not err:
                    k = next(k for k in range(132) if r[k] != want[k])
                    r, want = dict(key=k, pitch=r[k]), want[k]
                bad.append((q["o"], dict(q=q, way=i, want=want, real=r, err=err)))
                break
        if q["o"] == "sig":
            r, err = core.guarded(lambda: repr(K.KeySignature(q["n"], q["a"] / 2, q["m"])))
            if err:
                bad.append(("repr", dict(q=q, err=err)))
    return bad


def run(rep):
    r = core.run_tlc("KeysMC", "SPECIFICATION Spec\nCONSTANTS A = %d\nCHECK_DEADLOCK FALSE\n"
                     "INVARIANTS SoundsRight ScaleKept OffsetIsMode TonicKept Emit\n" % (3 if rep.thorough else 2), workers=8, heap="4g")
    rep.add_tlc("KeysMC", r)
    rep.traces += len(r.lines)
    rep.log("model: %d queries" % len(r.lines))
    rep.sample(r.lines[100])
    for o, case in core.pmap_chunks(replay, r.lines):
        rep.violation("key:" + o, "key:" + o, case)
    rep.exhaustive = True
