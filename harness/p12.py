"""P12: transposing moves every pitch by the interval (spec: Pitches, Sounding)."""
import random
from fractions import Fraction

from quickly.pitch import Pitch
from quickly.transpose import Transpose, Transposer, transpose

from . import core, music
from .p11 import first_absolute, model, run_edit, select

SCALE = [0, 4, 8, 10, 14, 18, 22]


def pitch(w, fractions=False):
    """A Pitch of a written pitch [n, a, o]."""
    a = Fraction(w[1], 4) if fractions else w[1] / 4
    return Pitch(w[2] - 1, w[0], a)


def written(p):
    a = p.alter * 4
    assert a == int(a)
    return [int(p.note), int(a), p.octave + 1]


def interval(a, b):
    def sounding(w):
        s = w[0] + 7 * (w[2] - 1)
        return s, 24 * (w[2] - 1) + SCALE[w[0]] + w[1]
    (s, h), (t, i) = sounding(a), sounding(b)
    return [t - s, i - h]


def any_pitch(r, octaves=(-1, 3)):
    return [r.randrange(7), r.choice([0, 0, 0, 2, -2, 4, -4, 1, -1, 3, -3]), r.randrange(*octaves)]


HOWS = {"one": 1, "sum": 2, "difference": 2, "there and back": 1, "twice": 2, "sum of three": 3, "sum minus": 3, "none": 1}


def move(jobs):
    """Transposers."""
    res = []
    for seed, pitches in jobs:
        r = random.Random(seed)
        how = r.choice(sorted(HOWS))
        ivs = [[any_pitch(r), any_pitch(r)] for _ in range(HOWS[how])]
        pitches = pitches + [any_pitch(r, (-4, 6)) for _ in range(6)]
        ev = dict(how=how, ivs=ivs + [[[0, 0, 0], [0, 0, 0]]] * (3 - len(ivs)), err="", out=[])
        ev["in"] = pitches
        f = r.random() < .3
        def act():
            ts = [Transposer(pitch(a, f), pitch(b, f)) for a, b in ivs]
            t = ts[0]
            seq = {"twice": ts, "there and back": [t, Transposer(pitch(ivs[0][1], f), pitch(ivs[0][0], f))]}.get(how)
            if how == "sum":
                t = ts[0] + ts[1]
            elif how == "difference":
                t = ts[0] - ts[1]
            elif how == "sum of three":
                t = ts[0] + ts[1] + ts[2] if r.random() < .5 else ts[0] + (ts[1] + ts[2])
            elif how == "sum minus":
                t = ts[0] + ts[1] - ts[2] if r.random() < .5 else ts[0] - (ts[2] - ts[1])
            elif how == "none":
                t = ts[0] - ts[0] if r.random() < .5 else Transposer(pitch(ivs[0][0]), pitch(ivs[0][0]))
            out = []
            for w in pitches:
                p = pitch(w, f)
                for x in seq or [t]:
                    x.transpose(p)
                out.append(written(p))
            return out
        out, err = core.guarded(act)
        ev["out"], ev["err"] = out or [], err or ""
        res.append(ev)
    return res


def convert(jobs):
    """Music."""
    res = []
    for seed, tokens, op in jobs:
        r = random.Random(seed)
        parts = None
        if tokens is None:
            tokens, parts = music.document(r)
        else:
            tokens = music.closed(tokens)
            if r.random() < .5:
                tokens.insert(0, music.tok("text", t="\\version \"%s\"" % r.choice(["2.18.2", "2.18", "2.18.0"])))
        w = music.Writer(tokens, r)
        before = music.read(w.text)
        a, b = any_pitch(r, (0, 2)), any_pitch(r, (0, 3))
        a[1], b[1] = (r.choice([0, 0, 2, -2]) for _ in "ab")
        ev = dict(op="transpose", first=first_absolute(tokens), before=before.out, after=[], lo=0, hi=0, iv=interval(a, b), err="",
                  startpitch=True, text=w.text, result="", how="doc")
        param = None
        if r.random() < .2:
            param = ev["first"] = r.random() < .5
        sel = None
        if op == "part":
            parts = parts or []
            # the items in any music list
            stack, lists, inside = [], [], False
            for i, t in enumerate(tokens):
                if t["k"] == "in":
                    stack.append((i, [], t))
                elif t["k"] == "out":
                    j, items, t = stack.pop()
                    if t["m"] == "seq":
                        # an item ends where the next one starts
                        ends = items[1:] + [i]
                        lists.append([(a, b) for a, b in zip(items, ends)])
                    if stack:
                        if t["m"] != "new":
                            stack[-1][1].append(j)
                elif t["k"] == "chord":
                    stack[-1][1].append(i)
                    inside = True
                elif t["k"] == "end":
                    inside = False
                elif t["k"] == "note" and not inside:
                    stack[-1][1].append(i)
            parts += [x for items in lists for x in items]
        if parts and r.random() < (1 if op == "part" else .4):
            sel, ev["lo"], ev["hi"] = select(r, w, parts if op != "part" else [r.choice(parts)], before)
        elif op == "part":
            op = ""
        def act():
            t = Transpose(Transposer(pitch(a), pitch(b)), relative_first_pitch_absolute=param)
            return run_edit(r, t, w.text, sel, ev, op == "part")
        text, err = core.guarded(act)
        if not err:
            ev["result"] = text
            try:
                ev["after"] = music.read(text).out
                if sorted(before.comments) != sorted(music.read(text).comments):
                    err = "comments lost"
            except Exception as e:
                err = "unreadable result"
        ev["err"] = err or ""
        res.append(ev)
    return res


def run(rep):
    r = core.run_tlc("IntervalsMC", "SPECIFICATION Spec\nCONSTANTS Wide = %s\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\n" % ("TRUE" if rep.thorough else "FALSE"), workers=8)
    rep.add_tlc("IntervalsMC", r)
    cases = model(rep, 8 if rep.thorough else 7)
    rep.log("%d pieces of music of the model" % len(cases))
    n = 40000 if rep.thorough else 4000
    if len(cases) > n:
        cases = rep.rng.sample(cases, n)
    jobs = [(rep.rng.randrange(1 << 40), c, "") for c in cases]
    jobs += [(rep.rng.randrange(1 << 40), None, rep.rng.choice(["", "", "part"])) for _ in range(60000 if rep.thorough else 7000)]
    lines = core.pmap_chunks(convert, jobs)
    rep.log("%d pieces transposed" % len(lines))
    rep.sample(lines[-1])
    verdicts, st = core.judge("SoundingTrace", lines)
    rep.add_judge("SoundingTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s" % (c, line["err"][:60]))
    # every pitch
    every = [[n, a, o] for n in range(7) for a in range(-4, 5) for o in (0, 1)]
    jobs = [(rep.rng.randrange(1 << 40), rep.rng.sample(every, 20)) for _ in range(40000 if rep.thorough else 6000)]
    lines = core.pmap_chunks(move, jobs)
    verdicts, st = core.judge("IntervalTrace", lines)
    rep.add_judge("IntervalTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s" % (c, line["err"][:60]))
