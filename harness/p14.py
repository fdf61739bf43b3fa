"""P14: duration values (spec: Duration)."""
import re
from fractions import Fraction

from . import core
from quickly import duration as D
from quickly.dom import lily


def frac(bits):
    return sum((Fraction(1, 1 << i) if i >= 0 else Fraction(1 << -i) for i in bits), Fraction(0))


def bits(value):
    """Positions of the binary digits of a (dyadic) value."""
    f = Fraction(value)
    if f <= 0 or f.denominator & (f.denominator - 1):
        return ["not a positive dyadic value", str(f)]
    k = f.denominator.bit_length() - 1
    return sorted(k - i for i in range(f.numerator.bit_length()) if f.numerator >> i & 1)


INVALID = {1000: "3", 1003: "0", 1005: "-4", 2000: "minima"}
NAMES = {-1: "breve", -2: "longa", -3: "maxima"}


def texts(l, d):
    """Written forms (text, dotcount argument) of log l with d dots."""
    if l in INVALID:
        yield INVALID[l] + "." * d, None
        yield INVALID[l], d
        return
    base = NAMES.get(l) or str(1 << l)
    for b in {base, "\\" + base} if l < 0 else {base}:
        yield b + "." * d, None
        yield " " + b + "." * d + "\t", None
        yield b, d
        if not d:
            yield b, 0


def parse(text):
    m = re.fullmatch(r"(\\[a-z]+|[1-9][0-9]*)(\.*)", text)
    if not m:
        return dict(text=text)
    b = m[1]
    for l, n in NAMES.items():
        if b == "\\" + n:
            return dict(log=l, dots=len(m[2]))
    if b.isdigit() and not int(b) & (int(b) - 1):
        return dict(log=int(b).bit_length() - 1, dots=len(m[2]))
    return dict(text=text)


def forms(f):
    """The value as Fraction, and as int and float where these are exact."""
    yield f
    if f.denominator == 1:
        yield int(f)
    if Fraction(float(f)) == f:
        yield float(f)


def tr(t):
    return D.Transform(t["log"], t["dots"], Fraction(*t["scale"]))


def answers(q):
    """All answers of the real code to the query (one per way to ask)."""
    o = q["o"]
    v = frac(q["s"])
    if o == "dur":
        yield lambda: dict(bits=bits(D.duration(q["l"], q["d"])))
        if not q["d"]:
            yield lambda: dict(bits=bits(D.duration(q["l"])))
    elif o == "from":
        for t, n in texts(q["l"], q["d"]):
            if n is None:
                yield lambda: dict(bits=bits(D.from_string(t)))
                yield lambda: dict(bits=bits(lily.Duration.from_string(t).head))
            else:
                yield lambda: dict(bits=bits(D.from_string(t, n)))
    elif o == "log":
        for x in forms(v):
            yield lambda: dict(zip(("log", "dots"), map(int, D.log_dotcount(x))))
    elif o == "shift":
        for x in forms(v):
            yield lambda: dict(bits=bits(D.shift_duration(x, q["l"], q["d"])))
            if not q["d"]:
                yield lambda: dict(bits=bits(D.shift_duration(x, q["l"])))
    elif o == "str":
        for x in forms(v):
            yield lambda: parse(D.to_string(x))
        yield lambda: parse(lily.Duration(v).write())
    elif o == "writable":
        for x in forms(v):
            yield lambda: dict(yes=bool(D.is_writable(x)))
    else:
        t = sum((tr(x) for x in q["t"][1:]), tr(q["t"][0]))
        if o == "add":
            yield lambda: dict(log=t.log, dots=t.dotcount, scale=[Fraction(t.scale).numerator, Fraction(t.scale).denominator], yes=bool(t))
            return
        f = Fraction(*q["f"])
        if o == "apply":
            def one():
                d, s = t.transform(v, f)
                return dict(bits=bits(d), scale=[Fraction(s).numerator, Fraction(s).denominator])
            yield one
            if f == 1:
                def one1():
                    d, s = t.transform(v)
                    return dict(bits=bits(d), scale=[Fraction(s).numerator, Fraction(s).denominator])
                yield one1
        else:
            def one():
                r = Fraction(t.length(v, f))
                return dict(frac=[r.numerator, r.denominator])
            yield one
            if f == 1:
                def one1():
                    r = Fraction(t.length(v))
                    return dict(frac=[r.numerator, r.denominator])
                yield one1


EXPECT = {"str": "IndexError", "from": "ValueError"}


def real(fn, o):
    r, err = core.guarded(fn)
    if err:
        return dict(err="error" if err.startswith(EXPECT.get(o, "-") + ":") else err)
    return r


def replay(cases):
    bad = []
    for c in cases:
        q, want = c["q"], c["want"]
        if "bits" in want:
            want = dict(want, bits=sorted(want["bits"]))
        got, err = core.guarded(lambda: list(answers(q)))
        if err:
            bad.append((q["o"], dict(q=q, want=want, real=err)))
            continue
        # answers() yields closures over loop variables: evaluate while iterating
        for fn in answers(q):
            r = real(fn, q["o"])
            if r != want:
                bad.append((q["o"], dict(q=q, want=want, real=r)))
                break
    return bad


def randq(rng):
    o = rng.choice(["dur", "log", "shift", "str", "writable", "add", "apply", "length", "from"])
    q = dict(o=o, s=[], l=0, d=0, t=[], f=[1, 1])
    T = lambda: dict(log=rng.randrange(-6, 7), dots=rng.randrange(-6, 7), scale=rscale())

    def rscale():
        f = Fraction(rng.randrange(1, 12), rng.randrange(1, 12))
        return [f.numerator, f.denominator]
    if o == "dur":
        q.update(l=rng.randrange(-30, 40), d=rng.randrange(0, 40))
    elif o == "from":
        q.update(l=rng.randrange(-3, 21), d=rng.randrange(0, 40))
    elif o in ("log", "str", "writable"):
        k = rng.randrange(4)
        if k == 0:
            f = Fraction(rng.randrange(1, 2000), rng.randrange(1, 2000))
            x = f.numerator * (1 << 80) // f.denominator     # leading binary digits
            q["s"] = sorted(80 - i for i in range(x.bit_length()) if x >> i & 1)[:40]
        else:
            lo = rng.randrange(-5, 20)
            q["s"] = list(range(lo, lo + rng.randrange(1, 40)))
            if k == 1:
                hi = q["s"][-1] + 2
                q["s"] += sorted({hi + rng.randrange(8) for _ in range(rng.randrange(4))})
        if len(q["s"]) > 45:
            q["s"] = q["s"][:45]
    elif o == "shift":
        lo = rng.randrange(-5, 20)
        q.update(s=list(range(lo, lo + rng.randrange(1, 40))), l=rng.randrange(-20, 20), d=rng.randrange(-40, 40))
    else:
        small = o == "length"
        lo = rng.randrange(-3, 5 if small else 12)
        q["s"] = list(range(lo, lo + rng.randrange(1, 4 if small else 20)))
        q["t"] = [T() for _ in range(rng.randrange(1, 3 if small else 4))]
        if small:
            for t in q["t"]:
                t["dots"] = max(-2, min(1, t["dots"]))
                t["log"] = max(-2, min(2, t["log"]))
        q["f"] = rscale()
    return q


def run(rep):
    k = dict(Lo=9, Hi=16, MaxDots=10, W=7) if rep.thorough else dict(Lo=6, Hi=12, MaxDots=6, W=5)
    r = core.run_tlc("DurationMC", "SPECIFICATION Spec\nCONSTANTS\n%s\nCHECK_DEADLOCK FALSE\n"
                     "INVARIANTS ShiftInverts ShiftComposes SplitJoins TruncSmaller AddComposes Emit\n"
                     % "\n".join("%s = %d" % x for x in k.items()), workers=8, heap="6g")
    rep.add_tlc("DurationMC", r)
    rep.traces += len(r.lines)
    rep.log("model: %d queries" % len(r.lines))
    rep.sample(r.lines[len(r.lines) // 2])
    for o, case in core.pmap_chunks(replay, r.lines):
        rep.violation("duration:" + o, "duration:" + o, case)
    rep.exhaustive = True
    lines = []
    for _ in range(60000 if rep.thorough else 8000):
        q = randq(rep.rng)
        for fn in answers(q):
            lines.append(dict(q=q, res=real(fn, q["o"])))
    verdicts, st = core.judge("DurationTrace", lines)
    rep.add_judge("DurationTrace", st)
    rep.sample(lines[0])
    rep.violations_from(verdicts, lambda line, c: "trace:" + c)
    rep.assumptions.append("up to 45 dots (beyond, a float cannot hold the value)")
