"""P18: number naming (spec: Numbering)."""
import re
import string

from . import core
from quickly import numbering as N

CHARS = {26: string.ascii_uppercase, 2: "xy", 1: "i", 3: "\u03b1\u03b2\u03b3", 10: "0123456789"}


def words(text):
    return re.findall("[A-Z][a-z]*", text) if re.fullmatch("([A-Z][a-z]*)+", text) else [text]


def record(n, kind, base=26):
    e = dict(n=n, kind=kind, base=base)
    if kind == "roman":
        out, err = core.guarded(N.int2roman, n)
        e["out"] = list(out) if not err else [err]
        back, err = core.guarded(N.roman2int, out or "")
    elif kind == "words":
        out, err = core.guarded(N.int2text, n)
        e["out"] = words(out) if not err else [err]
        back, err = core.guarded(N.text2int, out or "")
    else:
        ch = CHARS[base]
        a = (ch,) if base != 26 else ()
        out, err = core.guarded(N.int2letter, n, *a)
        e["out"] = [ch.find(c) for c in out] if not err else [-99]
        back, err2 = core.guarded(N.letter2int, out or "", *a)
        err = err or err2
    e["back"] = back if not err and isinstance(back, int) else -1
    return e


def replay(cases):
    bad = []
    for c in cases:
        n = c["n"]
        e = record(n, "letters", c["base"])
        if e["out"] != c["letters"]:
            bad.append(("letters", dict(e, want=c["letters"])))
        if e["back"] != n:
            bad.append(("letters-back", e))
        if c["base"] != 26:
            continue
        for kind in ("roman", "words"):
            if kind == "roman" and n < 1:
                continue
            e = record(n, kind)
            if e["out"] != c[kind]:
                bad.append((kind, dict(e, want=c[kind])))
            if e["back"] != n:
                bad.append((kind + "-back", e))
            # reading does not depend on case
            if kind == "roman":
                if N.roman2int("".join(c["roman"]).lower()) != n:
                    bad.append(("roman-lower", e))
            else:
                t = "".join(c["words"])
                for x in (t.lower(), "violin" + t):
                    r, err = core.guarded(N.text2int, x)
                    if r != n:
                        bad.append(("words-read", dict(text=x, want=n, real=r, err=err)))
    return bad


def rejects():
    """Inputs that are no number (documented errors and zero values)."""
    for n in (0, -1, -1000):
        yield "int2roman(%d)" % n, lambda n=n: N.int2roman(n), "ValueError"
    for s in ("IIIA", "1", "X X", "\u00e9"):
        yield "roman2int(%r)" % s, lambda s=s: N.roman2int(s), "KeyError"
    for s in ("A1", "ab", "\u00c4", "A B"):
        yield "letter2int(%r)" % s, lambda s=s: N.letter2int(s), "ValueError"
    for s in ("", "x", "violin", "123", "---"):
        yield "text2int(%r)" % s, lambda s=s: N.text2int(s), 0
    yield "int2letter(0)", lambda: N.int2letter(0), ""
    yield "letter2int('')", lambda: N.letter2int(""), 0


def run(rep):
    mx = 120000 if rep.thorough else 12000
    r = core.run_tlc("NumberingMC", "SPECIFICATION Spec\nCONSTANTS Max = %d Bases = {26, 2, 3, 10}\nCHECK_DEADLOCK FALSE\n"
                     "INVARIANTS LetterValue Emit\n" % mx, workers=4, heap="4g")
    rep.add_tlc("NumberingMC", r)
    rep.traces += len(r.lines)
    rep.sample(r.lines[4711])
    seen = {}
    for c in r.lines:
        # in the specification different numbers have different names
        for k in ("roman", "words"):
            key = (k, tuple(c[k]))
            if seen.setdefault(key, c["n"]) != c["n"]:
                raise core.MachineryError("specification is not injective: %r" % (key,))
    for clause, case in core.pmap_chunks(replay, r.lines):
        rep.violation(clause, clause, case)
    rep.exhaustive = True
    lines = []
    for _ in range(20000 if rep.thorough else 4000):
        e = rep.rng.randrange(1, 10)
        n = rep.rng.randrange(10 ** (e - 1), 10 ** e)
        if rep.rng.random() < .3:
            n = n // 10 ** rep.rng.randrange(e) * 10 ** rep.rng.randrange(e)
        n = max(1, min(n, 999999999))
        lines.append(record(n, "words"))
        lines.append(record(n, "letters", rep.rng.choice([26, 26, 2, 3, 10])))
        if n < 100000:
            lines.append(record(n, "roman"))
    for n in (999999999, 1000000, 100000000, 1000001, 999000999, 20000020):
        lines += [record(n, "words"), record(n, "letters")]
    verdicts, st = core.judge("NumberingTrace", lines)
    rep.add_judge("NumberingTrace", st)
    rep.violations_from(verdicts, lambda line, c: "trace:" + c)
    for what, fn, want in rejects():
        v, err = core.guarded(fn)
        got = err.split(":")[0] if err else v
        if got != want:
            rep.violation("reject", "documented rejection", dict(call=what, want=want, real=err or v))
