"""P24: the structure that is read from music (spec: Reader)."""
import re
import json
import os
import random

from quickly.dom import read

from . import core
from .p23 import document, nodes

FOCUS = 20     # see spec/ReaderMC.tla
MODES = {"ChordMode": (20, 21), "DrumMode": (22,), "LyricMode": (23, 24, 25), "FigureMode": (26,), "{": (27, 28)}
SPEC = os.path.join(core.SPEC, "Reader.tla")


def tokens():
    """The tokens of the specification, by group."""
    text = open(SPEC).read()

    def group(name):
        m = re.search(r"^%s == (?:[^{\n]*)(\{(?:[^\"}]|\"(?:[^\"\\]|\\.)*\")*\})" % name, text, re.M | re.S).group(1)
        return [json.loads('"%s"' % x) for x in re.findall(r'"((?:[^"\\]|\\.)*)"', m)]
    return {n: [t for t in group(n) if t != "lyric --"] for n in ("Opens", "Closes", "Pitched", "Music", "Durs", "Posts", "Events", "Comments", "Plain", "Others",
                                   "DrumMusic", "FigureMusic", "LyricMusic", "StepMods", "BassMods")}


def record(docs):
    res = []
    for i, doc in docs:
        text = " ".join(doc)
        if i % 4 == 0:      # reading via a document
            t, err = core.guarded(lambda: document(text).get_transform(True))
        else:
            t, err = core.guarded(read.lily_document, text)
        if not err:
            t, err = core.guarded(lambda: nodes(t)[0])
        res.append(dict(doc=list(doc), err=err or "", flat=[x[:3] for x in t or []]))
    return res


def sequences(rng, n):
    """Longer random documents."""
    g = tokens()
    modal = {"chord": g["StepMods"] + g["BassMods"] + g["Pitched"], "drum": g["DrumMusic"], "figure": g["FigureMusic"], "lyric": g["LyricMusic"] + ["--"]}
    special = {t for x in modal.values() for t in x} - set(g["Pitched"]) - {"--"}
    everything = sorted({t for x in g.values() for t in x} - set(g["Opens"] + g["Closes"]) - special)
    common = g["Pitched"] * 2 + g["Music"] + g["Durs"] * 3 + g["Posts"] + g["Comments"] * 3 + g["Others"]
    plain = [t for t in everything if t not in g["Pitched"] + ["<c e>", "q"]]
    def in_mode(mode):
        """Return common and other tokens for a mode."""
        if mode == "note":
            return common, everything
        if mode == "lyric":
            t = modal[mode] * 2 + g["Durs"] * 3 + g["Comments"] * 3 + ['"z"', "\\markup \"m\"", "#'y", "\\foo", "\\p"]
            return t, t + ["\\set foo.bar =", "\\repeat volta 2", "\\grace", "\\new Staff", "\\times 2/3", "\\skip"]
        t = modal[mode] * 3 + g["Durs"] * 6 + [x for x in g["Posts"] if x not in (":32", "^\"x\"")] + g["Comments"] * 6
        return t, plain + modal[mode] * 3
    res = []
    for _ in range(n):
        def block(depth, mode):
            doc = []
            often, other = in_mode(mode)
            for _ in range(rng.randrange(0, 7)):
                r = rng.random()
                if r < .15 and depth < 4:
                    o = rng.choice(["{", "{", "<<", "\\with {"] if rng.random() < .75 else g["Opens"])
                    doc += [o] + block(depth + 1, inner(o, mode)) + [">>" if o == "<<" else "}"]
                elif r < .6:
                    doc.append(rng.choice(often))
                else:
                    doc.append(rng.choice(other))
            return doc
        def inner(o, mode):
            m = o[1:].split("mode")
            return "note" if o.startswith("\\") and m[0] not in modal else m[0] if m[0] in modal else mode
        o = rng.choice(["", "", "{", "{", "{", "\\score {"] + g["Opens"][4:])
        doc = block(0, inner(o, "note"))
        if o:
            doc = [o] + doc + ["}"]
        if rng.random() < .1 and doc:
            del doc[rng.randrange(len(doc))]
        res.append(doc)
    return res


def run(rep):
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nAround = \"%s\"\nPart = %d\nParts = %d\nWhich = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Lossless Emit\n"
    docs = []
    jobs = [(2, "", 0, 1, 0), (2, "{", 0, 1, 0)]
    if rep.thorough:
        jobs.append((3, "{", rep.seed % 5, 5, 0))
        jobs += [(3 if mode == "LyricMode" else 2, mode, 0, 1, 0) for mode in MODES]
        jobs += [(5, mode, 0, 1, which + 1) for mode, sets in MODES.items() for which in sets]
        jobs += [(5, around, 0, 1, which + 1) for which in range(FOCUS) for around in ("", "{")]
    else:
        jobs.append((3, "{", rep.seed % 80, 80, 0))
        jobs += [(2, mode, 0, 1, 0) for mode in MODES if mode != "{"]
        jobs += [(4, mode, 0, 1, which + 1) for mode, sets in MODES.items() for which in sets]
        jobs += [(5 if which % 4 == rep.seed % 4 else 4, "{" if (which + rep.seed) % 3 else "", 0, 1, which + 1) for which in range(FOCUS)]
    for length, around, part, parts, which in jobs:
        r = core.run_tlc("ReaderMC", cfg % (length, around, part, parts, which), workers=8, heap="8g")
        rep.add_tlc("ReaderMC-%d%s-%d" % (length, around, which), r)
        docs += [c["doc"] for c in r.lines]
    rep.exhaustive = True
    rep.log("%d documents of the model" % len(docs))
    docs += sequences(rep.rng, 200000 if rep.thorough else 15000)
    lines = core.pmap_chunks(record, list(enumerate(docs)))
    rep.log("%d read" % len(lines))
    rep.sample(lines[-1])
    verdicts, st = core.judge("ReaderTrace", lines)
    rep.add_judge("ReaderTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s" % (c, line["err"][:60]))
