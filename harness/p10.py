"""P10: pitch names (spec: PitchNames). The tables of names are those of the
parce package (not part of the repository)."""
import json
import os
import random
import unicodedata
from fractions import Fraction

from parce.lang.lilypond_words import pitch_names

from . import core
from quickly import pitch as P
from quickly.dom import lily, read

fold = lambda s: "".join(c for c in unicodedata.normalize("NFKD", s) if c.isascii())
#: folded language id -> language names (of the same table)
LANGS = {}
for _l in pitch_names:
    _k = next((k for k, v in LANGS.items() if pitch_names[v[0]] is pitch_names[_l]), None)
    LANGS.setdefault(_k or fold(_l), []).append(_l)
IDS = {l: k for k, v in LANGS.items() for l in v}
ATTRS = dict(long="prefer_long", x="prefer_x", accented="prefer_accented", classic="prefer_classic",
             doubles="prefer_double_s", deprecated="prefer_deprecated")


def chars(name):
    return ["eacute" if c == "\u00e9" else c for c in name]


def unchars(cs):
    return "".join("\u00e9" if c == "eacute" else c for c in cs)


def al(a):
    f = Fraction(a).limit_denominator(1000) * 20
    return int(f) if f.denominator == 1 else 9999


def tables():
    path = os.path.join(core.scratch(), "tables.ndjson")
    with open(path, "w") as f:
        for k, v in LANGS.items():
            names = [dict(c=chars(n), o=o, s=s, a=al(a)) for n, (o, s, a) in pitch_names[v[0]].items()]
            f.write(json.dumps(dict(lang=k, names=names)) + "\n")
    return path


def proc(lang, p=None):
    pp = P.PitchProcessor(lang)
    for k, v in (p or {}).items():
        if k != "set":
            setattr(pp, ATTRS[k], v)
    return pp


def prefs(rng):
    return {k: rng.random() < .5 for k in ATTRS}


def alform(a, i):
    """The same alteration as number of different types."""
    f = Fraction(a, 20)
    if i % 2 and f.denominator in (1, 2, 4):
        return float(f)
    return int(f) if f.denominator == 1 else f


def replay(cases):
    bad = []
    for c in cases:
        ok = {unchars(n): o for n, o in c["names"]}
        for lang in LANGS[c["lang"]]:
            pp = proc(lang, c["p"])
            for i, octave in enumerate((-3, -1, 0, 2)):
                pit = P.Pitch(octave, c["s"], alform(c["a"], i))
                r, err = core.guarded(pp.name_octave, pit)
                base = dict(lang=lang, pitch=[octave, c["s"], c["a"]], p=c["p"], real=r, err=err, want=ok)
                if not ok:
                    if err is None or not err.startswith("KeyError"):
                        bad.append(("inexpressible", base))
                    continue
                if err or r[0] not in ok:
                    bad.append(("preference", base))
                    continue
                if ok[r[0]] + r[1] != octave:
                    bad.append(("octave", base))
                s, err = core.guarded(pp.to_string, pit)
                marks = "'" * r[1] if r[1] > 0 else "," * -r[1]
                if err or s != r[0] + marks:
                    bad.append(("to_string", dict(base, text=s, err=err)))
                n, err = core.guarded(pp.pitchable, pit)
                if err or n.write() != s:
                    bad.append(("pitchable", dict(base, err=err)))
                else:
                    q, err = core.guarded(pp.read_node, n)
                    if err or q != pit:
                        bad.append(("round-trip", dict(base, read=repr(q), err=err)))
    return bad


def write_event(rng):
    lang = rng.choice(list(pitch_names))
    names = pitch_names[lang]
    p = prefs(rng)
    pp = proc(lang, p)
    src = pitch_names[rng.choice(list(pitch_names))] if rng.random() < .4 else names
    name = rng.choice(list(src))
    marks = rng.randrange(-4, 5)
    res = []
    n = lily.Note(name, octave=marks)
    ctx, err = core.guarded(pp.read_node, n)
    res.append(dict(ev="read", lang=IDS[lang], c=chars(name), marks=marks, err=(err or "").split(":")[0],
                    pit=[ctx.octave, ctx.note, al(ctx.alter)] if ctx else []))
    if rng.random() < .5:
        _, s, a = rng.choice(list(names.values()))
    else:
        s, a = rng.randrange(7), rng.choice([0, .5, -.5, .25, -.75, 1, -1, 1.5, .1])
    if rng.random() < .2 and name in names:
        _, s, a = names[name]
    pit = P.Pitch(rng.randrange(-5, 5), s, alform(al(a), rng.randrange(2)))
    if rng.random() < .5 and name in names:
        def go():
            with pp.process(n) as x:
                x.octave, x.note, x.alter = pit.octave, pit.note, pit.alter
        _, err = core.guarded(go)
    else:
        _, err = core.guarded(pp.write_node, n, pit)
    res.append(dict(ev="write", lang=IDS[lang], c=chars(name), marks=marks, p=p, pit=[pit.octave, pit.note, al(pit.alter)],
                    c2=chars(n.head), marks2=n.octave, err=(err or "").split(":")[0]))
    return res


def distil_event(rng):
    lang = rng.choice([l for l in pitch_names if IDS[l] in ("nederlands", "english", "espanol", "francais", "norsk", "deutsch", "suomi")])
    p = prefs(rng)
    pits = sorted({(s, a) for _, s, a in pitch_names[lang].values()}, key=lambda x: (x[0], float(x[1])))
    pits = rng.sample(pits, rng.randrange(1, 12))
    # names in this style, by the (separately checked) rule of the specification
    names = [style(lang, s, a, p, rng) for s, a in pits]
    pp = P.PitchProcessor(lang)
    if rng.random() < .3:
        pp = proc(lang, p)
    words = list(names)
    if rng.random() < .3:
        pp.language = "nederlands"
        words.insert(0, lang)
    _, err = core.guarded(pp.distill_preferences, iter(words))
    pp.language = lang
    out = []
    for n in names:
        r, err2 = core.guarded(pp.name_octave, P.Pitch(*pitch_names[lang][n]))
        out.append(chars(r[0]) if r else [err or err2])
    return [dict(ev="distil", lang=IDS[lang], names=[chars(n) for n in names], out=out, p=p)]


def style(lang, s, a, p, rng):
    """A name of the pitch in the style p (the names are checked again by the specification)."""
    names = [n for n, (_, s1, a1) in pitch_names[lang].items() if (s1, a1) == (s, a)]

    def pick(names, pred, want):
        return [n for n in names if pred(n) == want] or names
    k = IDS[lang]
    classic = lambda n: "ee" not in n and "ae" not in n
    if k == "nederlands":
        names = pick(names, classic, p["classic"])
    elif k == "norsk":
        names = pick(pick(names, lambda n: "ss" in n, p["doubles"]), classic, p["classic"])
    elif k == "english":
        names = pick(pick(names, lambda n: "-" in n, p["long"]), lambda n: n[-1] == "x", p["x"])
    elif k == "espanol":
        names = pick(names, lambda n: n[-1] == "x", p["x"])
    elif k == "francais":
        names = pick(pick(names, lambda n: "\u00e9" in n, p["accented"]), lambda n: n[-1] == "x", p["x"])
    elif k == "deutsch":
        names = pick(names, lambda n: n in ("eeh", "ases", "aseh", "aeh"), p["deprecated"])
    else:
        names = pick(names, lambda n: n in ("ases", "bb", "heses"), p["deprecated"])
    return rng.choice(names)


def which_event(rng):
    lang = rng.choice(list(pitch_names))
    names = rng.sample(sorted(pitch_names[lang]), rng.randrange(0, 6))
    if rng.random() < .2:
        names.append(rng.choice(["x", "zz", "do", "c"]))
    names += rng.sample(["r", "R", "s", "q"], rng.randrange(3))
    out, err = core.guarded(lambda: list(P.determine_language(iter(names) if rng.random() < .5 else names)))
    return [dict(ev="which", names=[chars(n) for n in names], out=[IDS[x] for x in out] if not err else [err])]


def doc_event(rng):
    """A document with language commands anywhere."""
    cur = start = "nederlands"
    cmds, notes, parts, depth = [], [], [], 0
    for _ in range(rng.randrange(2, 25)):
        k = rng.random()
        if k < .2:
            lang = rng.choice(list(pitch_names) + ["klingon"])
            if rng.random() < .7:
                parts.append('\\language "%s"' % lang)
            else:
                parts.append('\\include "%s.ly"' % lang if rng.random() < .8 else '\\include "music.ily"')
                if "music" in parts[-1]:
                    lang = ""
            if lang == "klingon":
                lang = ""
            cmds.append(IDS.get(lang, ""))
            cur = lang or cur
        elif k < .3 and depth < 4:
            parts.append(rng.choice(["{", "<<", "\\new Staff {", "\\relative {"]))
            depth += 1
            parts.append("S")
        elif k < .4 and depth:
            depth -= 1
            parts.append("E")
        elif depth:
            if rng.random() < .15:
                # an unknown name is no note; keep to the language
                pass
            names = sorted(n for n in pitch_names[cur] if n.isalpha())
            name = rng.choice(names)
            m = rng.randrange(-2, 3)
            parts.append(name + ("'" * m if m > 0 else "," * -m) + rng.choice(["", "4", "8."]))
            notes.append((name, m, len(cmds)))
    # balance
    text, stack = [], []
    for x in parts:
        if x == "S":
            continue
        if x == "E":
            text.append(stack.pop())
            continue
        if x.endswith("{"):
            stack.append("}")
        elif x == "<<":
            stack.append(">>")
        text.append(x)
    while stack:
        text.append(stack.pop())
    return doc_line(" ".join(text), cmds, notes, IDS[start], rng.choice(list(pitch_names)), prefs(rng))


def doc_line(text, cmds, notes, start, to, p):
    def go():
        d = read.lily_document(text)
        real = list(d // lily.Note)
        assert [n.head for n in real] == [n for n, _, _ in notes], "notes of the document"
        res = []
        # what follow_language does with the whole document
        pp = P.PitchProcessor()
        follow = {}
        yielded = []
        kept = []
        for n in d.descendants():
            if isinstance(n, (lily.Language, lily.Include)):
                kept.append(n)
        for n in pp.follow_language(d.descendants()):
            follow[id(n)] = pp.language
            if isinstance(n, (lily.Language, lily.Include)):
                yielded.append(n)
        # language commands that name no known language are ordinary nodes
        expected = [kept.index(n) for n, c in zip(kept, cmds) if not c]
        target = proc(to, p)
        src = P.PitchProcessor()
        todo = {id(n): i for i, n in enumerate(real)}
        out = [None] * len(real)
        for i, n in enumerate(real):
            f = P.PitchProcessor()
            f.find_language(n)
            out[i] = dict(c=chars(n.head), marks=n.octave, n=notes[i][2], found=IDS[f.language], followed=IDS[follow[id(n)]])
        for n in src.follow_language(list(d.descendants())):
            if id(n) in todo:
                i = todo[id(n)]
                pit = src.read_node(n)
                out[i]["pit"] = [pit.octave, pit.note, al(pit.alter)]
                known = any((s, a) == (pit.note, pit.alter) for _, s, a in pitch_names[to].values())
                err = ""
                if known:
                    _, err = core.guarded(target.write_node, n, pit)
                out[i].update(renamed=known, c2=chars(n.head), marks2=n.octave, err=err or "")
        return dict(ev="doc", text=text, cmds=cmds, start=start, to=IDS[to], notes=out,
                    yielded=[kept.index(n) for n in yielded], expected=expected)
    r, err = core.guarded(go)
    if err:
        return [dict(ev="doc", text=text, err=err)]
    return [r]


def events(seeds):
    res = []
    for s in seeds:
        rng = random.Random(s)
        for f in (write_event, write_event, distil_event, which_event, doc_event):
            res += f(rng)
    return res


def run(rep):
    t = tables()
    r = core.run_tlc("PitchNamesMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS NeverEmpty Emit\n", workers=8,
                     heap="6g", env=dict(TABLES=t))
    rep.add_tlc("PitchNamesMC", r)
    rep.traces += len(r.lines)
    rep.log("model: %d cases" % len(r.lines))
    rep.sample(r.lines[1000])
    for clause, case in core.pmap_chunks(replay, r.lines):
        rep.violation(clause, clause, case)
    rep.exhaustive = True
    seeds = [rep.rng.randrange(1 << 40) for _ in range(15000 if rep.thorough else 1500)]
    lines = []
    for e in core.pmap_chunks(events, seeds):
        if e["ev"] == "doc" and "err" in e:
            rep.violation("doc-failure", "failure:document", e)
        else:
            lines.append(e)
    verdicts, st = core.judge("PitchNamesTrace", lines, env=dict(TABLES=t))
    rep.add_judge("PitchNamesTrace", st)
    rep.sample(next(e for e in lines if e["ev"] == "doc"))
    rep.violations_from(verdicts, lambda line, c: "trace:" + c)
    rep.assumptions.append("the tables of names are taken from the parce package, as LilyPond defines them")
