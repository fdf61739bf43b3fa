"""P15: the time music takes (spec: MusicTime)."""
import concurrent.futures
from fractions import Fraction
import random

import parce
from quickly import find
from quickly.dom import base, lily
from quickly.time import Time

from . import core

ALPHABETS = 11      # see spec/MusicTimeMC.tla


def rat(v):
    v = Fraction(v)
    return [v.numerator, v.denominator]


def S(k, t, d=(), a=(), n=""):
    return dict(k=k, t=t, d=list(d), a=list(a), n=n)


# ------------------------------------------------------------ longer documents

DURATIONS = [("4", (2, 0)), ("8", (3, 0)), ("2", (1, 0)), ("1", (0, 0)), ("16", (4, 0)), ("8.", (3, 1)), ("4..", (2, 2)), ("\\breve", (-1, 0)), ("2.", (1, 1)), ("32", (5, 0))]
SCALINGS = [("", (1, 1)), ("", (1, 1)), ("", (1, 1)), ("*2", (2, 1)), ("*2/3", (2, 3)), ("*1/2", (1, 2)), ("*3", (3, 1)), ("*3/2*2", (3, 1))]


MODES = {"figure": ["<6>", "<5 3>", "<_>", "<6 4+>", "<7- [5]>", "r", "s"], "drum": ["bd", "sn", "hh", "<sn hh>", "<bd>", "r", "s"], "chord": ["c", "d", "<c e>", "r", "s"],
         "lyric": ["la", "lo", "\"x\"", "_", "a~b", "\\markup \\bold x ", "la,"]}


class Maker:
    def __init__(self, rng):
        self.rng = rng
        self.out = []
        self.names = rng.sample(["foo", "baz", "musicOne", "partB"], 3)
        self.scales = 0
        self.mode = ""

    def duration(self):
        t, d = self.rng.choice(DURATIONS)
        s, q = self.rng.choice(SCALINGS)
        return t + s, d + q

    def note(self):
        r = self.rng
        if self.mode:
            if self.mode == "lyric" and r.random() < .1:
                return self.out.append(S("com", r.choice(["--", "__"])))
            t = r.choice(MODES[self.mode])
            mod = r.choice(["", ":m", ":maj7", ":7/g", "/+b"]) if self.mode == "chord" and t[0] in "cd" else ""
            w, d = self.duration() if r.random() < .5 else ("", ())
            if w and self.mode != "lyric" and r.random() < .1:
                return self.out.append(S("skip", "\\skip " + w, d))
            return self.out.append(S("note", t + w + mod, d))
        k, t = r.choice([("note", "c"), ("note", "c"), ("note", "d'"), ("note", "ees,"), ("note", "r"), ("note", "R"), ("note", "s"), ("note", "q"),
                         ("note", "<c e>"), ("note", "<c e g>"), ("empty", "<>"), ("skip", "\\skip "), ("note", "")])
        post = r.choice(["", "", "", "", "-.", "(", "\\f", "^\\markup x", "~"])
        if t == "" and self.out[-1]["k"] not in ("open", "close"):
            t = "e"
        if k == "skip" or t == "" or r.random() < .5:
            w, d = self.duration()
            if t == "":
                k = "note"
            self.out.append(S(k, t + w + post, d))
        else:
            self.out.append(S(k, t + post))

    def zero(self):
        r = self.rng
        self.out.append(S("zero", r.choice(["\\time 3/4", "\\key d \\major", "\\clef \"treble\"", "|", "\\partial 8", "\\tempo 4 = 60", "\\break", "\\set Staff.foo = #4",
                                            "\\ottava #1", "\\override Foo.bar = #2", "\\bar \"|\"", "\\transposition c'", "\\mark 1"])))

    def items(self, depth):
        n = self.rng.choice([0, 1, 2, 3, 3, 4, 5])
        for _ in range(n):
            x = self.rng.random()
            if x < .5 or depth <= 0:
                self.note()
            elif x < .6 and not self.mode:
                self.zero()
            elif x < .7:
                self.ref()
            elif x < .75:
                self.comment()
            else:
                self.expr(depth - 1)

    def comment(self):
        self.out.append(S("com", self.rng.choice(["%{ x %}", "%{y%}", "% z\n"])))

    def ref(self):
        n = self.rng.choice(self.names)
        self.out.append(S("ref", "\\" + n, n=n))

    def list(self, depth):
        t, c = self.rng.choice([("{", "}"), ("{", "}"), ("<<", ">>"), ("\\simultaneous {", "}"), ("\\sequential {", "}")])
        self.out.append(S("open", t))
        self.items(depth)
        self.out.append(S("close", c))

    def arg(self, depth, note=True):
        x = self.rng.random()
        if self.rng.random() < .05:
            self.comment()
        if self.mode:
            return self.list(depth - 1)
        if x < .15 and note:
            self.out.append(S("note", self.rng.choice(["c", "d", "<c e>"])))
        elif x < .25:
            self.ref()
        elif x < .4:
            self.expr(depth - 1)
        else:
            self.list(depth - 1)

    def expr(self, depth):
        r = self.rng
        if depth <= 0:
            return self.list(0)
        x = r.random()
        if self.mode:
            if x < .2:
                self.out.append(S("scale", "\\tuplet 3/2", a=(2, 3)))
            elif x < .3 and self.mode != "lyric":
                self.out.append(S("grace", "\\grace"))
            elif x < .4:
                self.out.append(S("one", "\\unfoldRepeats"))
            return self.list(depth)
        if x > .9:
            self.mode = r.choice(sorted(MODES))
            self.out.append(S("one", r.choice({"figure": ["\\figuremode", "\\figures"], "drum": ["\\drummode", "\\drums"], "chord": ["\\chordmode", "\\chords"],
                                               "lyric": ["\\lyricmode", "\\lyrics"]}[self.mode])))
            t, c = r.choice([("{", "}"), ("{", "}"), ("<<", ">>")])
            self.out.append(S("open", t))
            self.items(depth - 1)
            self.out.append(S("close", c))
            self.mode = ""
            return
        x /= .9
        if x < .3:
            self.list(depth)
        elif x < .45 and self.scales < 4:
            self.scales += 1
            t, a = r.choice([("\\tuplet 3/2", (2, 3)), ("\\tuplet 3/2 4", (2, 3)), ("\\times 2/3", (2, 3)), ("\\scaleDurations 3/2", (3, 2)), ("\\scaleDurations 1/2", (1, 2)),
                             ("\\scaleDurations 2", (2, 1)), ("\\tuplet 5/4", (4, 5)), ("\\times 4/5", (4, 5)), ("\\scaleDurations #2", (2, 1))])
            self.out.append(S("scale", t, a=a))
            self.arg(depth, note="scale" not in t and t[-1] not in "4")
        elif x < .53:
            a = (r.choice([-1, 0, 1, 2]), r.choice([-1, 0, 1]))
            self.out.append(S("shift", "\\shiftDurations #%d #%d" % a, a=a))
            self.arg(depth)
        elif x < .6:
            self.out.append(S("grace", r.choice(["\\grace", "\\acciaccatura", "\\appoggiatura", "\\slashedGrace"][:3])))
            self.arg(depth)
        elif x < .65:
            self.out.append(S("after", r.choice(["\\afterGrace", "\\afterGrace 3/4"])))
            self.arg(depth)
            self.arg(depth)
        elif x < .72:
            self.out.append(S("repeat", r.choice(["\\repeat volta 2", "\\repeat unfold 3"])))
            self.list(depth - 1)
            self.out.append(S("one", "\\alternative"))
            self.out.append(S("open", "{"))
            for _ in range(r.choice([1, 2])):
                self.out.append(S("open", "{"))
                self.items(depth - 1)
                self.out.append(S("close", "}"))
            self.out.append(S("close", "}"))
        elif x < .76:
            self.out.append(S("both", "\\partcombine"))
            self.list(depth - 1)
            self.list(depth - 1)
        elif x < .8:
            self.out.append(S("one", "\\skip"))
            self.list(depth - 1)
        else:
            self.out.append(S("one", r.choice(["\\new Staff", "\\context Voice = \"x\"", "\\relative c'", "\\transpose c d", "\\fixed c'", "\\repeat tremolo 2",
                                               "\\repeat volta 2", "\\unfoldRepeats", "\\new Staff \\with { xy = 2 }", "\\tag #'a", "\\keepWithTag #'a", "\\tag #'a", "\\keepWithTag #'a", "\\removeWithTag #'a"])))
            if self.out[-1]["t"].startswith("\\tag"):
                self.list(depth - 1)    # other things may be taken for post events
            else:
                self.arg(depth, note=False)

    def document(self):
        r = self.rng
        for _ in range(r.choice([1, 1, 2, 3])):
            if r.random() < .45:
                n = r.choice(self.names)
                self.out.append(S("assign", n + " =", n=n))
            if self.out and self.out[-1]["k"] == "assign" and r.random() < .3:
                self.arg(3, note=False)
            else:
                self.expr(3)
        return self.out


# ---------------------------------------------------------------- performing

def arity(k):
    return {"one": 1, "scale": 1, "shift": 1, "grace": 1, "assign": 1, "both": 2, "repeat": 2, "after": 2}.get(k, 0)


def nodes(doc):
    """The symbol numbers of the nodes (those that do not close and are no comments)."""
    return [i for i, s in enumerate(doc) if s["k"] not in ("close", "com")]


def perform(rng, doc):
    text = ""
    starts, ends = [], []
    for i, s in enumerate(doc):
        if text:
            text += rng.choice([" ", " ", " ", "\n", "\n  "])
        starts.append(len(text))
        text += s["t"]
        ends.append(len(text))
    trailer = len(text)
    if rng.random() < .3:
        text += rng.choice(["\n\\header { title = \"x\" }", "\n\\header { }", " \"x\"", "\n\\layout { }\n"])
    at = nodes(doc)
    d = parce.Document(find("lilypond"), text, transformer=True)
    event = dict(text=text, doc=doc, queries=[], err="")
    queries = event["queries"]

    def observe():
        m = d.get_transform(True)
        first = {}
        for n in m.descendants():
            if isinstance(n, (lily.Music, lily.Reference)) and n.pos not in first:
                first[n.pos] = n
        real = [j for j in range(len(at)) if doc[at[j]]["k"] not in ("assign", "zero")]
        elements = {j: first.get(starts[at[j]]) for j in real}
        if None in elements.values():
            raise ValueError("no element for symbol %d" % min(at[j] for j in elements if elements[j] is None))
        number = {id(n): j + 1 for j, n in elements.items()}

        def result(q, i, j, r):
            if r is None:
                queries.append(dict(q=q, i=i, j=j, top=0, v=[]))
            else:
                queries.append(dict(q=q, i=i, j=j, top=number.get(id(r.node), -1), v=rat(r.time)))

        t = Time()
        order = list(real)
        if rng.random() < .5:
            rng.shuffle(order)
        for j in order:
            queries.append(dict(q="len", i=j + 1, j=0, top=0, v=rat(t.length(elements[j]))))
            result("pos", j + 1, 0, t.position(elements[j]))
            if rng.random() < .5:
                result("posend", j + 1, 0, t.position(elements[j], True))
        for _ in range(min(12, len(real) ** 2)):
            i, j = rng.choice(real), rng.choice(real)
            result("dur", i + 1, j + 1, t.duration(elements[i], elements[j]))
        # other children of music, such as fractions and durations
        inside = [(j, n) for j in real for n in elements[j]
                  if not isinstance(n, (lily.Music, lily.Reference, lily.MusicList, base.Comment))
                  and doc[at[j]]["k"] not in ("open", "ref")]
        for j, n in rng.sample(inside, min(6, len(inside))):
            result("dpos", j + 1, 0, t.position(n))
            o = rng.choice(real)
            result("ddur", j + 1, o + 1, t.duration(n, elements[o]))
            result("dend", o + 1, j + 1, t.duration(elements[o], n))
            if n.pos is not None and n.end > n.pos:
                result("dpos", j + 1, 0, t.cursor_position(parce.Cursor(d, n.pos)))
        # durables without anything they could belong to
        single = [j for j in real if doc[at[j]]["k"] in ("note", "skip")]
        for _ in range(min(8, len(single) ** 2)):
            i, j = rng.choice(single), rng.choice(single)
            result("cpos", i + 1, 0, t.cursor_position(parce.Cursor(d, starts[at[i]])))
            a, b = starts[at[i]], ends[at[j]]
            if a < b:
                result("cdur", i + 1, j + 1, t.cursor_duration(parce.Cursor(d, a, b)))
            if trailer < len(text):
                # the selection ends in something else than music
                result("cdur", 0, 0, t.cursor_duration(parce.Cursor(d, a, len(text))))
                result("cdur", 0, 0, t.cursor_duration(parce.Cursor(d, trailer, len(text))))
        result("cpos", 0, 0, t.cursor_position(parce.Cursor(d, len(text))))

    _, err = core.guarded(observe)
    event["err"] = err or ""
    return event


def play(jobs):
    return [perform(random.Random(seed), doc) for seed, doc in jobs]


def longer(jobs):
    res = []
    for seed in jobs:
        rng = random.Random(seed)
        while True:
            doc = Maker(rng).document()
            if len(nodes(doc)) <= 40:
                break
        res.append(perform(rng, doc))
    return res


def run(rep):
    cases = []
    def model(n):
        length = 6 if rep.thorough else 5
        return core.run_tlc("MusicTimeMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nWhich = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Consecutive Within Additive Uniform Emit\n" % (length, n), workers=2, heap="3g")
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        results = list(pool.map(model, range(1, ALPHABETS + 1)))
    for n, r in enumerate(results, 1):
        rep.add_tlc("MusicTimeMC-%d" % n, r)
        cases += [c["doc"] for c in r.lines]
    rep.exhaustive = True
    rep.log("%d documents of the model" % len(cases))
    if not rep.thorough and len(cases) > 2500:
        cases = rep.rng.sample(cases, 2500)
    lines = core.pmap_chunks(play, [(rep.rng.randrange(1 << 40), c) for c in cases])
    lines += core.pmap_chunks(longer, [rep.rng.randrange(1 << 40) for _ in range(20000 if rep.thorough else 3000)])
    rep.log("%d documents, %d questions" % (len(lines), sum(len(x["queries"]) for x in lines)))
    rep.sample(lines[-1]["text"])
    verdicts, st = core.judge("MusicTimeTrace", lines)
    rep.add_judge("MusicTimeTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s" % (c, line["err"][:60]))
