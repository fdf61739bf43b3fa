"""Pieces of music as tokens (spec: Sounding): written and read, independent of the code under test.

Only for the kind of text the harness itself generates.

"""
import re

NOCHECK = 99
STEPS = "cdefgab"
ALTERS = {
    "nederlands": {0: [""], 1: ["ih"], 2: ["is"], 3: ["isih"], 4: ["isis"], -1: ["eh"], -2: ["es"], -3: ["eseh"], -4: ["eses"]},
    "english": {0: [""], 1: ["qs"], 2: ["s", "-sharp"], 3: ["tqs"], 4: ["ss", "x", "-sharpsharp"], -1: ["qf"], -2: ["f", "-flat"], -3: ["tqf"], -4: ["ff", "-flatflat"]},
}
NAMES = {}
for lang, alters in ALTERS.items():
    NAMES[lang] = {}
    for n, s in enumerate(STEPS):
        for a, suffixes in alters.items():
            for x in suffixes:
                NAMES[lang][s + x] = (n, a)
NAMES["nederlands"].update({"es": (2, -2), "eses": (2, -4), "as": (5, -2), "ases": (5, -4)})
REVERSE = {lang: {} for lang in NAMES}
for lang in NAMES:
    for name, p in NAMES[lang].items():
        REVERSE[lang].setdefault(p, []).append(name)


def tok(k, m="", t="", p=(), c=NOCHECK):
    return dict(k=k, m=m, t=t, p=[list(x) for x in p], c=c)


def octave(o):
    return "'" * o if o > 0 else "," * -o


class Writer:
    """Renders tokens to text; pos has the position of every token."""

    def __init__(self, tokens, rng, comments=True):
        self.rng, self.text, self.lang, self.pos = rng, "", "nederlands", []
        self.comments = comments
        for t in tokens:
            getattr(self, k)(t) if hasattr(self, k := "w_" + t["k"]) else self.put(t["t"])

    def space(self):
        r = self.rng.random()
        self.text += " " if r < .8 or not self.comments else "\n" if r < .9 else " %{x%} " if r < .95 else " % c' d\n"

    def put(self, s, comment=True):
        """Add a token (a comment in the music is no token)."""
        self.pos.append((len(self.text), len(self.text) + len(s)))
        self.text += s
        if s:
            self.text += self.rng.choice([" ", " ", "\n"])
            if comment and self.comments and self.rng.random() < .03:
                self.text += self.rng.choice(["%{ c' d %} ", "% \\relative {\n"])

    def glue(self):
        """No space before the next token (but after a comment)."""
        s = self.text.rstrip(" \n")
        if not s.endswith("%}") and "%" not in s.rsplit("\n", 1)[-1].replace("%{", "").replace("%}", ""):
            self.text = s

    def pitch(self, p):
        return self.rng.choice(REVERSE[self.lang][p[0], p[1]]) + octave(p[2])

    def w_note(self, t):
        c = t["c"]
        s = self.pitch(t["p"][0]) + t["t"] + ("" if c == NOCHECK else "=" + octave(c))
        self.put(s)

    def w_in(self, t):
        if t["m"] == "rel":
            self.put("\\relative" + "".join(" " + self.pitch(p) for p in t["p"]))
        elif t["m"] == "seq":
            self.put(t["t"] or self.rng.choice(["{", "{", "{", "<<"]))
        elif t["m"] in ("fix", "trans"):
            self.put({"fix": "\\fixed", "trans": "\\transpose"}[t["m"]] + "".join(" " + self.pitch(p) for p in t["p"]))
        else:
            self.put({"abs": "\\absolute", "chords": "\\chordmode", "new": "^\\markup \\score"}[t["m"]], t["m"] != "new")

    def w_out(self, t):
        self.put(t["t"])

    def w_chord(self, t):
        self.put("<")

    def w_end(self, t):
        self.put(">")

    def w_check(self, t):
        self.put("\\octaveCheck " + self.pitch(t["p"][0]))

    def w_arg(self, t):
        m = t["m"]
        if m == "tuning":
            self.put("\\stringTuning <" + " ".join(map(self.pitch, t["p"])) + ">")
        elif m == "inv":
            self.glue()
            self.put(t["t"] + self.pitch(t["p"][0]))
        else:
            self.put({"key": "\\key", "transposition": "\\transposition"}[m] + " " + self.pitch(t["p"][0]))

    def w_text(self, t):
        if t["t"].startswith("\\language"):
            self.lang = t["t"].split('"')[1]
        if re.match(r"[\d:]", t["t"]):
            self.glue()
        self.put(t["t"])


def closed(tokens):
    """Give the ends of the music their text."""
    stack, res = [], []
    for t in tokens:
        t = dict(t)
        if t["k"] == "in":
            if t["m"] == "seq" and not t["t"]:
                t["t"] = "{"
            stack.append(t)
        elif t["k"] == "out":
            i = stack.pop()
            t["t"] = {"{": "}", "<<": ">>"}[i["t"]] if i["m"] == "seq" else ""
        res.append(t)
    return res


REGEX = re.compile(r"""
    (?P<com>%\{.*?%\}|%[^\n]*) |
    (?P<str>"(?:[^"\\]|\\.)*") |
    (?P<head>\\(?:relative|absolute|fixed|transpose|chordmode)(?![a-zA-Z])|\^\\markup\s*\\score) |
    (?P<argc>\\(?:key|transposition|octaveCheck|stringTuning)(?![a-zA-Z])) |
    (?P<lang>\\language\s*"[a-z]+") |
    (?P<pre>\\(?:new|context)\s+[A-Z]\w*|\\repeat\s+[a-z]+\s+\d+|\\tuplet\s+\d+/\d+|\\(?:grace|alternative)(?![a-zA-Z])|=\s*"[^"]*"|\w+\s=) |
    (?P<opt>\\(?:time\s+\d+/\d+|clef\s+[a-z]+|version\s+"[^"]*")) |
    (?P<cmd>\\(?:[a-zA-Z]+|[()<>!\[\]])) |
    (?P<open>\{|<<) | (?P<close>\}|>>) | (?P<chord><) | (?P<end>>) |
    (?P<inv>/\+?) | (?P<qual>:[a-z]*\d*) |
    (?P<dur>\d+\.*(?:\*\d+(?:/\d+)?)?) |
    (?P<word>[a-z]+(?:-(?:sharp|flat)+)?)(?P<oct>'+|,+|)(?P<acc>[!?]|)(?P<chk>=(?:'+|,+|)|) |
    (?P<art>[-^_](?:[.>^_!+-]|"[^"]*")?) |
    (?P<sym>\S)
""", re.X | re.S)


class Reader:
    """Reads tokens from text; comments are skipped."""

    def __init__(self, text):
        self.ms = [m for m in REGEX.finditer(text) if not m["com"]]
        self.comments = [m[0] for m in REGEX.finditer(text) if m["com"]]
        self.i, self.lang, self.out, self.pos, self.text = 0, "nederlands", [], [], text
        while self.i < len(self.ms):
            self.music()

    def peek(self, key):
        return self.i < len(self.ms) and self.ms[self.i][key] is not None

    def next(self):
        self.i += 1
        return self.ms[self.i - 1]

    def is_pitch(self, m):
        return m["word"] is not None and m["word"] in NAMES[self.lang]

    def pitch(self, m):
        n, a = NAMES[self.lang][m["word"]]
        return [n, a, len(m["oct"]) * (1 if m["oct"].startswith("'") else -1)]

    def add(self, m, *args, **kw):
        self.out.append(tok(*args, **kw))
        self.pos.append([m.start(), m.end()])

    def extend(self):
        self.pos[-1][1] = self.ms[self.i - 1].end()

    def music(self):
        """One piece of music or another token."""
        m = self.next()
        if m["head"]:
            head = re.sub(r"\s+", " ", m["head"])
            mode = {"\\relative": "rel", "\\absolute": "abs", "\\fixed": "fix", "\\transpose": "trans", "\\chordmode": "chords"}.get(head, "new")
            count = {"fix": 1, "trans": 2}.get(mode, 0)
            if mode == "rel" and self.i < len(self.ms) and self.is_pitch(self.ms[self.i]):
                count = 1
            ps = [self.pitch(self.next()) for _ in range(count)]
            self.add(m, "in", mode, p=ps)
            self.extend()
            while self.peek("pre") or self.peek("str"):
                self.text_token()
            self.music()
            self.add(self.ms[self.i - 1], "out")
            self.pos[-1][0] = self.pos[-1][1]
        elif m["argc"]:
            c = m["argc"][1:]
            if c == "stringTuning":
                assert self.next()["chord"]
                ps = []
                while not self.peek("end"):
                    ps.append(self.pitch(self.next()))
                self.next()
                self.add(m, "arg", "tuning", p=ps)
            elif c == "octaveCheck":
                self.add(m, "check", p=[self.pitch(self.next())])
            else:
                self.add(m, "arg", c, p=[self.pitch(self.next())])
            self.extend()
        elif m["open"]:
            self.add(m, "in", "seq", m[0])
            while not self.peek("close"):
                self.music()
            self.add(self.next(), "out", t=self.ms[self.i - 1][0])
        elif m["chord"]:
            self.add(m, "chord")
            while not self.peek("end"):
                self.music()
            self.add(self.next(), "end")
        elif m["inv"] and self.i < len(self.ms) and self.is_pitch(self.ms[self.i]):
            self.add(m, "arg", "inv", m[0], p=[self.pitch(self.next())])
            self.extend()
        elif self.is_pitch(m):
            chk = m["chk"]
            self.add(m, "note", t=m["acc"], p=[self.pitch(m)], c=NOCHECK if not chk else (len(chk) - 1) * (-1 if "," in chk else 1))
        else:
            self.i -= 1
            self.text_token()

    def text_token(self):
        m = self.next()
        t = re.sub(r"\s+", " ", m[0])
        if m["lang"]:
            self.lang = t.split('"')[1]
        self.add(m, "text", t=t)


def read(text):
    r = Reader(text)
    return r


# ----------------------------------------------------------------- generating
class Maker:
    """Random music."""

    def __init__(self, rng, size=14):
        self.rng, self.size, self.out = rng, size, []

    def p(self, octaves=(0, 0, 0, 1, 1, -1, 2)):
        r = self.rng
        a = r.choice([0, 0, 0, 0, 2, -2, 2, -2, 4, -4, 1, -1, 3, -3]) if r.random() < .6 else 0
        return [r.randrange(7), a, r.choice(octaves)]

    def put(self, *a, **k):
        self.out.append(tok(*a, **k))

    def note(self, chords=False):
        r = self.rng
        c = r.choice([-1, 0, 1, 2]) if r.random() < .06 and not chords else NOCHECK
        self.put("note", t=r.choice(["!", "?"]) if r.random() < .06 and not chords else "", p=[self.p()], c=c)

    def after(self, depth, chord=False):
        """Something after a note or chord."""
        r = self.rng
        if r.random() < .4:
            self.put("text", t=r.choice(["4", "8.", "2", "1*2/3"]))
        if r.random() < .15:
            self.put("text", t=r.choice(["(", ")", "\\f", "~", "-.", "[", "]", "^\"c d\""] + ([] if chord else ["\\rest"])))
        if r.random() < .04 and depth < 4:
            self.put("in", "new")
            self.put("in", "seq", "{")
            if r.random() < .5:
                self.single(depth + 2)
            else:
                self.list(depth + 2)
            self.put("out", t="}")
            self.put("out")

    def list(self, depth, chords=False):
        r = self.rng
        o = "{" if chords or r.random() < .85 else "<<"
        self.put("in", "seq", o)
        for _ in range(r.randrange(6) if depth < 4 else r.randrange(1, 3)):
            self.item(depth + 1, chords)
        self.put("out", t="}" if o == "{" else ">>")

    def single(self, depth):
        """One piece of music."""
        r = self.rng
        x = r.random()
        if x < .4 or depth > 4:
            if r.random() < .3:
                self.put("text", t=r.choice(["\\new Voice", "\\repeat volta 2", "\\tuplet 3/2", "\\repeat unfold 3"]))
            self.list(depth)
        elif x < .7:
            self.put("in", "rel", p=[self.p()] if r.random() < .5 else [])
            self.single(depth + 1)
            self.put("out")
        elif x < .76:
            self.put("in", "abs")
            self.single(depth + 1)
            self.put("out")
        elif x < .84:
            self.put("in", "fix", p=[self.p()])
            self.single(depth + 1)
            self.put("out")
        elif x < .93:
            self.put("in", "trans", p=[self.p(), self.p()])
            self.single(depth + 1)
            self.put("out")
        else:
            self.put("in", "chords")
            self.list(depth + 1, True)
            self.put("out")

    def item(self, depth, chords=False):
        r = self.rng
        x = r.random()
        if chords:
            self.note(True)
            if r.random() < .5:
                self.put("text", t=r.choice(["4", "2."]))
            if r.random() < .4:
                self.put("text", t=r.choice([":m7", ":7", ":maj7"]))
            if r.random() < .3:
                self.put("arg", "inv", r.choice(["/", "/", "/+"]), p=[self.p((0,))])
        elif x < .55:
            self.note()
            self.after(depth)
        elif x < .68:
            self.put("chord")
            for _ in range(r.randrange(1, 4)):
                self.note()
            self.put("end")
            self.after(depth, True)
        elif x < .82 and depth < 4:
            self.single(depth)
        elif x < .86:
            self.put("check", p=[self.p()])
        elif x < .9:
            self.put("arg", r.choice(["key", "key", "transposition", "tuning"]), p=[self.p((0,))])
            if self.out[-1]["m"] == "key":
                self.put("text", t=r.choice(["\\major", "\\minor"]))
        elif x < .92:
            self.put("text", t="\\language \"%s\"" % r.choice(["english", "nederlands"]))
        else:
            self.put("text", t=r.choice(["r", "s", "R", "\\time 3/4", "\\clef bass", "q"]))
            if self.out[-1]["t"] in "rsR":
                self.put("text", t="1")


def document(rng, pieces=None):
    """Tokens of a document, and the token ranges of its pieces."""
    m = Maker(rng)
    if rng.random() < .5:
        m.put("text", t="\\version \"%s\"" % rng.choice(["2.18.0", "2.24.1", "2.12.3", "2.18", "2.17.30", "3.0"]))
    parts = []
    for i in range(pieces or rng.randrange(1, 4)):
        if rng.random() < .2:
            m.put("text", t="\\language \"%s\"" % rng.choice(["english", "nederlands"]))
        if rng.random() < .3:
            m.put("text", t="music%s =" % "ABC"[i])
        lo = len(m.out)
        m.single(0)
        parts.append((lo, len(m.out)))
    return m.out, parts
