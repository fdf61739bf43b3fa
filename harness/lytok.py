"""A small tokenizer for LilyPond music, independent of the code under test.

Only for the kind of text the harness itself generates.

"""
import re
from fractions import Fraction

NOTE = r"(?:[a-g](?:isis|eses|isih|eseh|ih|eh|is|es|ses|s)?)"
DUR = r"(?:(?:\\breve|\\longa|\\maxima|128|64|32|16|8|4|2|1)(?!\d)(?:\s*\.)*(?:\s*\*\s*\d+(?:/\d+)?)*)"
PATTERNS = [
    ("com", r"%\{.*?%\}|%[^\n]*"),
    ("str", r'"(?:[^"\\]|\\.)*"'),
    ("scm", r"#(?:'[A-Za-z-]+|\([^()]*\)|[A-Za-z0-9.-]+)"),
    ("argd", r"\\tempo\s*(?P<argd1>" + DUR + r")\s*=\s*\d+|\\partial\s*(?P<argd2>" + DUR + r")|\\after\s*(?P<argd3>" + DUR + r")|\\tuplet\s*\d+/\d+\s*(?P<argd4>" + DUR + r")"),
    ("skip", r"\\skip\s*(?P<skipd>" + DUR + ")"),
    ("argn", r"\\repeat\s+[a-z]+\s+\d+|\\ottava\s*#?-?\d+|\\time\s*\d+/\d+|\\tuplet\s*\d+/\d+|\\times\s*\d+/\d+|\\scaleDurations\s*(?:\d+/\d+|\d+)|:\d+|\\set\s+[a-z.]+\s*=\s*\d+"),
    ("prop", r"\\(?:new|context)\s+[A-Z][A-Za-z]*(?:\s*=\s*(?:\"[^\"]*\"|[a-z]+))?|\\clef\s*(?:\"[^\"]*\"|[a-z]+)|\\(?:hide|omit)\s+[A-Z][A-Za-z]*|\\tweak\s+[a-z]+\s+#[a-z]+|\\tag\s*#'[a-z]+|[a-z]{2,}[A-Z]\w*\s*="),
    ("mod", r":(?:maj|m|dim|aug|sus)[\d.+-]*"),
    ("dyn", r"\\=\d+|\\[<>!()\[\]\\]"),
    ("dur", DUR),
    ("cmd", r"\\[A-Za-z]+"),
    ("dir", r"[-^_](?=[\s]*(?:[.>^_!+\d\\\"-]))(?:[.>^_!+-]|\d)?"),
    ("note", r"(?P<name>" + NOTE + r")(?![a-zA-Z])(?P<oct>(?:\s*'+|\s*,+)?)(?P<acc>\s*[!?])?(?P<chk>\s*=\s*(?:'+|,+)|\s*=(?!\s*[\d\"#]))?"),
    ("rest", r"[rsRq](?![a-zA-Z])"),
    ("open", r"\{|<<"),
    ("close", r"\}|>>"),
    ("chord", r"<"),
    ("endchord", r">"),
    ("word", r"[A-Za-z]+"),
    ("int", r"\d+"),
    ("sym", r"\S"),
]
REGEX = re.compile("|".join("(?P<%s_>%s)" % (k, p) for k, p in PATTERNS), re.S)


def duration(text):
    """[log, dots, numerator, denominator] of a written duration."""
    m = re.fullmatch(r"(\\[a-z]+|\d+)((?:\s*\.)*)((?:\s*\*\s*\d+(?:/\d+)?)*)", text.strip())
    base = {"\\breve": -1, "\\longa": -2, "\\maxima": -3}.get(m[1])
    if base is None:
        base = int(m[1]).bit_length() - 1
    s = Fraction(1)
    for x in re.findall(r"\d+(?:/\d+)?", m[3]):
        s *= Fraction(x)
    return [base, m[2].count("."), s.numerator, s.denominator]


def tokens(text):
    """The tokens of the text: dicts with k, t, d, pos, end, line; notes have name, oct, acc, chk."""
    res = []
    for m in REGEX.finditer(text):
        k = m.lastgroup
        k = next(n for n, _ in PATTERNS if m.group(n + "_") is not None)
        t = dict(k=k, t=re.sub(r"\s+", " ", m.group()), d=[], pos=m.start(), end=m.end(), line=text.count("\n", 0, m.start()))
        if k == "dur":
            t["d"] = duration(m.group())
        elif k == "skip":
            t["d"] = duration(m.group("skipd"))
            t["t"] = "\\skip"
        elif k == "argd":
            g = next(g for g in ("argd1", "argd2", "argd3", "argd4") if m.group(g) is not None)
            t["d"] = duration(m.group(g))
            t["t"] = re.sub(r"\s+", "", text[m.start():m.start(g)] + "@" + text[m.end(g):m.end()])
        elif k == "note":
            o = m.group("oct").strip()
            t["name"] = m.group("name")
            t["oct"] = o.count("'") - o.count(",")
            t["acc"] = (m.group("acc") or "").strip()
            c = re.sub(r"\s", "", m.group("chk") or "")
            t["chk"] = c
            t["t"] = t["name"] + o + t["acc"] + c
        elif k != "str" and k != "com":
            t["t"] = re.sub(r"\s+", "", m.group()) if k in ("argn",) else t["t"]
        res.append(t)
    return res
