"""P20: named settings as one ordered map (spec: Settings)."""
import random
from fractions import Fraction

import parce
from quickly import find
from quickly.dom import base, lily, read, scm

from . import core

HEADER = "dedication title subtitle subsubtitle instrument poet composer meter arranger tagline copyright".split()
LAYOUT = "line-width ragged-right ragged-last indent short-indent system-count".split()
PAPER = LAYOUT + """paper-height top-margin bottom-margin ragged-bottom ragged-last-bottom markup-system-spacing
 score-markup-spacing score-system-spacing system-system-spacing markup-markup-spacing last-bottom-spacing top-system-spacing
 top-markup-spacing paper-width left-margin right-margin check-consistency two-sided inner-margin outer-margin binding-offset
 horizontal-shift max-systems-per-page min-systems-per-page systems-per-page page-breaking page-breaking-system-system-spacing
 page-count blank-page-penalty blank-last-page-penalty blank-after-score-page-penalty auto-first-page-number first-page-number
 print-first-page-number print-page-number page-spacing-weight print-all-headers system-separator-markup""".split()
#: block type: class, text around it, names that are attributes, other content
KINDS = {
    "header": (lily.Header, "title = \"outer\"\n\\header {%s}\n{ c4 }\n", HEADER, ["#(define x 1)", "\\something"]),
    "paper": (lily.Paper, "\\paper {%s}\nindent = 5\\cm\n", PAPER, ["#(set-paper-size \"a4\")", "\\include \"x.ily\""]),
    "layout": (lily.Layout, "\\layout {%s}\n", LAYOUT, ["\\context { \\Staff indent = 3 }", "#(layout-set-staff-size 20)"]),
    "midi": (lily.Midi, "\\score { { c4 } \\midi {%s} }\n", [], ["\\context { \\Score title = 3 }"]),
    "with": (lily.With, "music = \\new Staff \\with {%s} { c4 }\n", [], ["\\consists \"Foo_engraver\"", "\\override NoteHead.color = #red"]),
    "context": (lily.LayoutContext, "\\layout { indent = 4 \\context {%s} }\n", [], ["\\Staff", "\\remove \"Bar_engraver\"", "\\accepts \"Voice\""]),
    "document": (lily.Document, "%s", [], ["{ c4 }", "\\header { title = \"in\" myname = 4 }", "\\paper { indent = 3 }", "\\include \"y.ily\""]),
}
NAMES = ["title", "myname", "system-spacing", "two words", ("x", "y"), ("system", "basic-distance"), ("x", "two words"), "a", "", "x1", "émile", "major", ("x", "y", "z"), "título"]
VALUES = [5, -5, 0, 1.5, -0.25, "x", "two words", 'quo"te', "back\\slash", "", "new\nline", True, False, (5, "mm"), (1.5, "cm"), (-2, "in"), (10, "pt"),
          100000000.0, 1e-05, "%{ no %} comment % here", "{ } = \\"]
ELEMENTS = ["\\markup { x \\bold y }", "##f", "#(a b)", "#'(1 . 2)", "#15", "foo-bar", "3/4"]
MUSIC = ["{ c4 d }", "<< c e >>", "\\relative c' { c d }", "#red"]


def name(n):
    return repr(n)


def value(v):
    """The value as a text to compare."""
    if isinstance(v, lily.element.Element):
        return "E:" + " ".join(v.write().split())
    return type(v).__name__ + ":" + repr(v)


def node(text):
    return read.lily_document(text)[0].copy() if text[0] in "{<\\" else read.lily_document("x = " + text)[0].get_value().copy()


def trailing(n):
    """The comments at the end of a node or its last descendants."""
    res = []
    while len(n) and not n.write_tail():
        i = len(n)
        while i and isinstance(n[i - 1], base.Comment):
            i -= 1
        res[:0] = n[i:]
        if not i:
            break
        n = n[i - 1]
    return res


def project(block):
    """The entries; comments after a value stand on their own."""
    res = []
    for n in block:
        if isinstance(n, lily.Assignment):
            v = n.get_value()
            p = lily.create_value_from_element(v)
            last = trailing(n)
            if last and p is None:
                # the value without the comments after it
                v = v.copy()
                for c in trailing(v):
                    c.parent.remove(c)
            res.append(dict(k="var", n=name(n.get_name()), v=value(v if p is None else p),
                            x="".join(c.write() for c in n[:n.index(n.get_value())] if isinstance(c, base.Comment))))
            res.extend(dict(k="com", n="", v="", x=" ".join(c.write().split())) for c in last)
        elif isinstance(n, base.Comment):
            res.append(dict(k="com", n="", v="", x=" ".join(n.write().split())))
        elif isinstance(n, lily.Version):
            res.append(dict(k="version", n="", v=repr(n.version), x=""))
        else:
            last = trailing(n)
            if last:
                n = n.copy()
                for c in trailing(n):
                    c.parent.remove(c)
            res.append(dict(k="item", n="", v="", x=" ".join(n.write().split())))
            res.extend(dict(k="com", n="", v="", x=" ".join(c.write().split())) for c in last)
    return res


class Player:
    """Plays one history."""

    def __init__(self, rng, kind, start, ops):
        self.rng, self.kind = rng, kind
        self.cls, self.around, self.attributes, self.items = KINDS[kind]
        self.names, self.values = {}, {}
        self.event = dict(kind=kind, err="", start=[], steps=[], text="")
        self.play(start, ops)

    def concrete(self, table, key, choose):
        while key not in table:
            v = choose()
            if all(value(v) != value(x) for x in table.values()):
                table[key] = v
        return table[key]

    def name(self, n):
        r = self.rng
        return self.concrete(self.names, n, lambda: r.choice(self.attributes) if self.attributes and r.random() < .5 else r.choice(NAMES))

    def value(self, v):
        r = self.rng
        def choose():
            x = r.random()
            if x < .75:
                return r.choice(VALUES)
            return r.choice(ELEMENTS + (MUSIC if self.kind == "document" else []))
        c = self.concrete(self.values, v, choose)
        if c in ELEMENTS + MUSIC:
            n = node(c)
            p = lily.create_value_from_element(n)
            return n, value(n if p is None else p)
        return c, value(c)

    def render(self, start):
        """The text and the expected projection."""
        r = self.rng
        texts, want = [], []
        def com(single=True):
            return r.choice(["%{x%}", "%{ a = 2 %}", "%y\n", "% b = 3\n"] if single else ["%{x%}", "%{ a = 2 %}"])
        for e in start:
            w = dict(e)
            if e["k"] == "var":
                n = self.name(e["n"])
                v, w["v"] = self.value(e["v"])
                a = ""
                if e["x"]:
                    # (parce loses tokens after a comment after an equal sign)
                    a = com()
                    w["x"] = a.replace("\n", "")
                w["n"] = name(n)
                texts.append(lily.Identifier.with_name(n).write() + " " + a + r.choice(["=", " = "]) + " " + lily.create_element_from_value(v).write())
            elif e["k"] == "com":
                c = com()
                texts.append(c)
                w["x"] = " ".join(c.split())
            elif e["k"] == "version":
                if self.kind != "document":
                    continue
                v = self.version(e["v"])
                texts.append("\\version \"%s\"" % ".".join(map(str, v)))
                w["v"] = repr(v)
            else:
                c = r.choice(self.items)
                texts.append(c)
                w["x"] = c
            want.append(w)
        text = r.choice(["", " ", "\n"])
        for t in texts:
            text += t + r.choice([" ", "\n", "\n\n", "\n    "])
        return self.around % text, want

    def version(self, v):
        return {"1": (2, 20, 0), "2": (2, 23)}[v]

    def find(self, root):
        return root if self.cls is lily.Document else next(root // self.cls)

    def transform(self, doc):
        """The tree of the document (none for an empty text)."""
        return doc.get_transform(True) or lily.Document()

    def play(self, start, ops):
        r, ev = self.rng, self.event
        if not start and self.kind != "document" and r.random() < .5:
            doc, want = None, []
            block = root = self.cls()
        else:
            text, want = self.render(start)
            ev["text"] = text
            doc = parce.Document(find("lilypond"), text, transformer=True)
            root = self.transform(doc)
            block = self.find(root)
        ev["start"] = want
        wanted = [("a", "b"), ("b", "a")][r.randrange(2)]
        for n in wanted:
            self.name(n)

        def observe(op, n="", v=""):
            got = []
            for k, m in self.names.items():
                x = block.get_variable(m)
                got.append(dict(n=name(m), v="none" if x is None else value(x)))
                if m in self.attributes and getattr(block, m.replace("-", "_")) != x:
                    got.append(dict(n=name(m), v="by attribute"))
            version = "none"
            if self.kind == "document":
                version = repr(block.version) if block.version else "none"
            ev["steps"].append(dict(op=op, n=n, v=v, s=project(block), got=got, names=[name(m) for m in block.variables()], version=version))

        observe("read")
        for op in ops:
            n, v = op["n"] and self.name(op["n"]), op["v"]
            if op["op"] == "set":
                x, v = self.value(v)
                if n in self.attributes and r.random() < .5:
                    setattr(block, n.replace("-", "_"), x)
                else:
                    block.set_variable(n, x)
            elif op["op"] == "unset":
                if n in self.attributes and r.random() < .5:
                    if r.random() < .5:
                        delattr(block, n.replace("-", "_"))
                    else:
                        setattr(block, n.replace("-", "_"), None)
                else:
                    block.unset_variable(n)
            elif op["op"] == "setversion":
                if self.kind != "document":
                    continue
                block.version = self.version(v)
                v = repr(block.version) and repr(self.version(v))
            observe(op["op"], name(n) if op["n"] else "", v)
            x = r.random()
            if x < .15:
                if doc and r.random() < .6:
                    root.edit(doc)
                    root = self.transform(doc)
                    block = self.find(root)
                    observe("edited")
                else:
                    text = (root.write if r.random() < .5 else root.write_indented)()
                    if root is block and self.cls is not lily.Document:
                        text = self.around.replace("{%s}", "%s") % text
                    doc = parce.Document(find("lilypond"), text, transformer=True)
                    root = self.transform(doc)
                    block = self.find(root)
                    observe("reread")


def play(jobs):
    res = []
    for seed, kind, start, ops in jobs:
        p = Player.__new__(Player)
        _, err = core.guarded(p.__init__, random.Random(seed), kind, start, ops)
        p.event["err"] = err or ""
        res.append(p.event)
    return res


def longer(rng):
    names = ["a", "b", "c", "d"]
    start = []
    for _ in range(rng.randrange(8)):
        k = rng.choice(["var", "var", "var", "com", "item", "version"])
        start.append(dict(k=k, n=rng.choice(names) if k == "var" else "", v=rng.choice("12") if k == "version" else rng.choice("1234") if k == "var" else "",
                          x=rng.choice(["", "", "c"]) if k == "var" else ""))
    ops = []
    for _ in range(rng.randrange(1, 20)):
        o = rng.choice(["set", "set", "set", "unset", "setversion"])
        ops.append(dict(op=o, n="" if o == "setversion" else rng.choice(names), v=rng.choice("12") if o == "setversion" else rng.choice("12345") if o == "set" else ""))
    return start, ops


def run(rep):
    r = core.run_tlc("SettingsMC", "SPECIFICATION Spec\nCONSTANTS Depth = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Laws Emit\n" % (5 if rep.thorough else 4), workers=8, heap="6g")
    rep.add_tlc("SettingsMC", r)
    rep.exhaustive = True
    cases = [(c["start"], c["ops"]) for c in r.lines]
    rep.log("%d histories of the model" % len(cases))
    n = 60000 if rep.thorough else 8000
    if len(cases) > n:
        cases = rep.rng.sample(cases, n)
    cases += [longer(rep.rng) for _ in range(30000 if rep.thorough else 4000)]
    kinds = sorted(KINDS)
    lines = core.pmap_chunks(play, [(rep.rng.randrange(1 << 40), rep.rng.choice(kinds), s, o) for s, o in cases])
    rep.log("%d histories played" % len(lines))
    rep.sample(lines[-1])
    verdicts, st = core.judge("SettingsTrace", lines)
    rep.add_judge("SettingsTrace", st)
    rep.violations_from(verdicts, lambda line, c: "%s:%s" % (c, line["err"][:60]))
