"""P05: collecting arguments (spec: Collect)."""
import random

from . import core
from quickly.dom import base, element, lily, read
from quickly.dom.element import Element, TextElement, build_tree


# ---- generated element types

class Types:
    """Element classes for type names; subclasses follow the lists of types."""
    def __init__(self, text):
        self.cls = {}
        self.sigs = {}
        self.text = text            # use TextElement as base
        self.form = 0

    def get(self, types):
        t = types[0]
        if t not in self.cls:
            bases = tuple(self.get(types[1:]) for _ in (1,)) if len(types) > 1 else (Element,)
            me = self

            def signatures(node, t=t):
                me.form += 1
                s = [tuple(tuple(me.cls[x] for x in alt) if len(alt) > 1 else me.cls[alt[0]] for alt in sig) for sig in me.sigs.get(t, ())]
                if not s:
                    return super(me.cls[t], node).signatures() if False else ()
                return s if me.form % 3 == 0 else tuple(s) if me.form % 3 == 1 else iter(s)
            self.cls[t] = type(t, bases, {"signatures": signatures})
        return self.cls[t]


def run_types(items, ignore):
    """items: as in the specification. Returns the forest, or an error text."""
    ty = Types(False)
    todo = [it["types"] for it in items] + [k["types"] for it in items for k in it["kids"]]
    for t in sorted(todo, key=len):
        ty.get(t)
    for it in items:
        ty.sigs[it["types"][0]] = it["sigs"]
        for s in it["sigs"]:
            for alt in s:
                for x in alt:
                    ty.get([x])
    nodes, kids = [], []
    for it in items:
        k = [ty.get(c["types"])() for c in it["kids"]]
        nodes.append(ty.get(it["types"])(*k))
        kids.append(k)
    index = {id(n): i for i, n in enumerate(nodes)}
    ign = tuple(ty.cls[x] for x in ignore if x in ty.cls)
    ign = None if not ign else ign[0] if len(ign) == 1 else ign

    def tree(n):
        i = index[id(n)]
        own = list(n)
        assert all(a is b for a, b in zip(own, kids[i])) and len(own) >= len(kids[i]), "existing children"
        for c in own:
            assert c.parent is n, "parent"
        return dict(i=i + 1, args=[tree(c) for c in own[len(kids[i]):]])

    def go():
        res = list(build_tree(iter(nodes), ign))
        assert all(n.parent is None for n in res), "parent of a result"
        return [tree(n) for n in res]
    return core.guarded(go)


def replay(cases):
    bad = []
    for table, c in cases:
        items = [table[x] for x in c["w"]]
        r, err = run_types(items, ["C"])
        if err or r != c["forest"]:
            bad.append(("forest", dict(items="".join(c["w"]), want=c["forest"], real=r, err=err)))
        if "c" not in c["w"] and "k" not in c["w"]:
            r, err = run_types(items, [])
            if err or r != c["forest"]:
                bad.append(("forest", dict(items="".join(c["w"]), want=c["forest"], real=r, err=err, ignore=None)))
    return bad


def random_types(rng):
    names = list("ABDEFGH")
    sup = {}
    for i, n in enumerate(names):
        if i and rng.random() < .3:
            sup[n] = rng.choice(names[:i])

    def chain(n):
        return [n] + (chain(sup[n]) if n in sup else [])
    sigs = {}
    for n in names:
        sigs[n] = [[rng.sample(names, rng.choice([1, 1, 2, 3])) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
                   for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    items = []
    ign = ["C", "X"] if rng.random() < .8 else []
    for _ in range(rng.randrange(1, rng.choice([6, 14, 30]))):
        if ign and rng.random() < .15:
            items.append(dict(types=[rng.choice(ign)], sigs=[], ign=True, kids=[]))
            continue
        n = rng.choice(names)
        kids = []
        if rng.random() < .2:
            for _ in range(rng.randrange(1, 3)):
                m = rng.choice(names)
                if sigs[n] and rng.random() < .7:
                    m = rng.choice(rng.choice(sigs[n])[0])
                kids.append(dict(types=chain(m), ign=False))
            if ign and rng.random() < .3:
                kids.insert(rng.randrange(len(kids) + 1), dict(types=["C"], ign=True))
        items.append(dict(types=chain(n), sigs=sigs[n], ign=False, kids=kids))
    return items, ign


# ---- LilyPond text

def kinds_texts(rng):
    """kind -> text (what the element writes)."""
    i = rng.randrange
    return dict(
        note=rng.choice("abcdefg") + rng.choice(["", "'", ",,", "es'" if 0 else "is"]),
        chord="<%s %s>" % (rng.choice("abc"), rng.choice("defg'"[:4])), rest=rng.choice(["r", "s", "R"]), skip=r"\skip 4",
        list="{ %s %s }" % (rng.choice("abc"), rng.choice(["d", "r", "g'"])), sim="<< %s >>" % rng.choice("abc"),
        unp=rng.choice(["1", "2", "4", "8", "16"]), ref=rng.choice([r"\foo", r"\music", r"\barbar"]),
        sym=rng.choice(["Staff", "Voice", "foo", "bass"]), nlist=rng.choice(["1,2", "3,4,5", "Score.foo", "foo.bar"]),
        str='"%s"' % rng.choice(["x", "hello", "a b"]), int=rng.choice(["3", "5", "60", "7"]), float=rng.choice(["2.5", "0.25"]),
        frac=rng.choice(["2/3", "3/4", "5/8"]), scheme=rng.choice(["#'foo", "#3", "#(x y)", "##t"]), eq="=", mode=rng.choice([r"\major", r"\minor"]),
        default=r"\default", markup=rng.choice([r"\markup hi", r'\markup { a b }']), comment="%%{ %s %%}" % rng.choice("xyz"),
        rtype=rng.choice(["volta", "unfold", "percent"]), rint=rng.choice(["2", "3", "4"]), **{"with": "\\with {\n}"})


LEAF = dict(Note="note", Pitch="note", Chord="chord", Rest="rest", Space="rest", MultiMeasureRest="rest", Skip="skip", MusicList="list",
            SimultaneousMusicList="sim", IdentifierRef="ref", Symbol="sym", List="nlist", String="str", Float="float", Fraction="frac",
            Scheme="scheme", EqualSign="eq", With="with", Mode="mode", Default="default", Markup="markup", MultilineComment="comment",
            Unpitched="unp", Duration="unp", Int="int")
ARGS = {}


def patterns():
    """A generator's idea of useful sequences (not used for judging)."""
    M = ["note", "list", "sim", "chord", "ref", "rest", "@"]
    p = dict(relative=["note", M], fixed=["note", M], transpose=["note", "note", M], repeat=["rtype", "rint", M, ["alternative", "note", "comment"]],
             alternative=["list"], sequential=["list"], simultaneous=["list"], volta=[["nlist", "scheme"], M], transposition=["note"],
             octaveCheck=["note"], ottava=[["scheme", "unp", "int"]], new=["sym", ["eq", "@list"], ["str", "sym"], ["with", "list"], M],
             context=["sym", ["eq", "list"], ["str", "sym"], M], change=["sym", "eq", ["sym", "str"]], key=["note", ["mode", "scheme"]],
             clef=[["sym", "str"]], time=[["frac", "nlist"], ["frac", "note"]], partial=["unp"], times=["frac", M], tuplet=["frac", ["unp", "list"], M],
             scaleDurations=[["frac", "int", "unp"], M], shiftDurations=[["int", "unp", "scheme"], ["unp", "int"], M], afterGrace=[["frac", "note"], M, M],
             partcombine=[M, M], bar=["str"], mark=[["default", "str", "int", "markup", "unp"]],
             tempo=[["str", "unp", "sym", "markup"], ["unp", "eq", "note"], ["eq", "int"], ["int", "note"]],
             omit=[["sym", "nlist"]], hide=[["sym", "nlist"]], unset=["nlist"], override=[["sym", "nlist"], ["scheme", "eq"], ["eq", "scheme"], ["scheme", "int", "unp", "str"]],
             revert=[["sym", "nlist"], ["scheme", "note"], ["scheme", "note"]], set=[["sym", "nlist"], "eq", ["str", "scheme", "int", "unp", "markup"]],
             quoteDuring=["str", M], addQuote=["str", M], label=["scheme"], tagGroup=["scheme"], language=["str"], include=["str"])
    for k in ("absolute", "unfoldRepeats", "unfolded", "grace", "acciaccatura", "appoggiatura", "undo", "once", "temporary", "notemode"):
        p[k] = [M]
    for k in ("keepWithTag", "removeWithTag", "pushToTag", "appendToTag"):
        p[k] = [["sym", "str", "scheme"], M]
    for k in ("accepts", "denies", "name", "alias", "defaultchild", "consists", "remove"):
        p[k] = [["str", "sym"]]
    return p


PATTERNS = patterns()
NOT_IN_MUSIC = {"accepts", "denies", "name", "alias", "defaultchild", "consists", "remove", "language", "include", "addQuote"}
#: commands that switch the input mode of the parser for what follows
LEXED = {"repeat", "notemode"}


def kinds_of(rng):
    kinds = []

    def command(depth):
        k = rng.choice(sorted(PATTERNS))
        while k in NOT_IN_MUSIC and rng.random() < .6:
            k = rng.choice(sorted(PATTERNS))
        kinds.append(k)
        for a in PATTERNS[k]:
            if k not in LEXED and rng.random() < .12:
                kinds.append("comment")
            if k not in LEXED and rng.random() < .08:
                if rng.random() < .5:
                    break                   # cut short
                kinds.append(rng.choice(["note", "str", "eq", "sym", "scheme", "list", "frac"]))
            a = rng.choice(a) if isinstance(a, list) else a
            if a == "@":
                if depth < 3:
                    command(depth + 1)
                else:
                    kinds.append("note")
            else:
                kinds.append(a.lstrip("@"))
    for _ in range(rng.randrange(1, 5)):
        command(0)
        if rng.random() < .4:
            kinds.append(rng.choice(["note", "list", "ref", "comment", "str"]))
    return normal(kinds)


def normal(kinds):
    """Avoids items that the reader would combine with each other."""
    out = []
    for k in kinds:
        prev = next((x for x in reversed(out) if x != "comment"), None)
        if k in ("unp", "rint") and prev in ("note", "chord", "rest", "skip", "ref"):
            k = "list"
        if prev == "eq" and k in ("note", "rest", "skip"):
            k = "list"                      # a word after = is a symbol
        if k == "unp" and prev == "eq":
            k = "int"
        if k == "float":
            k = "frac"
        if k == "eq" and out and out[-1] == "comment" and prev == "note":
            out.append("list")
        if k == "eq" and prev in ("note", "skip"):
            out.append("list")              # not an octave check
        if k in ("nlist", "sym") and prev in ("ref", "nlist", "sym", "int", "unp", "frac"):
            pass
        out.append(k)
    return out


def systematic(rng):
    """Every command, every prefix of its arguments, followed by anything."""
    res = []
    atoms = sorted(set(LEAF.values()) | {"alternative", "relative", "tempo"})
    for k in sorted(PATTERNS):
        pat = PATTERNS[k]
        for n in range(len(pat) + 1):
            for x in atoms:
                kinds = [k]
                for a in pat[:n]:
                    a = rng.choice([y for y in a if y != "@"] if isinstance(a, list) else [a])
                    kinds.append(a.lstrip("@"))
                if k not in LEXED or (n == len(pat) and k == "repeat"):
                    res.append(normal(kinds + [x, rng.choice(["note", "list", "unp", "str"]), "list"]))
    return res


def text_event(seed):
    rng = random.Random(seed if not isinstance(seed, list) else repr(seed))
    kinds = seed if isinstance(seed, list) else kinds_of(rng)
    texts = []
    for k in kinds:
        t = kinds_texts(rng).get(k)
        texts.append("\\" + k if t is None else t)
    labels = [("unp" if k == "rint" else k) + ":" + t for k, t in zip(kinds, texts)]
    # kinds that are written the same way in the source
    labels = [canon(k, t) for k, t in zip(kinds, texts)]
    src = "{ " + " ".join(texts) + " }"

    def go():
        d = read.lily_document(src)
        assert len(d) == 1 and type(d[0]).__name__ == "MusicList", "document is one list"
        return [real(n) for n in d[0]]
    r, err = core.guarded(go)
    return dict(ev="text", kinds=kinds, labels=labels, text=src, forest=r if not err else [], err=err or "")


def canon(k, t):
    """The label of an item: a number is known by its value only."""
    if k in ("unp", "int", "rint"):
        return "number:" + t
    if k in ("sym", "rtype"):
        return "sym:" + t
    return k + ":" + t if k in LEAF.values() else "cmd:" + t


def real(n):
    name = type(n).__name__
    k = LEAF.get(name)
    if k is None:
        return dict(l="cmd:" + n.write_head(), args=[real(c) for c in n])
    if k in ("int", "float", "ref"):
        return dict(l=canon(k, n.write_head()), args=[real(c) for c in n])
    return dict(l=canon(k, n.write()), args=[])


def text_events(seeds):
    return [text_event(s) for s in seeds]


def type_events(seeds):
    res = []
    for s in seeds:
        items, ign = random_types(random.Random(s))
        r, err = run_types(items, ign)
        res.append(dict(ev="types", items=items, forest=r if not err else [], err=err or ""))
    return res


def run(rep):
    r = core.run_tlc("CollectMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nCHECK_DEADLOCK FALSE\n"
                     "INVARIANTS NothingLost Patterns Emit EmitTable\n" % (6 if rep.thorough else 5), workers=8, heap="6g")
    rep.add_tlc("CollectMC", r)
    table = next(x["table"] for x in r.lines if "table" in x)
    cases = [(table, x) for x in r.lines if "w" in x]
    rep.traces += len(cases)
    rep.log("model: %d sequences" % len(cases))
    rep.sample(cases[-1][1])
    for clause, case in core.pmap_chunks(replay, cases):
        rep.violation(clause, clause, case)
    rep.exhaustive = True
    k = 12 if rep.thorough else 1
    lines = []
    for fn, n in ((type_events, 6000 * k), (text_events, 6000 * k)):
        for e in core.pmap_chunks(fn, [rep.rng.randrange(1 << 40) for _ in range(n)]):
            if e["err"]:
                rep.violation("failure", "failure:" + e["ev"], e)
            else:
                lines.append(e)
    for e in core.pmap_chunks(text_events, systematic(rep.rng)):
        if e["err"]:
            rep.violation("failure", "failure:systematic", e)
        else:
            lines.append(e)
    rep.sample(next(e for e in lines if e["ev"] == "text"))
    verdicts, st = core.judge("CollectTrace", lines)
    rep.add_judge("CollectTrace", st)
    rep.violations_from(verdicts, lambda line, c: "trace:" + c)
    rep.assumptions.append("the sequence of items that is combined is produced by the reader (parce) as one item per word, for the generated texts")
