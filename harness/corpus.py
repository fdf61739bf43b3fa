"""Source texts to read: random LilyPond, Scheme and other documents."""
import random
import re

NOTES = "c d e f g a b cis bes fis ees".split()
DUR = ["", "", "", "4", "8", "2.", "16", "1", "4*2/3", "\\breve", "8.."]
ART = ["", "", "", "", "(", ")", "[", "]", "~", "-.", "->", "\\p", "\\<", "\\!", "-\"text\"", "^\\markup { hi }", "\\trill", "--", "-3", "\\1"]


def note(rng):
    r = rng.random()
    if r < .6:
        return rng.choice(NOTES) + rng.choice(["", "", "'", ",", "''"]) + rng.choice(["", "", "", "!", "?"]) + rng.choice(["", "", "", "", "='"]) + rng.choice(DUR) + rng.choice(ART)
    if r < .7:
        return rng.choice(["r", "s", "R"]) + rng.choice(DUR)
    if r < .82:
        return "<" + " ".join(rng.choice(NOTES) + rng.choice(["", "'", ","]) for _ in range(rng.randrange(1, 4))) + ">" + rng.choice(DUR) + rng.choice(ART)
    if r < .86:
        return "|"
    if r < .89:
        return rng.choice(["\\skip 4", "q", "c4\\rest", "\\bar \"|.\"", "\\break"])
    if r < .92:
        return rng.choice(["\\time 3/4", "\\key c \\major", "\\clef \"bass\"", "\\tempo \"Allegro\" 4 = 120", "\\stemUp", "\\partial 4", "\\override Stem.length = #10", "\\set Staff.instrumentName = \"Vl\"", "\\once \\hide Stem", "\\unset Staff.midi"])
    if r < .96:
        return rng.choice(["% comment\n", "%{ comm %}", "%{ two\nlines %}"])
    return rng.choice(["#'foo", "$foo", "\\foo", "#(ly:foo 'a \"b\" 3)", "#{ c4 #}", "\\foo -.", "\\foo \\p", "\\tag #'x c", "\\tag #'x \\foo", "c\\tweak color #red -.", "\\ottava -1", "c\\=1(", "<c e %{x%}>4", "<c %{x%} e>", "c4\\rest -. %{z%}", "c-\\markup { a %{b%} }", "c-#'(a ;c\n)"])


def music(rng, depth=0):
    r = rng.random()
    if depth > 3 or r < .5:
        return note(rng)
    n = rng.randrange(0, 5)
    inner = " ".join(music(rng, depth + 1) for _ in range(n))
    return rng.choice([
        "{ %s }", "{ %s }", "<< %s >>", "\\relative c' { %s }", "\\new Staff { %s }", "\\new Voice = \"x\" { %s }", "\\tuplet 3/2 { %s }",
        "\\repeat volta 2 { %s }", "\\transpose c d { %s }", "\\grace { %s }", "\\times 2/3 { %s }", "\\context Staff << %s >>",
        "<< { %s } \\\\ { c } >>", "\\repeat volta 2 { %s } \\alternative { { c } { d } }", "\\new Staff \\with { a = 2 } { %s }", "\\fixed c' { %s }"]) % inner


def lyrics(rng):
    words = " ".join(rng.choice(["foo", "bar", "--", "__", "_", "\"x y\"", "foo4", "bar8.", "~", "\\markup { hi }"]) for _ in range(rng.randrange(1, 6)))
    return rng.choice(["\\lyricmode { %s }", "\\new Lyrics \\lyricmode { %s }", "\\addlyrics { %s }", "\\lyrics { %s }"]) % words


def markup(rng, depth=0):
    r = rng.random()
    if depth > 2 or r < .4:
        return rng.choice(["word", "\"a string\"", "\\bold word", "\\italic \"foo\"", "\\musicglyph \"x\"", "#(foo)", "\\fontsize #3 x", "\\with-color #red y"])
    return rng.choice(["{ %s }", "\\column { %s }", "\\bold { %s }", "\\line { %s }", "\\concat { %s }"]) % " ".join(markup(rng, depth + 1) for _ in range(rng.randrange(0, 4)))


def scheme(rng, depth=0):
    r = rng.random()
    if depth > 3 or r < .55:
        return rng.choice(["foo", "bar-baz", "3", "-4.5", "#t", "#f", "\"str\"", "'sym", "`(a ,b ,@c)", "#\\a", "1/2", "#xff", "define", "let", "(a . b)", "#b101", "#o-17", "1+", "#! c !#", "#(1 2)", ";c\n", "'()"])
    return rng.choice(["(%s)", "(define %s)", "(list %s)", "'(%s)", "(let ((a 1)) %s)", "#(%s)", "(if %s)"]) % " ".join(scheme(rng, depth + 1) for _ in range(rng.randrange(0, 4)))


def value(rng, block=False):
    v = ["\"foo\"", "3", "-2.5", "#'bar", "#(%s)" % scheme(rng), "\\markup %s" % markup(rng), "5\\mm", "##t", "\\foo", "1/2", "-7", "2.5", "-3\\cm"]
    return rng.choice(v if block else v + ["{ %s }" % music(rng), "c4", "\\p", "-\"hi\"", "^."])


def toplevel(rng):
    r = rng.random()
    if r < .3:
        return music(rng, 0) if rng.random() < .3 else "{ %s }" % " ".join(music(rng, 1) for _ in range(rng.randrange(0, 6)))
    if r < .45:
        return "%s = %s" % (rng.choice(["foo", "bar", "\"x y\"", "foo.bar", "music"]), value(rng))
    if r < .55:
        return rng.choice(["\\header { %s }", "\\paper { %s }", "\\layout { %s }"]) % " ".join("%s = %s" % (rng.choice(["title", "foo", "indent", "system-system-spacing.padding"]), value(rng, True)) for _ in range(rng.randrange(0, 4)))
    if r < .63:
        return "\\score { { %s } \\header { a = \"b\" } \\layout { } \\midi { } }" % music(rng)
    if r < .7:
        return "\\markup " + markup(rng)
    if r < .75:
        return "\\layout { \\context { \\Staff \\remove \"X\" \\override Stem.color = #red } }"
    if r < .8:
        return rng.choice(["\\version \"2.22.0\"", "\\language \"english\"", "\\include \"foo.ly\"", "#(set-global-staff-size 18)"])
    if r < .87:
        return rng.choice(["% a comment\n", "%{ block %}", "%%% three\n"])
    if r < .94:
        return lyrics(rng)
    return rng.choice(["\\book { \\bookpart { \\score { { c } } } }", "\\drummode { bd4 sn }", "\\figuremode { <6 4>4 <5+> }", "\\chordmode { c4:m7 d:sus4/g }", "\\new DrumStaff \\drummode { bd <sn hh>8 }"])


def respace(text, rng, nl=.25):
    """Other whitespace where there is some (outside strings and comments)."""
    out = []
    instr = False
    i = 0
    while i < len(text):
        c = text[i]
        if instr:
            if c == "\\" and i + 1 < len(text):
                out.append(text[i:i + 2])
                i += 2
                continue
            if c == '"':
                instr = False
        elif c == '"':
            instr = True
        elif text.startswith("%{", i):
            j = text.find("%}", i)
            j = len(text) if j < 0 else j + 2
            out.append(text[i:j])
            i = j
            continue
        elif c == "%" or c == ";":
            j = text.find("\n", i)
            j = len(text) if j < 0 else j
            out.append(text[i:j] + "\n")
            i = j + 1
            continue
        elif c == " ":
            c = rng.choice(["\n", "\n", "\n  ", "\n\n", "  ", "\t"]) if rng.random() < nl else " "
        out.append(c)
        i += 1
    return "".join(out)


# parce drops a number after "= %{ %}" and does not see the block in "\header %{ %} {"
NO_COMMENT = re.compile(r"(=|\\(header|score|book|bookpart|paper|layout|midi|with))\s*$").search


def comments(text, rng, n):
    """The text with comments where it has whitespace (outside strings, comments and scheme)."""
    places = []
    skip = None
    depth = 0
    for i, c in enumerate(text):
        if skip:
            if text.startswith(skip, i):
                skip = None
        elif c == '"':
            skip = '"'
        elif c == "%":
            skip = "%}" if text.startswith("%{", i) else "\n"
        elif c == "(" and not depth and i and text[i - 1] in "#'`":
            depth = 1
        elif depth:
            depth += {"(": 1, ")": -1}.get(c, 0)
        elif c == " " and not NO_COMMENT(text[max(0, i - 30):i]):
            places.append(i)
    for i in sorted(rng.sample(places, min(n, len(places))), reverse=True):
        text = text[:i] + rng.choice([" %{ x %} ", " %{y%} ", " % z\n"]) + text[i + 1:]
    return text


def document(rng, n=None):
    text = plain_document(rng, n)
    if rng.random() < .2:
        text = comments(text, rng, rng.choice([1, 1, 2, 3]))
    return text


def plain_document(rng, n=None):
    parts = [toplevel(rng) for _ in range(n or rng.randrange(1, 5))]
    return respace("\n".join(parts) if rng.random() < .6 else " ".join(parts), rng) if rng.random() < .8 else "\n".join(parts)
