"""A wide collection of documents: every command in many forms, put together at random,
also in HTML and LaTeX; and an independent tokenizer for them."""
import os
import random
import re

from . import corpus

with open(os.path.join(os.path.dirname(__file__), "docs_lines.txt")) as f:
    LINES = [x.rstrip("\n") for x in f if x.strip()]

READ = dict(lilypond="lily", scheme="scm", html="htm", latex="tex")

TOKEN = re.compile(r'''
    "(?P<str>(?:[^"\\]|\\.)*)"
  | %\{.*?(?:%\}|$) | %[^\n]*
  | \#\#[tf]\b | \#\\(?:[A-Za-z]+|.)
  | \\[A-Za-z]+(?:[-_][A-Za-z]+)*
  | [^\W\d_]+
  | \d+
  | \s+
  | .''', re.S | re.X)


# comments and strings have another form, or only in some places
PLAIN = re.compile(r"\\[A-Za-z]+|[^\W\d_]+|\d+|\s+|.", re.S)


def tokens(text, lang="lilypond"):
    """[word, string] of every token: string is the text between the quotes, or None."""
    res = []
    if lang in ("html", "latex"):
        return [(m.group(), None) for m in PLAIN.finditer(text) if not m.group().isspace()]
    for m in TOKEN.finditer(text):
        t = m.group()
        if not t.isspace():
            res.append((None, m["str"]) if m["str"] is not None else (t.rstrip() if t[0] == "%" else t, None))
    return res


def line(rng):
    """A line, or a part of the music in it."""
    x = rng.choice(LINES)
    if rng.random() < .4 and not re.search(r"#['`]?\(|#\{", x) and x.startswith("{ ") and x.endswith(" }"):
        # some of its words, where that leaves the braces balanced
        words = x[2:-2].split(" ")
        i = rng.randrange(len(words))
        for j in range(min(len(words), i + rng.randrange(3, 12)), i, -1):
            part = " ".join(words[i:j])
            if balanced(part) and not re.search(r"\\\S+$|[=#]$", part) and not part.startswith(("_", "-", "^", ".", ",", "=", "\"", "*", "'")):
                return "{ %s }" % part
    return x


def balanced(text):
    stack = []
    text = re.sub(r'"[^"]*"', "", text)
    for t in re.findall(r"<<|>>|[-^_]>|\\[<>]|#\{|#\}|[{}<>()]", text):
        if t in ("{", "<<", "#{", "<"):
            stack.append({"{": "}", "<<": ">>", "#{": "#}", "<": ">"}[t])
        elif t in ("}", ">>", "#}", ">"):
            if not stack or stack.pop() != t:
                return False
    return not stack and text.count("(") == text.count(")")


def lilypond(rng):
    parts = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        r = rng.random()
        if r < .4:
            parts.append(corpus.toplevel(rng))
        elif r < .8:
            parts.append(line(rng))
        else:
            x = line(rng)
            if x.startswith("{"):
                x = rng.choice(["\\new Staff %s", "<< %s { c } >>", "\\relative c' %s", "foo = %s", "\\score { %s \\layout { } }", "\\repeat volta 2 %s", "\\book { \\score { %s } }", "#(foo #{ %s #})", "\\markup \\score { %s }", "\\tuplet 3/2 %s", "{ c %s d }"]) % x
            parts.append(x)
    text = rng.choice(["\n", "\n", " "]).join(parts)
    if rng.random() < .5:
        text = corpus.respace(text, rng)
    if rng.random() < .15:
        text = corpus.comments(text, rng, rng.choice([1, 2]))
    return text


HTEXT = ["hello", "it's \"x\" ", "a > b", " ", "\n\n", "&amp;", "&#10;", "&euml;", "x & y", "foo; bar", "{ c }", "% x", "\\foo"]
HATTR = ["class=\"x\"", "id='y'", "disabled", "title=\"a 'b' &lt; c\"", "title='a \"b\"'", "alt=\"\"", "data-x=\"1\""]
LOPT = ["fragment", "quote", "staffsize=20", "staffsize=\"16\"", "relative=2", "verbatim", "line-width=5\\cm", "indent=0\\mm", "foo=\"bar\"", "noindent", "line-width=2.5\\in"]


def music(rng):
    while True:
        x = rng.choice([corpus.toplevel, line])(rng)
        # what ends the embedded text may not be in it
        if not re.search(r"</|/>|\\end|[%]|\}\s*\}$|^\s*[^{\s]", x) and balanced(x) and len(x) < 250:
            return x


def html(rng, depth=0):
    out = []
    for _ in range(rng.randrange(1, 5)):
        r = rng.random()
        attrs = "".join(" " + a for a in rng.sample(HATTR, rng.choice([0, 0, 1, 2])))
        opts = "".join(" " + a for a in rng.sample(LOPT, rng.choice([0, 0, 1, 2])))
        if r < .3:
            out.append("".join(rng.choice(HTEXT) for _ in range(rng.randrange(1, 3))))
        elif r < .5 and depth < 3:
            tag = rng.choice(["p", "b", "ul", "h1", "div"])
            out.append("<%s%s>%s</%s>" % (tag, attrs, html(rng, depth + 1), tag))
        elif r < .56:
            out.append("<%s%s%s>" % (rng.choice(["br", "img", "hr"]), attrs, rng.choice(["/", " /"])))
        elif r < .72:
            out.append("<lilypond%s>%s</lilypond>" % (opts, music(rng)))
        elif r < .82:
            out.append("<lilypond%s%s: %s %s>" % (opts, rng.choice([" ", ""]), music(rng), "/"))
        elif r < .9:
            tag = rng.choice(["lilypondfile", "musicxmlfile"])
            out.append("<%s%s>%s</%s>" % (tag, opts, rng.choice(["foo.ly", "a b.xml", " x "]), tag))
        elif r < .94:
            out.append("<!-- %s -->" % rng.choice(["x", "a < b & \"c\"", "\n"]))
        elif r < .97:
            out.append("<![CDATA[%s]]>" % rng.choice(["x", " a < b & c ", "<b>", "]"]))
        else:
            out.append("<?%s?>" % rng.choice(["xml version=\"1.0\"", "foo bar", "x a='b'"]))
    return "".join(out)


TTEXT = ["hello ", "it's ``x'' ", "a~b ", "\n", "\n\n", " --- ", "x $a + b_1^{2}$ y ", "\\(c\\) ", "\\[ d^2 \\]", "$$ e $$", "\\& ", "a \\\\ b ", "# 1 "]
LTOPT = ["fragment", "quote", "staffsize=20", "relative=2", "line-width=5\\cm", "noindent", "intertext={x}"]


def latex(rng, depth=0):
    out = []
    for _ in range(rng.randrange(1, 6)):
        r = rng.random()
        opts = ",".join(rng.sample(LTOPT, rng.choice([1, 1, 2])))
        opt = "[%s]" % opts if rng.random() < .5 else ""
        if r < .3:
            out.append(rng.choice(TTEXT))
        elif r < .45:
            out.append("\\%s%s" % (rng.choice(["emph", "section*", "foo", "documentclass[a4]", "bar[x]"]), rng.choice(["{x}", "{a {b} c}", "{x}{y}", "{\\bf z}"])))
        elif r < .5:
            out.append("%% %s\n" % rng.choice(["", "a comment", "\\begin{foo}", "}"]))
        elif r < .62 and depth < 3:
            env = rng.choice(["document", "itemize", "foo", "center"])
            out.append("\\begin{%s}%s%s%s\\end{%s}" % (env, rng.choice(["", "\n", " "]), latex(rng, depth + 1), rng.choice(["", "\n"]), env))
        elif r < .8:
            out.append("\\begin{lilypond}%s%s%s%s\\end{lilypond}" % (opt, rng.choice([" ", "\n"]), music(rng), rng.choice([" ", "\n"])))
        elif r < .92:
            out.append("\\lilypond%s{ %s }" % (opt, music(rng)))
        else:
            out.append("\\%s%s{%s}" % (rng.choice(["lilypondfile", "musicxmlfile"]), opt, rng.choice(["foo.ly", "a b.xml"])))
        if rng.random() < .5:
            out.append(rng.choice([" ", "\n", " text "]))
    return "".join(out)


def wide(rng, scheme=.04, embed=.16, size=400):
    """(language, text) of a document of any kind."""
    while True:
        r = rng.random()
        if r < scheme:
            lang, text = "scheme", "\n".join(corpus.scheme(rng) for _ in range(rng.randrange(1, 4)))
        elif r < scheme + embed:
            lang = rng.choice(["html", "latex"])
            text = (html if lang == "html" else latex)(rng)
        else:
            lang, text = "lilypond", lilypond(rng)
        if len(text) <= size:
            return lang, text
