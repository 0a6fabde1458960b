"""The stages of each property, see check.py and DESIGN.md."""
import decimal
import random
import struct as struct_of

PARALLEL = 2
PLAIN = ("", "")
PROPERTIES = {}


class Atom(str):
    """A string of the specification, not a text."""


def texts(name, alpha, depth, frames=(PLAIN,), emit=1, **kw):
    """All texts of the tokens, see spec/Texts.tla."""
    return dict(name=name, module="Texts",
                conf={"alpha": list(alpha), "frames": [list(f) for f in frames], "depth": depth, "emit": emit}, **kw)


def typing(name, alpha, depth, num, frames=(PLAIN,), emit=1, **kw):
    """Random texts of the tokens."""
    return dict(texts(name, alpha, depth, frames, emit, **kw), simulate=num, depth=depth + 2)


def nest(name, patterns, lo, hi, step=1, **kw):
    """Nested texts (open, repeated, core, repeated, close), see spec/Nest.tla."""
    return dict(name=name, module="Nest", conf={"patterns": patterns, "from": lo, "to": hi, "step": step, "mark": "\x01"}, **kw)


def edits(name, docs, pieces, count, num=None, **kw):
    """Edited documents, see spec/Edits.tla."""
    st = dict(name=name, module="Edits",
              conf={"docs": docs, "pieces": pieces, "edits": count, "all": num is None}, **kw)
    if num is not None:
        st.update(simulate=num, depth=count + 2)
    return st


def recorded(name, kind, count, limit, **kw):
    """The crate on random inputs of the harness, see harness/src/record.rs."""
    return dict(name=name, record=kind, module="Validate" if kind == "texts" else "Dumped", count=count, args=[limit],
                least=count, **kw)


CHARS = [chr(c) for c in range(32, 127)] + list("\t\n\r\f\0\x01\x7f\x85\xa0\u00e9\u2028\u4e16\ufeff\U0001f600")


def chars(q, frames, **kw):
    """Every character in every frame."""
    return texts("every", CHARS, 1 if q else 2, frames, **kw)


def counts(q, patterns, hi=20, **kw):
    """Every pattern with any number of repetitions."""
    return nest("counts", patterns, 1, hi if q else 4 * hi, **kw)


def prop(pid, stages, assumptions=()):
    PROPERTIES[pid] = {"stages": stages, "assumptions": list(assumptions)}



# ---------------------------------------------------------------- contexts
CTX = [PLAIN, ("a: ", ""), ("- ", ""), ("[", "]"), ("{a: ", "}"), ("", ": b"), ("a:\n  ", "\nb: 1")]
WIDE = "\u00e9\u4e16\U0001f600"
PUNCT = [c for c in map(chr, range(33, 127)) if not c.isalnum()]

DOCS = [
    "a: b\nc:\n  - d\n  - e: 1\n    f: [x, 'y']\ng: 2.5\n",
    "# head\n- {a: 1, b: [~, true]}\n- |\n  text\n   more\n\n- >-\n  x\n  y\n- \"q\\n\" # tail\n",
    "%YAML 1.2\n%TAG !e! tag:e.com,2000:\n---\n!e!x &a {k: &b v}\n...\n---\n- !!str 1\n- !<t:x> y\n",
    "base: &base\n  n: 1\nuse: *base\nlist: [*base, 'it''s', \"\\u00e9\"]\n",
    "? complex\n: - v\n? [k, 2]\n: {z: -1.5e3}\nlast: null\n",
    "\u00e9t\u00e9: '\u4e16\u754c'\r\nk:\r\n  - \U0001f600\r\n  - 0x1F\r\n",
    "a:\n- 1\n- plain text\n  over lines\n- b: c\n  d:\n    e: f\n",
]
PIECES = ["a", " ", "\n", "\n  ", ": ", "- ", "? ", "[", "]", "{", "}", ",", "#", " #c\n", "'", "\"", "\\", "|", ">",
          "&a ", "*a", "!t ", "!e!t ", "!<t> ", "%", "---\n", "\n...\n", "1", "-1.5", "~", "\t", "\r", "\u00e9", "\U0001f600", ":"]

BLOCK = ["a: ", "- ", "a", "\n", "\n  ", "\n    ", "? ", ": "]
LINES = BLOCK + ["b: ", "c", "\n\n", " #x", "\n      ", "1", "[]", "b:", "-", "\n ", "  ", "'q'", "|\n", "&x ", "!t "]
FLOW = ["[", "]", "{", "}", ",", ":", " ", "a", "\"b\"", "\n", "? "]
ANCH = ["&a ", "&b ", "*a", "*b", "a: ", "b: ", "- ", "\n", "\n  ", "[", "]", ", ", "x"]


# ---------------------------------------------------------- presentations
def style(q="plain", **kw):
    return dict({"q": Atom(q), "fold": False, "esc": 1, "w": 2, "flow": False, "nl": False, "cx": False, "nul": 1, "ind": False,
                 "num": False}, **kw)


STYLES = [style(q, fold=f, esc=e, w=w, flow=fl, nl=nl, cx=cx, nul=1 + (w + f + cx) % 3, ind=w == 3, num=e == 2 and w == 1)
          for q in ("plain", "single", "double", "literal", "folded") for f in (False, True) for e in (1, 2)
          for w in (0, 1, 2, 3, 4) for fl in (False, False, False, True) for nl in (False, True) for cx in (False, True)]
FEW = [style(), style("single", w=0, nul=2), style("literal", w=1, nl=True, nul=3), style("double", flow=True, cx=True), style("folded", w=4, cx=True, fold=True)]
WORDS = ["a", "b c", "x", "é", "世", "😀", "word", "it's", "\"q", "\\n", "\\", "C: d", " ", "\n", "\n\n", "#", " #", ": ", "-", "- ", "1",
         "k:v", "a", "b", "/", "null", "---", "...", "[", "]", "{", "}", ",", "*a", "&b", "!t", "|", "%", "@", "z z"]
CONTROL = ["\t", "\r", "\0", "\x07", "\x1b", "\x85", "\u2028", "\ufeff", "\f"]
VALUES = [("null", ""), ("bool", "true"), ("bool", "false"), ("int", "1"), ("int", "-20"), ("int", "0x1F"), ("int", "0o17"),
          ("float", "1.5"), ("float", "-2e3"), ("str", ""), ("str", "a"), ("str", "b c"), ("str", "1"), ("str", "null"), ("str", "~")]
TAGS = [""] * 15 + ["t", "tag:yaml.org,2002:str", "tag:yaml.org,2002:x", "tag:e.com,2000:a/b", "e-1"]


def scalars(vs):
    return [{"t": Atom(t), "v": v} for t, v in vs]


def present(name, values, styles, size, level=3, docs=1, layouts=((1,),), br=("\n",), num=None, pieces=(), mix=0,
            tags=("",), names=(), alias=0, **kw):
    """Data in presentations, see spec/Events.tla and spec/Present.tla."""
    st = dict(name=name, module="Present", conf=dict(
        values and {"scalars": scalars(values)} or {"scalars": []}, styles=styles, size=size, level=level, docs=docs, layouts=layouts, br=br,
        pieces=pieces, mix=mix, tags=tags, names=names, alias=alias, all=num is None), **kw)
    if num is not None:
        st.update(simulate=num, depth=3 * size + 4)
    return st


DVALUES = VALUES + [("int", "12345678901234567890123"), ("int", "-0"), ("float", "1"), ("float", "-0"), ("float", "inf"), ("float", "-inf"),
                    ("float", "NaN"), ("float", "100000000000000000000"), ("float", "0.000001"), ("float", "1e999"), ("float", "1.10"), ("float", "5.0"), ("float", "1e-7"),
                    ("str", "a\nb"), ("str", "a\n"), ("str", " a\nb\n"), ("str", "- a"), ("str", "a: b"), ("str", "a #b"), ("str", "true"),
                    ("str", "1e5"), ("str", "0x1F"), ("str", ".nan"), ("str", "---"), ("str", "[a]"), ("str", "%a"), ("str", "*a"), ("str", "\ttab"),
                    ("str", "a\n\nb\n\n"), ("str", "x "), ("str", "é"), ("str", "😀")]
DTAGS = [""] * 12 + ["t", "tag:yaml.org,2002:str", "tag:yaml.org,2002:x", "tag:yaml.org,2002:", "tag:e.com,2000:a/b", "e-1", "1", "-x", "é", "a b"[:1] + "!b", "!"]


def written(name, want, values, size, level=3, docs=1, num=None, pieces=(), mix=0, tags=("",), names=(), alias=0, **kw):
    """Written data, see spec/Events.tla and spec/Dumper.tla."""
    st = present(name, values, [{}], size, level, docs, num=num, pieces=pieces, mix=mix, tags=tags, names=names, alias=alias, **kw)
    st["module"] = "Dumper"
    st["conf"]["want"] = Atom(want)
    return st


# ------------------------------------------------------------- big data
def at(t, v="", tag="", a=""):
    return {"t": Atom(t), "v": v, "tag": tag, "a": a}


def S(*v, **kw): return at("seq", list(v), **kw)
def M(*v, **kw): return at("map", list(v), **kw)
def row(*v): return {"x": Atom("row"), "v": list(v)}
def chain(w, c): return {"x": Atom("chain"), "w": w, "c": c}


HOLE, X, NO, LINES2 = {"x": Atom("hole")}, at("str", "x"), at("null"), at("str", "a\nb")
NTH, NUM = at("str", "k\1"), at("int", "\1")
BIG = [[S(row(X))], [S(row(NUM))], [M(row(NTH, X))], [M(row(NUM, NO))], [S(row(S()))], [S(row(S(X)))], [S(row(S(X, X)))], [S(row(M(NTH, X)))], [S(row(M(NTH, X, X, NUM)))],
       [M(row(NTH, S(NUM)))], [M(row(NTH, S(X, S(NUM))))], [M(row(NTH, M(X, NUM)))], [M(row(NTH, M(X, NUM, NUM, S(X))))], [M(row(S(NUM), X))], [M(row(M(NUM, X), S(X)))],
       [chain(S(HOLE), X)], [chain(S(X, HOLE), X)], [chain(S(HOLE, X), NO)], [chain(M(X, HOLE), X)], [chain(M(X, HOLE, NUM, X), X)], [chain(M(NUM, X, X, HOLE), NO)],
       [chain(S(M(X, HOLE)), X)], [chain(M(X, S(HOLE)), X)], [chain(S(M(X, HOLE, NUM, S(X))), X)], [chain(M(X, S(X, HOLE)), S())], [chain(M(HOLE, X), X)], [chain(S(M(S(X), HOLE)), M())],
       [chain(M(X, HOLE), LINES2)], [chain(S(HOLE), LINES2)], [chain(S(M(X, HOLE)), LINES2)], [chain(M(X, S(M(NUM, LINES2), HOLE)), LINES2)], [S(row(LINES2))], [M(row(NTH, LINES2))],
       [S(row(M(NTH, LINES2)))], [chain(S(S(HOLE), S(X)), X)], [chain(M(NUM, S(X, S(X)), X, M(X, HOLE)), X)], [row(X)], [row(S(NUM, X))], [row(M(NTH, X), S())], [row(LINES2)],
       [S(at("str", "x"), row(NO), at("str", "y"))], [M(X, S(row(X)), NUM, M(row(NTH, NO)))], [S(S(row(X)), S(row(S(NUM))), X)], [S(at("str", "\1")), S(row(at("bool", "true"), at("float", "\1.5")))]]
SINGLE = [p for p in BIG if len(p) == 1 and "x" not in p[0] or len(p) == 1 and p[0]["x"] == "chain"]
#: anchors, aliases and tags
MARKED = [[S(row(at("str", "x", a="a\1")))], [S(row(at("int", "1", tag="t\1")))], [M(row(at("str", "k\1", a="k\1"), at("alias", "k\1")))], [S(at("int", "1", a="a"), row(at("alias", "a")))],
          [chain(S(HOLE, a="a\1"), X)], [chain(S(HOLE, tag="t\1"), X)], [chain(M(X, HOLE, a="m\1", tag="t"), X)], [chain(S(M(X, HOLE, tag="t\1")), X)], [chain(M(X, S(HOLE, a="s\1")), X)],
          [row(S(at("str", "x", a="a"), at("alias", "a")))], [row(at("str", "x", a="a\1"))], [S(row(S(X, a="a\1"), at("alias", "a\1")))], [M(row(NTH, M(X, X, a="b\1", tag="tag:yaml.org,2002:m\1")))],
          [S(row(M(S(X, a="c\1"), at("alias", "c\1"))))], [M(row(NTH, at("str", "a\nb", a="l\1", tag="t")))], [S(row(S(a="e\1"), M(tag="u\1")))],
          [S(at("int", "1", a="a"), S(row(at("alias", "a"))), M(row(NTH, at("alias", "a"))))], [row(at("null", "", tag="tag:yaml.org,2002:x\1")), S(row(at("str", "1", a="n\1")))]]


def strings(q):
    """Data with every character at every place."""
    some = CHARS if not q else list(" \n\t\r#:-?&*!|>'\"%@`,[]{}~=.0aé")
    all_ = dict.fromkeys([f + c + g for c in CHARS for f, g in (("", ""), ("a", "b"), ("a", ""), ("", "b"), ("1", ""), ("a\n", "\nb"), ("a\n", ""), ("", "\nb"), (" ", ""), ("a ", " b"))]
                         + [a + b for a in CHARS for b in some] + [w + c for w in ("null", "true", "1.5", ".nan", "0x1", "---", "...", "~") for c in CHARS])
    each = [at("str", s) for s in all_]
    return [[S(*each[i:i + 5])] for i in range(0, len(each), 5)] + [[M(*each[i:i + 6])] for i in range(0, len(each) - 5, 6)] + [[S(M(X, s))] for s in each[::7]] \
        + [[M(X, S(s, S(s)), s, NO)] for s in each[3::7]] + [[s] for s in each[::3]] + [[M(S(s), M(s, s))] for s in each[1::7]] + [[s, s] for s in each[::17]]


def tagged():
    """Every tag and anchor on every kind of node."""
    tags = [t for c in CHARS if c not in " <>\n\r" for t in (c, "a" + c + "b", "a" + c, c + "a", "tag:yaml.org,2002:" + c, "tag:yaml.org,2002:x" + c + "y", "tag:" + c)] \
        + ["tag:yaml.org,2002:" + k for k in ("null", "bool", "int", "float", "str", "seq", "map", "binary", "st", "strs")] + ["tag:yaml.org,2002", "tag:yaml.org,2003:int", "x" * 30]
    names = [n for c in map(chr, range(48, 123)) if c.isalnum() for n in (c, "a" + c, c + "-b", c + "-" + c + "a")] + ["x" * 30, "null", "true", "1", "a-b-c"]
    nodes = lambda **kw: [at("null", **kw), at("bool", "true", **kw), at("int", "1", **kw), at("float", "1.5", **kw), at("str", "x", **kw), at("str", "", **kw), at("str", "a\nb", **kw),
                          at("str", "- x", **kw), S(**kw), M(**kw), S(X, **kw), M(X, X, **kw)]
    ways = [lambda n: [S(n, X)], lambda n: [M(X, n, at("str", "z"), NO)], lambda n: [M(n, X)], lambda n: [n, X], lambda n: [S(S(n), M(X, n))], lambda n: [M(S(n), n)]]
    out = [ways[(i + j) % len(ways)](n) for i, t in enumerate(tags) for j, n in enumerate(nodes(tag=t)) if (i + j) % 5 == 0]
    for i, a in enumerate(names):
        out += [ways[w](n) for j, n in enumerate(nodes(a=a)) for w in [(i + j) % 4] if (i + j) % 4 == 0]
        out += [[S(n, at("alias", a), M(at("alias", a), at("alias", a)))] for j, n in enumerate(nodes(a=a, tag=tags[(7 * i) % len(tags)])) if (i + j) % 4 == 1]
    return out


def big(name, module, patterns, lo, hi, styles=1, **kw):
    """Big data, see spec/Big.tla."""
    conf = dict(patterns=patterns, mark="\1", all=True, styles=styles if isinstance(styles, list) else [{}] * styles)
    conf["from"], conf["to"] = lo, hi
    conf.update(kw.pop("conf", {}))
    return dict(name=name, module="Big" + module, conf=conf, **kw)


def p01(q):
    pats = [["", "[", "", "]", ""], ["", "{a: ", "1", "}", ""], ["", "- ", "a", "", ""], ["", "[{a: ", "", "}]", ""],
            ["", "? ", "a", "", "\n: b"], ["a: ", "[", "1", "]", "\nb: c"], ["", "{", "", "}", ""], ["", "[", "", "", ""],
            ["", "{? ", "", ": }", ""], ["- ", "&a [", "x", "]", ""], ["", "!t [", "x", "]", ""], ["", "a: ", "b", "", ""]]
    ks = [(1, 5, 1), (96, 104, 1), (190, 206, 1), (250, 1000, 250)] if not q else [(1, 3, 1), (99, 102, 1), (197, 203, 2), (500, 500, 1)]
    return [nest(f"nest{i}", pats, *k, workers=3) for i, k in enumerate(ks)] + [
        edits("edits", DOCS, PIECES, 6, 400 if q else 20000),
        typing("chars", [chr(c) for c in range(32, 127)] + ["\n", "\r", "\t", "\f", "\0", "\u0085", "\ufeff", "\ufffd"] + list(WIDE)
               + [": ", "- ", "\n  ", "\n"] * 4, 14, 700 if q else 60000),
            recorded("texts", "texts", 5000 if q else 150000, 400, workers=3)]


def p02(q):
    return [present("shapes", [("str", "a"), ("null", "")], FEW[:3], 3 if q else 4),
            present("mixes", VALUES, STYLES, 12, 4, 2, num=600 if q else 40000, pieces=WORDS + CONTROL + PUNCT, mix=4, tags=TAGS,
                    names=["a", "b-1", "C2"], alias=1),
            big("chars", "Present", strings(q)[::3 if q else 1], 1, 1, FEW, conf=dict(alias=0, layouts=[[1]], br=["\n"])),
            big("big", "Present", BIG, 1, 7 if q else 30, FEW, conf=dict(alias=0, layouts=[[1]], br=["\n"]))]


def p03(q):
    return [texts("block", BLOCK, 5 if q else 7),
            texts("indent", ["a:", "b: 1", "- c", "-", "\n", " ", "x"], 6 if q else 8, emit=3),
            typing("lines", LINES, 18, 500 if q else 40000),
            chars(q, [("", ""), ("a: 1\n", "b: 2"), ("a:\n  b: 1\n", "c: 2"), ("- - a\n ", "- b"), ("a", "b: 1"), ("-", "a"), ("- a\n-", "b"),
                   ("?", " a\n: b"), ("? a\n", ": b"), ("a:", "b"), ("a:\n", "- b"), ("- a", ": b")]),
            counts(q, [("a:\n", " ", "b: 1\n", " ", "c: 2"), ("-", " ", "a\n", " ", "- b"), ("-", " ", "- a\n", " ", "- b"),
                   ("a:\n", "- x\n", "b: 1", "", ""), ("", "k\u0001: v\n", "", "", ""), ("? ", "- ", "a\n", "", ": v"),
                   ("a:\n", "\n", "  b: 1", "\n", "\nc: 1"), ("a:\n", " ", "- b\n", " ", "- c\nd: 1"),
                   ("a:\n  ", " ", "b: 1\n  ", " ", "c:\n    d: 2\ne: 3"), ("- ", "- ", "a\n", "", "- b"),
                   ("", "- \u0001\n", "- a:\n    b", "", ": c"), ("a:", " ", "\n  b:", "  ", "\n    c")])]


def p04(q):
    return [texts("flow", FLOW, 4 if q else 5, [PLAIN, ("[", "]"), ("{", "}")], emit=1),
            texts("inner", ["a", "1", ":", " ", ",", "'b'", "[]", "{}", "\"c\""], 4 if q else 6, [("[", "]"), ("{a: ", "}"), ("k: {", "}"), ("- [{", "}]")]),
            typing("mix", FLOW + ["a: ", "\"x\": ", "[]", "{}", ", ", "1", "-2", "~", "true", "'", "\n  ", "k: ", "&a ", "*a", "!t "], 16, 500 if q else 30000,
                   [PLAIN, ("[", "]"), ("{", "}"), ("a: [", "]\nb: 1"), ("- {", "}\n- x")]),
            chars(q, [("[", "]"), ("[a", "b]"), ("[a ", " b]"), ("[a, ", "]"), ("{", ": 1}"), ("{a", ": 1}"), ("{a:", "1}"), ("{a: 1", "}"),
                   ("{a: 1 ", " , b: 2}"), ("[\"a\"", "]"), ("{'a'", ": b}"), ("[[]", "]"), ("x: [", "]"), ("- {? a", "b : c}"), ("[] ", ""),
                   ("{? ", "a : b}"), ("{? a ", ": b}"), ("[1", "]"), ("{1", ": 2}")]),
            counts(q, [("[", "x\u0001, ", "", "", "]"), ("{", "k\u0001: v, ", "", "", "}"), ("[", " ", "a", " ", ", b]"),
                   ("[\n", " ", "a\n", " ", ", b]"), ("[a", "\n", ", b", "\n", "]"), ("[", "[], ", "", "", "]"),
                   ("x: {a: 1", "\n", ", b: 2", "\n", "}"), ("{a", " ", ":", " ", "b}"), ("{? a", " ", ":", " ", "b}"),
                   ("[", "{}, ", "[", "1, ", "]]"), ("[a", "\t", ",", "\t", "b]"), ("[", " a", "]", "\n", "")])]


def p05(q):
    num = list("-+.017eExoa_") + ["9"]
    words = ["null", "Null", "NULL", "nULL", "~", "true", "True", "TRUE", "tRue", "false", "False", "FALSE", "fALSE", ".inf",
             ".Inf", ".INF", ".iNF", "-.inf", "-.Inf", "-.INF", "+.inf", ".nan", ".NaN", ".NAN", ".Nan", "-.nan", "yes", "no", "on", "y",
             "-", " ", "a", ":", "#", "0", "1.0", "1.50", "-0", "0x1F", "0o17", "1e3", "1_000", "12e", "0xg", "0o8"]
    return [texts("numbers", num, 4 if q else 5),
            texts("digits", list("10.e-+x"), 5 if q else 7),
            texts("numctx", num[:11], 3, CTX[1:]),
            texts("words", words, 2, CTX),
            texts("punct", PUNCT + ["a", " ", "1"], 2 if q else 3, CTX),
            texts("lines", ["a", " ", "\n", "\n  ", "\n\n  ", "#", " #", "\n#c", ": ", "1"], 4 if q else 5, [("a: ", ""), ("- ", "\n- z"), ("[", "]"), ("k:\n  ", "")]),
            typing("long", words + ["12345678901234567890", "-9223372036854775808", "9223372036854775808", "1.7976931348623157e308",
                                    "0.000001", "007", "0.0.0", "1.", ".5", "-.5", "e5", "5e+3", "5E-3", WIDE, ", ", "\n  ", " # c\n"],
                   6, 600 if q else 40000, CTX),
            chars(q, [("a", "b"), ("1", ""), ("1.", ""), ("1", "5"), ("0x", ""), ("0o", ""), ("0x1", "f"), ("0o1", "7"), ("1e", ""), ("1e+", ""),
                   ("1.5e", "3"), (".", ""), ("-", "1"), ("tru", ""), ("nul", ""), (".in", ""), ("a: b\n    ", "c"), ("a\n", "b"), ("[1", "]"),
                   ("[a", "b]"), ("- a ", "b"), ("k: 1", "\nj: 2"), ("k: a", "\nj: 2"), ("1", ": a"), ("a", ": b")]),
            counts(q, [("", "1", "", "", ""), ("0x", "f", "", "", ""), ("0o", "7", "", "", ""), ("-", "0", "", "", ""), ("1.", "0", "", "", ""),
                   ("1e", "0", "1", "", ""), ("1", "0", ".", "0", ""), ("a", " ", "b", " ", ""), ("a: x\n", " ", "y", "\n", "\nb: 1"),
                   ("a: x", "\n", "    y", "\n", "\nb: z"), ("k: a", ":", "b", ":", ""), ("", "a", ": ", "b", ""), ("[a", " ", "b", " ", "]"),
                   ("[a", "\n", "b", "\n", "]"), ("-", "-", "1", "", ""), ("k: a", "\n    b", "", "", "\nj: 1"),
                   ("k: a\n    ", " ", "b\n    ", "\t", "c\nj: 1")])]


def p06(q):
    esc = ["\\", "n", "x", "u", "U", "0", "41", "d83d", "\"", "\n", " ", "e9", "/"]
    return [texts("single", ["'", "''", "a", " ", "\n", "\n  ", "\\", "\"", "\t", "#"], 4 if q else 5, [("'", "'"), ("a: '", "'\nb: 1")]),
            texts("double", ["\\\"", "\"", "a", " ", "\n", "\n  ", "\\\n", "\\", "'", "\\n"], 4 if q else 5, [("\"", "\""), ("- \"", "\"\n- z")]),
            texts("escape", esc, 3 if q else 4, [("\"\\", "\""), ("{\"", "\": 1}")]),
            texts("each", [chr(c) for c in range(32, 127)], 1 if q else 2, [("\"\\", "\""), ("'\\", "'"), ("\"a\\", "b\"")]),
            typing("mix", ["\\x41", "\\xe9", "\\u00E9", "\\ud83d", "\\ude00", "\\uD83D\\uDE00", "\\U0001F600", "\\U00110000", "\\u12",
                           "\\x4", "\\xg0", "\\t", "\\\\", "\\\"", "\\/", "\\e", "\\N", "\\_", "\\L", "\\P", "\\0", "\\q", "\\ ",
                           "a", " ", "\t", "\n", "\n\n", "\n  ", "\\\n  ", " \n ", "'", "''", "\"", "# c", ": ", ", ", WIDE, "\r\n"], 9,
                   800 if q else 50000, [("\"", "\""), ("'", "'"), ("a: \"", "\""), ("[\"", "\", '"), ("\"", "\": v")]),
            chars(q, [("\"a\n", "b\""), ("'a\n", "b'"), ("\"a", "\nb\""), ("'a", "\nb'"), ("'", "'"), ("\"", "\""), ("\"\\x4", "\""),
                   ("\"\\u00", "41\""), ("\"\\ud83d\\ude0", "\""), ("\"\\ud83d", "\\ude00\""), ("\"a\"", ""), ("'a'", "'"), ("\"a\\\n", "b\"")]),
            counts(q, [("\"a\n", " ", "b\"", "", ""), ("\"a", "\n", "b", "\n", "c\""), ("'", "''", "a", "''", "'"),
                   ("\"", "\\\\", "a", "\\\"", "\""), ("\"a", " ", "\n", " ", "b\""), ("'a", "\t", "\n", "\t", "b'"),
                   ("\"a\\\n", " ", "b\\\n", "\n", "c\""), ("\"", "\\n", "\n", "\\n", "\""), ("\"\\u00", "0", "1\"", "", ""),
                   ("'a\n", " ", "b\n", "\n", "c'"), ("\"", "é", "'", "é", "\""), ("'a", "\r\n", "b", "\r", "c'"), ("\"", " ", "a", " ", "\""),
                   ("k: \"a\n", " ", "b\"", "\n", "j: 1")])]


def p07(q):
    heads = ["|", "|-", "|+", ">", ">-", ">+"]
    body = ["\n", "a", " ", "\n  ", "\n   ", "\n    ", "#"]
    return [texts("headers", ["|", ">", "-", "+", "1", "2", "3", "0", " ", "#c"], 4, [("", "\n  a\n\n   b\n\n"), ("k: ", "\n  a\n   b\n\nz: 1"), ("- ", "\n  a\n\n- c")][:2 if q else 3]),
            texts("bodies", body, 4 if q else 5, [(h, "") for h in heads] + [("k: " + h, "\nz: 1") for h in heads]),
            texts("depth", ["\n      a", "\n    b", "\n", "\n     c", "\n  d: 1", "\n   "], 4 if q else 5,
                  [("x:\n  k: " + h, "\n") for h in heads] + [("x:\n  - " + h, "\n  - y") for h in heads]),
            typing("mix", body + ["\n\n", "text", "\t", "- x", "k: v", "---", "...", "\r\n  ", "\r\n", "  #c", WIDE, "\n  \n", "\n      "], 10, 500 if q else 30000,
                   [(h + i, e) for h in heads[::2] + ["- " + h for h in heads] + ["a: " + h for h in heads] for i in ("", "2") for e in ("", "\nz: 1")]),
            chars(q, [("|\n  a", "b\n  c"), ("|\n  ", "\n"), ("|", "\n  a"), (">\n  a", "\n  b"), (">\n  a\n  ", "b"), ("k: |\n  a\n", "b: 1"),
                   ("k: |\n ", "a\n"), ("- >2\n  ", "a\n"), ("|-", "\n a")]),
            counts(q, [("a: |\n", " ", "x\n", " ", "y\n"), ("a: |\n  x", "\n", "  y", "\n", ""), ("a: >\n  x", "\n", "  y", "\n", ""),
                   ("a: >-\n  x", "\n", "  y", "\n", "b: 1"), ("a: |+\n  x", "\n", "  y", "\n", "b: 1"), ("a: |\n  x\n", " ", "\n  y\n", " ", "\n"),
                   ("k:\n  - |\n", " ", "a\n", " ", "b\n"), ("a: >\n  x", "\n  y", "", "\n", "b: 1"), ("a: |\n", "\n", "  x\n", "", ""),
                   ("|", " ", "\n a", " ", "\n"), ("a: >+\n  x\n", "\n", "  y\n", "\n  z", "\n"), ("a: |\n  x\n", "\t", "y\n", "", ""),
                   ("a: |2\n", " ", "x\n", " ", "y\n"), ("a: |", "#", " c\n  x", "\n", "")])]


LAYOUTS = [[k] for k in range(1, 8)] + [[1, 2, 5, 3, 4], [4, 7, 1, 6]]
BREAKS = ["\n", "\r\n", "\r"]


def p08(q):
    plain = [style(), style("single", fold=True, w=3)] + [style("literal", w=1, cx=True), style("folded", w=4, flow=True, nl=True, nul=3)]
    return [present("small", [("str", "b c"), ("null", ""), ("str", "x\ny\n")], plain, 2, 2, 1, LAYOUTS, BREAKS),
            present("pairs", [("str", "b c")], plain[::2], 3 if q else 4, 2, 1, LAYOUTS[1::2] if q else LAYOUTS, BREAKS[:2] if q else BREAKS),
            present("streams", [("str", "a"), ("int", "1")], plain[2:], 3, 1, 3, LAYOUTS[::2], BREAKS),
            big("big", "Present", BIG[1::2] if q else BIG, 3, 4 if q else 20, FEW[::2], conf=dict(alias=0, layouts=LAYOUTS[1::2], br=BREAKS[:2])),
            present("mixes", VALUES, STYLES, 14, 4, 3, num=600 if q else 40000, pieces=WORDS, mix=4, tags=TAGS, names=["a", "b"], alias=1, br=BREAKS),
            chars(q, [("# ", "\na: 1"), ("a: 1 #", "\nb: 2"), ("a: 1", "\nb: 2"), ("a: 1 ", "\nb"), ("", "a: 1"), ("a: 1\n", ""), ("- a", "\n- b"),
                   ("- [a] ", "\n- b"), ("a: 'b' ", "\nc: d"), ("a:", "\n  b: c"), ("a: |", "\n  b"), ("--- ", "\na"), ("a\n... ", "")]),
            counts(q, [("a: 1", " ", "# c", "#", "\nb: 2"), ("a: 1\n", "\n", "b: 2", "\n", ""), ("a: 1", "\r", "b: 2", "\r\n", ""),
                   ("", "# c\n", "a: 1\n", "# d\n", "b: 2"), ("- a", " \n", "- b", "\t\n", "- c"), ("a:", " # c\n", "  b: 1", "\n  # d", "\nc: 2"),
                   ("a:", "\n  # c", "\n  - b", "\n# d", "\n  - c"), ("[a", "\n", ", b", "\r\n", "]"), ("a: \"b\"", "\t", "\nc: 'd'", " ", "\ne: f"),
                   ("---", " ", "a", "\n", "...")])]


def p09(q):
    return [texts("anchors", ANCH, 4 if q else 5),
            present("data", [("str", "a"), ("int", "1"), ("null", "")], STYLES[:64], 14, 4, 2, num=400 if q else 20000, names=["a", "b", "c", "a1", "b-2"], alias=1, tags=TAGS),
            present("shapes", [("str", "a")], FEW[:1] + FEW[3:4], 4 if q else 5, 2, 1, names=["a", "b"], alias=1),
            big("big", "Present", MARKED, 1, 9 if q else 30, FEW[:4], conf=dict(alias=1, layouts=[[1]], br=["\n"])),
            typing("mix", ANCH + ["\n---\n", "!t ", "&c ", "*c", "{", "}", "y", "\n- ", "\na: ", "\n  - ", "1", "'q'", "c: ", "? ", "\n: "], 14, 1000 if q else 50000),
            chars(q, [("- &", " x\n- *", ""), ("- &a", " x\n- *a", ""), ("- &a", "b x\n- *a", "b"), ("- &a x\n- *a", ""), ("- &a x\n- *", ""),
                   ("- &a x\n- ", "*a"), ("- &a", "x"), ("- &", "a x\n- *a"), ("[&a x, *a", "]"), ("a: &b", "c"), ("*a", ": b"), ("&a", ": b"),
                   ("- &a !", "t b\n- *a")]),
            counts(q, [("", "- &a\u0001 x\u0001\n", "", "- *a\u0001\n", ""), ("- &", "a", " x\n- *", "a", ""), ("- &a1 x\n", "- *a1\n", "", "", ""),
                   ("", "- &a x\n---\n", "- *a", "", ""), ("a: &x", " ", "b\nc: *x", " ", ""),
                   ("- &a\n  - b\n", "- *a\n", "", "- &b\u0001 *a\n", ""), ("- &a [", "x, ", "]\n- [", "*a, ", "]"),
                   ("", "--- &a b\n", "--- *a", "", "")])]


def p10(q):
    return [present("data", [("str", "a"), ("int", "1"), ("null", "")], STYLES[:64], 14, 4, 2, num=400 if q else 20000, names=["a", "b", "c", "a1", "b-2"], alias=2, tags=TAGS),
            present("shapes", [("str", "a")], FEW[:1] + FEW[3:4], 4 if q else 5, 2, 1, names=["a", "b"], alias=2),
            texts("cyclic", ["&a", "*a", " ", "\n", "- ", ": ", "x", "[", "]", "*a-1"], 4 if q else 6),
            typing("mix", ANCH + ["\n---\n", "!t ", "&c ", "*c", "{", "}", "\n- ", "\na: ", "\n  - ", "? ", "\n: ", "*d"], 14, 1000 if q else 50000,
                   [PLAIN, ("&r\n", ""), ("--- &r\n", "\nz: *r"), ("- &r ", "\n- *r")]),
            chars(q, [("- &", " x\n- *", ""), ("- &a", " x\n- *a", ""), ("- *a", ""), ("*a", ": b"), ("- &a", "x"), ("[*a", "]"), ("{*a", ": *b}"),
                   ("a: *", "\nb: c")]),
            counts(q, [("", "- &a\u0001 x\u0001\n", "", "- *a\u0001\n", ""), ("", "- *a\u0001\n", "", "- &a\u0001 x\n", ""),
                   ("", "--- &a x\n", "--- *a", "", ""), ("", "&a\u0001 \n- ", "*a1", "", ""), ("", "--- &a\u0001\n- *a\u0001\n", "", "", ""),
                   ("- &a [", "*a, ", "]\n- [", "*a, ", "]")])]


def p11(q):
    tags = ["!", "!!", "a", "e!", "<", ">", "b-1", " ", "\n", "&x ", ": ", "x", "t:y,"]
    dirs = ["%YAML", "%TAG", " ", "1.2", "1.1", "1.3", "!", "!!", "!e!", "t:e:", "\n", "#c", "%FOO", "a"]
    return [texts("tags", tags, 4 if q else 5),
            texts("handles", ["!e!x", "!y", "!!int", "!f!x", "!<v>", " ", "\n", "1", "a: ", "- ", "! "], 3 if q else 4,
                  [("%TAG !e! tag:e,2000:\n---\n", ""), ("%TAG ! !loc-\n---\n", ""), ("%TAG !! t:x:\n%TAG !f! t:f\n---\n", ""),
                   ("%TAG !e! a\n%TAG !e! b\n--- ", "\n---\n!e!z w")]),
            texts("dirs", dirs, 4 if q else 5, [("%", "\n---\n!e!x a")] if q else [("%", "\n---\n!e!x a"), ("", "\n---\n!e!x a")]),
            typing("mix", ["%YAML 1.2\n", "%YAML 1.1\n", "%YAML 2.0\n", "%TAG !e! t:e:\n", "%TAG ! t:l:\n", "%TAG !! t:s:\n", "%FOO\n", "#c\n", "\n",
                           "---\n", "---", "...\n", "!e!x ", "!!x ", "!x ", "!<t> ", "! ", "!e!", "a", "a: ", "- ", "[", "]", ",", "\n", "\n  ", "&b ", "*b", "1", "~", "''"],
                   12, 800 if q else 50000),
            chars(q, [("!", " x"), ("!a", " x"), ("!a", "b x"), ("!!", " x"), ("!!a", "b x"), ("!<", "> x"), ("!<a", "b> x"),
                   ("%TAG !", "! t:\n--- !", "!x y"), ("%TAG !e", "! t:\n--- !e", "!x y"), ("%TAG !e! ", "\n--- !e!x y"),
                   ("%TAG !e! a", "b\n--- !e!x y"), ("%TAG ! a", "b\n--- !x y"), ("%YAML 1.2", "\n--- a"), ("%YAML 1.", "\n--- a"),
                   ("%YAML", "1.2\n--- a"), ("%", "\n--- a"), ("%TAG", "!e! t:\n--- !e!x y"), ("%TAG !e!", "t:\n--- !e!x y"), ("---", "!a b"),
                   ("!a", "&b c"), ("!a &b", "c"), ("&b !a", "c"), ("a: !t", "b")]),
            counts(q, [("", "%TAG !e\u0001! t\u0001:\n", "---\n", "- !e\u0001!x y\n", ""), ("%TAG !e! ", "a", "\n--- !e!x y", "", ""),
                   ("%TAG", " ", "!e!", " ", "t:\n--- !e!x y"), ("!", "a", " b", "", ""), ("!<", "a", "> b", "", ""),
                   ("", "%FOO a\n", "---\na", "", ""), ("%YAML", " ", "1.2", " ", "\n--- a"), ("", "%YAML 1.2\n", "--- a", "", ""),
                   ("", "%TAG !e! t\u0001:\n", "--- !e!x y", "", ""), ("- !a", " ", "b\n- &x", " ", "!c d"),
                   ("%TAG !", "e", "! t:\n--- !", "e", "!x y"), ("", "- !!a\u0001 b\n", "", "", "")])]


def p12(q):
    return [texts("stream", ["---", "...", "\n", " ", "a", "- ", "k: ", "#c"], 5 if q else 7),
            texts("ends", ["\n---\n", "\n...\n", "\n---", "---\n", "...", "a", "\n", "|\n  t", "'q'", "[x]", "- y", "k: v"], 4 if q else 5),
            texts("docs", ["a\n", "---\n", "...\n", "--- b\n", "\n"], 6 if q else 8),
            typing("mix", ["---\n", "\n---\n", "--- ", "\n...\n", "...\n", "---", "...", "\n", "a", "- b\n", "k: v\n", "  - c\n", "|\n  t\n", ">\n", "'q", "'",
                           "[", "]", "#c\n", " ", "&a ", "*a", "%YAML 1.2\n", "\t", "\r\n", "--- #c\n", "---a", "....", "x\n  y\n"], 12, 800 if q else 50000),
            chars(q, [("---", ""), ("---", "a"), ("a\n---", "b"), ("a\n...", "b"), ("a\n...", "\n---\nb"), ("a\n--", "-b"), ("a: 1\n", "---\nb"),
                   ("---", "---"), ("|\n  a\n...", "b"), ("[a]", "\n--- b"), ("- a\n---", "- b"), ("'a'\n...", "\n"), ("a\n...\n", "b"),
                   ("a\n...\n", "--- b"), ("", "---\na")]),
            counts(q, [("", "---\n", "a", "\n---", ""), ("", "--- d\u0001\n", "", "", ""), ("a\n", "...\n", "--- b", "", ""),
                   ("a\n...", "\n", "---\nb", "", ""), ("a\n---", " ", "b\n---", "\n", "c"), ("", "- \u0001\n...\n---\n", "a", "", ""),
                   ("", "--- |\n  a\n", "", "", ""), ("", "--- [a]\n", "...", "", ""), ("a\n", "\n", "--- b\n", "# c\n", "--- d"),
                   ("---", "-", "\na", "", ""), ("a\n..", ".", "\n--- b", "", "")])]


def p13(q):
    toks = ["\u00e9", "a: ", "- ", "\n", "\n  ", "[", "]", ", ", "x", "'q'", "&a ", "!t ", " "]
    return [texts("small", toks, 4 if q else 5),
            typing("mix", toks + ["*a", "{", "}", ": ", "? ", "\r\n", "#c\n", "\U0001f600", "|\n  t\n", ">\n  f\n", "\"d\"", "1.5", "~", "---\n", "k: ", "\n- ", "\nz: ", "\t"], 14,
                   700 if q else 50000),
            edits("edits", DOCS, [" ", "  ", "\n", "x", "- ", "\u4e16", "#c\n", "\r\n"], 2 if q else 3, 1500 if q else 60000),
            recorded("texts", "texts", 4000 if q else 120000, 250),
            chars(q, [("a: ", "b"), ("é: ", "b"), ("- &a", "b"), ("- !t ", "b"), ("a:\n", "b: c"), ("[a,", "b]"), ("{a:", "b}"), ("? a\n:", "b")]),
            counts(q, [("", "é", ": ", "é", "\n"), ("", "é\n", "- a", "", ""), ("a:", " ", "b\nc:", " ", "d"), ("- &a", " ", "b\n- !t", " ", "c"),
                   ("a:", "\n", "  b:", " ", "c"), ("", "k\u0001: é\n", "", "", ""), ("[", "é, ", "{", "😀: 1,", "}]"),
                   ("", "\r\n", "a: b", "\r\n", "c: d"), ("a: &x", " ", "!t", " ", "b")])]


def p14(q):
    return [edits("one", DOCS[:4] if q else DOCS, PIECES if not q else ["a", "\n", "[", "}", "'", ": ", "&a ", "!z!t ", "\u4e16", "\t"], 1),
            edits("many", DOCS, PIECES, 5, 500 if q else 30000),
            dict(name="lines", module="Indicate", conf=dict(alpha=["a", "\n", "\u00e9", "\r", "\U0001f600b"], depth=5 if q else 7, emit=0, all=True)),
            dict(name="offsets", module="Indicate", conf=dict(alpha=PIECES + DOCS, depth=9, emit=9, all=False), simulate=800 if q else 20000, depth=11),
            typing("broken", LINES + FLOW + ANCH + ["\u00e9", "!z!q ", "!<", "'", "\"", "%YAML 1.2\n", "%YAML 3\n", "\r\n", "---\n"], 8, 700 if q else 40000),
            recorded("texts", "texts", 4000 if q else 120000, 300),
            chars(q, [("a: ", "]"), ("é: ", "]"), ("- a\n", "b"), ("[a,", "b"), ("{a", "}"), ("\"a", "\n"), ("a: b\n", " c: d"), ("a\r", "]"),
                   ("a: !x!", "b"), ("*", "")]),
            counts(q, [("a: 1\n", "b\u0001: 2\n", "]", "", ""), ("", "\n", "]", "", ""), ("a: ", "é", "]", "é", ""), ("a: [", " ", "a", " ", "b:"),
                   ("a: 1\n", " ", "b: ]", "", ""), ("", "é\n", "]", "", ""), ("", "\r\n", "]", "\r\n", ""), ("", "a: \n", "\"", "b\n", ""),
                   ("k: [", "\n", "}", "\n", "")])]


def p15(q):
    some = [("null", ""), ("str", "a"), ("str", "x\ny")]
    return [written("shapes", "value", some, 4 if q else 5, 3),
            written("scalars", "value", DVALUES, 3, 1, num=None if not q else 250),
            written("strings", "value", [], 3, 2, num=400 if q else 60000, pieces=WORDS + CONTROL + PUNCT, mix=4),
            written("mixes", "value", DVALUES, 16, 4, 2, num=400 if q else 40000, pieces=WORDS + CONTROL, mix=3),
            big("chars", "Dumper", strings(q), 1, 1, conf=dict(want=Atom("value"))),
            big("big", "Dumper", BIG, 1, 14 if q else 60, conf=dict(want=Atom("value"))),
            recorded("trees", "value", 4000 if q else 120000, 40)]


def p16(q):
    some = [("str", "a"), ("null", "")]
    return [written("shapes", "tag", some[:1], 3 if q else 4, 2, 1, names=["a", "b"], alias=2, tags=["", "t"]),
            written("tags", "tag", [("str", "a"), ("int", "1")], 2, 1, 1, tags=DTAGS[11:]),
            written("mixes", "tag", DVALUES, 14, 4, 2, num=300 if q else 40000, tags=DTAGS, names=["a", "b-1", "C2", "d"], alias=2),
            big("chars", "Dumper", tagged(), 1, 1, conf=dict(want=Atom("tag"))),
            big("big", "Dumper", MARKED + BIG[::4], 1, 14 if q else 60, conf=dict(want=Atom("tag"))),
            recorded("trees", "tag", 4000 if q else 120000, 40)]


def p17(q):
    some = [("null", ""), ("str", "a"), ("str", "x\ny")]
    return [written("shapes", "text", some, 4 if q else 5, 3),
            written("anchors", "text", some[1:2], 3 if q else 4, 2, 1, names=["a"], alias=2, tags=["", "t"]),
            written("mixes", "text", DVALUES, 16, 4, 3, num=250 if q else 40000, pieces=WORDS + CONTROL, mix=3, tags=DTAGS, names=["a", "b"], alias=2),
            big("chars", "Dumper", strings(True)[::2 if q else 1], 1, 1, conf=dict(want=Atom("text"))),
            big("big", "Dumper", BIG + MARKED, 1, 14 if q else 60, conf=dict(want=Atom("text"))),
            recorded("trees", "text", 4000 if q else 120000, 40)]


NUMS = [("int", "1"), ("int", "01"), ("int", "+1"), ("int", "0x1"), ("int", "0o1"), ("int", "-1"), ("int", "0"), ("int", "-0"), ("int", "31"),
        ("int", "0x1F"), ("int", "0x1f"), ("int", "0o37"), ("int", "9223372036854775807"), ("int", "9223372036854775808"),
        ("int", "-9223372036854775808"), ("int", "-9223372036854775809"), ("int", "18446744073709551616"), ("int", "12345678901234567890123"),
        ("float", "1"), ("float", "1.0"), ("float", "10e-1"), ("float", "0.1e1"), ("float", "0"), ("float", "-0"), ("float", "0.0"), ("float", "-0.0"),
        ("float", "NaN"), ("float", "inf"), ("float", "-inf"), ("float", "1e999"), ("float", "-1e999"), ("float", "1e-400"), ("float", "1.5"), ("float", "1.50"),
        ("float", "31"), ("float", "-1"), ("str", "1"), ("str", "NaN"), ("str", "0x1"), ("str", ""), ("str", "null"), ("str", "true"), ("null", ""),
        ("bool", "true"), ("bool", "false"), ("alias", "a"), ("alias", "b"), ("alias", "1"), ("str", "a")]


NUMS += [("int", v) for v in ("-0x1F", "-31", "+0x1f", "+31", "-0o37", "-0x8000000000000000", "-0x8000000000000001", "0x7FFFFFFFFFFFFFFF", "0x8000000000000000",
                              "-0x0", "-01", "00", "0x01", "10", "0x10", "0o10", "100", "101", "11", "1" * 20, "1" * 21, "-" + "1" * 20)] \
    + [("float", v) for v in ("1e1", "10", "1e-1", "0.1", "0.10", "0.30000000000000004", "0.3", "123456789.125", "123456789.12500001", "1e308", "1E+308", "9007199254740993",
                                "9007199254740991", "16777217", "16777216", "1e-300", "2e-300", "-1.5", "-1e-1", "15e-1", ".5", "5.", "0.5")]


def near(*words):
    """Texts that differ in one way or another."""
    return [v for w in words for v in dict.fromkeys([w, w + " ", " " + w, w.upper(), w.title(), w + "\n", "\n" + w, w + "\0", w + w, w[::-1], w + "\u0301", w[:-1], w[1:],
                                                     w + "\t", w + "\r", w.replace("e", "\u00e9"), w.replace("e", "e\u0301"), w + ",", w.replace(" ", "  "), w * 20, w * 20 + "x"])]


def data(name, module, values, size, level=3, docs=1, styles=1, num=None, **kw):
    """Data, see spec/Events.tla."""
    st = present(name, values, [{}] * styles, size, level, docs, num=num, **kw)
    st["module"] = module
    if num is not None:
        st["depth"] += docs
    return st


def p18(q):
    names = [("str", w) for w in near("ab", "to me")] + [("alias", w) for w in near("ab", "x-1")] + [("str", v) for v in ("1.0", "-1", "~", "inf")]
    return [data("scalars", "Equal", NUMS + (names[::2] if q else names), 1, 1, 2),
            data("names", "Equal", names, 1, 1, 2),
            data("shapes", "Equal", [("int", "1"), ("str", "a")], 3, 2, 2 if q else 3),
            big("big", "Equal", SINGLE, 1, 5 if q else 12, conf=dict(scalars=scalars([("int", "1"), ("str", "x"), ("null", "")]), tags=["", "t"], docs=2, more=[])),
            big("sizes", "Equal", SINGLE if not q else SINGLE[::2], 1, 1 if q else 3, conf=dict(scalars=[], tags=[], docs=2, more=[1, 8, 32] if q else [1, 2, 3, 4, 8, 16, 32, 64])),
            big("bytes", "Equal", [BIG[i] for i in (0, 1, 2, 15)], 1, 1 if q else 4, conf=dict(scalars=[], tags=[], docs=2, more=[128, 255, 256] + [512] * (not q))),
            data("mixes", "Equal", NUMS + names, 10, 3, 6, num=120 if q else 4000, tags=["", "", "t", "tag:yaml.org,2002:str"])]


KEYS = [("str", "a"), ("int", "1"), ("float", "1"), ("null", ""), ("str", ""), ("bool", "true"), ("alias", "x"), ("float", "NaN"), ("int", "0x10"), ("str", "A"), ("str", "a "), ("int", "16"), ("float", "1.0"),
        ("alias", "X"), ("bool", "false"), ("str", "~"), ("str", "1"), ("int", "-0x10")]


def history(name, values, ops, length, hs, num=None, tags=("",), **kw):
    """Histories of handles, see spec/Handles.tla."""
    node = lambda t, v, p, tag="": {"t": Atom(t), "v": v, "tag": tag, "p": p}
    anchors = [{"name": "x", "node": node("str", "anchored", 3)}, {"name": "y", "node": {**node("seq", "", 5, "t"), "v": [node("int", "1", 0)]}}]
    st = dict(name=name, module="Handles", conf=dict(
        len=length, hs=hs, scalars=scalars(values), keys=scalars(KEYS), ops=[Atom(o) for o in ops], tags=tags, anchors=anchors, all=num is None), **kw)
    if num is not None:
        st.update(simulate=num, depth=length + 1)
    return st


def p19(q):
    ops = ["seq", "map", "clone", "item", "set", "repr", "drop"]
    every = VALUES + NUMS[:24] + [("float", "NaN"), ("float", "1e999"), ("alias", "x"), ("alias", "y"), ("alias", "z")]
    return [history("scalars", every + NUMS, [], 1, 1),
            history("small", [("str", "a"), ("int", "1")], ops, 3, 3),
            history("mixes", every, ops, 14, 6, num=700 if q else 40000, tags=["", "", "t", "tag:yaml.org,2002:int"])]


def p20(q):
    threads = dict(name="threads", module="Threads", conf=dict(threads=2, len=3 if q else 4))
    return [threads,
            data("make", "Make", NUMS + VALUES + [("str", w) for w in near("ab")], 1, 1, 1, styles=5),
            data("pairs", "Make", [("int", "1"), ("str", "é"), ("alias", "a")], 2 if q else 3, 2, 1, styles=5),
            big("big", "Make", SINGLE, 1, 10 if q else 60, 5),
            data("makes", "Make", NUMS + VALUES, 12, 4, 1, styles=5, num=1200 if q else 40000),
            typing("parse", LINES + FLOW + ANCH, 16, 500 if q else 30000),
            edits("edits", DOCS, PIECES, 3, 300 if q else 20000),
            written("dump", "text", DVALUES, 14, 4, 2, num=60 if q else 10000, pieces=WORDS, mix=3, tags=DTAGS, names=["a", "b"], alias=2)]


# ------------------------------------------------------------- typed data
INTS = ["i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"]


def T(k, **kw):
    """A type, see spec/Serde.tla."""
    return dict({"k": Atom(k)}, **kw)


def val(k, v=()):
    return {"k": Atom(k), "v": v}


def opt(a, **kw): return T("opt", a=a, **kw)
def seq(a, **kw): return T("seq", a=a, **kw)
def tup(*v, **kw): return T("tup", v=list(v), **kw)
def struct(*f, deny=False, **kw): return T("struct", f=list(f), deny=deny, **kw)


def field(n, ty, d="need", dv=()):
    return {"n": n, "ty": ty, "d": Atom(d), "dv": dv}


def variant(n, k="unit", ty=None):
    return {"n": n, "k": Atom(k), "ty": ty or T("unit")}


def enum(*v, **kw): return T("enum", v=list(v), **kw)
def untagged(rust, conv, *v, **kw): return T("any", v=list(v), rust=Atom(rust), **(dict(conv=Atom(conv)) if conv else {}), **kw)


LEAF = [T(k) for k in ["bool", *INTS, "f32", "f64", "char", "string", "unit", "ustruct", "bytes"]]
i64, i32, u8, string, boolean, f64 = T("i64"), T("i32"), T("u8"), T("string"), T("bool"), T("f64")
POINT = struct(field("x", i32), field("y", f64), rust=Atom("Point"))
MODE = enum(variant("plain-one"), variant("new", "new", i64), variant("tup", "tup", tup(boolean, string)),
            variant("rec", "struct", struct(field("a", opt(T("u32")), "opt"), field("b", seq(T("i8"))))), rust=Atom("Mode"))
CONFIG = struct(field("name", string), field("max size", u8), field("note", opt(string), "opt"), field("list", seq(i64), "default", val("seq")),
                field("at", POINT), field("mode", MODE), field("seven", T("u16"), "default", val("u16", "7")), rust=Atom("Config"))
STRICT = struct(field("a", boolean), field("b", opt(T("char")), "opt"), deny=True, rust=Atom("Strict"))
ENUM = enum(variant("A"), variant("B", "new", opt(i32)), variant("C", "tup", tup(u8, string)), variant("D", "struct", struct(field("a", boolean), field("", string))),
            variant("E", "new", seq(i64)), variant("F", "new", T("unit")), variant("true", "new", tup(u8)), variant("1"))
EMPTY = enum(variant("A", "struct", struct(field("a", opt(u8), "opt"))), variant("B", "struct", struct()), variant("C", "tup", tup()), variant("D", "new", struct()),
             variant("E", "new", tup()), variant("F", "new", T("map", a=string, b=u8)), variant("G", "new", T("ustruct")), variant("H", "new", seq(T("unit"))), variant("I"),
             variant("J", "struct", struct(field("a", i64, "default", val("i64", "7")), field("b", string, "default", val("string")))), variant("K", "tup", tup(T("unit"))),
             variant("L", "struct", struct(field("a", T("unit")))))
NESTED = [opt(i64), opt(string), seq(u8), seq(opt(boolean)), tup(i64, string), tup(u8), tup(), T("tstruct", v=[string, f64]), T("new", a=i64), T("new", a=seq(string)),
          T("map", a=string, b=i64), T("map", a=T("i16"), b=string), T("map", a=opt(boolean), b=seq(string)), T("map", a=tup(u8, u8), b=T("unit")),
          struct(field("a", i64), field("b", opt(string), "opt")), struct(), struct(field("k v", T("char")), field("1", T("f32")), field("null", seq(T("unit")))),
          ENUM, seq(ENUM), opt(ENUM), T("map", a=T("char"), b=ENUM), EMPTY, seq(EMPTY), opt(tup(opt(i64), T("map", a=string, b=opt(T("new", a=f64))))),
          struct(field("e", ENUM), field("m", T("map", a=string, b=seq(T("i128")))), field("o", opt(seq(opt(string))), "opt")),
          seq(seq(T("i8"))), seq(T("map", a=ENUM, b=T("unit"))), seq(T("bytes")), T("new", a=T("new", a=T("char"))), T("tstruct", v=[POINT, opt(MODE)])]
DERIVED = [POINT, MODE, CONFIG, STRICT, opt(POINT, rust=Atom("Option<Point>")), seq(POINT, rust=Atom("Vec<Point>")), seq(CONFIG),
           tup(u8, u8, u8, rust=Atom("[u8;3]")), tup(T("i8"), string, rust=Atom("(i8,String)"))]
REC = struct(field("a", opt(T("u32")), "opt"), field("b", seq(T("i8"))))
ANY = untagged("Any", None, T("unit"), boolean, i64, f64, seq(opt(i64)), POINT, tup(T("i8"), string), dict(REC, only=True), string)
TAGGED = T("itag", n="type", v=[variant("Off"), variant("At", "new", POINT), variant("Rec", "struct", REC), variant("Empty", "struct", struct())], rust=Atom("Tagged"))
BESIDE = T("adj", n="t", c="c", v=[variant("Off"), variant("New", "new", i64), variant("Tup", "tup", tup(boolean, string)), variant("Rec", "struct", REC)], rust=Atom("Beside"))
FLAT = T("flat", f=[field("name", string)], at=POINT, rest=T("map", a=string, b=ANY), rust=Atom("Flat"))
OTHERS = [ANY, TAGGED, FLAT]
def inline(t, rust): return untagged(f"InlineList<{rust}>", "inline", seq(t), t)
def optional(t, rust, dv): return untagged(f"Optional<{rust}>", "optional", boolean, t, dv=dv)
STRINGIFY = untagged("Stringify", "stringify", boolean, i32, T("f32"), string)
HALF = {"k": Atom("struct"), "v": [val("i32", "-1"), val("f64", "0.5")]}
CONVS = [inline(i64, "i64"), inline(string, "String"), inline(boolean, "bool"), inline(POINT, "Point"), inline(seq(u8), "Vec<u8>"),
         optional(string, "String", val("string")), optional(i32, "i32", val("i32", "0")), optional(boolean, "bool", val("bool", "false")),
         optional(POINT, "Point", HALF), optional(seq(i64), "Vec<i64>", val("seq")), STRINGIFY]
PAIR, MAYBE, UNIT = tup(T("i8"), string, rust=Atom("(i8,String)")), opt(i64, rust=Atom("Option<i64>")), T("unit")
MORE = [optional(UNIT, "()", val("unit")), inline(UNIT, "()"), optional(T("char"), "char", val("char", "x")), optional(f64, "f64", val("f64", "0")), inline(f64, "f64"),
        inline(T("u64"), "u64"), inline(PAIR, "(i8,String)"), optional(PAIR, "(i8,String)", {"k": Atom("tup"), "v": [val("i8", "0"), val("string")]}), inline(STRINGIFY, "Stringify"),
        optional(STRINGIFY, "Stringify", {"k": Atom("alt"), "i": 4, "v": val("string")}), inline(MODE, "Mode"), optional(MODE, "Mode", {"k": Atom("var"), "i": 1, "v": []}),
        inline(MAYBE, "Option<i64>"), optional(MAYBE, "Option<i64>", val("none")), inline(u8, "u8"), optional(T("u64"), "u64", val("u64", "0")), inline(T("char"), "char")]
CONVS += MORE
INNER = [inline(optional(i32, "i32", val("i32", "0")), "Optional<i32>"),
         optional(inline(string, "String"), "InlineList<String>", {"k": Atom("alt"), "i": 1, "v": val("seq")})]
WIDE_INTS = ["0", "1", "-1", "7", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648",
             "-2147483649", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
             "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728",
             "-170141183460469231731687303715884105728", "340282366920938463463374607431768211455"]
EXPONENTS = [f"{s}{m}{e}" for s in ("", "-") for m in ("1", "2.50", "0.1", "7.0") for e in ("", "e0", "e5", "e15", "e16", "e17", "e+20", "E-3", "e-5", "e-7", "e-10", "e38", "e40", "e-50")]
FLOATS = ["0", "-0", "1", "-1.5", "0.1", "3.25", "1000000", "16777216", "inf", "-inf", "NaN", "0.000001"]
DOUBLES = ["0.30000000000000004", "123456789.125", "1e300"[:1] + "0" * 40, "1.7976931348623157"]
STRINGS = ["", "a", "null", "~", "true", "1", "1.5", "b c", "a: b", "- x", "é", "x\ny\n", " a", "#", "'q\"", "0x1F", "\t", "\r\n", "[1]", "😀", "*a", "&b", "!t", "---"]
NODES = VALUES + [("int", w) for w in WIDE_INTS[:28]] + [("int", w) for w in ["0x7F", "0xff", "0o377", "0x7FFFFFFFFFFFFFFF", "0x8000000000000000", "0xFFFFFFFFFFFFFFFFFF", "+5", "007", "-0",
                  "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105729", "1" + "0" * 45]] \
    + [("float", f) for f in FLOATS + DOUBLES + ["1.0", "2.5e3", "1e999", "-1e-400", "3.5e38", "1.10"]] \
    + [("str", s) for s in STRINGS + ["A", "C", "plain-one", "rec", "x", "name", "max size", "7", "ab"]] + [("alias", "a")]


def plain(s):
    """The number without an exponent."""
    return format(decimal.Decimal(s), "f")


def numbers(count):
    """Shortest decimal notations of single and double precision numbers."""
    r = random.Random(7)
    singles, doubles = [], []
    while len(singles) < count:
        x = struct_of.unpack("<f", struct_of.pack("<I", r.getrandbits(32)))[0]
        if abs(x) < 1e38 and x == x:
            singles.append(plain(next(s for s in (f"{x:.{d}e}" for d in range(9)) if struct_of.unpack("<f", struct_of.pack("<f", float(s)))[0] == x)))
        x = struct_of.unpack("<d", struct_of.pack("<Q", r.getrandbits(64)))[0] if count % 2 else r.uniform(-10, 10) ** r.randrange(1, 20)
        if abs(x) < 1e308 and x == x:
            doubles.append(plain(repr(x)))
    def clear(s, x):
        """No other notation of the length is as near."""
        d, e = decimal.Decimal(s), decimal.Decimal(x)
        return 2 * abs(d - e) != decimal.Decimal(1).scaleb(d.as_tuple().exponent)
    with decimal.localcontext() as c:
        c.prec = 1200
        singles = [s for s in singles if clear(s, struct_of.unpack("<f", struct_of.pack("<f", float(s)))[0])]
        doubles = [s for s in doubles if clear(s, float(s))]
    return [s[:-2] if s.endswith(".0") else s for s in singles], [s[:-2] if s.endswith(".0") else s for s in doubles]


def typed(name, want, types, length, size, edits=0, num=None, few=False, more={}, **kw):
    """Values of types, see spec/Typed.tla."""
    st = dict(name=name, module="Typed", conf=dict(
        want=Atom(want), types=types, len=length, size=size, edits=edits, all=num is None, scalars=scalars(NODES),
        ints=WIDE_INTS if not few else ["0", "-1", "300"], floats=FLOATS if not few else ["0.5"], doubles=DOUBLES if not few else [],
        chars=["a", "1", "é", " ", "~", "😀", "\n"] if not few else ["c"], strs=STRINGS if not few else ["", "s"]), **kw)
    st["conf"].update(more)
    if num is not None:
        st.update(simulate=num, depth=size * 3 + 20 + edits)
    return st


def cycle(n, of=(i64, string, boolean, opt(u8), seq(i32), f64)):
    return [of[i % len(of)] for i in range(n)]


def fields(n):
    return [field(f"f{i}", t) for i, t in enumerate(cycle(n))]


def sized(n):
    """Types with n parts."""
    kinds = [("unit", None), ("new", i64), ("tup", tup(u8, string)), ("struct", struct(field("a", boolean)))]
    return [tup(*cycle(n)), tup(*cycle(n, (u8,))), T("tstruct", v=cycle(n)), struct(*fields(n)), struct(*[field(f"f{i}", opt(i64), "opt") for i in range(n)]),
            struct(*[field(f"f{i}", i64, "default", val("i64", str(i))) for i in range(n)]),
            enum(variant("T", "tup", tup(*cycle(n))), variant("S", "struct", struct(*fields(n)))),
            enum(*[variant(f"V{i}", *kinds[i % 4]) for i in range(n + 1)])]


LISTS = [seq(i64), seq(string), seq(T("unit")), T("bytes"), T("map", a=string, b=i64), T("map", a=u8, b=string), seq(opt(boolean)), seq(enum(variant("A"), variant("B", "new", i64))),
         seq(tup(u8, u8)), T("new", a=seq(u8)), opt(seq(f64)), struct(field("v", seq(u8)), field("m", T("map", a=i64, b=boolean)))]
DEEP = [opt(seq(opt(seq(opt(seq(u8)))))), seq(T("map", a=string, b=seq(T("map", a=string, b=u8)))), T("new", a=T("new", a=T("new", a=T("new", a=opt(u8))))),
        enum(variant("A", "new", enum(variant("B", "tup", tup(enum(variant("C", "struct", struct(field("d", enum(variant("E"), variant("F", "new", u8))))))))))),
        struct(field("a", struct(field("b", struct(field("c", struct(field("d", seq(struct(field("e", u8)))))))))))]
LETTERS = dict(chars=CHARS, strs=CHARS + [f + c + g for c in CHARS for f, g in (("a", "b"), ("a", ""), ("", "b"), ("1", ""), ("a\n", "\nb"))])


def p21(q):
    singles, doubles = numbers(300 if q else 3000)
    return [typed("scalars", "ser", LEAF + [T("new", a=t) for t in LEAF], 2, 1, few=False),
            typed("options", "ser", [opt(t) for t in LEAF[:-3]] + [tup(t, boolean) for t in LEAF[1:8:3]], 1, 1),
            typed("shapes", "ser", NESTED[:15] + [POINT, MODE, STRICT, EMPTY], 1 if q else 2, 3, few=True),
            typed("mixes", "ser", NESTED + DERIVED, 3, 12, num=2500 if q else 40000),
            typed("derived", "ser", OTHERS + [BESIDE] + [seq(t) for t in OTHERS] + [opt(TAGGED)], 1 if q else 2, 3, few=True, more=dict(ints=["-1"], strs=["s"])),
            typed("random", "ser", OTHERS + [BESIDE, seq(BESIDE)], 3, 12, num=1500 if q else 20000, more=dict(floats=["0.5", "-1.25"], doubles=["0.1"], strs=["", "s", "k v", "~", "12", "true", "- a"])),
            typed("sizes", "ser", [t for n in range(13 if q else 41) for t in sized(n)], 2, 60, num=1500 if q else 20000),
            typed("lists", "ser", LISTS + DEEP, 24 if q else 80, 100, num=500 if q else 8000),
            typed("chars", "ser", [T("char"), string, opt(string)], 0, 0, more=LETTERS),
            typed("floats", "ser", [T("f32"), f64], 0, 0, more=dict(floats=singles, doubles=doubles))]


def p22(q):
    singles, doubles = numbers(300 if q else 3000)
    numbered = [t for n in range(13 if q else 41) for t in sized(n)]
    return [typed("leaves", "de", LEAF + NESTED[:2], 0, 0, 1, few=True),
            typed("shapes", "de", NESTED[2:] + DERIVED, 1, 2, 0 if q else 1, few=True),
            typed("mixes", "de", NESTED + DERIVED, 2, 8, 3, num=6000 if q else 80000),
            typed("variants", "de", [ENUM, MODE, opt(ENUM), seq(MODE), T("map", a=string, b=ENUM), EMPTY, opt(EMPTY)], 1, 1, 1, few=True, more=dict(strs=["s"], ints=["-1"])),
            typed("derived", "de", OTHERS + [opt(TAGGED)], 0 if q else 1, 1 if q else 4, 1, few=True, more=dict(ints=["-1"], strs=["s"])),
            typed("random", "de", OTHERS + [seq(t) for t in OTHERS] + [struct(field("a", ANY), field("b", TAGGED)), T("map", a=string, b=TAGGED)], 2, 8, 3, num=2000 if q else 40000),
            typed("sizes", "de", numbered, 2, 60, 2, num=1500 if q else 20000),
            typed("lists", "de", LISTS + DEEP, 24 if q else 80, 100, 2, num=500 if q else 8000),
            typed("chars", "de", [T("char"), string, boolean, i64, f64, opt(T("unit"))], 0, 0, 1, more=dict(LETTERS, scalars=scalars(
                [("str", c) for c in LETTERS["strs"]] + [("int", c) for c in "0123456789"]))),
            typed("floats", "de", [T("f32"), f64, i64, opt(f64), seq(T("f32"))], 1, 1, 1, few=True, more=dict(scalars=scalars([("float", f) for f in singles + doubles + EXPONENTS])))]


def p23(q):
    return [data("scalars", "Through", NODES + NUMS, 1, 1, 1),
            data("shapes", "Through", [("str", "a"), ("float", "1.5"), ("alias", "x"), ("null", "")], 5 if q else 6, 3, 1),
            big("chars", "Through", [p for p in strings(True)[::1 if q else 1] if len(p) == 1], 1, 1),
            big("big", "Through", SINGLE, 1, 16 if q else 60),
            data("mixes", "Through", NODES, 14, 4, 1, num=1200 if q else 40000, tags=["", "t"])]


def p24(q):
    singles, doubles = numbers(300 if q else 3000)
    return [typed("each", "de", CONVS, 0, 0, 1, few=True),
            typed("chars", "de", [STRINGIFY, MORE[2], MORE[16], optional(string, "String", val("string"))], 0, 0, 1, few=True, more=dict(scalars=scalars(
                [("str", c) for c in LETTERS["strs"]] + [("float", f) for f in singles + doubles + EXPONENTS]))),
            typed("lists", "de", [c for c in CONVS if "InlineList" in c["rust"]], 24 if q else 80, 100, 2, num=300 if q else 6000),
            typed("ser", "ser", [CONVS[i] for i in (0, 1, 2, 3, 5, 6, 8, 9)], 2, 2, few=True),
            typed("mixes", "de", CONVS + INNER + [seq(c) for c in CONVS] + [struct(field("v", c), field("w", opt(c), "opt")) for c in CONVS], 3, 8, 2, num=4000 if q else 60000)]


TOKENS = ["a", "ab-c", "-", "- ", " ", "  ", "    ", "\n", "\n\n", "\n  ", "\r\n", "\r", "\t", "\f", "# c", " #", "'x''y'", "'", '"a\\n b"', '"', "\\", "12", "-7", "0x1F", "0o7", "1.50",
          "1e3", "-2.5E-1", ".0", "&a", "&b ", "*a", "*", "!t", "!!str ", "!<u:v>", "!e!x", "!", "%YAML 1.2\n", "%TAG !e! p:\n", "%", "|\n x\n", ">-\n  a\n  b\n", "|+", "|2", "---", "...", "--- ",
          "?", "? ", ":", ": ", "a: b", "- - c", ",", "[", "]", "[1, a]", "{", "}", "{k: v}", "true", "~", ".inf", "\u00e9", "\u4e16 \U0001f600"]


def call(o, **kw):
    return dict(o=Atom(o), **kw)


CLASSES = ["a", " ", "\n\r", "0123456789", "abc-", ":,[]{}", "'\"\\", "\u00e9a"]
LOW = [call("sym", c=c) for c in "a -\n:'"] + [call("sym_set", c=c) for c in CLASSES[:7]] \
    + [call("sym_seq", c=c) for c in ["- ", "---", "a", "", "\r\n", "12", " #"]] \
    + [call("take", c=c, neg=g, lo=lo, hi=hi) for c in CLASSES[:7] for g in (False, True) for lo, hi in [(0, -1), (1, -1)]] \
    + [call("take", c=c, neg=False, lo=lo, hi=hi) for c in CLASSES[:7] for lo, hi in [(2, -1), (3, -1), (1, 1), (0, 1), (0, 0), (1, 2), (2, 2), (2, 3)]] \
    + [call(o, lo=lo, hi=hi) for o in ("ws", "inv") for lo, hi in [(0, -1), (1, -1), (2, -1), (1, 1), (0, 1), (1, 2)]]
IND = [call("ind", l=i) for i in range(4)] + [call("ind_define", l=i) for i in range(4)]
GRAMMAR = [call(o) for o in ["nl", "comment", "bound", "complex", "int", "float", "sci", "single", "double", "identifier", "tag", "anchor", "anchor_use", "directive", "err"]] \
    + [call("gap", b=b) for b in (False, True)] + [call("plain", l=i, b=b) for i in range(3) for b in (False, True)] \
    + [call(o, l=i) for i in range(3) for o in ("literal", "folded")] + [call("wrapped", l=i, b=b) for i in range(3) for b in (False, True)] \
    + [call("chomp", c=c) for c in ["", "a", "a\n", "a\n\n", "\n"]] + [call("escape", c=c) for c in ["\\n\\x41", "a\\", "\\ud83d\\ude00\\q"]]
NODE_OPS = [call("doc_end"), call("doc")] + [call("scalar", l=i, b=b, f=f) for i in range(2) for b in (False, True) for f in (False, True)] \
    + [call(o, l=i, f=f) for o in ("scalar_flow", "scalar_term") for i in range(2) for f in (False, True)] \
    + [call(o, l=i) for o in ("seq_flow", "map_flow") for i in range(2)] + [call("seq", l=i, b=b) for i in range(2) for b in (False, True)] \
    + [call("map", l=i, b=b, f=False) for i in range(2) for b in (False, True)]
MOVES = [call("fwd"), call("bwd"), *[call("back", l=i) for i in (1, 2)]]


def cursor(name, length, count, ops, num=None, moves=None, tokens=TOKENS, **kw):
    """Histories of the calls of the parser, see spec/Cursor.tla."""
    st = dict(name=name, module="Cursor", conf=dict(tokens=tokens, len=length, count=count, ops=ops, all=num is None,
                                                    moves=num is not None if moves is None else moves), **kw)
    if num is not None:
        st.update(simulate=num, depth=length + count + 6)
    return st


def p25(q):
    return [cursor("each", 1, 2, LOW + IND[:2] + GRAMMAR),
            cursor("nodes", 1 if q else 2, 2, NODE_OPS),
            cursor("low", 6, 24, LOW + IND + MOVES * 3, num=1500 if q else 60000),
            cursor("mixes", 8, 24, LOW[::6] + IND + GRAMMAR * 2 + MOVES * 3, num=1500 if q else 60000),
            cursor("loader", 10, 10, NODE_OPS + GRAMMAR[:5] + MOVES, num=1500 if q else 60000)]


for pid in list(globals()):
    import re as _re
    if _re.fullmatch(r"p\d\d", pid):
        prop(pid.upper(), (lambda f: lambda tier: f(tier == "quick"))(globals()[pid]))

TECHNIQUE = {"default": "TLA+ specification checked by TLC, its behaviours replayed on the crate"}
NOT_APPLICABLE = {}
