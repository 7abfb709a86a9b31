"""C13: parsers do not influence each other."""
import itertools
import logging

from vlib import rec, senv
from vlib.cpe import ConfigParserEnhanced
from vlib.engine import capture, outcome
from vlib.ini import contents, expand, kv, opt, render, sections, use
from vlib.senv import SetEnvironment

BOUNDS = {
    "quick": "11 pairs of parsers (same/different class or handlers, same/different files, one used from the other's handlers) x every interleaved sequence of "
             "2 operations out of 2x12, of 3 out of 2x7 and of 4 out of 2x3, then everything is read from both and from a new parser",
    "thorough": "every interleaved sequence of 4 operations out of 2x12 on the 11 pairs",
}
ASSUMPTIONS = ["a parser has loaded its file before the file is rewritten"]


def op(n):
    return opt(f"op {n}: v{n}", f"op {n}", f"v{n}", "op", [str(n)])


def peer(t):
    return opt(f"peer {t}", f"peer {t}", None, "peer", [t])


def ev(o, n, v):
    return opt(f"envvar-{o} {n}: {v}", f"envvar-{o} {n}", v, "envvar_" + o, [n])


F1 = [["A", [kv("k1", "a1"), use("B"), op(1), kv("k2", "a1")]], ["B", [kv("k1", "b1"), op(2)]]]
F2 = [["A", [kv("k1", "a2"), op(3), kv("k3", None)]], ["B", [use("A"), kv("k2", "b2"), op(4)]], ["C", [kv("k1", "c2")]]]
P1 = [["A", [kv("k1", "a"), peer("B"), op(1), use("C")]], ["B", [kv("k1", "b"), op(2)]], ["C", [peer("B"), kv("k1", "c"), op(5)]]]
E1 = [["A", [ev("set", "X", "1"), use("B"), kv("k1", "a"), ev("append", "X", "2")]], ["B", [ev("set", "Y", "3"), kv("k1", "b")]]]
R1 = [["A", [kv("k1", "new a"), op(7)]], ["B", [kv("k1", "new b"), use("A")]], ["N", [kv("k1", "n")]]]
FILES = {"F1": F1, "F2": F2, "P1": P1, "E1": E1, "R1": R1}
SPEC = [["op", "public", True], ["peer", "private", True]]
PRIV = [["op", "private", True]]
PAIRS = [
    ["base", "F1", "base", "F1"],
    ["rec", "F1", "rec", "F1"],
    ["rec", "F1", "base", "F1"],
    ["rec", "F1", "rec", "F2"],
    ["rec", "P1", "rec", "P1"],
    ["rec", "P1", "base", "F2"],
    ["senv", "E1", "senv", "E1"],
    ["senv", "E1", "rec", "E1"],
    ["none", "F1", "rec", "F1"],
    ["rec", "F1", "none", "F2"],
    ["priv", "F1", "none", "F1"],
]
OPS = [["options", "A"], ["options", "B"], ["parse", "A"], ["parse", "B"], ["set", "A"], ["level", 2], ["debug", 3], ["missing"], ["assert", "A"],
       ["delims"], ["other file"], ["raw"]]
SOME = [["options", "A"], ["parse", "A"], ["parse", "B"], ["set", "A"], ["level", 2], ["other file"], ["raw"]]
FEW = [["options", "A"], ["parse", "B"], ["set", "A"]]
ALPHAS = {len(x): x for x in (OPS, SOME, FEW)}


def cases(tier):
    for d in range(1, 5):
        alpha = OPS if d < 3 or tier == "thorough" else SOME if d == 3 else FEW
        moves = [[i] + o for i in (0, 1) for o in alpha]
        for pair in range(len(PAIRS)):
            for seq in itertools.product(range(len(moves)), repeat=d):
                yield [pair, len(alpha), list(seq), d % 2]


def moves_of(n):
    return [[i] + o for i in (0, 1) for o in ALPHAS[n]]


def show(case):
    m = moves_of(case[1])
    return {"parsers": PAIRS[case[0]], "operations [parser, ...]": [m[i] for i in case[2]]}


class One:
    """A parser and the model of what it must answer."""

    def __init__(self, cx, kind, file, path, paths):
        self.cx, self.kind, self.paths = cx, kind, paths
        self.file, self.secs = file, sections(FILES[file])
        cls = {"base": ConfigParserEnhanced, "rec": rec.make_class(SPEC), "none": rec.make_class([]), "priv": rec.make_class(PRIV), "senv": SetEnvironment}[kind]
        self.handled = {"base": set(), "rec": {"op", "peer"}, "none": set(), "priv": {"op"}, "senv": senv.HANDLED}[kind]
        self.p = cls(path)
        self.over, self.last, self.peer = {}, None, None
        self.level, self.debug, self.delims = 4, 0, ("=", ":")
        if kind in ("rec", "none", "priv"):
            self.p.hook = self.hook
            self.busy = 0

    def hook(self, name, section, hp):
        if name in ("handler_op", "_handler_op"):
            hp.data_shared.setdefault("ops", []).append(hp.raw_option[0])
            hp.params.append("changed")
        elif name == "_handler_peer" and self.peer is not None:
            q = self.peer
            q.same(hp.params[0], "read from a handler of the other parser")
            q.do(["parse", hp.params[0]], "parse from a handler of the other parser")
        return 0

    def data(self, s):
        d = contents(expand(self.secs, s), self.handled)
        d.update(self.over.get(s, {}))
        return d

    def result(self, s):
        e = expand(self.secs, s)
        if self.kind in ("base", "none"):
            return {}
        if self.kind == "senv":
            return {"setenvironment": senv.actions(e)}
        ops = [o[1] for k, _, o in e if k == "opt" and o[3] == "op"]
        return {"ops": ops} if ops else {}

    def same(self, s, what):
        r = outcome(lambda: dict(self.p.configparserenhanceddata.options(s)))
        self.cx.check(r == ("ok", self.data(s)), "{}: section {!r} reads {!r}, expected {!r}", what, s, r, self.data(s))

    def do(self, o, what):
        cx, p = self.cx, self.p
        if o[0] == "options":
            self.same(o[1], what)
        elif o[0] == "parse":
            r = outcome(p.parse_section, o[1])
            cx.check(r == ("ok", self.result(o[1])), "{}: got {!r}, expected {!r}", what, r, self.result(o[1]))
            self.over.pop(o[1], None)
            cx.check(p.parse_section_last_result == self.result(o[1]), "{}: last result {!r}", what, p.parse_section_last_result)
            if self.kind == "senv":
                r = outcome(lambda: p.actions[o[1]])
                cx.check(r == ("ok", senv.actions(expand(self.secs, o[1]))), "{}: actions {!r}", what, r)
            else:
                r = outcome(p.parse_section, o[1])
                r[1]["mine"] = 1        # the result belongs to the caller
        elif o[0] == "set":
            p.configparserenhanceddata.set("A", "k1", f"SET by {id(self)}")
            self.over.setdefault("A", {})["k1"] = f"SET by {id(self)}"
        elif o[0] == "level":
            p.exception_control_level = self.level = o[1]
            p.exception_control_silent_warnings = True
        elif o[0] == "debug":
            p.debug_level = self.debug = o[1]
        elif o[0] == "missing":
            for f in (lambda: p.configparserenhanceddata["nowhere"], lambda: p.parse_section("nowhere")):
                r = outcome(f)
                cx.check(r[0] == "raise" and isinstance(r[1], KeyError), "{}: got {!r}", what, r)
        elif o[0] == "assert":
            r = outcome(p.assert_section_all_options_handled, o[1])
            if not self.data(o[1]):
                ok = r == ("ok", 0)
            elif self.level >= 3:
                ok = r[0] == "raise" and isinstance(r[1], ValueError)
            else:
                ok = r[0] == "ok" and r[1] != 0
            cx.check(ok, "{}: level {}, data {!r}, got {!r}", what, self.level, self.data(o[1]), r)
        elif o[0] == "delims":
            p.configparser_delimiters = self.delims = (":",)
            self.secs, self.over = sections(FILES[self.file]), {}
        elif o[0] == "other file":
            p.inifilepath = self.paths["R1"]
            self.file, self.secs, self.over = "R1", sections(R1), {}
        elif o[0] == "raw":
            # the data of the file are changed in memory, then everything is parsed again
            p.configparserdata.set("A", "k1", f"RAW {id(self)}")
            self.secs = {s: [kv("k1", f"RAW {id(self)}") if (s, x[1]) == ("A", "k1") else x for x in b] for s, b in self.secs.items()}
            self.over = {}
            r = outcome(p.configparserenhanceddata.sections, "force")
            cx.check(r[0] == "ok", "{}: {!r}", what, r)

    def final(self, what):
        cx, p = self.cx, self.p
        cx.check((p.exception_control_level, p.debug_level) == (self.level, self.debug), "{}: settings are {!r}", what,
                 (p.exception_control_level, p.debug_level))
        cx.check(tuple(p.configparser_delimiters) == self.delims, "{}: delimiters are {!r}", what, p.configparser_delimiters)
        r = outcome(lambda: sorted(p.configparserenhanceddata.sections()))
        cx.check(r == ("ok", sorted(self.secs)), "{}: sections {!r}", what, r)
        for s in self.secs:
            self.same(s, what)
        for s in self.secs:
            r = outcome(p.parse_section, s)
            cx.check(r == ("ok", self.result(s)), "{}: parse of {!r} gives {!r}, expected {!r}", what, s, r, self.result(s))


def run(case, cx):
    logging.disable(logging.CRITICAL)
    k1, f1, k2, f2 = PAIRS[case[0]]
    paths = {n: cx.write(render(FILES[n])) for n in {f1, f2, "R1"}}
    duo = [One(cx, k1, f1, paths[f1], paths), One(cx, k2, f2, paths[f2], paths)]
    if f1 == "P1":
        duo[0].peer = duo[1]
    moves = moves_of(case[1])
    done = []
    with capture():
        for d in duo:
            d.p.configparserdata        # the file is loaded
        for i in case[2]:
            who, *o = moves[i]
            done.append(moves[i])
            duo[who].do(o, f"{PAIRS[case[0]]}, operations {done}")
            cx.step()
            cx.state(case[0], repr([(d.kind, d.over and 1, d.level, d.debug, d.delims, list(d.secs)) for d in duo]), o)
        what = f"{PAIRS[case[0]]}, operations {done}, then "
        order = (0, 1) if case[3] else (1, 0)
        for i in order:
            duo[i].final(what + f"parser {i}")
        # new parsers start from scratch, and see the file as it is now
        with open(paths[f1], "w") as f:
            f.write(render(R1))
        paths["R1"] = paths[f1]
        for kind in {k1, k2}:
            n = One(cx, kind, "R1", paths[f1], paths)
            n.final(what + f"a new parser ({kind}) on the rewritten file")
    cx.trace(repr([(d.level, d.debug, d.delims, sorted(d.over), sorted(d.secs)) for d in duo]))
