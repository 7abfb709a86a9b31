"""C05: a reconfigured parser answers like a new one."""
import configparser
import itertools
import os
from pathlib import Path

from vlib import rec, senv
from vlib.cpe import ConfigParserEnhanced
from vlib.engine import capture, outcome
from vlib.ini import Missing, contents, expand, read_plain
from vlib.senv import SetEnvironment

BOUNDS = {
    "quick": "every sequence of 3 operations out of 25 and of 4 out of 11 (reads, parses, set, assignments of "
             "inifilepath and delimiters, rewrites, rejected assignments), two parser classes, 2 start configurations; after "
             "each sequence every section is read in every way",
    "thorough": "as quick with every sequence of 4 operations out of 25 and of 5 out of 11",
}
ASSUMPTIONS = ["a file is rewritten only together with a reassignment of inifilepath"]

TEXTS = {
    "v0": "[A]\nk1: a1\nuse B\nenvvar-set X: 1\n[B]\nk2=b1\nk=4: q\nenvvar-set Y : 2\nmodule-load gcc: 7\n",
    "v1": "[A]\nk1: a2\nk3 = new\nenvvar-append X: 9\n[C]\nuse A\nk4: c\n",
    "v2": "[A]\nk9: z\n[B]\nuse A\nk2: f2\nenvvar-unset X\n[DEFAULT]\nk0: d\nenvvar-set D: d\n",
}
OPS = [
    ["options", "A"], ["options", "B"], ["has_section", "C"], ["parse", "A"], ["items"], ["unroll"], ["cpd"], ["set"],
    ["script", "A"], ["apply", "B"],
    ["file", "f1"], ["file", "f2"], ["file", "f1+f2"], ["file", "f2+f1"], ["file", "nofile"], ["file", "f1again"],
    ["rewrite", "v0"], ["rewrite", "v1"], ["rewrite", "v2"], ["delims", ["="]], ["delims", ":="], ["delims", ":"],
    ["badfile", 0], ["badfile", 1], ["baddelims"],
]
CORE = [0, 3, 4, 8, 10, 11, 12, 17, 19, 21, 23]
SECS = ["A", "B", "C", "DEFAULT"]


def cases(tier):
    big = tier == "thorough"
    for d in (1, 2):
        for cls in (0, 1):
            for start in ("f1", "f2+f1"):
                for s in itertools.product(range(len(OPS)), repeat=d):
                    yield [cls, start, list(s)]
    for d, alpha in [(3, range(len(OPS))), (4, CORE)] + ([(4, range(len(OPS))), (5, CORE)] if big else []):
        for cls in (0, 1):
            for s in itertools.product(alpha, repeat=d):
                yield [cls, "f1", list(s)]


def show(case):
    return {"class": ["subclass with handlers", "SetEnvironment"][case[0]], "start": case[1],
            "operations": [OPS[i] for i in case[2]]}


_memo = {}


class Model:
    """The current configuration; everything else follows from it."""

    def __init__(self):
        self.text = {"f1": "v0", "f2": "v2"}
        self.files = []
        self.delims = ("=", ":")
        self.over = {}

    def secs(self):
        if "nofile" in self.files:
            return None
        key = (tuple(self.text[f] for f in self.files), self.delims)
        if key not in _memo:
            _memo[key] = read_plain([TEXTS[v] for v in key[0]], self.delims)
        return _memo[key]

    def events(self, s):
        """None: the access must fail."""
        secs = self.secs()
        key = (tuple(self.text.get(f) for f in self.files), self.delims, s)
        if key not in _memo:
            try:
                _memo[key] = None if secs is None else expand(secs, s)
            except Missing:
                _memo[key] = None
        return _memo[key]


class World:
    def __init__(self, cx, cls):
        self.cx = cx
        self.cls = cls
        self.m = Model()
        self.path = {"f1": cx.write(TEXTS["v0"]), "f2": cx.write(TEXTS["v2"]), "nofile": cx.path()}
        if cls == 0:
            self.handled = set()
            self.p = ConfigParserEnhanced()
        else:
            self.handled = senv.HANDLED
            self.p = SetEnvironment()
        self.p.exception_control_silent_warnings = True

    def assign(self, name, what):
        again = name == "f1again"
        names = ["f1"] if again else name.split("+")
        if again:
            val = [Path(self.path["f1"])]
        elif name == "f2":
            val = Path(self.path["f2"])
        elif len(names) > 1:
            val = [self.path[n] for n in names]
        else:
            val = self.path[name]
        r = outcome(setattr, self.p, "inifilepath", val)
        self.cx.check(r[0] == "ok", "{}: assignment raised {!r}", what, r[1])
        self.m.files = names
        self.m.over = {}
        self.after(what)

    def after(self, what):
        cx = self.cx
        r = outcome(lambda: self.p.inifilepath)
        cx.check(r == ("ok", [Path(self.path[n]) for n in self.m.files]), "{}: inifilepath is {!r}", what, r)
        cx.check(tuple(self.p.configparser_delimiters) == self.m.delims, "{}: delimiters are {!r}", what,
                 self.p.configparser_delimiters)
        cx.check(self.p.parse_section_last_result is None, "{}: a former parse result is still there: {!r}", what,
                 self.p.parse_section_last_result)
        if self.cls == 1:
            cx.check(self.p.actions == {}, "{}: former actions are still there: {!r}", what, self.p.actions)

    def step(self, o, what):
        cx, p, m = self.cx, self.p, self.m
        name = o[0]
        cx.step()
        if name == "file":
            return self.assign(o[1], what)
        if name == "rewrite":
            with open(self.path["f1"], "w") as f:
                f.write(TEXTS[o[1]])
            m.text["f1"] = o[1]
            return self.assign("f1", what)
        if name == "delims":
            r = outcome(setattr, p, "configparser_delimiters", o[1])
            cx.check(r[0] == "ok", "{}: assignment raised {!r}", what, r[1])
            m.delims = tuple(o[1])
            m.over = {}
            return self.after(what)
        if name in ("badfile", "baddelims"):
            if name == "baddelims":
                r = outcome(setattr, p, "configparser_delimiters", 5)
            else:
                r = outcome(setattr, p, "inifilepath", [5, [self.path["f2"], 7]][o[1]])
            cx.check(r[0] == "raise" and isinstance(r[1], TypeError), "{}: expected TypeError, got {!r}", what, r)
            return None
        self.observe(o, what)

    def fails(self, r, what):
        exc = (KeyError,) if self.m.secs() is not None else (IOError,)
        self.cx.check(r[0] == "raise" and isinstance(r[1], exc), "{}: expected {}, got {!r}", what, exc[0].__name__, r)

    def data(self, s, ev):
        d = contents(ev, self.handled)
        d.update(self.m.over.get(s, {}))
        return d

    def observe(self, o, what):
        cx, p, m = self.cx, self.p, self.m
        name, s = o[0], (o[1] if len(o) > 1 else None)
        d = p.configparserenhanceddata
        secs = m.secs()
        if name == "items":
            r = outcome(lambda: {k: dict(v) for k, v in d.items()})
            if secs is None or any(m.events(x) is None for x in secs):
                return self.fails(r, what)
            want = {x: self.data(x, m.events(x)) for x in secs}
            cx.check(r == ("ok", want), "{}: got {!r}, expected {!r}", what, r, want)
            r = outcome(lambda: list(d.sections()))
            cx.check(r == ("ok", list(secs)), "{}: sections() is {!r}, expected {!r}", what, r, list(secs))
        elif name == "cpd":
            r = outcome(lambda: {x: list(p.configparserdata[x]) for x in p.configparserdata.sections()})
            if secs is None:
                return self.fails(r, what)
            want = {x: [y[1] for y in secs[x]] for x in secs}
            cx.check(r == ("ok", want), "{}: configparserdata is {!r}, expected {!r}", what, r, want)
        elif name == "unroll":
            r = outcome(p.unroll_to_str)
            if secs is None or any(m.events(x) is None for x in secs):
                return self.fails(r, what)
            cx.check(r[0] == "ok", "{}: raised {!r}", what, r[1])
            got = {k: contents([("opt", k, x) for x in v]) for k, v in read_plain([r[1]], m.delims).items()}
            want = {x: {k: v or "" for k, v in contents(m.events(x)).items()} for x in secs}
            cx.check({k: {a: b or "" for a, b in v.items()} for k, v in got.items()} == want,
                     "{}: unrolled to {!r}, expected {!r}", what, got, want)
        elif name == "has_section":
            r = outcome(d.has_section, s)
            if secs is None or (s in secs and m.events(s) is None):
                return self.fails(r, what)
            cx.check(r == ("ok", s in secs), "{}: got {!r}", what, r)
        elif name == "set":
            if secs is None or m.events("A") is None or "k1" not in contents(m.events("A")):
                return
            d.set("A", "k1", "SET")
            m.over = {"A": {"k1": "SET"}}
        elif name == "options":
            r = outcome(lambda: dict(d.options(s)))
            ev = m.events(s)
            if ev is None:
                return self.fails(r, what)
            cx.check(r == ("ok", self.data(s, ev)), "{}: got {!r}, expected {!r}", what, r, self.data(s, ev))
        elif name == "parse":
            ev = m.events(s)
            r = outcome(p.parse_section, s)
            if ev is None:
                return self.fails(r, what)
            want = {} if self.cls == 0 else {"setenvironment": senv.actions(ev)}
            cx.check(r == ("ok", want), "{}: got {!r}, expected {!r}", what, r, want)
            cx.check(p.parse_section_last_result == want, "{}: last result is {!r}, expected {!r}", what,
                     p.parse_section_last_result, want)
            m.over.pop(s, None)
        elif self.cls == 0:
            return
        elif name == "script":
            ev = m.events(s)
            r = outcome(p.generate_actions_script, s, incl_hdr=False, interp="python")
            if ev is None:
                return self.fails(r, what)
            want = senv.actions(ev)
            if any(a["value"] is None and a["op"] != "envvar_unset" for a in want):
                return      # an operation without its value
            cx.check(r[0] == "ok", "{}: raised {!r}", what, r[1])
            got = [x for x in r[1].splitlines() if x and not x.startswith("#")]
            cx.check(len(got) == len(want) and all(a.get("envvar", a.get("module")) in g and a["op"].split("_")[1] in g
                                                   for g, a in zip(got, want)),
                     "{}: script has {!r}, expected the actions {!r}", what, got, want)
            cx.check(p.actions[s] == want, "{}: actions are {!r}, expected {!r}", what, p.actions[s], want)
        elif name == "apply":
            ev = m.events(s)
            if ev is None or any("module" in a or (a["value"] is None and a["op"] != "envvar_unset") for a in senv.actions(ev)):
                return
            saved = dict(os.environ)
            try:
                os.environ["X"] = "0"
                r = outcome(p.apply, s)
                got = {k: os.environ.get(k) for k in ("X", "Y", "D")}
            finally:
                os.environ.clear()
                os.environ.update(saved)
            want = {"X": "0", "Y": None, "D": None}
            for a in senv.actions(ev):
                v = a["envvar"]
                if a["op"] == "envvar_set":
                    want[v] = a["value"]
                elif a["op"] == "envvar_unset":
                    want[v] = None
                elif a["op"] == "envvar_append":
                    want[v] = (want[v] + ":" if want[v] is not None else "") + a["value"]
            cx.check(r == ("ok", 0) and got == want, "{}: {!r} and {!r}, expected {!r}", what, r, got, want)


def run(case, cx):
    cls, start, seq = case
    import logging
    logging.disable(logging.CRITICAL)
    w = World(cx, cls)
    with capture():
        w.assign(start, "start")
        done = []
        for i in seq:
            done.append(OPS[i])
            w.step(OPS[i], f"start {start}, operations {done}")
            cx.state(cls, repr(w.m.__dict__), OPS[i])
        done = f"start {start}, operations {done}, then "
        for s in SECS:
            w.step(["options", s], done + f"options({s})")
        w.step(["items"], done + "items")
        w.step(["cpd"], done + "configparserdata")
        if cls == 1:
            for s in ("A", "B"):
                w.step(["script", s], done + f"script({s})")
        w.step(["parse", "B"], done + "parse B")
        w.step(["parse", "A"], done + "parse A")
    cx.trace(repr(w.m.__dict__))
