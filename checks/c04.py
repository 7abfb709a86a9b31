"""C04: reads depend on the file only, not on what was read before."""
import configparser
import io
import itertools

from vlib import rec
from vlib.cpe import ConfigParserEnhanced
from vlib.engine import capture, outcome
from vlib.ini import Missing, contents, expand, kv, opt, render, sections, use

BOUNDS = {
    "quick": "every sequence of 2 operations out of 35-39, of 3 out of 16 and of 4 out of 8 on each of 6 files, then a read "
             "of every section",
    "thorough": "every sequence of 4 operations out of 35-39 on each of 6 files, then a read of every section",
}
ASSUMPTIONS = ["parses are requested with default flags", "set() is used on sections of the file",
               "whether a key that only set() added survives a re-parse is left open"]


def peek(t):
    return opt(f"peek {t}", f"peek {t}", None, "peek", [t])


def op(n):
    return opt(f"op {n}: v{n}", f"op {n}", f"v{n}", "op", [str(n)])


FILES = [
    # shared and overridden keys, DEFAULT
    [["DEFAULT", [kv("k0", "d"), kv("k1", "d")]], ["A", [kv("k1", "a"), use("B"), kv("k2", "a")]],
     ["B", [kv("k1", "b"), kv("k3", None)]], ["C", [use("A"), kv("k3", "c"), use("B")]]],
    # cycles
    [["A", [kv("k1", "a"), use("B"), kv("k2", "a")]], ["B", [kv("k2", "b"), use("C"), use("A")]],
     ["C", [kv("k1", "c"), use("A"), use("C"), kv("k3", "")]]],
    # one section cannot be expanded
    [["A", [kv("k1", "a"), use("B")]], ["B", [kv("k2", "b")]], ["C", [kv("k1", "c"), use("B"), use("nowhere"), kv("k3", "c")]]],
    # handlers that share data
    [["A", [op(1), kv("k1", "a"), use("B")]], ["B", [kv("k1", "b"), op(2)]], ["C", [use("A"), op(3), use("B"), kv("k2", "c")]]],
    # handlers that read other sections while theirs is being parsed
    [["A", [kv("k1", "a"), peek("B"), kv("k2", "a")]], ["B", [kv("k1", "b"), peek("C"), use("C")]],
     ["C", [kv("k2", "c"), op(1)]]],
    [["DEFAULT", [kv("k1", "d"), op(9)]], ["A", [peek("C"), use("B"), kv("k1", "a")]], ["B", [op(1), peek("C"), kv("k2", "b")]],
     ["C", [kv("k3", "c")]]],
]
SPEC = [["op", "public", True], ["peek", "private", True]]
HANDLED = {"op", "peek"}


def ops_of(fi):
    f = FILES[fi]
    names = [n for n, _ in f]
    out = []
    for s in ("A", "B", "C"):
        out += [["options", s], ["getitem", s], ["get", s, "k1"], ["has_option", s, "k2"], ["has_section", s], ["parse", s]]
    out += [["set", "A", "k1"], ["set", "B", "k1"], ["set", "B", "new"]]
    if "DEFAULT" in names:
        out += [["options", "DEFAULT"], ["parse", "DEFAULT"], ["set", "DEFAULT", "k1"], ["set", "DEFAULT", "new"]]
    out += [["items", None], ["sections", True], ["sections", "force"], ["len"], ["unroll", True], ["unroll", False]]
    out += [["options", "Z"], ["parse", "Z"], ["get", "C", "missing"], ["parse", ""],
            ["get", "A", "missing"], ["get", "B", "missing"], ["has_option", "B", "missing"], ["options_items", "A"]]
    return out


CORE3 = [["options", "A"], ["options", "B"], ["options", "C"], ["has_option", "A", "k2"], ["get", "C", "k1"], ["parse", "A"],
         ["parse", "B"], ["parse", "C"], ["set", "A", "k1"], ["set", "B", "k1"], ["items", None], ["sections", "force"],
         ["unroll", False], ["parse", "Z"], ["get", "C", "missing"], ["has_section", "B"]]
CORE4 = [["options", "A"], ["options", "B"], ["options", "C"], ["parse", "A"], ["parse", "B"], ["set", "A", "k1"],
         ["sections", "force"], ["parse", "Z"]]


def cases(tier):
    big = tier == "thorough"
    for d in range(1, 5):
        for fi in range(len(FILES)):
            ops = ops_of(fi)
            if not big and d > 2:
                core = CORE3 if d == 3 else CORE4
                alpha = [i for i, o in enumerate(ops) if o in core]
            else:
                alpha = range(len(ops))
            for s in itertools.product(alpha, repeat=d):
                yield [fi, list(s)]


def show(case):
    ops = ops_of(case[0])
    return {"file": render(FILES[case[0]]), "operations": [ops[i] for i in case[1]]}


class Model:
    def __init__(self, file):
        self.secs = sections(file)
        self.base, self.calls = {}, {}
        for s in self.secs:
            try:
                ev = expand(self.secs, s)
                self.base[s] = contents(ev, HANDLED)
                self.calls[s] = [o[1] for k, _, o in ev if k == "opt" and o[3] == "op"]
            except Missing:
                self.base[s] = None
        self.overlay = {s: {} for s in self.secs}
        self.loose = {s: set() for s in self.secs}
        self.parsed, self.reading = set(), False

    def data(self, s):
        return None if self.base.get(s) is None else {**self.base[s], **self.overlay[s]}

    def reparsed(self, s):
        for k in self.overlay[s]:
            if k not in self.base[s]:
                self.loose[s].add(k)
        self.overlay[s] = {}

    def broken(self):
        return any(v is None for v in self.base.values())

    def key(self):
        return repr(sorted(self.overlay.items())) + repr(sorted((k, sorted(v)) for k, v in self.loose.items()))


def same(cx, m, s, got, what):
    want = m.data(s)
    got = {k: v for k, v in got.items() if k not in m.loose[s] or k in want}
    cx.check(got == want, "{}: section {!r} reads {!r}, expected {!r}", what, s, got, want)


def make(cx, file, m):
    path = cx.write(render(file))
    p = rec.make_class(SPEC)(path)
    p.exception_control_silent_warnings = True
    busy = []

    def hook(name, section, hp):
        if name == "handler_initialize":
            cx.check(not m.reading or section not in m.parsed, "a read parses section {!r} again, which had been parsed", section)
            busy.append(section)
        elif name == "handler_finalize":
            m.parsed.add(busy.pop())
        elif name == "handler_op":
            hp.data_shared.setdefault("ops", []).append(hp.raw_option[0])
        elif name == "_handler_peek":
            t = hp.params[0]
            got = p.configparserenhanceddata.options(t)
            if t not in busy:
                same(cx, m, t, dict(got), "read inside a handler")
        return 0

    p.hook = hook
    return p


def step(cx, p, m, o, what):
    d = p.configparserenhanceddata
    name, args = o[0], o[1:]
    m.reading = name != "parse" and o != ["sections", "force"]
    s = args[0] if args else None
    if name in ("get", "has_option") and s in m.loose and args[1] in m.loose[s] and args[1] not in m.data(s):
        outcome(getattr(d, name), s, args[1])
        return
    err = isinstance(s, str) and name not in ("sections",) and m.data(s) is None
    if name == "options":
        r = outcome(lambda: dict(d.options(s)))
    elif name == "options_items":
        r = outcome(lambda: dict(d.items(s)))
    elif name == "getitem":
        r = outcome(lambda: dict(d[s]))
    elif name == "get":
        r = outcome(d.get, s, args[1])
        if not err and args[1] not in m.data(s):
            cx.check(r[0] == "raise" and isinstance(r[1], KeyError), "{}: expected KeyError, got {!r}", what, r)
            return
        if not err:
            cx.check(r == ("ok", m.data(s)[args[1]]), "{}: got {!r}, expected {!r}", what, r, m.data(s)[args[1]])
            return
    elif name == "has_option":
        r = outcome(d.has_option, s, args[1])
        if not err:
            cx.check(r == ("ok", args[1] in m.data(s)), "{}: got {!r}", what, r)
            return
    elif name == "has_section":
        r = outcome(d.has_section, s)
        if not err:
            cx.check(r == ("ok", True), "{}: got {!r}", what, r)
            return
    elif name == "parse":
        r = outcome(p.parse_section, s)
        if s == "":
            cx.check(r[0] == "raise" and isinstance(r[1], ValueError), "{}: expected ValueError, got {!r}", what, r)
            return
        if not err:
            want = {"ops": m.calls[s]} if m.calls[s] else {}
            cx.check(r == ("ok", want), "{}: got {!r}, expected {!r}", what, r, want)
            m.reparsed(s)
            return
    elif name == "set":
        r = outcome(d.set, s, args[1], "SET")
        cx.check(r[0] == "ok", "{}: raised {!r}", what, r[1])
        m.overlay[s][args[1]] = "SET"
        return
    elif name == "items":
        r = outcome(lambda: {k: dict(v) for k, v in d.items()})
        err = m.broken()
        if not err:
            for x in m.secs:
                same(cx, m, x, r[1][x], what)
            cx.check(set(r[1]) == set(m.secs), "{}: sections {!r}", what, list(r[1]))
            return
    elif name == "sections":
        r = outcome(lambda: list(d.sections(s)))
        err = m.broken()
        if err and s == "force":
            # sections before the broken one were parsed again
            for x in m.secs:
                if m.base[x] is None:
                    break
                m.reparsed(x)
        if not err:
            cx.check(r == ("ok", list(m.secs)), "{}: got {!r}", what, r)
            if s == "force":
                for x in m.secs:
                    m.reparsed(x)
            return
    elif name == "len":
        cx.check(outcome(lambda: (len(d), list(d))) == ("ok", (len(m.secs), list(m.secs))), "{}: wrong sections", what)
        return
    elif name == "unroll":
        return unroll(cx, p, m, args[0], what)
    if err:
        cx.check(r[0] == "raise" and isinstance(r[1], KeyError), "{}: expected KeyError, got {!r}", what, r)
    else:
        cx.check(r[0] == "ok", "{}: raised {!r}", what, r[1])
        same(cx, m, s, r[1], what)


def unroll(cx, p, m, basecls, what):
    r = outcome(p.unroll_to_str, use_base_class_parser=basecls)
    if m.broken():
        cx.check(r[0] == "raise" and isinstance(r[1], KeyError), "{}: expected KeyError, got {!r}", what, r)
        return
    cx.check(r[0] == "ok", "{}: raised {!r}", what, r[1])
    c = configparser.ConfigParser(allow_no_value=True, default_section="$none", interpolation=None)
    c.optionxform = str
    c.read_string(r[1])
    for s in m.secs:
        got = {k: v or "" for k, v in c[s].items()}
        if basecls:
            want = contents(expand(m.secs, s))
        else:
            want = m.data(s)
            got = {k: v for k, v in got.items() if k not in m.loose[s] or k in want}
        want = {k: v or "" for k, v in want.items()}
        cx.check(got == want, "{}: section {!r} is {!r}, expected {!r}", what, s, got, want)


def run(case, cx):
    fi, seq = case
    file = FILES[fi]
    ops = ops_of(fi)
    m = Model(file)
    p = make(cx, file, m)
    with capture():
        done = []
        for i in seq:
            done.append(ops[i])
            step(cx, p, m, ops[i], f"operations {done}")
            cx.step()
            cx.state(fi, m.key(), sorted({repr(x[1:2]) for x in done}), ops[i])
        for s in m.secs:
            step(cx, p, m, ["options", s], f"operations {done}, then a read of {s!r}")
            cx.step()
    cx.trace((fi, m.key()))
