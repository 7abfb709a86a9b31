"""C15: a list of files is loaded as one, in order."""
import itertools
import os
from pathlib import Path

from vlib import rec
from vlib.cpe import ConfigParserEnhanced
from vlib.engine import capture, outcome
from vlib.ini import DEFAULT, Missing, contents, expand, kv, opt, render, use

BOUNDS = {
    "quick": "every distribution of sections A, B, DEFAULT with 6 bodies over 2 files, of A and B with 4 bodies over 3 files, in every order and in "
             "10 ways of giving the list (constructor/property, str, Path, mixed, tuple-like, relative), with repeated files; the missing file at "
             "every position of lists of 1-4; 30 file names with special characters; long lists (5, 10, 20 files)",
    "thorough": "as quick with 6 bodies and DEFAULT over 3 files",
}
ASSUMPTIONS = ["a section appears at most once and a key at most once per section in one file"]


def body(n, sec):
    """Bodies of one section in one file; values tell the file."""
    o = "B" if sec == "A" else "A"
    return {
        "n": None,                                  # no such section in this file
        "e": [],
        "1": [kv("k1", f"{sec}{n}")],
        "2": [kv("k2", f"{sec}{n}"), kv("k1", None)],
        "u": [use(o), kv("k3", f"{sec}{n}")],
        "m": [kv("k1", f"{sec}{n}", "="), use(o), kv("only" + str(n), "")],
    }


def make(n, spec):
    return [[s, body(n, s)[c]] for s, c in spec if body(n, s)[c] is not None]


def cases(tier):
    big = tier == "thorough"
    for how in FORMS:
        for a, b in itertools.product("n12um", repeat=2):
            yield ["load", how, [[["A", a], ["B", b]]], [0]]
    six = "ne12um"
    for a1, b1, a2, b2 in itertools.product(six, repeat=4):
        fs = [[["A", a1], ["B", b1]], [["B", b2], ["A", a2]]]
        yield ["load", "property list", fs, [0, 1]]
        yield ["load", "ctor list", fs, [1, 0]]
        if "e" not in (a1, b1, a2, b2):
            yield ["load", "property folders", fs, [0, 1]]
    for d1, d2, a1, a2 in itertools.product("n1um", repeat=4):
        fs = [[[DEFAULT, d1], ["A", a1], ["B", "1"]], [["A", a2], [DEFAULT, d2]]]
        yield ["load", "property paths", fs, [0, 1]]
        yield ["load", "ctor list", fs, [1, 0]]
    four = six if big else "n1um"
    for c in itertools.product(four, repeat=6 if not big else 5):
        c = list(c) + ["m"] * (6 - len(c))
        yield ["load", "property list", [[["A", c[0]], ["B", c[1]]], [["A", c[2]], ["B", c[3]]], [["B", c[4]], ["A", c[5]]]], [0, 1, 2]]
    fs = [[["A", "m"], ["B", "1"]], [["A", "2"], ["B", "u"]], [["B", "2"], [DEFAULT, "1"]]]
    for n in (1, 2, 3, 4):
        for order in itertools.product(range(3), repeat=n):
            for how in FORMS:
                if n == 1 or how in LISTS:
                    yield ["load", how, fs, list(order)]
    for n in (5, 10, 20):
        for shape in range(3):
            fs = [[["A", "12um"[(i + shape) % 4]], ["B", "1mn2"[(i * 3 + shape) % 4]]] for i in range(n)]
            yield ["load", "property list", fs, list(range(n))]
            yield ["load", "ctor list", fs, list(range(n))[::-1]]
    for n in (1, 2, 3, 4):
        for bad in range(n):
            for kind in ("missing", "elsewhere", "no folder", "directory", "dangling", "dup option", "no header"):
                for how in FORMS:
                    if n == 1 or how in LISTS:
                        yield ["bad", how, n, bad, kind]
    for how in ("ctor list", "property list"):
        yield ["empty", how]
    # names of files, alone and in a list
    fs = [[["A", "m"], ["B", "1"]], [["A", "2"], ["B", "u"]]]
    for i in range(len(NAMES)):
        for how in FORMS:
            if how not in LISTS:
                yield ["load", how, fs[:1], [0], [i]]
        for how in LISTS[1:5]:
            for j in (0, (i + 1) % len(NAMES)):
                if i != j:
                    yield ["load", how, fs, [0, 1], [i, j]]
                    yield ["load", how, fs, [1, 0], [i, j]]


def show(case):
    if case[0] != "load":
        return case
    return {"names": [NAMES[i] for i in case[4]] if len(case) > 4 else None, "form": case[1], "files": [render(make(i, s)) for i, s in enumerate(case[2])][:4], "order": case[3]}


LISTS = ["ctor list", "ctor paths", "property list", "property paths", "property mixed", "after another"]
FORMS = LISTS + ["ctor str", "ctor path", "property str", "property path"]


NAMES = ["a.ini", "b", "c.cfg", "d.INI", "e.txt", ".ini", "with blank.ini", "a:b.ini", "a;b,c.ini", "$HOME.ini", "${USER}", "~", "~root.ini", "*.ini", "?[a].ini", "%s%d.ini", "{x}.ini", "#a.ini",
         "\u00e9\u65e5.ini", "e\u0301.ini", "a\\b.ini", "-", "-x.ini", "it's.ini", '"q".ini', "a\nb.ini", "a.ini ", " a.ini", "x" * 200 + ".ini", "A.ini"]


def load(cls, how, paths, spare):
    if how in ("ctor list", "ctor paths", "ctor str", "ctor path"):
        arg = {"ctor list": list(paths), "ctor paths": [Path(x) for x in paths], "ctor str": paths[0] if paths else None,
               "ctor path": Path(paths[0]) if paths else None}[how]
        return cls(arg)
    p = cls(spare) if how == "after another" else cls()
    if how == "after another":
        p.configparserenhanceddata.items()
    if how == "property str":
        p.inifilepath = paths[0]
    elif how == "property path":
        p.inifilepath = Path(paths[0])
    elif how == "property paths":
        p.inifilepath = [Path(x) for x in paths]
    elif how == "property mixed":
        p.inifilepath = [Path(x) if i % 2 else x for i, x in enumerate(paths)]
    else:
        p.inifilepath = list(paths)
    return p


def merge(files):
    """Sections and options stay where they are first met; values are replaced."""
    secs = {}
    for f in files:
        for s, opts in f:
            d = secs.setdefault(s, {})
            for o in opts:
                d[o[1]] = o
    return {s: list(d.values()) for s, d in secs.items()}


def run(case, cx):
    spare = cx.write("[A]\nspare: 1\nk1: spare\n[spare]\n")
    if case[0] == "empty":
        return empty(case, cx)
    if case[0] == "bad":
        return bad(case, cx, spare)
    _, how, specs, order = case[:4]
    files = [make(i, s) for i, s in enumerate(specs)]
    paths = [cx.write(render(f)) for f in files]
    if how.endswith("folders"):
        # equal names in different folders
        how = how.split()[0] + " list"
        for i, x in enumerate(paths):
            os.mkdir(x + ".d")
            os.rename(x, x + ".d/config.ini")
            paths[i] = x + ".d/config.ini"
    if len(case) > 4:
        d = paths[0] + ".d"
        os.mkdir(d)
        for i, k in enumerate(case[4]):
            os.rename(paths[i], os.path.join(d, NAMES[k]))
            paths[i] = os.path.join(d, NAMES[k])
    secs = merge([files[i] for i in order])
    p = load(ConfigParserEnhanced, how, [paths[i] for i in order], spare)
    p.exception_control_silent_warnings = True
    what = f"{how}, files {[render(files[i]) for i in order]}"
    with capture():
        r = outcome(lambda: [str(x) for x in p.inifilepath])
        cx.check(r == ("ok", [paths[i] for i in order]), "{}: inifilepath is {!r}", what, r)
        r = outcome(lambda: {s: [(o, v) for o, v in p.configparserdata[s].items()] for s in p.configparserdata.sections()})
        want = {s: [(o[1], o[2]) for o in b] for s, b in secs.items()}
        cx.check(r == ("ok", want) and list(r[1]) == list(want), "{}: configparserdata is {!r}, expected {!r}", what, r, want)
        r = outcome(lambda: list(p.configparserenhanceddata.sections(parse=False)))
        cx.check(r == ("ok", list(secs)), "{}: sections are {!r}, expected {!r}", what, r, list(secs))
        for s in secs:
            try:
                data = contents(expand(secs, s))
            except Missing:
                data = None
            r = outcome(lambda: list(p.configparserenhanceddata.options(s).items()))
            if data is None:
                cx.check(r[0] == "raise" and isinstance(r[1], KeyError), "{}: {!r} uses a missing section, got {!r}", what, s, r)
            else:
                cx.check(r == ("ok", list(data.items())), "{}: {!r} reads {!r}, expected {!r}", what, s, r, data)
            cx.step()
    cx.state(repr(secs))
    cx.trace(repr(secs))


def bad(case, cx, spare):
    _, how, n, where, kind = case
    paths = [cx.write(f"[A]\nk{i}: v\n") for i in range(n)]
    good = paths[where]
    exc = OSError
    if kind == "missing":
        paths[where] = good + ".missing"
    elif kind == "elsewhere":
        os.mkdir(good + ".e")
        paths[where] = good + ".e/missing.ini"
    elif kind == "no folder":
        paths[where] = good + ".n/missing.ini"
    elif kind == "directory":
        paths[where] = good + ".d"
        os.mkdir(paths[where])
    elif kind == "dangling":
        paths[where] = good + ".l"
        os.symlink(good + ".nowhere", paths[where])
    elif kind == "dup option":
        paths[where] = cx.write("[A]\nx: 1\nx: 2\n")
        exc = Exception
    else:
        paths[where] = cx.write("x: 1\n[A]\n")
        exc = Exception
    with capture():
        r = outcome(load, ConfigParserEnhanced, how, paths, spare)
        if r[0] == "raise":
            cx.check(isinstance(r[1], exc), "{}: {!r}", case, r)
            cx.trace("refused at once")
            return
        p = r[1]
        for f in (lambda: p.configparserdata, lambda: p.configparserenhanceddata["A"], lambda: p.parse_section("A"),
                  lambda: p.configparserenhanceddata.sections(), lambda: p.configparserenhanceddata.items(), lambda: p.unroll_to_str()):
            for _ in range(2):
                r = outcome(f)
                cx.check(r[0] == "raise" and isinstance(r[1], exc), "{}: expected an error, got {!r}", case, r)
                cx.step()
        cx.state(repr(case))
    cx.trace(repr(case[2:]))


def empty(case, cx):
    with capture():
        r = outcome(load, ConfigParserEnhanced, case[1], [], None)
        if r[0] == "ok":
            p = r[1]
            for f in (lambda: p.configparserdata, lambda: p.configparserenhanceddata["A"], lambda: p.parse_section("A"), lambda: p.configparserenhanceddata.items()):
                for _ in range(2):
                    r = outcome(f)
                    cx.check(r[0] == "raise" and isinstance(r[1], ValueError), "{}: expected ValueError, got {!r}", case, r)
                    cx.step()
    cx.state(repr(case))
    cx.trace(repr(case))
