"""C06: a failed load or parse is never turned into a silent partial success."""
import itertools
import logging
import os

from vlib import rec, senv
from vlib.cpe import ConfigParserEnhanced
from vlib.engine import capture, outcome
from vlib.ini import Missing, contents, expand, kv, opt, read_plain, render, sections, use
from vlib.senv import SetEnvironment

BOUNDS = {
    "quick": "10 load faults, 5 section faults, a section that does not exist, and 9 ways of failing x every handler call of a 5-section file; for each, every "
             "sequence of 2 accesses out of 14 (3 out of 6), the repair, and every access again; levels 0 and 4",
    "thorough": "as quick with every sequence of 3 accesses out of 14, all levels",
}
ASSUMPTIONS = ["a fault that lies in the contents of a loaded file is repaired by rewriting and reassigning it"]


class Custom(Exception):
    pass


def op(n):
    return opt(f"op {n}: v{n}", f"op {n}", f"v{n}", "op", [str(n)])


GOOD = [["DEFAULT", [kv("k0", "d"), op("d")]], ["A", [kv("k1", "a"), op(1), use("B"), kv("k2", "a"), op(2)]],
        ["B", [kv("k1", "b"), op(3), use("C")]], ["C", [op(4), kv("k3", "c")]], ["D", [kv("k1", "dd"), op(5)]]]
GOODTEXT = render(GOOD)
SPEC = [["op", "public", True]]
EXC = {"ValueError": ValueError, "KeyError": KeyError, "OSError": OSError, "Custom": Custom,
       "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "rc11": RuntimeError, "rcNone": TypeError,
       "rcstr": TypeError}
SITES = ["handler_initialize", "op d", "op 1", "op 3", "op 4", "op 2", "op 5", "handler_finalize"]
LOADS = {
    "missing": None, "directory": None, "noheader": b"k1: a\n[A]\nk1: a\n", "dupsection": b"[A]\nk1: a\n[B]\nk: 1\n[A]\nk2: a\n",
    "dupoption": b"[A]\nk1: a\nk2: b\n[B]\nk: 1\nk: 2\n", "badheader": b"[A]\nk1: a\n[B\nk: 1\n= 5\n", "utf8": b"[A]\nk1: \xff\xfe\n",
    "emptykey": b"[A]\nk1: a\n[B]\n: x\n", "second": b"", "third": b"",
}
BAD = {
    "use": [["A", [kv("k1", "a"), use("B"), kv("k2", "a")]], ["B", [kv("k3", "b"), use("nowhere"), kv("k4", "b")]], ["C", [kv("k1", "c")]],
            ["D", [use("C"), kv("k2", "d")]]],
    "defaultuse": [["DEFAULT", [kv("k0", "d"), use("nowhere"), kv("k9", "d")]], ["A", [kv("k1", "a")]], ["B", [use("A")]]],
    "interp": [["A", [kv("k1", "a"), opt("k2: %(nope)s", "k2", None, "k2"), kv("k3", "a")]], ["B", [kv("k0", "b"), use("A")]],
               ["C", [kv("k1", "c")]]],
    "interp2": [["A", [kv("k1", "a"), opt("k2: 50%x", "k2", None, "k2")]], ["B", [use("C"), use("A"), kv("k0", "b")]],
                ["C", [kv("k1", "c")]]],
    "quote": [["A", [kv("k1", "a"), opt("key 'x: v", "key 'x", "v", "key", ["x"]), kv("k3", "a")]], ["B", [use("A"), kv("k1", "b")]],
              ["C", [kv("k1", "c")]]],
}
BROKEN = {"use": {"A", "B"}, "defaultuse": {"DEFAULT", "A", "B"}, "interp": {"A", "B"}, "interp2": {"A", "B"}, "quote": {"A", "B"}}
# accesses that need one section / the whole file
ONE = ["options", "getitem", "get", "getkey", "has_option", "has_section", "itemsof", "parse", "assertsec", "unrollone"]
ALLSEC = ["items", "sections", "force", "unroll"]
CORE = ["options", "get", "has_option", "has_section", "parse", "items"]


def seqs(tier, alphabet, core):
    for d in (1, 2):
        yield from itertools.product(alphabet, repeat=d)
    yield from itertools.product(alphabet if tier == "thorough" else core, repeat=3)


def cases(tier):
    levels = range(6) if tier == "thorough" else (0, 4)
    acc = ONE + ALLSEC
    for f in LOADS:
        for s in seqs(tier, acc + ["cpd", "names"], CORE[:4] + ["cpd", "names"]):
            for lv in levels:
                yield ["load", f, lv, list(s)]
    for f in BAD:
        for s in seqs(tier, acc, CORE):
            for lv in levels:
                yield ["bad", f, lv, list(s)]
    for s in seqs(tier, ONE, CORE[:5] + ["getitem"]):
        for lv in levels:
            yield ["nosec", "nowhere", lv, list(s)]
    for s in seqs(tier, ["apply", "script", "pretty", "parse", "options", "write"], ["apply", "script", "pretty", "parse", "write"]):
        for f in ("use", "noparam", "noname"):
            yield ["senv", f, 4, list(s)]
            yield ["senv", f, 0, list(s)]
    for site in SITES:
        for e in EXC:
            for s in itertools.product(acc, repeat=1):
                for lv in levels:
                    yield ["handler", [site, e], lv, list(s)]
            for s in itertools.product(acc if tier == "thorough" else CORE + ["sections", "force"], repeat=2):
                yield ["handler", [site, e], 4, list(s)]
    for site in SITES:
        for e in ("ValueError", "KeyError", "rc11"):
            for s in itertools.product(acc if tier == "thorough" else CORE, repeat=3):
                yield ["handler", [site, e], 4, list(s)]


def access(p, name, s):
    d = p.configparserenhanceddata
    return outcome({
        "options": lambda: dict(d.options(s)),
        "getitem": lambda: dict(d[s]),
        "get": lambda: dict(d.get(s)),
        "getkey": lambda: d.get(s, "k1"),
        "has_option": lambda: d.has_option(s, "k1"),
        "has_section": lambda: d.has_section(s),
        "itemsof": lambda: dict(d.items(s)),
        "parse": lambda: p.parse_section(s),
        "assertsec": lambda: p.assert_section_all_options_handled(s, do_raise=False),
        "unrollone": lambda: p.unroll_to_str(section=s, use_base_class_parser=False),
        "items": lambda: {k: dict(v) for k, v in d.items()},
        "sections": lambda: list(d.sections(True)),
        "force": lambda: list(d.sections("force")),
        "unroll": lambda: p.unroll_to_str(use_base_class_parser=False),
        "cpd": lambda: {k: dict(p.configparserdata[k]) for k in p.configparserdata.sections()},
        "names": lambda: list(d.sections()),
    }[name])


def good(cx, p, secs, name, s, what, handled, hooked=True):
    """The access must give the complete contents."""
    r = access(p, name, s)
    cx.check(r[0] == "ok", "{}: raised {!r}", what, r[1])
    want = contents(expand(secs, s), handled) if s in secs else None
    if name in ("options", "getitem", "get", "itemsof"):
        cx.check(r[1] == want, "{}: got {!r}, expected {!r}", what, r[1], want)
    elif name == "getkey":
        cx.check(r[1] == want["k1"], "{}: got {!r}, expected {!r}", what, r[1], want["k1"])
    elif name == "has_option":
        cx.check(r[1] is ("k1" in want), "{}: got {!r}", what, r[1])
    elif name == "has_section":
        cx.check(r[1] is True, "{}: got {!r}", what, r[1])
    elif name in ("unrollone", "unroll"):
        got = {k: contents([("opt", k, x) for x in v]) for k, v in read_plain([r[1]]).items()}
        w = {x: {k: v or "" for k, v in contents(expand(secs, x), handled).items()}
             for x in ([s] if name == "unrollone" else secs)}
        cx.check({k: {a: b or "" for a, b in v.items()} for k, v in got.items()} == w, "{}: got {!r}, expected {!r}", what, got, w)
    elif name == "items":
        w = {x: contents(expand(secs, x), handled) for x in secs}
        cx.check(r[1] == w, "{}: got {!r}, expected {!r}", what, r[1], w)
    elif name in ("sections", "force", "names"):
        cx.check(r[1] == list(secs), "{}: got {!r}, expected {!r}", what, r[1], list(secs))
    elif name == "parse" and hooked:
        w = [o[1] for k, _, o in expand(secs, s) if k == "opt" and o[3] == "op"]
        cx.check(r[1] == ({"ops": w} if w else {}), "{}: got {!r}, expected the calls {!r}", what, r[1], w)
    elif name == "assertsec":
        cx.check((r[1] == 0) == (not want), "{}: got {!r}", what, r[1])


def bad(cx, p, name, s, exc, what):
    r = access(p, name, s)
    cx.check(r[0] == "raise", "{}: returned {!r} although the data cannot be read", what, r[1])
    if exc is not None:
        cx.check(isinstance(r[1], exc), "{}: expected {}, got {!r}", what, exc, r[1])


def run(case, cx):
    logging.disable(logging.CRITICAL)
    kind, fault, level, seq = case
    with capture():
        {"load": load, "bad": section, "handler": handler, "senv": setenv, "nosec": nosec}[kind](cx, fault, level, seq)
    cx.trace((kind, repr(fault), level))


def hooked(cls, *a):
    p = cls(*a)

    def hook(name, section, hp):
        if name == "handler_op":
            hp.data_shared.setdefault("ops", []).append(hp.raw_option[0])
        return 0
    p.hook = hook
    return p


def load(cx, fault, level, seq):
    path = cx.path()
    files = path
    if fault == "directory":
        os.mkdir(path)
    elif fault in ("second", "third"):
        other = [cx.write("[A]\nk1: zzz\nk7: z\n"), cx.write("[B]\nk8: z\n")]
        files = [other[0], path] if fault == "second" else other + [path]
    elif fault != "missing":
        with open(path, "wb") as f:
            f.write(LOADS[fault])
    p = hooked(rec.make_class(SPEC), files)
    p.exception_control_level = level
    p.exception_control_silent_warnings = True
    for i, a in enumerate(seq):
        bad(cx, p, a, "A", IOError if fault in ("missing", "directory", "second", "third") else None,
            f"load fault {fault!r}, accesses {seq[:i + 1]}")
        cx.step()
        cx.state("load", fault, tuple(seq[:i + 1]))
    if fault == "directory":
        os.rmdir(path)
    text = GOODTEXT
    with open(path, "w") as f:
        f.write(text)
    if fault == "second":
        secs = read_plain(["[A]\nk1: zzz\nk7: z\n", text])
    elif fault == "third":
        secs = read_plain(["[A]\nk1: zzz\nk7: z\n", "[B]\nk8: z\n", text])
    else:
        secs = sections(GOOD)
    for a in (seq[-1:] + ["options", "cpd", "items"]):
        for s in ("A", "B") if a in ONE else ("A",):
            good(cx, p, secs, a, s, f"load fault {fault!r}, accesses {seq}, then the file is repaired, then {a} {s}", {"op"})
            cx.step()


def section(cx, fault, level, seq):
    file = BAD[fault]
    secs = sections(file)
    path = cx.write(render(file))
    p = hooked(rec.make_class(SPEC), path)
    p.exception_control_level = level
    p.exception_control_silent_warnings = True
    broken = BROKEN[fault]
    exc = {"use": KeyError, "defaultuse": KeyError, "quote": ValueError}.get(fault)
    for i, a in enumerate(seq):
        what = f"fault {fault!r} in the file, accesses {seq[:i + 1]}"
        for s in ("A", "B") if i % 2 else ("B", "A"):
            bad(cx, p, a, s, exc, what + f" of {s}")
            cx.step()
        for s in secs:
            if s not in broken and a in ONE:
                good(cx, p, secs, a, s, what + f" of the intact section {s}", {"op"})
        cx.state("bad", fault, tuple(seq[:i + 1]))
    with open(path, "w") as f:
        f.write(GOODTEXT)
    p.inifilepath = path
    for a in seq[-1:] + ["options"]:
        for s in ("A", "B"):
            good(cx, p, sections(GOOD), a, s, f"fault {fault!r}, accesses {seq}, then a good file, then {a} {s}", {"op"})


def nosec(cx, fault, level, seq):
    """A section that the file does not have: it never comes into being by being asked for."""
    secs = sections(GOOD)
    path = cx.write(GOODTEXT)
    p = hooked(rec.make_class(SPEC), path)
    p.exception_control_level = level
    p.exception_control_silent_warnings = True
    d = p.configparserenhanceddata
    for i, a in enumerate(seq):
        what = f"accesses {seq[:i + 1]} of a section that does not exist, level {level}"
        if a == "has_section":
            r = access(p, a, fault)
            cx.check(r == ("ok", False), "{}: got {!r}", what, r)
        else:
            bad(cx, p, a, fault, KeyError, what)
        cx.check(d.has_section_no_parse(fault) is False and fault not in list(d.keys()) and fault not in d.data,
                 "{}: now the section exists", what)
        for s in ("A", "D"):
            good(cx, p, secs, a, s, what + f", then of {s}", {"op"})
        cx.step(3)
        cx.state("nosec", tuple(seq[:i + 1]))
    with open(path, "w") as f:
        f.write(GOODTEXT + "[nowhere]\nk1: n\n")
    p.inifilepath = path
    for a in seq[-1:] + ["options"]:
        good(cx, p, dict(secs, nowhere=[kv("k1", "n")]), a, fault, f"accesses {seq} of a missing section, then a file with it, then {a}",
             {"op"})


def handler(cx, fault, level, seq):
    site, how = fault
    secs = sections(GOOD)
    path = cx.write(GOODTEXT)
    p = rec.make_class(SPEC)(path)
    p.exception_control_level = level
    p.exception_control_silent_warnings = True
    armed = [True]

    def hook(name, section, hp):
        if name == "handler_op":
            hp.data_shared.setdefault("ops", []).append(hp.raw_option[0])
        at = hp.raw_option[0] if name == "handler_op" else name
        if armed[0] and at == site and (name == "handler_op" or section in ("A", "B")):
            if how.startswith("rc"):
                return {"rc11": 11, "rcNone": None, "rcstr": "0"}[how]
            raise EXC[how]("injected")
        return 0

    p.hook = hook

    def fails(s):
        if site.startswith("handler_"):
            return s in ("A", "B")
        return any(k == "opt" and o[1] == site for k, _, o in expand(secs, s))

    for i, a in enumerate(seq):
        what = f"{how} at {site!r}, level {level}, accesses {seq[:i + 1]}"
        if a in ALLSEC:
            bad(cx, p, a, None, EXC[how], what)
        else:
            for s in ("A", "B", "D") if i % 2 else ("B", "D", "A"):
                if fails(s):
                    bad(cx, p, a, s, EXC[how], what + f" of {s}")
                else:
                    good(cx, p, secs, a, s, what + f" of {s}, which is not affected", {"op"})
                cx.step()
        cx.state("handler", site, how, tuple(seq[:i + 1]))
    armed[0] = False
    for a in seq[-1:] + ["options", "has_option", "parse"]:
        for s in ("A", "B", "D", "C"):
            if a in ("getkey",) and s == "C":
                continue
            good(cx, p, secs, a, s, f"{how} at {site!r}, accesses {seq}, then it does not fail any more, then {a} {s}", {"op"})
            cx.step()


SENV = {
    "use": "[A]\nenvvar-set X: 1\nuse B\n[B]\nenvvar-set Y: 2\nuse nowhere\n",
    "noparam": "[A]\nenvvar-set X: 1\nenvvar-append : 2\nenvvar-set Y: 3\n[B]\nuse A\n",
    "noname": "[A]\nenvvar-set X: 1\nmodule-remove\n[B]\nenvvar-set Y: 2\nuse A\n",
}
SENVGOOD = "[A]\nenvvar-set X: 1\nuse B\n[B]\nenvvar-set Y: 2\n"


def setenv(cx, fault, level, seq):
    path = cx.write(SENV[fault])
    out = cx.path(".sh")
    p = SetEnvironment(path)
    p.exception_control_level = level
    p.exception_control_silent_warnings = True

    def acc(a, s):
        return outcome({"apply": lambda: p.apply(s), "script": lambda: p.generate_actions_script(s),
                        "pretty": lambda: p.pretty_print_actions(s), "parse": lambda: p.parse_section(s),
                        "options": lambda: dict(p.configparserenhanceddata.options(s)),
                        "write": lambda: p.write_actions_to_file(out, s)}[a])

    saved = dict(os.environ)
    try:
        for i, a in enumerate(seq):
            for s in ("A", "B"):
                r = acc(a, s)
                cx.check(r[0] == "raise", "{} with fault {!r}: {} of {} returned {!r}", seq[:i + 1], fault, a, s, r[1])
                cx.check(dict(os.environ) == saved, "{} with fault {!r}: {} of {} changed the environment", seq[:i + 1],
                         fault, a, s)
                cx.check(not os.path.exists(out), "{} with fault {!r}: {} of {} wrote a script", seq[:i + 1], fault, a, s)
                cx.step()
            cx.state("senv", fault, tuple(seq[:i + 1]))
        with open(path, "w") as f:
            f.write(SENVGOOD)
        p.inifilepath = path
        r = acc("apply", "A")
        cx.check(r == ("ok", 0) and os.environ.get("X") == "1" and os.environ.get("Y") == "2",
                 "{} with fault {!r}, then a good file: apply gives {!r}", seq, fault, r)
    finally:
        os.environ.clear()
        os.environ.update(saved)
