"""C07: unrolled output is a faithful plain .ini of the parsed data."""
import configparser
import io
import itertools

from vlib import graphs, rec, spell
from vlib.cpe import ConfigParserEnhanced
from vlib.engine import capture, outcome
from vlib.ini import Missing, contents, expand, kv, opt, render, sections, seqs, use

BOUNDS = {
    "quick": "42 keys x 33 values x delimiters, all files on 2 sections (+DEFAULT) with <=2 options, named sections, "
             "scaling families; 10 delimiter settings; every section or the whole file, with and without blanks, base or own "
             "class, levels 0, 4 and 5; failing calls at levels 0-5",
    "thorough": "as quick, plus all files on 3 sections with <=2 options, 2 sections with <=3 options",
}
ASSUMPTIONS = ["values do not start or end with blanks inside double quotes"]
DELIMS = [["=", ":"], [":", "="], ["="], [":"], ["|"], ["->"], ["=", "|"], [":", "->"], ["=>", "="], ["~", "=", ":"]]
VALS = [v for v in spell.VALUES if v[1] == v[1].strip()] + [
    ("a\n  b: c\n  d", "a\nb: c\nd"), ("a\n  [x]\n  b = c", "a\n[x]\nb = c"), ("%%\n  %%%%", "%\n%%"), ("a%%b", "a%b"),
    ("http:", "http:"), ("a=", "a="), ("a::", "a::"), ("x ->", "x ->"), ("a|", "a|"), ("a\n  b:", "a\nb:"),
    ("a\n  use B", "a\nuse B"), ("\n\n  a\n\n  b", "a\n\nb") if False else ("a\n  b\n\n  c", "a\nb\n\nc"),
    ("x%%" * 40, "x%" * 40), ("\n  ".join("l%d: v" % i for i in range(40)), "\n".join("l%d: v" % i for i in range(40))),
    ("w " * 300 + "e", "w " * 300 + "e"),
]
SPEC = [["op", "public", True], ["op_b", "private", True]]


def op(n, v="v"):
    return opt(f"op {n}: {v}", f"op {n}", v, "op", [str(n)])


def cases(tier):
    big = tier == "thorough"
    d0 = DELIMS[0]
    yield ["args", [["A", [kv("k", "v")]], ["B", [use("A")]]], d0]
    for k in spell.KEYS:
        yield ["one", [["A", [spell.make(k, "", None), kv("z", "1")]]], d0]
        for v in VALS:
            yield ["one", [["A", [spell.make(k, ": ", v), kv("z", "1")]], ["B", [kv("y", "2"), use("A")]]], d0]
    for d in DELIMS:
        for v in VALS:
            for sep in d:
                f = [["A", [opt(f"k{sep}{v[0]}", "k", v[1], "k"), opt(f"l {sep} {v[0]}", "l", v[1], "l"), opt("n", "n", None, "n")]],
                     ["B", [use("A"), opt(f"m{sep}1", "m", "1", "m")]]]
                if sep in ("=>",) or (v[0].startswith(("=", ":")) and sep + v[0][0] in d):
                    continue
                yield ["one", f, d]
        # keys that contain what is a delimiter elsewhere
        for other in ("=", ":", "|", "->", "a:b=c|d"):
            if any(x in other for x in d):
                continue
            f = [["A", [opt(f"k{other}x {d[0]} v", f"k{other}x", "v", None), opt(f"q {d[-1]} v{other}w", "q", f"v{other}w", "q")]],
                 ["B", [use("A")]]]
            yield ["one", f, d]
    for f in graphs.named():
        yield ["full", f, d0]
    for f in graphs.small_graphs("AB", 2, default_len=1):
        yield ["full", f, d0]
    # handled options, with the base class and the own class
    alpha = [kv("k1", "v"), op(1), opt("op-b 'x y'= w", "op-b 'x y'", "w", "op_b", ["x y"]), opt("op.c: z", "op.c", "z", None)]
    for a in seqs(alpha + [use("B")], 3):
        for b in seqs(alpha[:3], 2):
            yield ["full", [["A", a], ["B", b]], d0]
    for f in graphs.scaling(chain=(5, 20), width=(5, 20), options=(5, 50, 200), diamond=(3, 5)):
        yield ["full", f, d0]
    # other name of the default section
    for f in graphs.small_graphs("A", 2, default_len=2):
        g = [["COMMON" if n == "DEFAULT" else n, [use("COMMON") if o[4] == ["DEFAULT"] else o for o in b]] for n, b in f]
        yield ["common", g, d0]
    for d in DELIMS[:4]:
        yield ["two", [["A", [opt(f"k {d[0]} v", "k", "v", "k"), use("B")]], ["B", [opt(f"l {d[-1]} w", "l", "w", "l")]]], d]
    for f in ([["A", [kv("k", "v"), use("nowhere")]], ["B", [kv("k", "w")]]], [["A", [kv("k", "v")]], ["B", [op(1), use("nowhere")]]]):
        yield ["broken", f, d0]
    if big:
        for f in graphs.small_graphs("AB", 3, default_len=2):
            yield ["full", f, d0]
        for f in graphs.small_graphs("ABC", 2):
            yield ["full", f, d0]


def show(case):
    return {"mode": case[0], "file": render(case[1])[:1500], "delimiters": case[2]}


def settings(p):
    return (p.exception_control_level, p.exception_control_silent_warnings, p.exception_control_compact_warnings, p.debug_level,
            tuple(p.configparser_delimiters), p.default_section_name, list(p.inifilepath))


def read_back(cx, text, delims, what):
    c = configparser.ConfigParser(delimiters=tuple(delims), default_section="$none")
    c.optionxform = str
    try:
        c.read_string(text)
        return [[s, [[k, v or ""] for k, v in c[s].items()]] for s in c.sections()]
    except configparser.Error as ex:
        cx.check(False, "{}: the output cannot be read: {!r}\n{}", what, ex, text)


def run(case, cx):
    mode, file, delims = case
    secs = sections(file)
    cls = rec.make_class(SPEC)
    if mode == "two":
        path = [cx.write(render([x])) for x in file]
    else:
        path = cx.write(render(file))
    with capture():
        if mode == "args":
            return args(cx, cls, path, secs)
        if mode == "broken":
            return broken(cx, cls, path, secs)
        default = "COMMON" if mode == "common" else "DEFAULT"
        for level in (4,) if mode == "one" or sum(len(b) for _, b in file) > 3 else (0, 4, 5):
            for base in (True, False):
                p = cls(path)
                if list(delims) != ["=", ":"]:
                    p.configparser_delimiters = tuple(delims)
                p.default_section_name = default
                p.exception_control_level = level
                p.exception_control_silent_warnings = True
                want = {s: [[k, v or ""] for k, v in contents(expand(secs, s, default), () if base else {"op", "op_b"}).items()]
                        for s in secs}
                before = settings(p)
                for blanks in (True, False):
                    for s in [None] + (list(secs) if mode != "one" else list(secs)[:1]):
                        check(cx, p, s, blanks, base, want, delims)
                        cx.check(settings(p) == before, "unroll_to_str changed the settings from {!r} to {!r}", before, settings(p))
                if mode != "one":
                    stable(cx, p, secs, default, level)
                cx.trace(repr(want))


def check(cx, p, s, blanks, base, want, delims):
    what = f"unroll_to_str({s!r}, blanks={blanks}, base={base}) at level {p.exception_control_level}, delimiters {delims}"
    r = outcome(p.unroll_to_str, section=s, space_around_delimiters=blanks, use_base_class_parser=base)
    cx.check(r[0] == "ok", "{}: raised {!r}", what, r[1])
    exp = [[x, y] for x, y in want.items()] if s is None else [[s, want[s]]]
    got = read_back(cx, r[1], delims, what)
    cx.check(got == exp, "{}: reads back as {!r}, expected {!r}\n{}", what, got, exp, r[1])
    lines = r[1].splitlines()
    for k, v in (kv for _, b in exp for kv in b):
        first = v.split("\n")[0].replace("%", "%%")
        forms = [(f"{k} {d} {first}" if blanks else f"{k}{d}{first}").strip() for d in delims]
        cx.check(any(x in lines for x in forms), "{}: no line like {!r} in\n{}", what, forms[0], r[1])
    f = io.StringIO()
    w = outcome(p.write, f, space_around_delimiters=blanks, section=s, use_base_class_parser=base)
    cx.check(w[0] == "ok" and f.getvalue() == r[1], "{}: write() gives {!r} and {!r} instead of {!r}", what, w, f.getvalue(), r[1])
    cx.step(2)
    cx.state(repr(exp), blanks, base)


def stable(cx, p, secs, default, level):
    for s in secs:
        want = contents(expand(secs, s, default), {"op", "op_b"})
        if level == 5:
            p.exception_control_level = 4
        r = outcome(lambda: dict(p.configparserenhanceddata.options(s)))
        cx.check(r == ("ok", want), "data of {!r} after unrolling: {!r}, expected {!r}", s, r, want)
        p.exception_control_level = level


def args(cx, cls, path, secs):
    for level in range(6):
        for base in (True, False):
            for warm in (False, True):
                p = cls(path)
                p.exception_control_level = level
                if warm:
                    p.parse_all_sections()
                before = settings(p)
                for bad, exc in (("Z", KeyError), ("", KeyError), ("a", KeyError), (5, TypeError), (["A"], TypeError), (b"A", TypeError)):
                    r = outcome(p.unroll_to_str, section=bad, use_base_class_parser=base)
                    cx.check(r[0] == "raise" and isinstance(r[1], exc), "level {}: unroll_to_str(section={!r}) gives {!r}, expected {}",
                             level, bad, r, exc.__name__)
                    cx.check(settings(p) == before, "failed unroll_to_str({!r}) changed the settings from {!r} to {!r}", bad, before,
                             settings(p))
                    f = io.StringIO()
                    r = outcome(p.write, f, section=bad, use_base_class_parser=base)
                    cx.check(r[0] == "raise" and isinstance(r[1], exc) and f.getvalue() == "", "level {}: write(section={!r}) gives {!r}",
                             level, bad, r)
                    cx.check(settings(p) == before, "failed write changed the settings")
                    cx.step(2)
                for bad in ("name", None, 3):
                    r = outcome(p.write, bad)
                    cx.check(r[0] == "raise" and isinstance(r[1], TypeError), "write({!r}) gives {!r}, expected TypeError", bad, r)
                stable(cx, p, secs, "DEFAULT", level)
                name = cx.path()
                with open(name, "w") as f:
                    p.write(f, use_base_class_parser=base)
                with open(name) as f:
                    cx.check(f.read() == p.unroll_to_str(use_base_class_parser=base), "write() to a file differs from unroll_to_str()")
                cx.state("args", level, base, warm)
                cx.trace(("args", level, base))


def broken(cx, cls, path, secs):
    bad = next(s for s in secs if any(o[3] == "use" for o in secs[s]))
    for level in range(6):
        for base in (True, False):
            for s in (None, bad):
                p = cls(path)
                p.exception_control_level = level
                before = settings(p)
                for _ in range(2):
                    r = outcome(p.unroll_to_str, section=s, use_base_class_parser=base)
                    cx.check(r[0] == "raise" and isinstance(r[1], KeyError), "level {}: unroll of a section that uses a missing "
                             "section gives {!r}", level, r)
                    cx.check(settings(p) == before, "failed unroll_to_str changed the settings from {!r} to {!r}", before, settings(p))
                    cx.step()
                cx.state("broken", level, base, s)
                cx.trace(("broken", level))
