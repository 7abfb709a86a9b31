"""C01: the contents of a section are its depth-first `use` expansion."""
import configparser
import os

from vlib import graphs, spell
from vlib.cpe import ConfigParserEnhanced, quiet
from vlib.engine import capture, outcome
from vlib.ini import contents, expand, kv, opt, read_plain, render, repo_files, sections, use

BOUNDS = {
    "quick": "all files over 3 sections with <=2 options each (2 keys, 3 use targets); DEFAULT+2 sections; all "
             "4-section DAGs; all placements in chains of depth 5; 49 key x 7 delimiter x 37 value spellings; "
             "chains/fans/diamonds/option counts up to 100/100/7/500; every .ini file of the repository",
    "thorough": "as quick, with <=3 options in each of 3 sections, DEFAULT+2 sections with <=3, 5-section DAGs, "
                "chains of depth 6",
}
ASSUMPTIONS = ["option keys have balanced quotes and `use` names a target",
               "the reserved internal section name is not used in files"]


def cases(tier):
    big = tier == "thorough"
    for f in graphs.small_graphs("AB", 2):
        yield ["graph", f]
    for f in graphs.named():
        yield ["full", f]
    for f in spelled():
        yield ["full", f]
    for f in special():
        yield ["full", f]
    for f in repo_files(os.environ["VERIF_SRC"]):
        yield ["repo", f]
    for f in graphs.scaling():
        yield ["graph", f]
    for f in graphs.small_graphs("AB", 2, default_len=2):
        yield ["graph", f]
    for at in (1, 2):
        for f in graphs.small_graphs("AB", 2, keys=1, default_len=1, default_at=at):
            yield ["graph", f]
    for f in graphs.dags("ABCD"):
        yield ["graph", f]
    for f in graphs.positions(5):
        yield ["graph", f]
    for f in graphs.small_graphs("ABC", 2):
        yield ["graph", f]
    if big:
        for f in graphs.positions(6):
            yield ["graph", f]
        for f in graphs.small_graphs("AB", 3, default_len=3):
            yield ["graph", f]
        for f in graphs.small_graphs("AB", 4, keys=3):
            yield ["graph", f]
        for f in graphs.dags("ABCDE"):
            yield ["graph", f]
        for f in graphs.small_graphs("ABC", 3):
            yield ["graph", f]


def show(case):
    if case[0] == "repo":
        return {"file": case[1]}
    return {"mode": case[0], "file": render(case[1])[:2000]}


def spelled():
    for k in spell.KEYS:
        yield [["A", [spell.make(k, "", None)]]]
        yield [["A", [kv("z", "1")]], ["B", [use("A"), spell.make(k, "", None)]]]
        for sep in spell.SEPS:
            for v in spell.VALUES:
                o = spell.make(k, sep, v)
                yield [["A", [o, kv("z", "1")]], ["B", [use("A")]]]
    # pairs of keys that are different keys
    for i, k in enumerate(spell.KEYS):
        for k2 in spell.KEYS[i + 1:]:
            yield [["A", [spell.make(k, ": ", ("1", "1")), spell.make(k2, ": ", ("2", "2"))]]]
    # the same key again in a used section: the value met last wins, whatever the values are
    vals = [None] + spell.VALUES
    k = spell.KEYS[0]
    for v in vals:
        for w in vals:
            yield [["A", [spell.make(k, ": ", v), use("B")]], ["B", [spell.make(k, "=", w)]]]


def special():
    for q in ("", "'", '"'):
        for tail in ("", ":", " :", " =", ": x"):
            for target in ("B", "sec b"):
                if q == "" and " " in target:
                    continue
                u = use(target, q)
                u = [u[0] + tail, u[1], None, u[3], u[4]]
                yield [["A", [kv("k1", "a"), u, kv("k2", "a")]], [target, [kv("k1", "b"), kv("k2", "b")]]]
    # names of sections
    for target in ("sec  b", "sec\tb", "a#b", "a;b", "a.b/c", "50%", "\u00e9 x", "use", "k1", "A B C", " lead", "trail ", "b-c_d", "(x)", "x" * 200, "it's", "$b", "b\\c", "None"):
        q = '"' if "'" in target else "'"
        yield [["A", [kv("k1", "a"), use(target, q), kv("k2", "a")]], [target, [kv("k1", "b"), kv("k2", "b")]]]
        yield [[target, [use("B"), kv("k1", "a")]], ["B", [use("C"), kv("k2", "b")]], ["C", [kv("k1", "c"), use(target, q)]]]
    # extra words after the target, blanks around it, comments and blank lines
    for text in ("use B", "use  B", "use\tB", "use B extra", "use 'B' \"and more\"", "  use B"):
        yield [["A", [opt(text, text.strip(), None, "use", ["B"]), kv("k1", "a")]] if not text.startswith(" ")
               else ["A", [opt("use B", "use B", None, "use", ["B"]), kv("k1", "a")]],
               ["B", [kv("k1", "b"), kv("k2", "b")]]]
    for c in ("# c", "; c", "#use B", "", "   ", "# k: v"):
        yield [["A", [kv("k1", "a"), opt(c, None, None, "#comment")]], ["B", [kv("k1", "b")]]]
        yield [["A", [opt(c, None, None, "#comment"), kv("k1", "a"), use("B")]], ["B", [kv("k1", "b")]]]
    # interpolation inside a section
    yield [["A", [kv("k0", "base"), opt("k: %(k0)s-x", "k", "base-x", "k")]], ["B", [kv("k0", "other"), use("A")]]]
    yield [["A", [opt("k: %(k0)s%(k0)s", "k", "basebase", "k"), kv("k0", "base")]], ["B", [use("A"), kv("k0", "o")]]]
    # empty sections, several defaults of similar names
    yield [["A", []]]
    yield [["A", []], ["B", [use("A")]], ["C", [use("B"), use("A")]]]
    for d in ("default", "Default", "DEFAULTS", "DEFAUL"):
        yield [[d, [kv("k1", "d")]], ["A", [kv("k2", "a")]]]
    yield [["A", [kv("k2", "a")]], ["DEFAULT", [kv("k1", "d"), kv("k2", "d")]]]
    yield [["DEFAULT", [kv("k1", "d"), use("B")]], ["A", [kv("k2", "a"), use("B")]], ["B", [kv("k2", "b")]]]
    yield [["DEFAULT", [kv("k1", "d")]], ["A", [kv("k1", "a"), use("DEFAULT")]]]


def run(case, cx):
    mode, file = case
    if mode == "repo":
        path = os.path.join(os.environ["VERIF_SRC"], file)
        try:
            secs = read_plain([open(path, encoding="utf-8").read()])
        except (ValueError, configparser.Error):   # not an .ini file of ours
            return
        if any(o[3] == "use" and (not o[4] or o[4][0] not in secs) for v in secs.values() for o in v):
            return
        mode = "full"
    else:
        file = [[n, [o for o in opts if o[3] != "#comment"]] for n, opts in file]
        path = cx.write(render(case[1]))
        secs = sections(file)
    p = quiet(ConfigParserEnhanced(path))
    with capture():
        d = p.configparserenhanceddata
        got_secs = outcome(lambda: list(d.sections()))
        cx.check(got_secs == ("ok", list(secs)), "sections() of the file: got {!r}, expected {!r}", got_secs, list(secs))
        for root in secs:
            ev = expand(secs, root)
            want = contents(ev)
            cx.step(len(ev) + 1)
            r = outcome(lambda: list(d.options(root).items()))
            if r != ("ok", list(want.items())):
                cx.check(False, "options({!r}): got {!r}, expected {!r}", root, r, list(want.items()))
            cx.state(root, tuple(want.items()))
            cx.trace(tuple(want.items()))
            if mode == "full":
                full(cx, d, root, want)


def full(cx, d, root, want):
    """Every way of reading the section gives the same contents."""
    for what, fn in (("[section]", lambda: dict(d[root])), ("get(section)", lambda: dict(d.get(root))),
                     ("items(section)", lambda: dict(d.items(root))),
                     ("items()", lambda: dict(dict(d.items())[root]))):
        r = outcome(fn)
        cx.check(r == ("ok", want), "{} of {!r}: got {!r}, expected {!r}", what, root, r, want)
        cx.step()
    for k, v in want.items():
        r = outcome(lambda: d.get(root, k))
        cx.check(r == ("ok", v), "get({!r}, {!r}): got {!r}, expected {!r}", root, k, r, v)
        r = outcome(lambda: d.has_option(root, k))
        cx.check(r == ("ok", True), "has_option({!r}, {!r}): got {!r}", root, k, r)
        cx.step(2)
    for k in ("no such key", root + "?"):
        cx.check(outcome(lambda: d.has_option(root, k)) == ("ok", False), "has_option of a missing key is not False")
        r = outcome(lambda: d.get(root, k))
        cx.check(r[0] == "raise" and isinstance(r[1], KeyError), "get of a missing key: got {!r}", r)
        cx.step(2)
    cx.check(outcome(lambda: d.has_section(root)) == ("ok", True), "has_section({!r}) is not True", root)
    cx.check(outcome(lambda: d.has_section(root + "?")) == ("ok", False), "has_section of a missing section is not False")
    cx.check(outcome(lambda: len(d)) == ("ok", len(list(d))), "len() is not the number of sections")
