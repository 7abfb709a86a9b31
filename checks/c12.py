"""C12: all-handled validation agrees with dispatch."""
import itertools

from vlib import graphs, rec, spell
from vlib.cpe import ConfigParserEnhanced
from vlib.engine import capture, outcome
from vlib.ini import DEFAULT, Missing, contents, expand, kv, opt, render, sections, seqs, use

BOUNDS = {
    "quick": "files of 2 sections (<=2 and <=2 options out of 6) x 9 handler sets x levels 0-5 x silent; DEFAULT; 42 key spellings x handler kinds; "
             "use graphs on 2-3 sections; validation repeated, after reads and after other validations; inherited and mixed-in handlers",
    "thorough": "as quick with <=3 and <=2 options, and all graphs on 3 sections with 2 options",
}
ASSUMPTIONS = ["handlers are methods of the class"]
ALPHA = [
    opt("op-a x: 1", "op-a x", "1", "op_a", ["x"]),
    opt("op_a y", "op_a y", None, "op_a", ["y"]),
    opt("op-b 'p q' = v", "op-b 'p q'", "v", "op_b", ["p q"]),
    opt("op: v", "op", "v", "op", []),
    opt("w.x y: v", "w.x y", "v", None),
    opt("finalize now", "finalize now", None, "finalize", ["now"]),
]
SETS = [
    [],
    [["op_a", "public", True]],
    [["op_a", "private", False]],
    [["op_a", "public", False], ["op_b", "private", True]],
    [["op_a", "both", True]],
    [["op_a", "public", True], ["op_b", "public", True], ["op", "private", True]],
    [["initialize_x", "public", True], ["finalizer", "private", True], ["op", "public", True]],
    [["op_a_b", "public", True], ["o", "private", True], ["op_", "public", False]],
    [["OP", "public", True], ["op_A", "private", True]],
]
LEVELS = [[lv, s] for lv in range(6) for s in (False, True)]
FEW = [[4, False], [2, False], [5, True]]


def cases(tier):
    big = tier == "thorough"
    for spec in SETS:
        for a in seqs(ALPHA, 2):
            yield ["plain", [["A", a]], spec, LEVELS]
    for k in spell.KEYS:
        if k[1] is None:
            specs = [[]]
        elif k[1] in ("initialize", "finalize"):
            specs = [[], [[k[1] + "_x", "public", True]]]
        else:
            specs = [[], [[k[1], "public", True]], [[k[1], "private", False]], [[k[1] + "x", "public", True]]]
        for spec in specs:
            for v in (None, ("v", "v"), ("", "")):
                f = [["A", [spell.make(k, ": ", v)]], ["B", [use("A")]], ["C", []]]
                yield ["plain", f, spec, FEW]
    for how in ("inherit", "mixin", "noise"):
        for spec in SETS:
            for a in seqs(ALPHA[:4] + [kv("foo", "1")], 2):
                yield [how, [["A", a], ["B", [use("A"), kv("y", None)]], ["C", [ALPHA[0]]]], spec, FEW]
    for spec in SETS if big else SETS[1:7:2]:
        for a in seqs(ALPHA[:5] + [use("B")], 3 if big else 2):
            for b in seqs(ALPHA[:4] + [use("A"), kv("z", "")], 2):
                yield ["plain", [["A", a], ["B", b]], spec, FEW]
    for d in seqs(ALPHA[:4] + [use("A")], 2):
        for a in seqs([ALPHA[0], ALPHA[3], use(DEFAULT)], 1):
            for spec in SETS[:6]:
                yield ["plain", [[DEFAULT, d], ["A", a], ["B", [use("A")]]], spec, LEVELS]
                yield ["plain", [["A", a], ["B", [use("A")]], [DEFAULT, d]], spec, FEW]
                yield ["plain", [["B", [use("A")]], [DEFAULT, d], ["A", a]], spec, FEW]
    for f in graphs.small_graphs("AB", 2):
        for spec in ([["k1", "public", True]], [["k1", "private", True], ["k2", "public", True]]):
            yield ["plain", f, spec, FEW]
    for f in graphs.small_graphs("ABC", 2 if big else 1, keys=1):
        yield ["plain", f + [["D", [kv("k1", "x"), use("nowhere")]]], [], FEW]
        yield ["plain", f, [["k1", "public", True]], FEW]
    for f in graphs.scaling(chain=(5, 20), width=(5, 20), options=(5, 60), diamond=(3,)):
        for spec in ([], [["k1", "public", True]], [["p1", "public", True], ["only0", "public", True]]):
            yield ["plain", f, spec, FEW]
    # many sections, the bad one at every position
    for n in (4, 8):
        for bad in itertools.product((0, 1), repeat=n):
            f = [[f"S{i}", [ALPHA[0]] + ([kv(f"bad{i}", "v")] if b else [])] for i, b in enumerate(bad)]
            yield ["plain", f, SETS[1], FEW]


def show(case):
    return {"class": case[0], "file": render(case[1])[:1200], "handlers": case[2], "level, silent": case[3][:3]}


def classes(how, spec):
    cls = rec.make_class(spec)
    if how == "inherit":
        cls = type("Child", (type("Middle", (cls,), {}),), {})
    elif how == "mixin":
        mix = type("Mix", (), {"handler_op_b": rec.method("handler_op_b", True)})
        cls = type("Child", (mix, cls), {})
    elif how == "noise":    # methods that are not handlers
        cls = type("Child", (cls,), {n: rec.method(n, False) for n in ("my_handler_foo", "handlers_y", "xhandler_op", "do_op")})
    return cls


def run(case, cx):
    how, file, spec, settings = case
    secs = sections(file)
    path = cx.write(render(file))
    cls = classes(how, spec)
    ops = rec.handled(spec) | ({"op_b"} if how == "mixin" else set())
    both = {s[0] for s in spec if s[1] == "both"}
    if how == "mixin" and any(s[0] == "op_b" and s[1] != "public" for s in spec):
        both.add("op_b")
    want, amb, cyc = {}, {}, {}
    for s in secs:
        try:
            ev = expand(secs, s)
            want[s] = list(contents(ev, ops))
            amb[s] = sum(1 for e in ev if e[0] == "opt" and e[2][3] in both)
            cyc[s] = sum(1 for e in ev if e[0] == "cycle")
        except Missing as m:
            want[s], amb[s], cyc[s] = None, sum(1 for e in m.events if e[0] == "opt" and e[2][3] in both), 0
    for level, silent in settings:
        def make():
            p = cls(path)
            p.exception_control_level = level
            p.exception_control_silent_warnings = silent
            p.exception_control_compact_warnings = True
            return p
        cx.equal(set(make().get_known_operations()), {"use"} | {o.replace("_", "-") for o in ops}, "known operations")
        shared = make()
        for s in secs:
            if (amb[s] and level >= 3) or (cyc[s] and level >= 5):
                continue
            for p, again in ((make(), False), (shared, True), (shared, True)):
                warm = again and p is shared
                section(cx, p, s, want[s], level, silent, None if warm else amb[s] + cyc[s])
                cx.step(2)
        if any((amb[s] and level >= 3) or (cyc[s] and level >= 5) for s in secs):
            continue
        for p in (make(), shared):
            wholefile(cx, p, want, level, silent)
            cx.step()
        with capture():
            r = outcome(shared.assert_section_all_options_handled, "no such section")
        cx.check(r[0] == "raise" and isinstance(r[1], KeyError), "missing section: {!r}", r)
        cx.state(level, silent, repr(spec), repr(want))
    cx.trace(repr(want))


def warnings(text, kind):
    return sum(1 for x in text.splitlines() if "EXCEPTION SKIPPED" in x and kind in x)


def section(cx, p, s, keys, level, silent, other):
    what = f"section {s!r} at level {level}"
    with capture() as out:
        r = outcome(p.assert_section_all_options_handled, s, do_raise=False)
    if keys is None:
        cx.check(r[0] == "raise" and isinstance(r[1], KeyError), "{}: unknown use target gives {!r}", what, r)
        return
    if not keys:
        cx.check(r == ("ok", 0), "{}: everything is handled, but the check gives {!r}", what, r)
    else:
        cx.check(r[0] == "ok" and r[1] != 0, "{}: unhandled {!r}, but the check gives {!r}", what, keys, r)
        cx.check(all(k in str(r[1]) for k in keys), "{}: {!r} does not name every one of {!r}", what, r[1], keys)
    with capture() as out:
        r = outcome(p.assert_section_all_options_handled, s)
    n = 0
    if not keys:
        cx.check(r == ("ok", 0), "{}: everything is handled, but the check gives {!r}", what, r)
    elif level >= 3:
        cx.check(r[0] == "raise" and type(r[1]) is ValueError, "{}: unhandled {!r}, expected ValueError, got {!r}", what, keys, r)
        cx.check(all(k in str(r[1]) for k in keys), "{}: {!r} does not name every one of {!r}", what, str(r[1]), keys)
    else:
        cx.check(r[0] == "ok" and r[1] != 0, "{}: unhandled {!r}, but the check gives {!r}", what, keys, r)
        cx.check(all(k in str(r[1]) for k in keys), "{}: {!r} does not name every one of {!r}", what, r[1], keys)
        n = 1 if level > 0 and not silent else 0
    cx.check(warnings(out.text, "ValueError") == n, "{}: {} warnings, expected {}: {!r}", what, warnings(out.text, "ValueError"), n, out.text[:500])


def wholefile(cx, p, want, level, silent):
    what = f"file at level {level}"
    with capture() as out:
        r = outcome(p.assert_file_all_sections_handled)
    if any(v is None for v in want.values()):
        cx.check(r[0] == "raise", "{}: unknown use target gives {!r}", what, r)
        return
    bad = {s: v for s, v in want.items() if v}
    if not bad:
        cx.check(r == ("ok", 0), "{}: everything is handled, but the check gives {!r}", what, r)
        return
    if level >= 3:
        cx.check(r[0] == "raise" and type(r[1]) is ValueError, "{}: unhandled {!r}, expected ValueError, got {!r}", what, bad, r)
    else:
        cx.check(r[0] == "ok" and type(r[1]) is int and r[1] != 0, "{}: unhandled {!r}, but the check gives {!r}", what, bad, r)
    text = out.text + (str(r[1]) if r[0] == "raise" else "")
    for s, v in bad.items():
        cx.check(all(k in text for k in v), "{}: {!r} of {!r} are not all named in {!r}", what, v, s, text[:2000])
