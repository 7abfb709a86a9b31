"""C10: diagnostics never change results."""
import itertools
import logging

from vlib import graphs, rec, senv, spell
from vlib.engine import capture, outcome
from vlib.ini import Missing, contents, expand, kv, opt, read_plain, render, sections, seqs, use
from vlib.senv import SetEnvironment

BOUNDS = {
    "quick": "debug_level 0-6 x level 0-4 x silent x compact on 60 files; debug_level 0-6 on all files on 2 sections with <=2 options and "
             "on 42 key x 33 value spellings (split), also changed between reads; an operation with a public and a private handler at levels 0-2; SetEnvironment action lists of 40 files x debug levels",
    "thorough": "the full product on all of these and on DEFAULT+2 sections",
}
ASSUMPTIONS = []
SPEC = [["op", "public", True], ["op_b", "private", False], ["amb", "both", True]]
HANDLED = {"op", "op_b", "amb"}
FULL = [[dl, lv, s, c] for dl in range(7) for lv in range(5) for s in (False, True) for c in (False, True)]
SOME = [[dl, 4, dl % 2 == 1, dl > 3] for dl in range(7)]


def op(n, v="v"):
    return opt(f"op {n}: {v}", f"op {n}", v, "op", [str(n)])


def cases(tier):
    big = tier == "thorough"
    alpha = [op(1), opt("op-b 'x y' z", "op-b 'x y' z", None, "op_b", ["x y", "z"]), kv("k", ""), opt("w.x= {v} %%s", "w.x", "{v} %s", None)]
    reps = [[["A", a + [use("B")]], ["B", b]] for a in seqs(alpha, 2) for b in ([], [op(2)], [kv("k", "b"), use("A")])]
    reps += [[["DEFAULT", [op("d"), kv("k0", "d")]], ["A", [use("B"), op(1)]], ["B", [use("A"), use("B"), kv("k", "b")]]],
             [["A", [kv("k", "v"), use("nowhere"), op(1)]], ["B", [op(2)]]],
             [["A", []], ["B", [use("A")]]]]
    for f in reps:
        yield ["set", f, FULL]
    for k in spell.KEYS:
        yield ["set", [["A", [spell.make(k, ": ", ("v", "v")), op(1)]]], SOME]
    for v in spell.VALUES:
        if v[1] is not None and v[1] != v[1].strip():
            continue  # blanks inside quotes do not survive unrolling (see C07)
        yield ["set", [["A", [spell.make(spell.KEYS[0], ": ", v), opt("op 1: " + v[0], "op 1", v[1], "op", ["1"])]]], SOME]
    for f in graphs.small_graphs("AB", 2):
        yield ["set", f, FULL if big else SOME]
    for f in reps:
        for seq in itertools.product(range(0, 6, 2), repeat=3):
            yield ["change", f, list(seq)]
    for a in seqs([opt("amb 1: v", "amb 1", "v", "amb", ["1"]), op(1), use("B")], 2):
        for b in ([], [opt("amb 2", "amb 2", None, "amb", ["2"])], [kv("k", "b"), use("A")]):
            yield ["amb", [["A", a], ["B", b]], [[dl, lv, s, dl > 2] for dl in (0, 1, 4) for lv in range(3) for s in (False, True)]]
    lines = ["envvar-set X: 1", "envvar-append X: 2", "envvar-remove X", "module-load gcc: 7", "module-remove gcc", "module-purge",
             "envvar-unset X", "envvar-assert-not-empty Y"]
    for n in (1, 2, 3):
        for body in itertools.permutations(lines, n):
            yield ["senv", list(body), None]
    if big:
        for f in graphs.small_graphs("AB", 2, default_len=2):
            yield ["set", f, SOME]


def show(case):
    return {"mode": case[0], "file": render(case[1]) if case[0] != "senv" else case[1], "settings": case[2][:4] if case[2] else None}


def plan(file):
    secs = sections(file)
    out = {}
    for s in secs:
        try:
            ev = expand(secs, s)
            cyc = sum(1 for e in ev if e[0] == "cycle")
            out[s] = (contents(ev, HANDLED), rec.expected(ev, s, SPEC), [o[1] for k, _, o in ev if k == "opt" and o[3] in HANDLED], cyc)
        except Missing as m:
            out[s] = (None, rec.expected(m.events, s, SPEC, True, False), None, 0)
    return secs, out


def make(path):
    p = rec.make_class(SPEC)(path)

    def hook(name, section, hp):
        if name in ("handler_op", "_handler_op_b", "handler_amb", "_handler_amb"):
            hp.data_shared.setdefault("ops", []).append(hp.raw_option[0])
        return 0
    p.hook = hook
    return p


def results(cx, p, pl, what):
    for s, (data, calls, ops, _) in pl.items():
        p.calls = []
        r = outcome(p.parse_section, s)
        cx.step()
        cx.check(p.calls == calls, "{}: handler calls of {!r}: {!r}, expected {!r}", what, s, p.calls, calls)
        if data is None:
            cx.check(r[0] == "raise" and type(r[1]) is KeyError, "{}: parse of {!r} gives {!r}, expected KeyError", what, s, r)
            continue
        want = {"ops": ops} if ops else {}
        cx.check(r == ("ok", want), "{}: parse of {!r} gives {!r}, expected {!r}", what, s, r, want)
        r = outcome(lambda: dict(p.configparserenhanceddata.options(s)))
        cx.check(r == ("ok", data), "{}: data of {!r} is {!r}, expected {!r}", what, s, r, data)
        r = outcome(p.assert_section_all_options_handled, s, do_raise=False)
        cx.check(r[0] == "ok" and (r[1] == 0) == (not data), "{}: all-handled check of {!r} gives {!r}", what, s, r)
    r = outcome(p.parse_section, "no such section")
    cx.check(r[0] == "raise" and type(r[1]) is KeyError, "{}: parse of a missing section gives {!r}", what, r)
    r = outcome(p.parse_section, 5)
    cx.check(r[0] == "raise" and type(r[1]) is TypeError, "{}: parse_section(5) gives {!r}", what, r)


def run(case, cx):
    logging.disable(logging.CRITICAL)
    mode = case[0]
    if mode == "senv":
        return setenv(case, cx)
    path = cx.write(render(case[1]))
    secs, pl = plan(case[1])
    broken = any(v[0] is None for v in pl.values())
    if mode == "change":
        p = make(path)
        with capture():
            for dl in case[2]:
                p.debug_level = dl
                results(cx, p, pl, f"debug_level set to {case[2]} in turn, now {dl}")
                cx.state("change", dl)
        cx.trace(repr(pl))
        return
    for dl, lv, silent, compact in case[2]:
        what = f"debug_level {dl}, level {lv}, silent {silent}, compact {compact}"
        p = make(path)
        p.debug_level = dl
        p.exception_control_level = lv
        p.exception_control_silent_warnings = silent
        p.exception_control_compact_warnings = compact
        with capture() as out:
            results(cx, p, pl, what)
        quiet = dl == 0 and (lv == 0 or silent or all(v[3] == 0 for v in pl.values()) and not any(o[3] == "amb" for b in secs.values() for o in b))
        cx.check(not quiet or out.text == "", "{}: printed {!r}", what, out.text[:300])
        with capture() as out:
            r = outcome(p.unroll_to_str)
        if not broken:
            got = {k: contents([("opt", k, x) for x in v]) for k, v in read_plain([r[1]]).items()} if r[0] == "ok" else r
            want = {s: {k: v or "" for k, v in contents(expand(secs, s)).items()} for s in secs}
            cx.check(r[0] == "ok" and {s: {k: v or "" for k, v in d.items()} for s, d in got.items()} == want,
                     "{}: unrolled to {!r}, expected {!r}", what, got, want)
        cx.check(dl > 0 or out.text == "", "{}: unroll_to_str printed {!r}", what, out.text[:300])
        cx.check((p.debug_level, p.exception_control_level) == (dl, lv), "{}: settings changed", what)
        cx.state(dl, lv, silent, compact, repr(pl))
    cx.trace(repr(pl))


def setenv(case, cx):
    text = "[A]\n" + "\n".join(case[1]) + "\n[B]\nuse A\n"
    path = cx.write(text)
    secs = read_plain([text])
    want = senv.actions(expand(secs, "A"))
    scripts = set()
    for dl in range(6):
        p = SetEnvironment(path)
        p.debug_level = dl
        with capture() as out:
            for s in ("A", "B"):
                r = outcome(p.parse_section, s)
                cx.check(r == ("ok", {"setenvironment": want}) and p.actions[s] == want, "debug_level {}: actions {!r}, expected {!r}", dl, r,
                         want)
                cx.step()
            r = outcome(p.generate_actions_script, "A", incl_hdr=False)
        cx.check(r[0] == "ok" or any(a["value"] is None for a in want), "debug_level {}: script raised {!r}", dl, r[1])
        if r[0] == "ok":
            scripts.add(r[1])
        cx.check(dl > 0 or out.text == "", "debug_level 0: printed {!r}", out.text[:300])
        cx.state("senv", dl, repr(want))
    cx.check(len(scripts) <= 1, "the generated script depends on debug_level")
    cx.trace(repr(want))
