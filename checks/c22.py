"""C22: action lists are exactly what the section asks for."""
import itertools
import logging

from checks.c20 import act
from checks.c21 import module
from vlib import graphs, senv, spell
from vlib.engine import capture, outcome
from vlib.ini import DEFAULT, expand, kv, opt, read_plain, render, sections, use
from vlib.senv import SetEnvironment

BOUNDS = {
    "quick": "every sequence of 2 operations out of 49 and of 3 out of 20 in a section (all 14 operations, both removals, names that contain each other); "
             "the same split over used sections and DEFAULT; value and name spellings; every history of 4 out of 11 accesses on 5 files; scaling families",
    "thorough": "every sequence of 3 operations out of 49, of 4 out of 20, every history of 5 accesses",
}
ASSUMPTIONS = ["operations have the parameters they need", "parses run with default flags"]

ALPHA = ([("e", o, n, v) for o in ("set", "append", "prepend", "remove-substr", "remove-path-entry", "set-if-empty", "find-in-path") for n in ("X", "XY")
          for v in ("gcc",)] +
         [("e", "unset", "X", None), ("e", "unset", "Y", None), ("e", "assert-not-empty", "X", None), ("e", "assert-not-empty", "X", "msg"), ("e", "set", "X", ""),
          ("e", "remove", "X", None), ("e", "remove", "Y", None), ("e", "remove", "XY", None), ("e", "remove", "gcc", None), ("e", "set", "Y", "X"), ("e", "set", "x", "GCC"), ("e", "remove", "x", None)] +
         [("m", "load", "gcc", "7"), ("m", "load", "gcc", None), ("m", "load", "gcc", ""), ("m", "load", "intel", "gcc-7"), ("m", "load", "X", "1"),
          ("m", "unload", "gcc", None), ("m", "unload", "gcc-x", ""), ("m", "swap", "gcc", "intel/19"), ("m", "swap", "intel", "gcc/8"), ("m", "use", None, "/m/gcc/files"),
          ("m", "use", None, "/m/x"), ("m", "purge", None, None), ("m", "purge", None, ""), ("m", "remove", "gcc", None), ("m", "remove", "intel", None),
          ("m", "remove", "x", None), ("m", "remove", "X", None), ("m", "remove", "7", "v"), ("m", "load", "gcc/7", "2"), ("m", "remove", "gcc/", None), ("m", "use", "p", "/m/p"), ("m", "load", "GCC", "1"), ("m", "remove", "GCC", None)])
CORE = [ALPHA.index(x) for x in [
    ("e", "set", "X", "gcc"), ("e", "append", "X", "gcc"), ("e", "prepend", "XY", "gcc"), ("e", "unset", "X", None), ("e", "assert-not-empty", "X", None),
    ("e", "remove", "X", None), ("e", "remove", "XY", None), ("e", "remove", "gcc", None), ("e", "set", "Y", "X"), ("e", "find-in-path", "X", "gcc"),
    ("m", "load", "gcc", "7"), ("m", "load", "gcc", None), ("m", "load", "intel", "gcc-7"), ("m", "unload", "gcc", None), ("m", "swap", "intel", "gcc/8"),
    ("m", "use", None, "/m/gcc/files"), ("m", "purge", None, None), ("m", "remove", "gcc", None), ("m", "remove", "X", None), ("m", "remove", "intel", None)]]


def make(i, n=""):
    kind, *a = ALPHA[i]
    if kind == "e":
        return act(*a, n=n)
    if a[1] is None and n:
        # purge and use have no name: keep keys apart by spelling
        o = module(*a)
        key = f"module-{a[0]} p{n}"
        return opt(o[0].replace(o[1], key, 1), key, o[2], o[3], [f"p{n}"])
    return module(*a, n=n and f"n{n}")


def files():
    S = lambda *idx: [make(i, n) for n, i in enumerate(idx, 1)]  # noqa: E731
    a = lambda *x: ALPHA.index(tuple(x))  # noqa: E731
    set_, app, rem = a("e", "set", "X", "gcc"), a("e", "append", "X", "gcc"), a("e", "remove", "X", None)
    load, mrem = a("m", "load", "gcc", "7"), a("m", "remove", "gcc", None)
    return [
        [["A", S(set_, app)], ["B", [use("A")] + S(rem, app)], ["C", S(set_)]],
        [[DEFAULT, S(set_, load)], ["A", S(app)], ["B", [use("A"), use("C")] + S(mrem)], ["C", S(load, rem)]],
        [["A", S(set_) + [use("B")]], ["B", S(app, load) + [use("A")]], ["C", []]],
        [["A", [kv("k", "v")] + S(set_)], ["B", [kv("k", "w"), use("A")] + S(app)], ["C", [use("B"), use("A")]]],
        [["A", S(set_, app)], ["B", S(set_) + [use("nowhere")] + S(app)], ["C", [use("A")] + S(app)]],
    ]


ACCESS = [["parse", "A"], ["parse", "B"], ["parse", "C"], ["read", "A"], ["read", "B"], ["script", "A"], ["script", "B"], ["pretty", "C"], ["all"], ["unroll"], ["spoil", "A"]]


def cases(tier):
    big = tier == "thorough"
    for i in range(len(ALPHA)):
        yield ["seq", [i], ""]
    for s in itertools.product(range(len(ALPHA)), repeat=2):
        yield ["seq", list(s), "n"]
    for k, v in itertools.product(range(9), range(len(spell.VALUES))):
        yield ["value", k, v]
    for s in itertools.product(CORE, repeat=3):
        yield ["seq", list(s), "n"]
    for shape in range(5):
        for s in itertools.product(CORE, repeat=2):
            yield ["shape", shape, list(s)]
    for fi in range(5):
        for n in range(1, 6 if big else 5):
            for h in itertools.product(range(len(ACCESS)), repeat=n):
                if n < 4 or big or h[0] in (0, 1, 3, 5):
                    yield ["history", fi, list(h)]
    for j, f in enumerate(graphs.scaling(chain=(5, 20), width=(5, 20), options=(5, 100), diamond=(3, 5))):
        yield ["big", j]
    if big:
        for s in itertools.product(range(len(ALPHA)), repeat=3):
            yield ["seq", list(s), "n"]
        for s in itertools.product(CORE, repeat=4):
            yield ["seq", list(s), "n"]


def show(case):
    if case[0] == "seq":
        return {"section": [make(i, n if case[2] else "")[0] for n, i in enumerate(case[1], 1)]}
    if case[0] == "history":
        return {"file": render(files()[case[1]]), "accesses": [ACCESS[i] for i in case[2]]}
    return case


def pretty(cx, p, s, acts, what):
    with capture() as out:
        r = outcome(p.pretty_print_actions, s)
    lines = [x for x in out.text.splitlines() if x.startswith("-->")]
    cx.check(r == ("ok", None) and len(lines) == len(acts), "{}: pretty_print_actions({!r}) gives {!r} and {!r}, expected {} actions", what, s, r, out.text[:1500], len(acts))
    for line, a in zip(lines, acts):
        words = [a["op"]]
        if "envvar" in a:
            words.append(a["envvar"])
            if a["op"] not in ("envvar_unset", "envvar_assert_not_empty"):
                words.append(str(a["value"]))
        elif a["op"] == "module_use":
            words.append(str(a["value"]))
        elif a["op"] != "module_purge":
            words.append(a["module"])
            if a["op"] == "module_swap" or (a["op"] == "module_load" and a["value"]):
                words.append(str(a["value"]))
        cx.check(line.split()[1] == a["op"] and all(w in line for w in words), "{}: line {!r} does not show the action {!r}", what, line, a)


def section(cx, p, s, acts, what, cheap=False):
    r = outcome(p.parse_section, s)
    cx.check(r == ("ok", {"setenvironment": acts}), "{}: parse_section({!r}) gives {!r}, expected {!r}", what, s, r, acts)
    r = outcome(lambda: p.actions[s])
    cx.check(r == ("ok", acts), "{}: actions[{!r}] is {!r}, expected {!r}", what, s, r, acts)
    cx.step(len(acts))
    if not cheap and not any("\n" in str(a["value"]) for a in acts):
        pretty(cx, p, s, acts, what)
    cx.state(repr(acts))


def run(case, cx):
    logging.disable(logging.CRITICAL)
    kind = case[0]
    if kind == "history":
        return history(case, cx)
    if kind == "seq":
        file = [["A", [make(i, n if case[2] else "") for n, i in enumerate(case[1], 1)]]]
    elif kind == "value":
        ops = ["envvar-set", "envvar-append", "envvar-prepend", "envvar-remove-substr", "envvar-set-if-empty", "envvar-assert-not-empty", "envvar-find-in-path", "module-load",
               "module-swap"]
        text = f"[A]\nenvvar-set A : 1\n{ops[case[1]]} 'N-a me' extra : {spell.VALUES[case[2]][0]}\nenvvar-set Z : 1\n"
        secs = read_plain([text])
        p = SetEnvironment(cx.write(text))
        section(cx, p, "A", senv.actions(expand(secs, "A")), text)
        cx.trace(text)
        return
    elif kind == "shape":
        o1, o2 = (make(i, n) for n, i in enumerate(case[2], 1))
        x, m = act("set", "X", "base", n="0"), module("load", "gcc", "base", n="n0")
        file = [
            [["A", [x, m, o1, use("B")]], ["B", [o2, kv("plain", "v")]]],
            [["A", [use("B"), o1, x]], ["B", [m, o2]]],
            [[DEFAULT, [x, o1, m]], ["A", [o2]], ["B", [use("A"), use(DEFAULT)]]],
            [["A", [use("B"), use("C"), use("B", '"')]], ["B", [o1, x]], ["C", [m, o2]]],
            [["A", [x, o1, use("B"), m]], ["B", [use("A"), o2]]],
        ][case[1]]
    else:
        f = list(graphs.scaling(chain=(5, 20), width=(5, 20), options=(5, 100), diamond=(3, 5)))[case[1]]
        file = []
        for n, b in f:
            b = [o if o[3] == "use" else act(("set", "append", "unset", "remove")[len(o[1]) % 4], o[1].upper()[:2], None if len(o[1]) % 4 > 1 else (o[2] or "v"), n=o[1]) for o in b]
            file.append([n, b])
    secs = sections(file)
    p = SetEnvironment(cx.write(render(file)))
    p.exception_control_silent_warnings = True
    for s in secs:
        acts = senv.actions(expand(secs, s))
        section(cx, p, s, acts, render(file)[:1500], cheap=kind == "seq" and len(case[1]) > 2)
    with capture():
        for s in secs:     # nothing got lost or mixed in the meantime
            acts = senv.actions(expand(secs, s))
            r = outcome(lambda: p.actions[s])
            cx.check(r == ("ok", acts), "{}: actions[{!r}] became {!r}, expected {!r}", render(file)[:1500], s, r, acts)
            r = outcome(lambda: dict(p.configparserenhanceddata.options(s)))
            want = {o[1]: o[2] for k, _, o in expand(secs, s) if k == "opt" and o[3] not in senv.HANDLED}
            cx.check(r == ("ok", want), "{}: data of {!r} are {!r}, expected {!r}", render(file)[:1500], s, r, want)
    cx.trace(repr([senv.actions(expand(secs, s)) for s in secs])[:2000])


def history(case, cx):
    from vlib.ini import Missing
    file = files()[case[1]]
    secs = sections(file)
    acts = {}
    for s in secs:
        try:
            acts[s] = senv.actions(expand(secs, s))
        except Missing:
            acts[s] = None
    p = SetEnvironment(cx.write(render(file)))
    p.exception_control_silent_warnings = True
    what = f"{render(file)}: accesses {[ACCESS[i] for i in case[2]]}"
    seen = set()
    with capture():
        for i in case[2]:
            o = ACCESS[i]
            s = o[1] if len(o) > 1 else None
            if o[0] in ("parse", "spoil"):
                if o[0] == "spoil":     # the caller changes the list; the next parse gives a right one, no other list is affected
                    for a in p.actions.get(s) or []:
                        a["value"] = "spoilt"
                    (p.actions.get(s) or []).insert(0, {"op": "envvar_set", "envvar": "SPOILT", "value": "1"})
                r = outcome(p.parse_section, s)
                ok = r == ("ok", {"setenvironment": acts[s]})
            elif o[0] == "read":
                r = outcome(lambda: p.configparserenhanceddata[s])
                ok = r[0] == "ok"
            elif o[0] == "script":
                r = outcome(p.generate_actions_script, s, incl_hdr=False)
                ok = r[0] == "ok" and sum(1 for x in r[1].splitlines() if x and x[0] != "#") == len(acts[s] or [])
            elif o[0] == "pretty":
                if acts[s] is not None:
                    pretty(cx, p, s, acts[s], what)
                ok, r = True, None
            elif o[0] == "all":
                r = outcome(p.parse_all_sections)
                ok = r[0] == "ok"
                if None not in acts.values():
                    seen |= set(secs)
            else:
                r = outcome(p.unroll_to_str)
                ok = r[0] == "ok"
            if s is not None and acts[s] is None or o[0] in ("all", "unroll") and None in acts.values():
                ok = r is None or (r[0] == "raise" and isinstance(r[1], KeyError))
            elif s is not None:
                seen.add(s)
            cx.check(ok, "{}: {} gives {!r}", what, o, r)
            for t in seen:
                cx.check(p.actions.get(t) == acts[t], "{}: after {} actions[{!r}] is {!r}, expected {!r}", what, o, t, p.actions.get(t), acts[t])
            cx.step()
            cx.state(case[1], sorted(seen), o)
        for s in secs:
            if acts[s] is not None:
                r = outcome(p.parse_section, s)
                cx.check(r == ("ok", {"setenvironment": acts[s]}) and p.actions[s] == acts[s], "{}: then parse {!r} gives {!r}, expected {!r}", what, s, r, acts[s])
    cx.trace(repr(sorted(seen)))
