"""C20: apply() changes the environment exactly as the section's actions say."""
import itertools
import logging
import os

from vlib import senv, spell
from vlib.engine import capture, outcome
from vlib.ini import DEFAULT, Missing, expand, opt, render, sections, use
from vlib.senv import SetEnvironment

BOUNDS = {
    "quick": "every sequence of 2 actions out of 62 and of 3 out of 17 (all 9 operations, two variables, references, removals) in 8 initial environments; every "
             "operation x 60 value spellings x 5 old values; find-in-path over all PATHs of 2 out of 4 directories; use, DEFAULT, repeated and mixed applies",
    "thorough": "every sequence of 3 actions out of 62 and of 4 out of 17 in 8 initial environments",
}
ASSUMPTIONS = ["values of operations that need one are given", "variable names are words"]


def act(op, name, value, n=""):
    key = f"envvar-{op} {name}" + (f" {n}" if n else "")
    text = key if value is None else f"{key} : {value.replace('%', '%%')}"
    return opt(text, key, value, "envvar_" + op.replace("-", "_"), [name] + ([str(n)] if n else []))


V2 = ["set", "set-if-empty", "append", "prepend", "remove-substr", "remove-path-entry"]
ALL = ([(o, "X", v) for o in V2 for v in ("a", "b:a", "", "${X}", "p${Y}q")] + [(o, "Y", v) for o in V2 for v in ("a", "$X", "${X}:${Y}:${Z}")] +
       [(o, n, None) for o in ("unset", "remove") for n in "XY"] + [("assert-not-empty", "X", None), ("assert-not-empty", "Y", "no Y but $X")] +
       [("find-in-path", "X", "tool"), ("find-in-path", "X", "${Y}tool"), ("find-in-path", "Y", "nosuchtool"), ("set", "PATH", "${D}/d2"),
        ("append", "PATH", "${D}/d1"), ("prepend", "PATH", "$D/d2"), ("remove-path-entry", "PATH", "$D/d1"), ("unset", "PATH", None)])
CORE = [("set", "X", "a"), ("set", "X", "p${Y}q"), ("set", "Y", "$X"), ("append", "X", "a"), ("append", "Y", "${X}:${Y}:${Z}"),
        ("prepend", "X", "b:a"), ("prepend", "Y", "$X"), ("remove-substr", "X", "a"), ("remove-path-entry", "X", "a"), ("set-if-empty", "X", "${Y}"),
        ("set-if-empty", "Y", "a"), ("unset", "X", None), ("remove", "X", None), ("assert-not-empty", "X", None), ("find-in-path", "Y", "tool"),
        ("prepend", "PATH", "$D/d2"), ("set", "X", "")]
ENVS = [{}, {"X": ""}, {"X": "a"}, {"X": "a:b:a:a", "Y": "q"}, {"Y": "a", "Z": "$X"}, {"X": "${Y}", "Y": "${X}"}, {"X": "xax", "Y": "", "x": "low"},
        {"X": ":a::b:", "Y": "a b\tc"}]
RAW = [v for v in (x[0] for x in spell.VALUES)] + ["\\", "a\\", "\\n", "\\\"", "'", '"a"b"', '"""', "'''", "a'b\"c", "{x}", "{}", "%%", "%%s", "$", "$$", "${", "${}", "$1",
                                                   "a$", "${X", "$X$X", "$XY", "${X}Y", "\\$X", "~", "*", "`ls`", "$(ls)", ";", "&", "|", "\u2028x", "\U0001f600 \U0001d11e", "$OTHER", "${OTHER}x$OTHER/y", "$HOME/x", "$NOT_SET/x", '"  in  "', "\x7f", "x\ty", "#a", "a;b"]


def cases(tier):
    big = tier == "thorough"
    for a in range(len(ALL)):
        yield ["seq", "all", [a], ""]
    ops = [o for o in V2 + ["find-in-path", "assert-not-empty"]]
    for o in ops:
        for v in RAW:
            yield ["raw", o, v]
    for s in itertools.product(range(len(ALL)), repeat=2):
        yield ["seq", "all", list(s), "n"]
    for dirs in itertools.product(range(-1, 5), repeat=2):
        for name in ("tool", "data", "only3", "sub", "d1", "nosuch"):
            yield ["find", list(dirs), name]
    for s in itertools.product(range(len(CORE)), repeat=3):
        yield ["seq", "core", list(s), "n"]
    for shape in range(6):
        for s in itertools.product(range(len(CORE)), repeat=2):
            yield ["shape", shape, list(s)]
    for s in itertools.product(range(3), repeat=3):
        yield ["applies", None, list(s)]
    for name in ("X1", "_X", "x", "XX", "X_Y", "A" * 200, "\u00c4"):
        for s in itertools.product(range(4), repeat=2):
            yield ["name", name, list(s)]
    for n in (5, 20, 100):
        yield ["long", n]
    for bad in ("missing", "nowhere", "int", "none"):
        yield ["bad", bad]
    if big:
        for s in itertools.product(range(len(ALL)), repeat=3):
            yield ["seq", "all", list(s), "n"]
        for s in itertools.product(range(len(CORE)), repeat=4):
            yield ["seq", "core", list(s), "n"]


def body(case):
    table = ALL if case[1] == "all" else CORE
    return [act(*table[i], n=j if case[3] else "") for j, i in enumerate(case[2], 1)]


def show(case):
    return {"kind": case[0], "actions": [o[0] for o in body(case)]} if case[0] == "seq" else case


def dirs(cx):
    base = os.path.join(cx.scratch, "bin")
    if not os.path.isdir(base):
        for d, files in (("d1", [("tool", 0o755), ("data", 0o644)]), ("d2", [("tool", 0o755), ("data", 0o755), ("only3x", 0o755)]),
                         ("d3", [("only3", 0o755), ("tool", 0o644)]), ("d4", [])):
            os.makedirs(os.path.join(base, d))
            for f, mode in files:
                p = os.path.join(base, d, f)
                open(p, "w").write("#!/bin/sh\n")
                os.chmod(p, mode)
        os.makedirs(os.path.join(base, "d4", "sub"))
        os.makedirs(os.path.join(base, "d3", "data"))
    return base


def apply(cx, p, section, env, acts, what, level=None):
    """One apply() in one environment, against the model."""
    want, fail = senv.fold(env, acts)
    with senv.environment(env) as e, capture():
        r = outcome(p.apply, section)
    cx.step(len(acts))
    if fail is None:
        cx.check(r == ("ok", 0), "{}: apply({!r}) in {!r} gives {!r}", what, section, env, r)
    else:
        cx.check(r[0] == "raise" and isinstance(r[1], ValueError), "{}: apply({!r}) in {!r} gives {!r}, expected ValueError", what, section, env, r)
        if fail.args[0]:
            cx.check(str(r[1]) == fail.args[0], "{}: message is {!r}, expected {!r}", what, str(r[1]), fail.args[0])
    if e.after != want:
        found(cx, env, acts, e.after, want, what, section)
    cx.state(repr(sorted(want.items())), fail is None)
    return want


def found(cx, env, acts, got, want, what, section):
    """Disagreement: only the recorded behaviour of find-in-path is excused."""
    w = dict(env)
    hit = False
    for a in acts:
        if a["op"] == "envvar_find_in_path":
            v = senv.subst(w, a["value"])
            plain = senv.find(w, v, need_x=False)
            if plain != senv.find(w, v):
                hit = True
            w[a["envvar"]] = plain
        else:
            try:
                w = senv.effect(w, a)
            except senv.AssertFailed:
                break
    if hit and got == w:
        cx.known("find-in-path-not-executable", f"{what}: got {got!r}, expected {want!r}")
        return
    diff = {k: (got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)}
    cx.check(False, "{}: apply({!r}) in {!r} leaves (got, expected) {!r}", what, section, env, diff)


def run(case, cx):
    logging.disable(logging.CRITICAL)
    base = dirs(cx)
    common = {"PATH": f"{base}/d1:{base}/d2", "D": base, "HOME": "/home/x", "OTHER": "untouched", "_": "/bin/x", "PWD": "/p", "OLDPWD": "", "SHLVL": "2", "PS1": "$ ", "PYTHONPATH": "/pp", "LD_LIBRARY_PATH": ":/l:",
              "LANG": "C", "tmp": "t"}
    kind = case[0]
    if kind == "raw":
        return raw(case, cx, common)
    if kind == "seq":
        file = [["A", body(case)]]
        path = cx.write(render(file))
        acts = senv.actions(expand(sections(file), "A"))
        p = SetEnvironment(path)
        for i, e in enumerate(ENVS):
            if i == len(ENVS) // 2:
                p = SetEnvironment(path)
            apply(cx, p, "A", {**common, **e}, acts, f"{[o[0] for o in body(case)]}")
    elif kind == "find":
        for op, pre in (("find-in-path", ""), ("set", "")):
            names = ["d1", "d2", "d3", "d4", "missing"]
            env = {**common, "PATH": ":".join(f"{base}/{names[i]}" for i in case[1] if i >= 0)}
            acts = [{"op": "envvar_find_in_path", "envvar": "X", "value": case[2]}]
            p = SetEnvironment(cx.write(f"[A]\nenvvar-find-in-path X : {case[2]}\n"))
            for old in (None, "", "old"):
                apply(cx, p, "A", {**env, **({} if old is None else {"X": old})}, acts, f"PATH {case[1]}, find {case[2]}")
            break
    elif kind == "shape":
        shapes(case, cx, common)
    elif kind == "applies":
        file = [["A", [act("append", "X", "1"), act("set", "Y", "${X}")]], ["B", [use("A"), act("prepend", "X", "2")]],
                ["C", [act("unset", "Y", None), act("remove-substr", "X", "1"), use("A")]]]
        p = SetEnvironment(cx.write(render(file)))
        env = dict(common)
        for s in case[2]:
            env = apply(cx, p, "ABC"[s], env, senv.actions(expand(sections(file), "ABC"[s])), f"applies {case[2]}")
    elif kind == "name":
        n = case[1]
        tab = [("set", n, "a"), ("append", n, "${%s}b" % n), ("unset", n, None), ("set", "Z", "$%s-${%s}" % (n, n))]
        file = [["A", [act(*tab[i], n=j) for j, i in enumerate(case[2], 1)]]]
        p = SetEnvironment(cx.write(render(file)))
        for old in ({}, {n: "old"}, {"X": "other"}):
            apply(cx, p, "A", {**common, **old}, senv.actions(expand(sections(file), "A")), f"variable {n}")
    elif kind == "long":
        file = [["A", [act(("append", "prepend")[j % 2], "XY"[j % 3 == 0], f"v{j}$X", n=j) if j < 12 else act("append", f"V{j % 7}", f"v{j}", n=j) for j in range(1, case[1] + 1)]]]
        p = SetEnvironment(cx.write(render(file)))
        for e in ENVS:
            apply(cx, p, "A", {**common, **e}, senv.actions(expand(sections(file), "A")), f"{case[1]} actions")
    elif kind == "bad":
        p = SetEnvironment(cx.write("[A]\nenvvar-set X : 1\n[B]\nenvvar-set Y : 1\nuse nowhere\n"))
        arg = {"missing": "nope", "nowhere": "B", "int": 5, "none": None}[case[1]]
        for _ in range(2):
            with senv.environment(common) as e, capture():
                r = outcome(p.apply, arg)
            cx.check(r[0] == "raise" and isinstance(r[1], KeyError if isinstance(arg, str) else TypeError), "apply({!r}) gives {!r}", arg, r)
            cx.check(e.after == common, "apply({!r}) failed but changed the environment", arg)
            cx.step()
        apply(cx, p, "A", common, [{"op": "envvar_set", "envvar": "X", "value": "1"}], "after a failed apply")
    cx.trace(repr(case[:2]))


def raw(case, cx, common):
    """One operation with a value taken from the file as it stands there."""
    from vlib.ini import read_plain
    _, op, v = case
    if not v.strip() and op == "find-in-path":
        return
    text = f"[A]\nenvvar-set Q : 1\nenvvar-{op} X : {v}\nenvvar-set R : $X\n"
    try:
        secs = read_plain([text])
    except Exception:
        return
    acts = senv.actions(expand(secs, "A"))
    for dl in (0, 3):
        p = SetEnvironment(cx.write(text))
        p.debug_level = dl
        val = acts[1]["value"]
        for old in (None, "", "o", f"o:{val}:{val}:p", f"{val}{val}"):
            e = {} if old is None else {"X": old}
            apply(cx, p, "A", {**common, **e}, acts, f"envvar-{op} X : {v!r}")
    cx.trace(repr(acts))


def shapes(case, cx, common):
    o1, o2 = (act(*CORE[i], n=j) for j, i in enumerate(case[2], 1))
    shape = case[1]
    file = [
        [["A", [o1, use("B")]], ["B", [o2]]],
        [["A", [use("B"), o1]], ["B", [o2]]],
        [[DEFAULT, [o1]], ["A", [o2]]],
        [["A", [use("B"), use("C")]], ["B", [o1, use("C")]], ["C", [o2]]],
        [["A", [o1, use("B"), o2]], ["B", [use("A"), act("set", "W", "${X}")]]],
        [["B", [o2]], ["A", [o1, opt("not an action: v", "not an action", "v", "not", ["an", "action"]), use("B"), act("append", "X", "z")]]],
    ][shape]
    p = SetEnvironment(cx.write(render(file)))
    p.exception_control_silent_warnings = True
    for e in ENVS:
        apply(cx, p, "A", {**common, **e}, senv.actions(expand(sections(file), "A")), render(file))
