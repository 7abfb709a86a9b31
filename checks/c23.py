"""C23: a module operation succeeds only if the module command did."""
import importlib.util
import itertools
import json
import logging
import os
import shlex
import sys
import types

from vlib import senv
from vlib.engine import capture, outcome
from vlib.senv import ModuleHelper, SetEnvironment

BOUNDS = {
    "quick": "modulecmd: 8 exit behaviours x 7 stderr x 10 outputs x 12 call forms; apply(): sections with 1-2 module operations between variable operations x all pairs of 9 "
             "behaviours x levels 0-5; LMOD: 16 call forms x module state after the call x 5 stderr x 2 stdout x 2 exceptions; missing module command",
    "thorough": "as quick with sections of 3 module operations and all triples of behaviours",
}
ASSUMPTIONS = ["the module command is a scripted stand-in on PATH (modulecmd), or a stand-in for LMOD's env_modules_python and module function"]

CODES = [0, 1, 2, 10, 127, 255, "KILL", "TERM"]
STDERR = ["", "just a note\n", "ERROR: it failed\n", "module: x\nsome ERROR:y\nmore\n", "WARNING: old\nERROR: it failed\nINFO: see WARNING: above\n", "a note\n" * 20000 + "  ERROR:", "Error: no\nerror\n"]
SETTER = "import os\nos.environ['M_%s'] = 'set by the module'\nos.environ['PATH'] = os.environ.get('PATH', '') + ':/m'\n"
STDOUT = [
    ("", None), ("set", None), ("import os\n_mlstatus = True\n", None), ("set+True", None), ("_mlstatus = False\n", "fail"), ("set+False", "fail"),
    ("this is ! not python\n", "raise"), ("import os\nos.environ['M_before'] = '1'\nraise OSError('from the module')\n", "raise"),
    ("big", None), ("import os\n_mlstatus = False\nos.environ['M_before'] = '1'\n", "fail"),
]
FORMS = [
    ("load", ["gcc/7.3"]), ("load", ["gcc"]), ("load", ["gcc intel/19  boost"]), ("unload", ["gcc"]), ("swap", ["gcc", "intel/19"]), ("use", ["/m/files"]), ("purge", []),
    (["load"], ["gcc"]), (["swap", "gcc", "intel"], []), ("swap", ["gcc", "a b  c"]), (["load", "a b"], ["c d", " e "]), ("load", ["x", "", "x"]),
]
LFORMS = [
    ("load", ["gcc"]), ("load", ["gcc/7"]), ("unload", ["gcc"]), ("swap", ["gcc", "intel"]), ("swap", ["gcc", "gcc/8"]), ("purge", []), (["load", "gcc"], []), (["swap", "gcc"], ["intel"]),
    (["unload"], ["gcc"]), ("load", ["gcc", "intel"]), ("unload", ["gcc", "intel/19"]), (["load", "gcc"], ["intel"]), ("swap", ["gcc", "gcc-new"]), ("swap", ["gcc", "gccx/1"]), ("swap", ["gcc/7", "gcc/8"]), (["swap", "a/gcc", "gcc/8"], []),
]
LERR = ["", "a warning\n", "Error: bad\n", "Lmod has detected the following error: x\n", "ERROR:\n"]
BEH = [  # exit, stderr, stdout
    (0, 0, 1), (0, 0, 0), (1, 0, 1), (0, 2, 1), (0, 0, 5), ("KILL", 0, 1), (255, 3, 3), (0, 1, 3), (2, 1, 0),
]
OPS = [("module-load gcc : 7.3", ["load", "gcc/7.3"]), ("module-swap gcc : intel/19", ["swap", "gcc", "intel/19"]), ("module-purge", ["purge"]),
       ("module-unload gcc", ["unload", "gcc"]), ("module-use : /m/files", ["use", "/m/files"]), ("module-load boost", ["load", "boost"]),
       ("module-load gcc : 0", ["load", "gcc/0"]), ("module-load gcc : none", ["load", "gcc/none"]), ("module-load gcc : false", ["load", "gcc/false"])]


def cases(tier):
    for f in range(len(FORMS)):
        for c in range(len(CODES)):
            for e in range(len(STDERR)):
                for o in range(len(STDOUT)):
                    if f in (0, 4, 6) or o < 6 and c < 3 and e < 5:
                        yield ["modulecmd", f, c, e, o]
    yield ["nocmd"]
    for op in range(len(OPS)):
        for b in range(len(BEH)):
            yield ["apply", [op], [b]]
    pairs = [(0, 1), (2, 4), (3, 5), (1, 2)]
    for p in pairs:
        for b in itertools.product(range(len(BEH)), repeat=2):
            yield ["apply", list(p), list(b)]
    for f in range(len(LFORMS)):
        for old, new in itertools.product((0, 1), repeat=2):
            for e in range(len(LERR)):
                for x in ("", "name", "os", "out", "err"):
                    yield ["lmod", f, old, new, e, x]
    for exists in (0, 1):
        for e in range(len(LERR)):
            yield ["lmoduse", exists, e]
    if tier == "thorough":
        for b in itertools.product(range(len(BEH)), repeat=3):
            yield ["apply", [0, 4, 3], list(b)]


def show(case):
    if case[0] == "modulecmd":
        return ["modulecmd", FORMS[case[1]], {"exit": CODES[case[2]], "stderr": STDERR[case[3]], "output": STDOUT[case[4]][0]}]
    if case[0] == "apply":
        return ["apply", [OPS[i][0] for i in case[1]], [{"exit": BEH[i][0], "stderr": STDERR[BEH[i][1]], "output": STDOUT[BEH[i][2]][0]} for i in case[2]]]
    return case


def text_of(o, n):
    t = STDOUT[o][0]
    if t == "set":
        return SETTER % n
    if t == "big":
        return "# caf\u00e9 " + "x" * 60 + "\n" + "# a comment\n" * 20000 + SETTER % n
    if t == "set+True":
        return SETTER % n + "_mlstatus = True\n"
    if t == "set+False":
        return SETTER % n + "_mlstatus = False\n"
    return t


def fake(cx, behaviours):
    """A modulecmd that answers its n-th call with the n-th behaviour, and logs its arguments."""
    d = os.path.join(cx.scratch, "fake")
    os.makedirs(d, exist_ok=True)
    log, cnt = os.path.join(d, "log"), os.path.join(d, "count")
    open(cnt, "w").write("0\n")
    open(log, "w").close()
    s = f"#!/bin/sh\nread n < {cnt}\necho $((n+1)) > {cnt}\nfor a in \"$@\"; do printf '%s\\001' \"$a\" >> {log}; done\nprintf '\\002' >> {log}\ncase $n in\n"
    for i, (c, e, o) in enumerate(behaviours):
        end = f"kill -{c} $$" if isinstance(c, str) else f"exit {c}"
        s += f"{i}) printf %s {shlex.quote(text_of(o, i))}\n printf %s {shlex.quote(STDERR[e])} >&2\n {end};;\n"
    s += "esac\nexit 99\n"
    p = os.path.join(d, "modulecmd")
    open(p, "w").write(s)
    os.chmod(p, 0o755)
    return d, lambda: [x.split("\x01")[:-1] for x in open(log, encoding="utf-8").read().split("\x02")[:-1]]


def answer(env, b, n):
    """(success, environment after, exception expected) of one call of the module command."""
    c, e, o = b
    if c != 0 or "ERROR:" in STDERR[e]:
        return False, env, False
    t = STDOUT[o]
    env = dict(env)
    if t[0][:3] in ("set", "big"):
        env[f"M_{n}"] = "set by the module"
        env["PATH"] = env.get("PATH", "") + ":/m"
    if "M_before" in t[0]:
        env["M_before"] = "1"
    return t[1] is None, env, t[1] == "raise"


def run(case, cx):
    logging.disable(logging.CRITICAL)
    globals()["do_" + case[0]](case, cx)
    cx.trace(repr(case))


def do_modulecmd(case, cx):
    cmd, args = FORMS[case[1]]
    b = (CODES[case[2]], case[3], case[4])
    d, log = fake(cx, [b])
    env = {"PATH": d, "X": "1"}
    ok, want, boom = answer(env, b, 0)
    with senv.environment(env) as e, capture():
        r = outcome(ModuleHelper.module, list(cmd) if isinstance(cmd, list) else cmd, *args)
    words = (list(cmd) if isinstance(cmd, list) else [cmd]) + [w for a in args for w in (a.split() if len(args) == 1 else [a])]
    what = f"module({cmd!r}, {args!r}) with {show(case)[2]}"
    cx.check(log() == [["python"] + words], "{}: module command was called with {!r}, expected {!r}", what, log(), [["python"] + words])
    if boom:
        cx.check(r[0] == "raise" or r[1] != 0, "{}: output cannot be executed, but the result is {!r}", what, r)
    elif ok:
        cx.check(r == ("ok", 0), "{}: expected 0, got {!r}", what, r)
    else:
        cx.check(r[0] == "ok" and isinstance(r[1], int) and r[1] != 0, "{}: expected a nonzero result, got {!r}", what, r)
    cx.check(e.after == want, "{}: environment is {!r}, expected {!r}", what, e.after, want)
    cx.step()
    cx.state(repr(words), ok, boom, sorted(want))


def do_nocmd(case, cx):
    d = os.path.join(cx.scratch, "empty")
    os.makedirs(d, exist_ok=True)
    for path in (d, "", d + "/missing", d + ":" + d):
        with senv.environment({"PATH": path}), capture():
            r = outcome(ModuleHelper.module, "load", "gcc")
        cx.check(r[0] == "raise" and isinstance(r[1], FileNotFoundError), "no modulecmd in PATH {!r}: got {!r}", path, r)
        for lv in range(6):
            p = SetEnvironment(cx.write("[A]\nenvvar-set X : 1\nmodule-load gcc\nenvvar-set Y : 1\n"))
            p.exception_control_level = lv
            p.exception_control_silent_warnings = True
            with senv.environment({"PATH": path}) as e, capture():
                r = outcome(p.apply, "A")
            cx.check(r[0] == "raise" or r[1] != 0, "no modulecmd, level {}: apply gives {!r}", lv, r)
            cx.check(r[0] != "raise" or e.after == {"PATH": path, "X": "1"}, "no modulecmd: environment {!r}", e.after)
            cx.step()


def do_apply(case, cx):
    ops, bs = [OPS[i] for i in case[1]], [BEH[i] for i in case[2]]
    lines = ["envvar-set X : 0"]
    for n, (t, _) in enumerate(ops):
        lines += [t, f"envvar-append X {n} : after{n}"]
    ini = cx.write("[A]\n" + "\n".join(lines) + "\n[B]\nuse A\n")
    for lv in range(6):
        d, log = fake(cx, bs * 2)
        env = {"PATH": d}
        want, failed, stop, calls = {**env, "X": "0"}, False, False, 0
        for n, b in enumerate(bs):
            ok, want, boom = answer(want, b, n)
            calls += 1
            failed |= not ok
            if not ok and lv >= 2:
                stop = True
                break
            want = {**want, "X": want["X"] + f":after{n}"}
        p = SetEnvironment(ini)
        p.exception_control_level = lv
        p.exception_control_compact_warnings = True
        with senv.environment(env) as e, capture() as out:
            r = outcome(p.apply, "AB"[lv % 2])
        what = f"{lines} with {show(case)[2]}, level {lv}"
        if not failed:
            cx.check(r == ("ok", 0), "{}: apply gives {!r}", what, r)
        elif stop:
            cx.check(r[0] == "raise" and isinstance(r[1], RuntimeError), "{}: apply gives {!r}, expected RuntimeError", what, r)
        else:
            cx.check(r[0] == "ok" and isinstance(r[1], int) and r[1] != 0, "{}: apply gives {!r}, expected a nonzero result", what, r)
            nf = sum(1 for n, b in enumerate(bs) if not answer({}, b, n)[0])
            w = out.text.count("EXCEPTION SKIPPED")
            cx.check(w == (nf if lv else 0), "{}: {} warnings, expected {}", what, w, nf)
        cx.check(log() == [["python"] + o[1] for o in ops[:calls]], "{}: module command was called with {!r}", what, log())
        cx.check(e.after == want, "{}: environment is {!r}, expected {!r}", what, e.after, want)
        cx.step(calls)
        cx.state(lv, repr(case[1:]), failed, stop)


# -- LMOD ---------------------------------------------------------------------------------------
_lmod = []


def lmod():
    """The module helper as it is on a system with LMOD."""
    if not _lmod:
        stub = types.ModuleType("env_modules_python")
        stub.module = lambda *a: None
        saved = sys.modules.get("env_modules_python")
        sys.modules["env_modules_python"] = stub
        try:
            spec = importlib.util.spec_from_file_location("verif_lmod_helper", ModuleHelper.__file__)
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
        finally:
            if saved is None:
                del sys.modules["env_modules_python"]
            else:
                sys.modules["env_modules_python"] = saved
        _lmod.extend([stub, m])
    return _lmod


def do_lmod(case, cx, use_path=None):
    stub, helper = lmod()
    if use_path is None:
        _, f, old, new, e, x = case
        cmd, args = LFORMS[f]
    else:
        cmd, args, old, new, e, x = "use", [use_path], 0, 0, case[2], ""
    words = (list(cmd) if isinstance(cmd, list) else [cmd]) + args
    d = os.path.join(cx.scratch, "lmodbin")
    os.makedirs(d, exist_ok=True)
    state = os.path.join(d, "state")
    names = words[1:]
    loaded = []
    if names and words[0] != "use":
        loaded += [names[0]] if old else []
        loaded += [names[1]] if new and len(names) > 1 else []
        if words[0] == "swap" and names[1].startswith(names[0] + "/") and new:
            loaded.append(names[0])     # the bare name matches any version
    open(state, "w").write("".join(n + "\n" for n in loaded))
    m = os.path.join(d, "module")
    open(m, "w").write(f"#!/bin/sh\nif [ \"$1\" = is-loaded ]; then\n while read x; do if [ \"$x\" = \"$2\" ]; then exit 0; fi; done < {state}\n exit 1\nfi\nexit 7\n")
    os.chmod(m, 0o755)
    calls = []

    def module(*a):
        calls.append(list(a))
        sys.stderr.write(LERR[e])
        if x in ("out", "err"):
            print("Due to MODULEPATH changes the following have been reloaded: error: none", file=sys.stdout)
        if x == "err":
            sys.stderr.write("Warning: a last line\n")
        os.environ["LM"] = "1"
        if x == "name":
            raise NameError("no such thing")
        if x == "os":
            raise OSError("broken")
    stub.module = module
    with senv.environment({"PATH": d + ":/usr/bin:/bin", "LMOD_CMD": "/opt/lmod"}), capture():
        r = outcome(helper.module, list(cmd) if isinstance(cmd, list) else cmd, *args)
    what = f"LMOD module({cmd!r}, {args!r}), loaded afterwards {loaded}, stderr {LERR[e]!r}, raises {x!r}"
    cx.check(calls == [words], "{}: module was called with {!r}, expected {!r}", what, calls, [words])
    cx.step()
    if x in ("name", "os"):
        cx.check(r[0] == "raise" and isinstance(r[1], RuntimeError if x == "name" else OSError), "{}: got {!r}", what, r)
        return
    good = {"load": lambda: all(n in loaded for n in names), "unload": lambda: not any(n in loaded for n in names),
            "swap": lambda: names[1] in loaded and (names[0] not in loaded or names[1].startswith(names[0] + "/")),
            "purge": lambda: True, "use": lambda: os.path.exists(names[0])}[words[0]]()
    ok = good and "error:" not in LERR[e].lower()
    if ok:
        cx.check(r == ("ok", 0), "{}: expected 0, got {!r}", what, r)
    else:
        cx.check(r[0] == "ok" and isinstance(r[1], int) and r[1] != 0, "{}: expected a nonzero result, got {!r}", what, r)
    cx.state("lmod", repr(words), repr(loaded), e, ok)


def do_lmoduse(case, cx):
    p = os.path.join(cx.scratch, "modfiles")
    if case[1]:
        os.makedirs(p, exist_ok=True)
    do_lmod(case, cx, use_path=p)
