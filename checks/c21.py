"""C21: generated scripts have the effect of apply()."""
import functools
import itertools
import logging
import os
import re
import shlex
import subprocess
import sys
import tempfile
from pathlib import Path

from checks.c20 import RAW, act, dirs
from vlib import senv
from vlib.engine import capture, outcome
from vlib.ini import DEFAULT, expand, opt, read_plain, render, sections, use
from vlib.senv import ModuleHelper, SetEnvironment

BOUNDS = {
    "quick": "every sequence of 2 actions out of 44 and of 3 out of 13, in 6 initial environments: generated bash and python scripts are executed and compared with "
             "apply() and the model; python: 80 value spellings x 8 operations; 60 value spellings x 7 operations in bash; module operations in every position; all include_* "
             "combinations of both generators and of the file writer",
    "thorough": "every sequence of 3 actions out of 44 in 6 environments",
}
ASSUMPTIONS = ["bash values hold no backquote, and refer with '$' (without a backslash before it) to variables that are set only",
               "module operations are compared by their arguments; the module command itself is a recorder"]

OPS = ["set", "set-if-empty", "append", "prepend", "remove-substr", "remove-path-entry"]
ALL = ([(o, "X", v) for o in OPS for v in ("a", "b:a", "${S}", "p${S}q$T")] + [(o, "Y", v) for o in OPS for v in ("$S", "a")] +
       [("set", "X", ""), ("set-if-empty", "X", ""), ("append", "X", ""), ("unset", "X", None), ("unset", "Y", None), ("remove", "X", None),
        ("assert-not-empty", "X", None), ("assert-not-empty", "Y", "no Y but $S"),
        ("find-in-path", "X", "tool"), ("find-in-path", "Y", "nosuchtool"), ("prepend", "PATH", "$D/d2")])
CORE = [("set", "X", "a"), ("set", "Y", "p${S}q"), ("append", "X", "$S"), ("append", "Y", "a"), ("prepend", "X", "b:a"), ("prepend", "Y", "$T"),
        ("remove-substr", "X", "a"), ("remove-path-entry", "X", "a"), ("set-if-empty", "X", "${T}"), ("unset", "X", None), ("remove", "Y", None),
        ("assert-not-empty", "X", None), ("find-in-path", "Y", "tool")]
ENVS = [{}, {"X": ""}, {"X": "a"}, {"X": "a:b:a:a:c", "Y": "q"}, {"X": "xax", "Y": ""}, {"X": "b:a:b", "Y": "a:aa"}]
BASHV = ["v", "two words", " a  b ", "a:b", "a#b", "a;b", "a&b", "a|b", "(a)", "<a>", "*", "?", "[a]", "{a,b}", "~", "a=b", "-n", "-e x", "--", "%%", "!x", "'q'", "it's",
         "${S}", "$S", "${S}${T}", "$S/$T", "x${S}x", "\u00fc\u65e5", "a\n  b", "x" * 500, "$", "a$", "a $ b", "$S$", "@", "^", "+", ",", "a\tb", "1", "0", '" in "', "$OTHER", "${OTHER}x$OTHER/y", "$HOME/x", "\U0001f600", "$S_", "x$S-$OTHER.z",
         'say "hi" x', '-DNAME="a b" -O2', 'x"$S"y', "a\\b", "a\\", "\\", "\\\\", "\\n", "a\\\"b\\\" c", "a\\\\\"b", "\\ $S", "a\\\n  b", "C:\\new\\t"]


def module(op, name, value, n=""):
    key = f"module-{op}" + (f" {name}" if name else "") + (f" {n}" if n else "")
    return opt(key if value is None else f"{key} : {value}", key, value, "module_" + op, [x for x in (name, n) if x])


MODS = [module("load", "gcc", "7.3"), module("load", "gcc", None, "again"), module("load", "boost", ""), module("unload", "gcc", None), module("swap", "gcc", "intel/19"),
        module("use", None, "/mod/files"), module("purge", None, None), module("remove", "gcc", None), module("swap", "intel", "intel")]


def cases(tier):
    for a in range(len(ALL)):
        yield ["seq", "all", [a], ""]
    for i in range(64):
        yield ["write", i]
    for o in ["set", "set-if-empty", "append", "prepend", "remove-substr", "remove-path-entry", "assert-not-empty", "find-in-path"]:
        for v in RAW:
            yield ["python", o, v]
    for o in ("set", "set-if-empty", "append", "prepend", "assert-not-empty"):
        for v in BASHV:
            yield ["bash", o, v]
    for o in ("remove-substr", "remove-path-entry"):
        for v in BASHV:
            yield ["bash", o, v]
    for n in (1, 2, 3):
        for s in itertools.permutations(range(len(MODS)), n):
            yield ["mods", list(s)]
    for s in itertools.product(range(len(ALL)), repeat=2):
        yield ["seq", "all", list(s), "n"]
    for s in itertools.product(range(len(CORE)), repeat=3):
        yield ["seq", "core", list(s), "n"]
    for s in itertools.product(range(len(CORE)), repeat=2):
        yield ["used", list(s)]
    if tier == "thorough":
        for s in itertools.product(range(len(ALL)), repeat=3):
            yield ["seq", "all", list(s), "n"]


def body(case):
    table = ALL if case[1] == "all" else CORE
    return [act(*table[i], n=j if case[3] else "") for j, i in enumerate(case[2], 1)]


def show(case):
    return {"kind": case[0], "actions": [o[0] for o in body(case)]} if case[0] == "seq" else case


# -- running scripts ----------------------------------------------------------------------------
def run_python(script, env):
    with senv.environment(env) as e, capture():
        r = outcome(exec, compile(script, "<script>", "exec"), {"__name__": "__main__"})
    return r, e.after


DRIVER = """
module() { export MODLOG="${MODLOG}$(printf '<%s>' "$@");"; }
"""


def run_bash(cx, scripts, envs):
    """For each environment: the environment after sourcing the scripts, or None if the shell gave up."""
    outs = [cx.path(".env") for _ in envs]
    text = DRIVER
    for env, out in zip(envs, outs):
        text += "(\n"
        for k, v in env.items():
            text += f"export {k}={shlex.quote(v)}\n"
        for s in scripts:
            text += f". {shlex.quote(s)}\n"
        text += f"/usr/bin/env -0 > {shlex.quote(out)}\n)\n"
    drv = cx.write(text, ".sh")
    subprocess.run(["/bin/bash", "--norc", "--noprofile", drv], env={"PATH": "/usr/bin:/bin"}, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL, cwd=cx.scratch)
    res = []
    for out in outs:
        if not os.path.exists(out):
            res.append(None)
            continue
        raw = open(out, "rb").read().decode("utf-8", "surrogateescape")
        d = dict(x.split("=", 1) for x in raw.split("\0") if "=" in x)
        for k in ("PWD", "OLDPWD", "SHLVL", "_"):
            d.pop(k, None)
        res.append({k: v for k, v in d.items() if not k.startswith("BASH_FUNC")})
    return res


# -- recorded deviations of the bash functions ----------------------------------------------------
class ShellExit(Exception):
    pass


QUIRKS = ["bash-empty-value", "bash-remove-path-colons", "bash-remove-path-adjacent", "bash-remove-path-unset", "bash-remove-substr-unset",
          "bash-remove-special"]
RECORDED = {
    "remove_substr": 'if [[ "$v" != *"#"* ]]; then export $n=$(echo ${!n} | sed s#$v##g); fi',
    "remove_path_entry": 't=:${!n}:; t=${t//:$v:/:}; export $n=$t',
}


@functools.lru_cache(None)
def recorded(op, n, v, env):
    """What the recorded commands make of an environment when a value holds blanks or characters special to sed, to patterns or to the shell."""
    with tempfile.TemporaryDirectory(prefix="verif-c21-") as d:
        out = os.path.join(d, "out")
        subprocess.run(["/bin/bash", "--norc", "--noprofile", "-c", f"(n=$1 v=$2; {RECORDED[op]}; unset n v t; /usr/bin/env -0 > $3)", "bash", n, v, out], env=dict(env),
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=d)
        raw = open(out, "rb").read().decode("utf-8", "surrogateescape")
    got = dict(x.split("=", 1) for x in raw.split("\0") if "=" in x)
    return {k: x for k, x in got.items() if k not in ("PWD", "OLDPWD", "SHLVL", "_")}


def special(text):
    return re.search(r"[^\w:/=,@+%-]", text or "", re.A) is not None


def bash_effect(env, a, q, hit):
    """The effect of one action with the set q of recorded deviations; hit: those that made a difference."""
    op, n = a["op"][7:], a["envvar"]
    v = None if a["value"] is None else senv.subst(env, a["value"])
    old = env.get(n)
    if op in ("append", "prepend", "remove_substr", "remove_path_entry", "find_in_path") and v == "" and "bash-empty-value" in q:
        hit.add("bash-empty-value")
        raise ShellExit()
    new = senv.effect(env, a)
    if op in RECORDED and "bash-remove-special" in q and (special(v) or special(old)):
        got = recorded(op, n, v, tuple(sorted(env.items())))
        hit.add("bash-remove-special")
        return got
    if op == "remove_substr" and old is None and "bash-remove-substr-unset" in q:
        hit.add("bash-remove-substr-unset")
        new = {**env, n: ""}
    elif op == "remove_path_entry":
        if old is None:
            if "bash-remove-path-unset" not in q:
                return new
            hit.add("bash-remove-path-unset")
            old = ""
        if "bash-remove-path-adjacent" in q:
            s = f":{old}:".replace(f":{v}:", ":")
            if s != ":" + "".join(x + ":" for x in old.split(":") if x != v):
                hit.add("bash-remove-path-adjacent")
        else:
            s = ":" + "".join(x + ":" for x in old.split(":") if x != v)
        if "bash-remove-path-colons" in q:
            hit.add("bash-remove-path-colons")
        else:
            s = s[1:-1] if len(s) > 1 else ""
        new = {**env, n: s}
    return new


def excused(cx, env, acts, got, what):
    for r in range(1, len(QUIRKS) + 1):
        for q in itertools.combinations(QUIRKS, r):
            hit, e = set(), dict(env)
            try:
                for a in acts:
                    e = bash_effect(e, a, q, hit)
            except (ShellExit, senv.AssertFailed):
                e = None
            if e == got and hit == set(q):
                for h in sorted(hit):
                    cx.known(h, what)
                return True
    return False


def compare(cx, p, section, acts, envs, what, bash=True, mods=()):
    """Generated scripts in both languages against the model and apply()."""
    script = outcome(p.generate_actions_script, section, interp="python")
    cx.check(script[0] == "ok", "{}: python script: {!r}", what, script)
    folds = [senv.fold(e, [a for a in acts if "envvar" in a]) for e in envs]
    log = "".join(mods)
    for env, (want, fail) in zip(envs, folds):
        if log:
            want = {**want, "MODLOG": log}
        for how in ("python script", "apply"):
            if how == "apply":
                with senv.environment(env) as e, capture():
                    r = outcome(p.apply, section)
                got = e.after
            else:
                r, got = run_python(script[1], env)
            if fail is None:
                cx.check(r[0] == "ok", "{}: {} in {!r} raised {!r}", what, how, env, r[1])
            else:
                cx.check(r[0] == "raise" and isinstance(r[1], ValueError), "{}: {} in {!r} gives {!r}, expected ValueError", what, how, env, r)
            cx.check(got == want, "{}: {} in {!r} leaves {!r}, expected {!r}", what, how, env, got, want)
            cx.step(len(acts))
    if bash:
        script = outcome(p.generate_actions_script, section)
        cx.check(script[0] == "ok", "{}: bash script: {!r}", what, script)
        res = run_bash(cx, [cx.write(script[1], ".sh")], envs)
        for env, (want, fail), got in zip(envs, folds, res):
            want = None if fail is not None else {**want, "MODLOG": log} if log else want
            cx.step(len(acts))
            if got != want and not excused(cx, env, acts, got, what):
                cx.check(False, "{}: bash script in {!r} leaves {!r}, expected {!r}", what, env, "a failed shell" if got is None else got,
                         "a failed shell" if want is None else want)
    for want, fail in folds:
        cx.state(repr(sorted(want.items())), fail is None)


def recorder(*args):
    os.environ["MODLOG"] = os.environ.get("MODLOG", "") + "".join(f"<{a}>" for a in args) + ";"
    return 0


def run(case, cx):
    logging.disable(logging.CRITICAL)
    saved = ModuleHelper.module
    ModuleHelper.module = recorder
    try:
        run2(case, cx)
    finally:
        ModuleHelper.module = saved
    cx.trace(repr(case[:2]))


def run2(case, cx):
    base = dirs(cx)
    common = {"PATH": f"{base}/d1:{base}/d2:/usr/bin:/bin", "D": base, "HOME": "/home/x", "OTHER": "untouched", "S": "s", "T": "b:a", "S_": "t u"}
    kind = case[0]
    if kind == "write":
        return write(case, cx, common)
    if kind in ("python", "bash"):
        _, op, v = case
        if not v.strip().strip('"') and op == "find-in-path":
            return
        text = f"[A]\nenvvar-set Q : 1\nenvvar-{op} X : {v}\nenvvar-set R : ${{X}}\n"
        if kind == "bash":
            text = text.replace("R : ${X}", "R : ${Q}")
        try:
            secs = read_plain([text])
        except Exception:
            return
        acts = senv.actions(expand(secs, "A"))
        envs = [common, {**common, "X": "o"}, {**common, "X": f"o:{acts[1]['value']}:p"}]
        return compare(cx, SetEnvironment(cx.write(text)), "A", acts, envs, f"envvar-{op} X : {v!r}", bash=kind == "bash")
    if kind == "mods":
        opts = [MODS[i] for i in case[1]]
        opts = [act("set", "X", "1")] + opts[:1] + [act("append", "X", "2")] + opts[1:]
        file = [["A", opts]]
        acts = senv.actions(expand(sections(file), "A"))
        want = []
        for a in acts:
            if "module" in a:
                o, m, v = a["op"][7:], a["module"], a["value"]
                args = {"load": [m + ("/" + v if v else "")] if m else [], "unload": [m], "swap": [m, v], "use": [v], "purge": []}[o]
                want.append("".join(f"<{x}>" for x in [o] + args) + ";")
        return compare(cx, SetEnvironment(cx.write(render(file))), "A", acts, [common, {**common, "X": "0"}], f"{[o[0] for o in opts]}", mods=want)
    if kind == "used":
        o1, o2 = (act(*CORE[i], n=j) for j, i in enumerate(case[1], 1))
        for file in ([[DEFAULT, [o1]], ["A", [use("B"), act("set", "Z", "z")]], ["B", [o2, use("A")]]], [["B", [o1]], ["A", [o2, use("B")]]]):
            p = SetEnvironment(cx.write(render(file)))
            p.exception_control_silent_warnings = True
            for s in ("A", "B"):
                compare(cx, p, s, senv.actions(expand(sections(file), s)), [{**common, **e} for e in ENVS[2:5]], render(file))
        return
    file = [["A", body(case)]]
    p = SetEnvironment(cx.write(render(file)))
    compare(cx, p, "A", senv.actions(expand(sections(file), "A")), [{**common, **e} for e in ENVS], f"{[o[0] for o in body(case)]}")


def write(case, cx, common):
    """All ways to generate and write; headers and bodies put together work like the whole."""
    i = case[1]
    hdr, bod, she, bash, aspath, exists = (bool(i >> k & 1) for k in range(6))
    interp = "bash" if bash else "python"
    file = [["A", [act("set", "X", "a b"), act("append", "X", "$S"), use("B")]], ["B", [act("prepend", "Y", "1")]]]
    ini = cx.write(render(file))
    p = SetEnvironment(ini)
    for sec in ("A", "B"):
        acts = senv.actions(expand(sections(file), sec))
        text = p.generate_actions_script(sec, incl_hdr=hdr, incl_body=bod, incl_shebang=she, interp=interp)
        out = cx.path("." + interp)
        if exists:
            open(out, "w").write("old\n" * 5000)
        q = SetEnvironment(ini)
        r = outcome(q.write_actions_to_file, Path(out) if aspath else out, sec, include_header=hdr, include_body=bod, include_shebang=she, interpreter=interp)
        cx.check(r == ("ok", 0) and open(out).read() == text, "write_actions_to_file{!r} gives {!r} and a file that is not the generated script",
                 (hdr, bod, she, interp), r)
        cx.check(text.startswith("#!") == (she and (hdr or bod)), "shebang {}: the script starts {!r}", she, text[:20])
        cx.check((text == "") == (not hdr and not bod), "header {}, body {}: script {!r}", hdr, bod, text[:50])
        h = p.generate_actions_script(sec, incl_hdr=True, incl_body=False, incl_shebang=she, interp=interp)
        b = p.generate_actions_script(sec, incl_hdr=False, incl_body=True, incl_shebang=she, interp=interp)
        for env in (common, {**common, "X": "0", "Y": "y"}):
            full, _ = senv.fold(env, acts)
            for parts, want in (([h, b], full), ([h], env)) + ((([text], full if bod else env),) if hdr else ()):
                if bash:
                    got = run_bash(cx, [cx.write(x, ".sh") for x in parts], [env])[0]
                else:
                    r, got = run_python("\n".join(parts), env)
                    cx.check(r[0] == "ok", "python script raised {!r}", r[1])
                cx.check(got == want, "{} script (header {}, body {}) leaves {!r}, expected {!r}", interp, hdr, bod, got, want)
                cx.step()
        if hdr and bod:     # as an executable of its own
            want = {k: senv.fold(common, acts)[0].get(k) for k in ("X", "Y")}
            # the shell ends with the script, so the values are shown by an appended command
            if bash:
                show_ = "\nprintf '%s|%s' \"${X-None}\" \"${Y-None}\"\n"
                cmd = ["/bin/bash", cx.write(text + show_, ".sh")]
            else:
                show_ = "\nprint(os.environ.get('X'), os.environ.get('Y'), sep='|', end='')\n"
                cmd = [sys.executable, "-B", cx.write(text + show_, ".py")]
            o = subprocess.run(cmd, env={**common, "PYTHONPATH": ":".join(sys.path[1:7]), "PYTHONDONTWRITEBYTECODE": "1", "MODULESHOME": "/x"}, capture_output=True, text=True,
                               stdin=subprocess.DEVNULL)
            cx.check(o.returncode == 0 and o.stdout == f"{want['X']}|{want['Y']}", "{} script prints {!r} (exit {}, {}), expected {!r}", interp, o.stdout,
                     o.returncode, o.stderr[-300:], want)
        cx.state(i, sec)
    for lv in range(6):
        q = SetEnvironment(ini)
        q.exception_control_level = lv
        q.exception_control_silent_warnings = True
        out = cx.path(".none")
        for f in (lambda: q.write_actions_to_file(out, "A", interpreter="perl"), lambda: q.generate_actions_script("A", interp="perl")):
            with capture():
                r = outcome(f)
            cx.check((r[0] == "raise" and isinstance(r[1], ValueError)) if lv >= 3 else (r in (("ok", 1), ("ok", ""))), "level {}: unknown interpreter gives {!r}",
                     lv, r)
        cx.check(not os.path.exists(out), "a file was written for an unknown interpreter")
