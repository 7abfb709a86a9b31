"""C32: sourcing load-env.sh gives the shell the environment of the build name, or nothing."""
import itertools
import os

from vlib import kw, senv
from vlib.shell import Install, diff

BOUNDS = {
    "quick": "every pair of 10 (host, build name, force) situations sourced one after the other in one shell in CI mode; each of them x 9 spellings of the arguments x 5 states of the caller's shell; "
             "each in the default (subshell) mode, once and nested; 7 faults x both modes; the modes that load nothing; the real script, bash and python interpreter",
    "thorough": "as quick with every triple of situations",
}
ASSUMPTIONS = ["arguments contain no blanks; python3 on PATH is a stand-in that runs the tree's code with a given host name", "the caller's shell has no options such as -e or -u set"]

SYS = "[s1]\n^h1\n[s2]\nh2\n"
SYSM = [("s1", ["^h1"]), ("s2", ["h2"])]
ENVS = "[s1]\ngcc-7.3:\n    gnu\nintel-19: intel\n[s2]\nuse s1\n"
ENVM = {"s1": {"gcc-7.3": ["gnu"], "intel-19": ["intel"]}}
ENVM["s2"] = ENVM["s1"]
SPECS = """[COMMON]
envvar-append TRAIL : common
[s1_gcc-7.3]
use COMMON
envvar-set CC : gcc
envvar-set BLANKS : two  words
envvar-prepend TRAIL : ${CC}
envvar-unset GONE
[s1_intel-19]
envvar-set-if-empty CC : icc
use COMMON
[s2_gcc-7.3]
use s1_gcc-7.3
envvar-set SYS : two
[s2_intel-19]
envvar-assert-not-empty NOT_THERE : it is not there
envvar-set SYS : intel2
"""
COMMON = [("append", "TRAIL", "common")]
G1 = COMMON + [("set", "CC", "gcc"), ("set", "BLANKS", "two  words"), ("prepend", "TRAIL", "${CC}"), ("unset", "GONE", None)]
ACTS = {"s1_gcc-7.3": G1, "s1_intel-19": [("set_if_empty", "CC", "icc")] + COMMON, "s2_gcc-7.3": G1 + [("set", "SYS", "two")],
        "s2_intel-19": [("assert_not_empty", "NOT_THERE", "it is not there"), ("set", "SYS", "intel2")]}
SIT = [("h1", "gnu", False), ("h1", "s1_intel-19_x", False), ("h2", "x_gnu", False), ("h2", "intel", False), ("h2", "s1_gnu", False), ("h2", "s1_gnu", True), ("h1", "nothing", False),
       ("zz", "gnu", False), ("zz", "S2_gcc-7.3", True), ("h1", "ci-gnu_gnu_ci-mode", False)]
SPELL = ["--ci-mode {f} {b}", "{b} {f} --ci-mode", "{f} --ci-mode {b} --output {d}/out.sh", "--ci-mode {b} {f} --environment-specs ../cfg/environment-specs.ini",
         "--supported-envs={d}/cfg/supported-envs.ini --ci-mode {f} {b} --supported-systems ../cfg/supported-systems.ini", "{f} {b} -o ../out.sh --ci-mode", "--ci-mode  {f}  {b}", "{b} --ci-mode {f}",
         "--ci-mode {f} {b} --supported-systems {d}/cfg/supported-systems.ini"]
STATES = ["", "ret=7; ci_mode=1; script_dir=/nowhere; env_file_rc=/nowhere; load_matching_env_loc=/nowhere\n", "env_file={d}/precious.sh\n", "export env_file={d}/precious.sh; cleanup=1\n",
          "trap 'echo interrupted; echo \"\\$HOME\"' SIGINT SIGTERM; trap '' SIGHUP; trap 'echo bye' EXIT; umask 077; set -f; cd ..; cd work; mark\n",
          "export PYTHONPATH={d}/shadow\n"]
FAULTS = ["no specs", "unknown op", "no envs", "bad option", "no python", "old python", "loaded"]
MINE = ["rc", "gnu", "gnurc", "a.sh", ".rc", ".sh", "load_matching_env.sh", ".load_matching_env_loc"]      # files of the caller in the working directory
NOLOAD = [("--list-envs", 0), ("--help", 0), ("", 1), ("-l gnu", 0), ("--list-envs --ci-mode", 0)]


def cases(tier):
    for i in range(len(SIT)):
        for s in range(len(SPELL)):
            yield ["one", i, s]
        for st in range(1, len(STATES)):
            yield ["state", i, st]
        yield ["sub", i]
    for t in itertools.product(range(len(SIT)), repeat=2 if tier == "quick" else 3):
        yield ["seq", list(t)]
    for f in FAULTS:
        for ci in (True, False):
            yield ["fault", f, ci]
    for i in range(len(NOLOAD)):
        for st in range(len(STATES)):
            yield ["noload", i, st]


def env_of(h, b, force):
    s = kw.system_of(SYSM, h, b, force)
    c = kw.env_candidates(ENVM[s], b)
    return f"{s}_{c[0]}"


def loaded(base, h, b, force):
    """(environment after, name) or (base, None) if it must fail."""
    try:
        name = env_of(h, b, force)
    except kw.Bad:
        return dict(base), None
    after, fail = senv.fold(base, [{"op": "envvar_" + o, "envvar": n, "value": v} for o, n, v in ACTS[name]])
    if fail is not None:
        return dict(base), None
    after["LOADED_ENV_NAME"] = name
    return after, name


def install(cx, specs=SPECS):
    w = Install(os.path.join(cx.scratch, "inst"), f"verif-{os.getpid()}", {"supported-systems": SYS, "supported-envs": ENVS, "environment-specs": specs, "supported-config-flags": "", "config-specs": ""})
    w.put("precious.sh", "keep me\n")
    w.put("preciousrc", "keep me, too\n")
    w.put("precious.rc", "keep me, too\n")
    for f in MINE:
        w.put("work/" + f, "keep me, too\n")
    return w


def verdict(cx, w, what, got, want, ok, out):
    rc, after = got
    cx.check((rc == 0) == ok, "{}: returns {}, expected {}; output: {}", what, rc, "0" if ok else "a failure", out[-600:])
    d = diff(after, want)
    cx.check(not d, "{}: the shell has (got, expected) {!r}; output: {}", what, d, out[-600:])


def tidy(cx, w, what, extra=()):
    work, tmp = w.left()
    cx.equal(work, sorted(MINE), what + ": files in the working directory")
    cx.equal([x for x in tmp if x not in extra], [], what + ": files left in the temporary directory")
    for f in ("precious.sh", "preciousrc", "precious.rc"):
        cx.check(os.path.exists(f"{w.d}/{f}"), "{}: removed {}, a file of the caller", what, f)


def run(case, cx):
    w = install(cx)
    try:
        KINDS[case[0]](case, cx, w)
    finally:
        w.close()
    cx.state(case)
    cx.trace(case)


def call(w, i, spell=0):
    h, b, force = SIT[i]
    args = SPELL[spell].format(f="--force" if force else "", b=b, d=w.d)
    return f"echo {h} > {w.d}/host\nsource {w.le}/load-env.sh {args}\ndump $?\n"


def one(case, cx, w):
    _k, i, s = case
    base = w.base()
    want, name = loaded(base, *SIT[i])
    rc, dumps, out = w.run(call(w, i, s), base)
    what = f"{SIT[i]!r}, arguments {SPELL[s]!r}"
    cx.check(rc == 0 and len(dumps) == 1, "{}: the shell ended with {}: {}", what, rc, out[-600:])
    cx.step()
    verdict(cx, w, what, dumps[0], want, name is not None, out)
    tidy(cx, w, what)
    if "out.sh" in SPELL[s]:
        cx.equal(os.path.exists(f"{w.d}/out.sh"), name is not None, what + ": output script written")


def caller(w, st):
    return w.base(PYTHONPATH=f"{w.d}/shadow") if "PYTHONPATH" in STATES[st] else w.base()


def state(case, cx, w):
    _k, i, st = case
    base = w.base()
    want, name = loaded(caller(w, st), *SIT[i])
    rc, dumps, out = w.run(STATES[st].format(d=w.d) + call(w, i), base)
    what = f"{SIT[i]!r} in a shell with {STATES[st]!r}"
    cx.check(rc == 0 and len(dumps) == 1, "{}: the shell ended with {}: {}", what, rc, out[-600:])
    cx.step()
    got = dumps[0]
    got[1].pop("env_file", None)
    verdict(cx, w, what, got, want, name is not None, out)
    tidy(cx, w, what)


def seq(case, cx, w):
    idx = case[1]
    cur = w.base()
    rc, dumps, out = w.run("".join(call(w, i) for i in idx), cur)
    what = f"one after the other: {[SIT[i] for i in idx]!r}"
    cx.check(rc == 0 and len(dumps) == len(idx), "{}: the shell ended with {}: {}", what, rc, out[-600:])
    for n, i in enumerate(idx):
        cur, name = loaded(cur, *SIT[i])
        cx.step()
        verdict(cx, w, what + f", call {n + 1}", dumps[n], cur, name is not None, out)
        cx.state(idx[:n + 1], n)
    tidy(cx, w, what)


def sub(case, cx, w):
    """Without CI mode a subshell has the environment and the caller's shell is unchanged; loading in the subshell is refused."""
    i = case[1]
    h, b, force = SIT[i]
    base = w.base()
    want, name = loaded(base, h, b, force)
    inner = f"/usr/bin/env -0 > {w.d}/inner\nsource {w.le}/load-env.sh --ci-mode {b}\necho $? > {w.d}/nested\n/usr/bin/env -0 > {w.d}/inner2\nexit 5\n"
    rc, dumps, out = w.run(f"echo {h} > {w.d}/host\nsource {w.le}/load-env.sh {'--force' if force else ''} {b}\ndump $?\n", base, stdin=inner)
    what = f"{SIT[i]!r} without CI mode"
    cx.check(rc == 0 and len(dumps) == 1, "{}: the shell ended with {}: {}", what, rc, out[-600:])
    cx.step(2)
    verdict(cx, w, what, dumps[0], base, name is not None, out)
    tidy(cx, w, what)
    if name is None:
        cx.check(not os.path.exists(f"{w.d}/inner"), "{}: a subshell was started", what)
        return
    cx.check(os.path.exists(f"{w.d}/inner"), "{}: no subshell: {}", what, out[-600:])
    from vlib.shell import NOISE, read_env
    drop = NOISE | {"PS1", "LOAD_ENV_INTERACTIVE_MODE"}
    for f in ("inner", "inner2"):
        d = diff(read_env(f"{w.d}/{f}"), want, drop)
        cx.check(not d, "{}: the subshell has (got, expected) {!r}", what, d)
    cx.check(open(f"{w.d}/nested").read().strip() not in ("", "0"), "{}: loading another environment in the subshell is not refused", what)


def fault(case, cx, w):
    _k, f, ci = case
    base = w.base()
    pre = ""
    args = "gnu"
    if f == "no specs":
        os.unlink(f"{w.d}/cfg/environment-specs.ini")
    elif f == "unknown op":
        w.put("cfg/environment-specs.ini", SPECS + "[x]\nenvvar-sett A : 1\n")
    elif f == "no envs":
        os.unlink(f"{w.d}/cfg/supported-envs.ini")
    elif f == "bad option":
        args = "gnu --no-such-option"
    elif f == "no python":
        os.unlink(f"{w.d}/bin/python3")
    elif f == "old python":
        real = open(f"{w.d}/bin/python3").read().split("\n", 1)[1]
        w.prog("python3", '#!/bin/sh\nif [ "$1" = -c ]; then echo True; exit 0; fi\n' + real)
    elif f == "loaded":
        base["LOAD_ENV_INTERACTIVE_MODE"] = "True"
    rc, dumps, out = w.run(f"{pre}source {w.le}/load-env.sh {'--ci-mode' if ci else ''} {args}\ndump $?\n", base)
    what = f"{f}, ci-mode={ci}"
    cx.check(rc == 0 and len(dumps) == 1, "{}: the shell ended with {}: {}", what, rc, out[-600:])
    cx.step()
    verdict(cx, w, what, dumps[0], base, False, out)
    tidy(cx, w, what)


def noload(case, cx, w):
    _k, i, st = case
    args, code = NOLOAD[i]
    base = w.base()
    rc, dumps, out = w.run(STATES[st].format(d=w.d) + f"source {w.le}/load-env.sh {args}\ndump $?\n", base)
    what = f"arguments {args!r} in a shell with {STATES[st]!r}"
    cx.check(rc == 0 and len(dumps) == 1, "{}: the shell ended with {}: {}", what, rc, out[-600:])
    cx.step()
    dumps[0][1].pop("env_file", None)
    verdict(cx, w, what, dumps[0], caller(w, st), code == 0, out)
    tidy(cx, w, what)


KINDS = {"one": one, "state": state, "seq": seq, "sub": sub, "fault": fault, "noload": noload}
