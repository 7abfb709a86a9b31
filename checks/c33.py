"""C33: sourcing gen-config.sh configures in the right environment with exactly the generated options, or fails."""
import itertools
import os
import shlex

from vlib import kw, senv
from vlib.shell import Install, diff

BOUNDS = {
    "quick": "8 (host, build name, force) situations x CI mode or subshell x 5 option lists x 2 states of the caller's shell; every pair of situations one after the other in one shell; cmake fragments (new, kept, replaced); "
             "12 faults x both modes; the real script, bash and python interpreter",
    "thorough": "as quick with every triple of situations",
}
ASSUMPTIONS = ["arguments and the source path contain no blanks", "python3, cmake and sleep on PATH are stand-ins; setprogramoptions is a stand-in", "options contain no '$', back quotes or backslashes",
               "what cmake returns is not passed on"]

SYS = "[s1]\n^h1\n[s2]\nh2\n"
SYSM = [("s1", ["^h1"]), ("s2", ["h2"])]
ENVS = "[s1]\ngcc-7:\n    gnu\nintel-19: intel\n[s2]\nuse s1\n"
ENVM = {"s1": {"gcc-7": ["gnu"], "intel-19": ["intel"]}}
ENVM["s2"] = ENVM["s1"]
FLAGS = "[configure-flags]\nmpi: SELECT_ONE\n    no-mpi\n    use-mpi\ntype: SELECT_ONE\n    debug\n    release\n"
FLAGM = [("mpi", ["no-mpi", "use-mpi"]), ("type", ["debug", "release"])]
SPECS = "[s1_gcc-7]\nenvvar-set CC : gcc\nenvvar-append TRAIL : g\n[s2_gcc-7]\nuse s1_gcc-7\nenvvar-unset GONE\n[s1_intel-19]\nenvvar-set CC : icc\n[s2_intel-19]\nenvvar-assert-not-empty NOPE : x\n"
ACTS = {"s1_gcc-7": [("set", "CC", "gcc"), ("append", "TRAIL", "g")], "s1_intel-19": [("set", "CC", "icc")], "s2_intel-19": [("assert_not_empty", "NOPE", "x")]}
ACTS["s2_gcc-7"] = ACTS["s1_gcc-7"] + [("unset", "GONE", None)]
CSPECS = "[COMMON]\nopt-set x : 1\n[s1_gcc-7_no-mpi_debug]\nuse COMMON\n"
SIT = [("h1", "gnu", False), ("h1", "s1_intel-19_use-mpi", False), ("h2", "x_gnu_release", False), ("h2", "intel", False), ("h2", "s1_gnu", False), ("h2", "s1_gnu_use-mpi_release", True), ("h1", "nothing", False), ("h1", "x-hpc_gnu_use-mpi", False)]
OPTS = [["-DA=1"], ["-DA=1", "-DB:STRING=\"two  words\"", "-DC:BOOL=ON"], ["-DE=\"\"", "-DF=\"a;b\"", "-DG='x*'", "-H"], ["-DA=1", "-DA=1", "-DA=2"], ["<none>"]]
STATES = ["trap 'echo interrupted; echo \"\\$HOME\"' SIGINT SIGTERM; trap '' SIGHUP; trap 'echo bye' EXIT; umask 077; set -f; mark\n",
          "cmake_args_file={d}/old; path_to_src=/nowhere; load_env_args_file=/nowhere; bash_cmake_args_loc=/nowhere; ret=3; script_dir=/nowhere\n",
          "PYTHONPATH\n"]
FAULTS = ["source is a file", "no source", "no args", "bad section", "two options", "no flags file", "no config specs", "no envs", "unknown op", "bad option", "no python", "old python"]
FRAG = ["new", "kept", "replaced", "forced", "bad name"]


def cases(tier):
    for i in range(len(SIT)):
        for ci in (True, False):
            for o in range(len(OPTS)):
                yield ["one", i, ci, o]
            for st in range(len(STATES)):
                yield ["state", i, ci, 1, st]
    for t in itertools.product(range(len(SIT)), repeat=2 if tier == "quick" else 3):
        yield ["seq", list(t)]
    for f in FRAG:
        for i in (0, 2, 3):
            for ci in (True, False):
                for src in ("", "../proj"):
                    for stale in (False, True):
                        yield ["frag", f, i, ci, src, stale]
    for f in FAULTS:
        for ci in (True, False):
            yield ["fault", f, ci]
    yield ["cmake fails", True]
    yield ["cmake fails", False]


def complete(h, b, force):
    s = kw.system_of(SYSM, h, b, force)
    e = f"{s}_{kw.env_candidates(ENVM[s], b)[0]}"
    have = b.split("_")
    return e, e + "".join("_" + ([o for o in opts if o in have] or [opts[0]])[0] for _f, opts in FLAGM)


def loaded(base, h, b, force):
    """(environment after, complete configuration or None if it cannot be determined, whether the environment loads)."""
    try:
        e, c = complete(h, b, force)
    except kw.Bad:
        return dict(base), None, False
    after, fail = senv.fold(base, [{"op": "envvar_" + o, "envvar": n, "value": v} for o, n, v in ACTS[e]])
    if fail is not None:
        return dict(base), c, False
    after["LOADED_ENV_NAME"] = e
    return after, c, True


def install(cx, options=OPTS[0]):
    w = Install(os.path.join(cx.scratch, "inst"), f"verif-{os.getpid()}",
                {"supported-systems": SYS, "supported-envs": ENVS, "environment-specs": SPECS, "supported-config-flags": FLAGS, "config-specs": CSPECS}, options)
    os.makedirs(f"{w.d}/proj")
    return w


OWN = {"path_to_src", "cmake_args_file", "BASH_FUNC_gen_config_helper%%", "PS1", "LOAD_ENV_INTERACTIVE_MODE", "_", "SHLVL", "PWD", "OLDPWD"}


def verdict(cx, what, got, want, ok, out):
    rc, after = got
    cx.check((rc == 0) == ok, "{}: returns {}, expected {}; output: {}", what, rc, "0" if ok else "a failure", out[-600:])
    d = diff(after, want)
    cx.check(not d, "{}: the shell has (got, expected) {!r}; output: {}", what, d, out[-600:])


def configured(cx, w, what, calls, config, options, want_env, src):
    """cmake ran once per expected configuration with exactly these arguments in this environment."""
    cx.check(len(calls) == 1, "{}: cmake was called {} times", what, len(calls))
    args, e = calls[0]
    want = shlex.split(" ".join(["-DCONFIG:STRING=" + config] + options if options != ["<none>"] else [])) + [src]
    cx.equal(args, want, what + ": arguments of cmake")
    d = diff(e, want_env, OWN)
    cx.check(not d, "{}: cmake ran with (got, expected) {!r}", what, d)


def run(case, cx):
    w = install(cx, OPTS[case[3]] if case[0] in ("one", "state") else OPTS[1])
    try:
        KINDS[case[0]](case, cx, w)
    finally:
        w.close()
    cx.state(case)
    cx.trace(case)


def call(w, sit, ci, extra="", src="../proj"):
    h, b, force = sit
    return f"echo {h} > {w.d}/host\nsource {w.gc}/gen-config.sh {'--ci-mode' if ci else ''} {'--force' if force else ''} {extra} {b} {src}\ndump $?\n"


def tidy(cx, w, what, work=()):
    got, tmp = w.left()
    cx.equal(got, sorted(work), what + ": files left in the working directory")
    cx.equal([x for x in tmp if not x.startswith("bash_cmake_args")], [], what + ": files left in the temporary directory")


def one(case, cx, w):
    i, ci, o = case[1:4]
    pre = STATES[case[4]].format(d=w.d) if case[0] == "state" else ""
    base = w.base()
    if pre == "PYTHONPATH\n":
        pre, base = "", w.base(PYTHONPATH=f"{w.d}/shadow")
    after, config, ok = loaded(base, *SIT[i])
    rc, dumps, out = w.run(pre + call(w, SIT[i], ci), base, stdin="exit 0\n")
    what = f"{SIT[i]!r}, ci-mode={ci}, options {OPTS[o]!r}" + (f", in a shell with {STATES[case[4]]!r}" if case[0] == "state" else "")
    cx.check(rc == 0 and len(dumps) == 1, "{}: the shell ended with {}: {}", what, rc, out[-600:])
    cx.step()
    verdict(cx, what, dumps[0], after if ci else base, ok, out)
    calls = w.cmakes()
    if ok:
        configured(cx, w, what, calls, config, OPTS[o], after, "../proj")
    else:
        cx.check(not calls, "{}: cmake was called with {!r}", what, calls)
    tidy(cx, w, what)


def seq(case, cx, w):
    cur = w.base()
    idx = case[1]
    what = f"one after the other: {[SIT[i] for i in idx]!r}"
    rc, dumps, out = w.run("".join(call(w, SIT[i], True) for i in idx), cur)
    cx.check(rc == 0 and len(dumps) == len(idx), "{}: the shell ended with {}: {}", what, rc, out[-600:])
    calls = w.cmakes()
    for n, i in enumerate(idx):
        cur, config, ok = loaded(cur, *SIT[i])
        cx.step()
        verdict(cx, what + f", call {n + 1}", dumps[n], cur, ok, out)
        if ok:
            cx.check(calls, "{}, call {}: cmake was not called", what, n + 1)
            configured(cx, w, what + f", call {n + 1}", [calls.pop(0)], config, OPTS[1], cur, "../proj")
    cx.check(not calls, "{}: more calls of cmake: {!r}", what, calls)
    tidy(cx, w, what)


def frag(case, cx, w):
    _k, f, i, ci, src, stale = case
    base = w.base()
    path = f"{w.d}/frag.cmake"
    if f in ("kept", "replaced", "forced"):
        w.put("frag.cmake", "former\n")
    if stale:
        # what gen_config.py leaves when it is called without the script
        os.makedirs(f"/tmp/{w.user}", exist_ok=True)
        w.put(f"/tmp/{w.user}/.bash_cmake_args_loc", f"{w.d}/stale")
        w.put("stale", "-DSTALE=1")
    sit = SIT[i] if f != "bad name" else ("h1", "nothing", False)
    after, config, ok = loaded(base, *sit)
    stdin = {"kept": "n\n", "replaced": "what\ny\n"}.get(f, "") + "exit 0\n"
    rc, dumps, out = w.run(call(w, sit, ci, extra=f"--cmake-fragment {path} {'-y' if f == 'forced' else ''}", src=src), base, stdin=stdin)
    what = f"cmake fragment {f}, {sit!r}, ci-mode={ci}, source {src!r}, other options there: {stale}"
    cx.check(rc == 0 and len(dumps) == 1, "{}: the shell ended with {}: {}", what, rc, out[-600:])
    cx.step()
    cx.check(not w.cmakes(), "{}: cmake was called", what)
    text = open(path).read() if os.path.exists(path) else None
    if f == "bad name":
        cx.check(text is None, "{}: a fragment was written", what)
        verdict(cx, what, dumps[0], base, False, out)
        return
    if f == "kept":
        cx.equal(text, "former\n", what + ": the fragment")
        verdict(cx, what, dumps[0], base, False, out)
    else:
        cx.check(text is not None and text.rstrip("\n").split("\n") == ["-DCONFIG:STRING=" + config] + OPTS[1], "{}: the fragment is {!r}", what, text)
        verdict(cx, what, dumps[0], after if ci else base, ok, out)
    if stale and os.path.exists(f"/tmp/{w.user}/.bash_cmake_args_loc"):
        os.unlink(f"/tmp/{w.user}/.bash_cmake_args_loc")
    tidy(cx, w, what)


def fault(case, cx, w):
    _k, f, ci = case
    base = w.base()
    sit, extra, src = SIT[0], "", "../proj"
    if f == "source is a file":
        src = "../proj.txt"
        w.put("proj.txt", "")
    elif f == "no source":
        src = "../nowhere"
    elif f == "bad section":
        w.put("cfg/config-specs.ini", CSPECS + "[s1_gcc-7_debug]\nopt-set x : 1\n")
    elif f == "two options":
        sit = ("h1", "gnu_debug_release", False)
    elif f == "no flags file":
        os.unlink(f"{w.d}/cfg/supported-config-flags.ini")
    elif f == "no config specs":
        os.unlink(f"{w.d}/cfg/config-specs.ini")
    elif f == "no envs":
        os.unlink(f"{w.d}/cfg/supported-envs.ini")
    elif f == "unknown op":
        w.put("cfg/environment-specs.ini", SPECS + "[x]\nenvvar-sett A : 1\n")
    elif f == "bad option":
        extra = "--no-such-option"
    elif f == "no python":
        os.unlink(f"{w.d}/bin/python3")
    elif f == "old python":
        real = open(f"{w.d}/bin/python3").read().split("\n", 1)[1]
        w.prog("python3", '#!/bin/sh\nif [ "$1" = -c ]; then echo True; exit 0; fi\n' + real)
    script = call(w, sit, ci, extra, src)
    if f == "no args":
        script = f"source {w.gc}/gen-config.sh\ndump $?\n"
    rc, dumps, out = w.run(script, base, stdin="exit 0\n")
    what = f"{f}, ci-mode={ci}"
    cx.check(rc == 0 and len(dumps) == 1, "{}: the shell ended with {}: {}", what, rc, out[-600:])
    cx.step()
    verdict(cx, what, dumps[0], base, False, out)
    cx.check(not w.cmakes(), "{}: cmake was called", what)
    tidy(cx, w, what)


def cmake_fails(case, cx, w):
    """The environment stays loaded when cmake fails."""
    ci = case[1]
    base = w.base()
    w.put("cmakefails", "")
    after, config, ok = loaded(base, *SIT[0])
    rc, dumps, out = w.run(call(w, SIT[0], ci), base, stdin="exit 0\n")
    what = f"cmake fails, ci-mode={ci}"
    cx.check(rc == 0 and len(dumps) == 1, "{}: the shell ended with {}: {}", what, rc, out[-600:])
    cx.step()
    d = diff(dumps[0][1], after if ci else base)
    cx.check(not d, "{}: the shell has (got, expected) {!r}", what, d)
    configured(cx, w, what, w.cmakes(), config, OPTS[1], after, "../proj")


KINDS = {"one": one, "state": one, "seq": seq, "frag": frag, "fault": fault, "cmake fails": cmake_fails}
