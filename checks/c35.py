"""C35: an interrupted or failing step leaves the shell usable and its environment all or nothing."""
import os
import signal

from checks import c33, c34
from vlib.sched import Shells
from vlib.shell import diff

BOUNDS = {
    "quick": "load-env.sh, gen-config.sh and gen-config.sh --cmake-fragment x CI mode, subshell; SIGINT, SIGTERM and SIGHUP, to the shell alone or to it and its programs, at every Python program, cat and cmake they start; "
             "every Python program failing at its start, or killed at every file it opens for writing; then the same call again in the same shell",
    "thorough": "as quick with every pair of interruptions, the second in the repeated call",
}
ASSUMPTIONS = ["signals arrive while the script waits for a program other than rm", "what a killed program itself had written (in /tmp/$USER) is not claimed to be removed"]

KINDS = ["load ci", "load sub", "gen ci", "gen sub", "frag ci", "frag sub"]
SIGS = ["SIGINT", "SIGTERM", "SIGHUP"]
HOWS = [f"{s} {w}" for s in SIGS for w in ("shell", "all")] + ["fail", "kill"]
MAXK = 60
PARTS = 5


def cases(tier):
    for kind in KINDS:
        for how in HOWS:
            for part in range(PARTS):
                if tier == "quick":
                    yield [kind, [how], part]
                else:
                    for how2 in HOWS:
                        yield [kind, [how, how2], part]


def run(case, cx):
    """Every point (of this part of them) for the first fault, every point of the repeated call for the second."""
    kind, hows, part = case
    for k in range(part, MAXK, PARTS):
        first = [[hows[0], k]]
        if len(hows) == 1:
            if explore(cx, kind, first) == "end 0":
                return
            continue
        for k2 in range(MAXK):
            r = explore(cx, kind, first + [[hows[1], k2]])
            if r in ("end 0", "end 1", "skip 0"):
                break
        if r == "end 0":
            return


def eligible(at, how):
    word = at.split()[0]
    if how == "kill":
        return word in ("python3", "before", "after")
    if how == "fail":
        return word == "python3"
    return word not in ("rm", "before", "after")


def explore(cx, kind, faults):
    """'end N' if fault N lies behind the end of its call, 'skip N' if it does not apply at its point."""
    w = c33.install(cx, c33.OPTS[1])
    try:
        os.makedirs(f"{w.d}/proj0")
        s = Shells(w, fine=any(h == "kill" for h, _k in faults))
        try:
            return follow(cx, w, s, kind, faults)
        finally:
            s.close()
    finally:
        w.close()


def follow(cx, w, s, kind, faults):
    base = w.base()
    tool, mode = kind.split()
    one = c34.script(w, kind, 0)
    sh = s.start(f"function seen() {{ printf x >> {w.d}/seen; }}\n" + (one + "seen\n") * (len(faults) + 1), base, stdin="exit 0\n" * 9)

    def calls_done():
        p = f"{w.d}/seen"
        return os.path.getsize(p) if os.path.exists(p) else 0

    loaded_env, config, _ok = c33.loaded(base, *c34.SIT[0])
    cur = dict(base)
    killed = False
    for n, (how, k) in enumerate(faults):
        for _i in range(k):
            sh.step()
            cx.step()
            if sh.done or calls_done() > n:
                return f"end {n}"
        at = sh.at
        if not eligible(at, how):
            return f"skip {n}"
        what = f"{kind}, {faults[:n + 1]!r} (at {at[:70]!r})"
        cmakes = len(w.cmakes())
        done_before = cmakes > 0 or at.split()[0] == "cmake" or "bash_cmake_args_from" in at
        if how == "fail":
            more = sh.step("fail")
        elif how == "kill":
            more = sh.kill()
            killed = True
        elif how.endswith("shell"):
            sh.signal(getattr(signal, how.split()[0]))
            more = sh.step()
        else:
            more = sh.signal_all(getattr(signal, how.split()[0]))
        cx.step()
        while more and calls_done() <= n:
            more = sh.step()
            cx.step()
        cx.state(kind, faults[:n + 1], at.split()[:4])
        out = sh.output
        dumps = sh.dumps()
        cx.check(calls_done() > n and len(dumps) > n, "{}: the shell ended with {}: {}", what, sh.p.returncode, out[-600:])
        rc, after = dumps[n]
        full, _c, _o = c33.loaded(cur, *c34.SIT[0])
        if done_before and mode == "ci":
            d = diff(after, full)
            cx.check(not d, "{}: the environment was loaded, the shell has (got, expected) {!r}", what, d)
            cur = full
        else:
            cx.check(rc != 0, "{}: returns 0; output: {}", what, out[-600:])
            d = diff(after, cur)
            cx.check(not d, "{}: the shell has (got, expected) {!r}", what, d)
            cx.check(done_before or not w.cmakes(), "{}: cmake was called", what)
        w.cmakes()
        left(cx, w, what, killed)
    n = len(faults)
    what = f"{kind}, again after {faults!r}"
    while not sh.done:
        sh.step()
        cx.step()
    dumps = sh.dumps()
    cx.check(sh.p.returncode == 0 and len(dumps) == n + 1, "{}: the shell ended with {}: {}", what, sh.p.returncode, sh.output[-600:])
    full, config, ok = c33.loaded(cur, *c34.SIT[0])
    c33.verdict(cx, what, dumps[n], full if mode == "ci" else cur, ok, sh.output)
    calls = [(a, {k: v for k, v in e.items() if k != "VGATE"}) for a, e in w.cmakes()]
    if tool == "gen":
        c33.configured(cx, w, what, calls, config, c33.OPTS[1], full, "../proj0")
    else:
        cx.check(not calls, "{}: cmake was called", what)
    left(cx, w, what, killed)
    cx.trace((kind, faults))
    return "ok"


def left(cx, w, what, killed):
    work, tmp = w.left()
    cx.equal(work, [], what + ": files left in the working directory")
    if not killed:
        cx.equal([x for x in tmp if not x.startswith("bash_cmake_args")], [], what + ": files left in the temporary directory")
