"""C34: shells that load or configure at the same time do not disturb each other."""
import os

from checks import c33
from vlib.sched import Shells
from vlib.shell import diff

BOUNDS = {
    "quick": "two shells of one user in one directory, 5 pairs of {load-env.sh, gen-config.sh, gen-config.sh --cmake-fragment} x {CI mode, subshell} with different build names; every schedule with one preemption at any "
             "external command and before and after any file opened for writing by the Python programs; for two of the pairs every schedule with two preemptions at external commands",
    "thorough": "as quick with two preemptions at every point, for all pairs",
}
ASSUMPTIONS = ["only one shell runs at a time, and they switch at external commands and at files that Python opens for writing", "$RANDOM and uuid4 give the two shells different values",
               "host and configuration files do not change meanwhile"]

SIT = [("h1", "x_gnu_release", False), ("h1", "intel_use-mpi", False)]   # of one length
PAIRS = [["load ci", "load ci"], ["gen ci", "gen ci"], ["gen ci", "load sub"], ["frag ci", "gen sub"], ["load sub", "gen ci"]]
TWO = (0, 1)
PARTS = 6
MAXK = {True: 60, False: 30}


def cases(tier):
    for p in range(len(PAIRS)):
        for swap in (0, 1):
            for part in range(PARTS):
                yield ["one", p, swap, part]
    for p in range(len(PAIRS)) if tier == "thorough" else TWO:
        for swap in (0, 1):
            for part in range(PARTS):
                yield ["two", p, swap, part, tier == "thorough"]


def script(w, kind, i):
    h, b, _f = SIT[i]
    tool, mode = kind.split()
    ci = "--ci-mode" if mode == "ci" else ""
    pre = f"RANDOM={i + 1}\n"
    if tool == "load":
        return pre + f"source {w.le}/load-env.sh {ci} {b}\ndump $?\n"
    if tool == "frag":
        return pre + f"source {w.gc}/gen-config.sh {ci} -y --cmake-fragment {w.d}/frag{i}.cmake {b}\ndump $?\n"
    return pre + f"source {w.gc}/gen-config.sh {ci} {b} ../proj{i}\ndump $?\n"


def run(case, cx):
    if case[0] == "one":
        for k in range(case[3], MAXK[True], PARTS):
            if schedule(case, cx, [(case[2], k)], True) == 0:
                return
        return
    _k, p, swap, part, fine = case
    for k in range(part + 1, MAXK[fine], PARTS):
        for k2 in range(1, MAXK[fine]):
            r = schedule(case, cx, [(swap, k), (1 - swap, k2)], fine)
            if r is not None:
                break
        if r == 0:
            return


def schedule(case, cx, segments, fine):
    """Run the segments (shell, number of steps), then the first shell to its end, then the other.  The number of a segment that is longer than the shell, else None."""
    kinds = PAIRS[case[1]]
    w = c33.install(cx, c33.OPTS[1])
    try:
        for i in (0, 1):
            os.makedirs(f"{w.d}/proj{i}")
        s = Shells(w, fine=fine)
        try:
            base = w.base()
            for i in (0, 1):
                s.start(script(w, kinds[i], i), base, stdin="exit 0\n")
            for j, (i, n) in enumerate(segments):
                for _j in range(n):
                    s.shells[i].step()
                    cx.step()
                if s.shells[i].done and n > 0:
                    return j
                cx.state(case[1], [len(x.log) for x in s.shells], [x.at and x.at.split()[0] for x in s.shells])
            first = segments[-1][0]
            for i in (1 - first, first) if len(segments) == 1 else (segments[0][0], segments[1][0]):
                while s.shells[i].step():
                    cx.step()
                    cx.state(case[1], [len(x.log) for x in s.shells])
            what = f"{kinds!r}, schedule {segments!r} ({', '.join(repr(x.log[sum(n for j, n in segments if j == x.i)][:60]) for x in s.shells if len(x.log) > sum(n for j, n in segments if j == x.i))} next)"
            verdict(cx, w, s.shells, kinds, base, what)
        finally:
            s.close()
    finally:
        w.close()
    cx.trace((case[1], segments))
    return None


def verdict(cx, w, shells, kinds, base, what):
    calls = w.cmakes()
    for i, sh in enumerate(shells):
        tool, mode = kinds[i].split()
        after, config, ok = c33.loaded(base, *SIT[i])
        out = sh.output
        dumps = sh.dumps()
        who = f"{what}: shell {i} ({kinds[i]})"
        cx.check(sh.p.returncode == 0 and len(dumps) == 1, "{} ended with {}: {}", who, sh.p.returncode, out[-600:])
        c33.verdict(cx, who, dumps[0], after if mode == "ci" else base, ok, out)
        mine = [(a, {k: v for k, v in e.items() if k != "VGATE"}) for a, e in calls if e.get("VGATE") == sh.gate]
        if tool == "gen":
            c33.configured(cx, w, who, mine, config, c33.OPTS[1], after, f"../proj{i}")
        else:
            cx.check(not mine, "{}: cmake was called", who)
        if tool == "frag":
            p = f"{w.d}/frag{i}.cmake"
            text = open(p).read() if os.path.exists(p) else None
            cx.check(text is not None and text.rstrip("\n").split("\n") == ["-DCONFIG:STRING=" + config] + c33.OPTS[1], "{}: the fragment is {!r}", who, text)
    c33.tidy(cx, w, what)
