"""
Explicit enumeration engine.

A check module (checks/<id>.py) supplies

    cases(tier)      a deterministic generator of JSON-serialisable cases, simplest first;
                     together they are the bounded space the check covers
    run(case, cx)    explores one case: drives the reference model and the real code in lock
                     step, reports model states/transitions through ``cx`` and raises
                     ``Violation`` on the first disagreement

The engine splits the enumeration over worker processes by index (every worker enumerates the
same sequence and takes every n-th case), so the first counterexample it reports is always the
one with the smallest index.  Nothing is sampled; if the safety deadline is hit the run says so
(exhaustive = false).
"""
import gc
import hashlib
import importlib
import io
import itertools
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

CASE_CPU_LIMIT_S = 30           # CPU time for one case; cases normally need milliseconds
DEADLINE_S = {"quick": 780, "thorough": 4 * 3600}
MEM_LIMIT = 3 << 30


class Violation(Exception):
    """The real code disagrees with the property."""


class NonTermination(BaseException):
    """The code under test did not finish within the CPU limit of a case."""


def digest(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big")


class Ctx:
    """What a check sees while it runs one case."""

    def __init__(self, scratch, listed):
        self.scratch = scratch
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.known_seen = {}
        self.listed = listed
        self._n = 0

    # -- coverage bookkeeping ---------------------------------------------------------------
    def state(self, *obj):
        self.states.add(digest(obj))

    def step(self, n=1):
        self.transitions += n

    def trace(self, outcome=None):
        """One complete model trace was replayed against the implementation."""
        self.traces += 1
        if outcome is not None:
            self.outcomes.add(digest(outcome))

    # -- verdicts ---------------------------------------------------------------------------
    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg.format(*args) if args else msg)

    def equal(self, got, want, what):
        if got != want or type(got) is not type(want):
            raise Violation(f"{what}: got {got!r}, expected {want!r}")

    def known(self, fid, what):
        """A recorded finding was reproduced; anything not on the list is a violation."""
        if fid not in self.listed:
            raise Violation(f"{what} (finding {fid} is not listed in known_findings.jsonl)")
        self.known_seen.setdefault(fid, what)

    # -- scratch files ----------------------------------------------------------------------
    def path(self, suffix=".ini"):
        self._n += 1
        return os.path.join(self.scratch, f"f{self._n}{suffix}")

    def write(self, text, suffix=".ini"):
        p = self.path(suffix)
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        return p

    def cleanup(self):
        for e in os.scandir(self.scratch):
            if e.is_dir(follow_symlinks=False):
                shutil.rmtree(e.path, ignore_errors=True)
            else:
                os.unlink(e.path)


class capture:
    """Capture what the code under test prints."""

    def __enter__(self):
        self.old = (sys.stdout, sys.stderr)
        self.buf = io.StringIO()
        sys.stdout = self.buf
        sys.stderr = self.buf
        return self

    def __exit__(self, *exc):
        sys.stdout, sys.stderr = self.old
        return False

    @property
    def text(self):
        return self.buf.getvalue()


def outcome(fn, *args, **kw):
    """('ok', value) or ('raise', exception) of a call into the code under test."""
    try:
        return ("ok", fn(*args, **kw))
    except NonTermination:
        raise
    except Violation:
        raise
    except BaseException as ex:  # noqa: B902 - SystemExit, KeyboardInterrupt are outcomes too
        return ("raise", ex)


def _on_timer(signum, frame):
    raise NonTermination()


def _jsonable(x):
    return json.loads(json.dumps(x))


def _arm(limit):
    signal.setitimer(signal.ITIMER_PROF, limit, 2.0 if limit else 0)


def run_one(mod, case, cx):
    """None, or the text of the violation."""
    try:
        _arm(CASE_CPU_LIMIT_S)
        try:
            mod.run(case, cx)
            return None
        finally:
            _arm(0)
    except Violation as v:
        return str(v)
    except NonTermination:
        return f"the code under test did not finish within {CASE_CPU_LIMIT_S} s of CPU time"
    except MemoryError:
        return "the code under test ran out of memory"
    except BaseException as ex:
        return "unexpected %s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc(limit=-6))
    finally:
        _arm(0)
        try:
            cx.cleanup()
        except NonTermination:
            pass


def _worker(mod, tier, w, n, best, cur, deadline, scratch, listed, outpath):
    signal.signal(signal.SIGPROF, _on_timer)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch if not getattr(mod, "CHDIR", None) else mod.CHDIR)
    sink = open(os.devnull, "w")
    sys.stdout = sink
    cx = Ctx(scratch, listed)
    done = 0
    capped = False
    viol = None
    err = None
    try:
        gc.disable()
        for i, case in enumerate(mod.cases(tier)):
            if i % n != w:
                continue
            if i > best.value:
                break
            cur[w] = i
            if done % 64 == 0:
                if time.monotonic() > deadline:
                    capped = True
                    break
                gc.collect(0 if done % 2048 else 2)
            msg = run_one(mod, case, cx)
            done += 1
            if msg is not None:
                with best.get_lock():
                    if i < best.value:
                        best.value = i
                viol = (i, _jsonable(case), msg)
                break
    except BaseException as ex:
        err = traceback.format_exc()
    import pickle
    with open(outpath, "wb") as f:
        pickle.dump({
            "done": done, "capped": capped, "viol": viol, "err": err, "states": cx.states,
            "transitions": cx.transitions, "traces": cx.traces, "outcomes": cx.outcomes,
            "known": cx.known_seen,
        }, f, protocol=4)
    sys.stdout.flush()
    os._exit(0)


def explore(mod, tier, jobs, base, listed):
    ctx = mp.get_context("fork")
    best = ctx.Value("q", 1 << 60)
    cur = ctx.Array("q", [-1] * jobs, lock=False)
    deadline = time.monotonic() + DEADLINE_S[tier]
    procs = []
    for w in range(jobs):
        out = os.path.join(base, f"out{w}.pkl")
        p = ctx.Process(target=_worker, args=(
            mod, tier, w, jobs, best, cur, deadline, os.path.join(base, f"w{w}"), listed, out))
        p.start()
        procs.append((w, p, out))
    import pickle
    tot = {"done": 0, "capped": False, "viols": [], "errs": [], "states": set(), "transitions": 0,
           "traces": 0, "outcomes": set(), "known": {}}
    for w, p, out in procs:
        p.join()
        if not os.path.exists(out):
            i = cur[w]
            case = next(itertools.islice(mod.cases(tier), i, i + 1), None)
            tot["viols"].append((i, _jsonable(case),
                                 f"the process running the code under test died (exit code {p.exitcode})"))
            continue
        with open(out, "rb") as f:
            r = pickle.load(f)
        os.unlink(out)
        tot["done"] += r["done"]
        tot["capped"] |= r["capped"]
        tot["transitions"] += r["transitions"]
        tot["traces"] += r["traces"]
        tot["states"] |= r["states"]
        tot["outcomes"] |= r["outcomes"]
        for k, v in r["known"].items():
            tot["known"].setdefault(k, v)
        if r["viol"]:
            tot["viols"].append(tuple(r["viol"]))
        if r["err"]:
            tot["errs"].append(r["err"])
    return tot


def load_listed(here, pid):
    out = {}
    p = os.path.join(here, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out[d["id"]] = d["what"]
    return out


def settle_process():
    """The same start for every run: signals that whoever started the check had ignored or blocked (nohup, `&` of a
    script) would be ignored by every shell the check starts."""
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    for s in (signal.SIGHUP, signal.SIGQUIT, signal.SIGTERM, signal.SIGCHLD, signal.SIGALRM, signal.SIGUSR1, signal.SIGUSR2,
              signal.SIGTTOU, signal.SIGTTIN, signal.SIGTSTP, signal.SIGCONT, signal.SIGPROF):
        signal.signal(s, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    null = os.open(os.devnull, os.O_RDONLY)
    if null:
        os.dup2(null, 0)
        os.close(null)


def main(argv, here):
    settle_process()
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    replay = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a == "--replay":
            replay = rest.pop(0)
        else:
            tier = a
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    jobs = int(os.environ.get("VERIF_JOBS") or 0) or min(8, os.cpu_count() or 8)
    t0 = time.time()
    os.umask(0o077)
    base = tempfile.mkdtemp(prefix="verif-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    listed = load_listed(here, pid)
    evdir = os.path.join(here, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    rpath = os.path.join(evdir, "replays", f"{pid}.json")
    try:
        try:
            from vlib import env
            env.setup()
            mod = importlib.import_module("checks." + pid.lower())
        except BaseException as ex:
            if os.environ.get("VERIF_DEBUG"):
                raise
            mod, boot = None, "the code under test cannot be loaded: %s: %s" % (type(ex).__name__, ex)
            traceback.print_exc()
            if isinstance(ex, ModuleNotFoundError) and (ex.name or "").startswith("checks"):
                return 2
        if mod is None:
            tot = {"done": 0, "capped": False, "viols": [(-1, None, boot)], "errs": [], "states": set(),
                   "transitions": 0, "traces": 0, "outcomes": set(), "known": {}}
        elif replay:
            signal.signal(signal.SIGPROF, _on_timer)
            d = json.load(open(replay, encoding="utf-8"))
            cx = Ctx(os.path.join(base, "r"), listed)
            os.makedirs(cx.scratch)
            os.chdir(cx.scratch)
            msg = run_one(mod, d["case"], cx)
            print(json.dumps(d["case"], ensure_ascii=False))
            print("REPRODUCED: " + msg if msg else "not reproduced")
            return 1 if msg else 0
        else:
            tot = explore(mod, tier, jobs, base, listed)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for e in tot["errs"]:
        print(e, file=sys.stderr)
    wall = time.time() - t0
    samples = []
    if mod is not None:
        total = tot["done"]
        want = sorted({0, 1, total // 3, total // 2, max(0, total - 1), (seed * 7919) % max(1, total)})
        for i, c in enumerate(mod.cases(tier)):
            if want and i == want[0]:
                want.pop(0)
                samples.append(c if not hasattr(mod, "show") else mod.show(c))
            if not want:
                break
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(tot["states"]),
            "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["traces"],
            "cases_enumerated": tot["done"],
            "distinct_outcomes": len(tot["outcomes"]),
            "exhaustive": not tot["capped"] and not tot["viols"] and not tot["errs"],
            "bounds": getattr(mod, "BOUNDS", {}).get(tier, "") if mod else "",
            "samples": _jsonable(samples) or ["none"],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
        "wall_s": round(wall, 2),
        "violations": len(tot["viols"]),
        "known_findings_reproduced": sorted(tot["known"]),
    }
    with open(os.path.join(evdir, f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for k in sorted(tot["known"]):
        print(f"KNOWN-FINDING: property={pid} {k}: {listed[k]}")
    print(f"{pid} {tier}: cases={tot['done']} states={len(tot['states'])} transitions={tot['transitions']} "
          f"traces={tot['traces']} outcomes={len(tot['outcomes'])} exhaustive={ev['coverage']['exhaustive']} "
          f"wall={wall:.1f}s")
    if tot["viols"]:
        i, case, msg = min(tot["viols"], key=lambda v: v[0])
        with open(rpath, "w", encoding="utf-8") as f:
            json.dump({"property": pid, "index": i, "case": case, "message": msg}, f, indent=1, ensure_ascii=False)
            f.write("\n")
        print(f"case #{i}: {json.dumps(case, ensure_ascii=False)[:2000]}")
        print(msg[:3000])
        print(f"VIOLATION property={pid} replay={rpath}")
        return 1
    if tot["errs"]:
        return 2
    return 0
