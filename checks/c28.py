"""C28: loading an environment is coherent with the current build name."""
import itertools
import logging
import os
import shutil
import subprocess
from pathlib import Path

from vlib.host import host
from vlib import env, kw, senv
from vlib.engine import capture, outcome
import load_env
env.from_tree(load_env)
LoadEnv = load_env.LoadEnv

BOUNDS = {
    "quick": "every sequence of 3 operations out of 9 build name assignments (with host), system name, environment name, stripped name, apply, write, on 2 file sets x force (and of 2 operations on 4 file sets x more first "
             "build names); 10 faulty file sets x every sequence of 3 queries; 6 ways of giving the files and the output; scripts run with bash; main()",
    "thorough": "as quick with sequences of 4 operations",
}
ASSUMPTIONS = ["socket.gethostname is replaced by a stand-in",
               "the host does not change while a build name is in use"]

SYS = "[s1]\n^h1\n[s2]\nh2  # second\n[s3]\nnever\n"
SYSM = [("s1", ["^h1"]), ("s2", ["h2"]), ("s3", ["never"])]
ENVS = "[s1]\ngcc-7.3:\n    gnu  # the default\n    default\nintel-19: intel\n[s2]\nuse s1\nclang: gnu-2\n[s3]\ngcc-7.3:\n"
ENVM = {"s1": {"gcc-7.3": ["gnu", "default"], "intel-19": ["intel"]}, "s3": {"gcc-7.3": []}}
ENVM["s2"] = {**ENVM["s1"], "clang": ["gnu-2"]}
SPECS = """[COMMON]
envvar-set LOADED : yes
envvar-append TRAIL : common
[s1_gcc-7.3]
use COMMON
envvar-set CC : gcc
envvar-prepend TRAIL : ${CC}
[s1_intel-19]
envvar-set CC : icc
use COMMON
envvar-unset GONE
[s2_gcc-7.3]
use s1_gcc-7.3
envvar-set SYS : two
[s2_intel-19]
envvar-assert-not-empty NOT_THERE : it is not there
envvar-set SYS : intel2
[s2_clang]
use s1_intel-19
envvar-set CC : clang
[s3_gcc-7.3]
envvar-set CC : s3
"""


def acts(section):
    common = [("set", "LOADED", "yes"), ("append", "TRAIL", "common")]
    g1 = common + [("set", "CC", "gcc"), ("prepend", "TRAIL", "${CC}")]
    i1 = [("set", "CC", "icc")] + common + [("unset", "GONE", None)]
    t = {"s1_gcc-7.3": g1, "s1_intel-19": i1, "s2_gcc-7.3": g1 + [("set", "SYS", "two")],
         "s2_intel-19": [("assert_not_empty", "NOT_THERE", "it is not there"), ("set", "SYS", "intel2")],
         "s2_clang": i1 + [("set", "CC", "clang")], "s3_gcc-7.3": [("set", "CC", "s3")]}[section]
    return [{"op": "envvar_" + o, "envvar": n, "value": v} for o, n, v in t]


ASSIGN = [("h1", "gnu_debug"), ("h1", "s1_intel-19_x"), ("h2", "gnu"), ("h2x", "S2_gnu-2_gnu_static"), ("h2", "intel"), ("other", "s3_gcc-7.3"), ("h1", "nothing"), ("h1", "s1_s2_gnu"), ("h1", "GNU_debug")]
QUERY = ["sys", "env", "strip", "apply", "write"]
FAULTS = ["unknown op", "unknown op elsewhere", "no such spec", "no envs file", "duplicate alias", "alias is env", "no systems file", "bad specs", "no section for system", "use cycle"]
FILESETS = ["argv", "ini", "ini abs", "argv output"]


# environment names with '_' and system names with capitals
USYS = [("Sys1", ["^h1"]), ("s2", ["h2"])]
UENV = {"gcc_7": ["g7"], "gcc": [], "gcc_7_dbg": ["gd"], "intel": ["i"]}
STRIPW = ["gcc", "7", "dbg", "intel", "g7", "sys1", "x"]


def cases(tier):
    n = 3 if tier == "quick" else 4
    ops = [["assign", i] for i in range(len(ASSIGN))] + [[q] for q in QUERY]
    for fs in FILESETS:
        for force in (False, True):
            for first in (0, 4) if fs != "argv" else (0, 3, 5, 6):
                for a in ops:
                    yield ["seq", fs, force, first, a, n - 1 if first in (0, 3) and (fs in ("argv", "argv output")) or tier == "thorough" else n - 2]
    for f in FAULTS:
        for fs in ("argv output", "ini"):
            for force in (False, True):
                for first in (0, 2, 5) if tier == "quick" else range(len(ASSIGN)):
                    yield ["fault", f, fs, force, first, 3]
    for o in range(6):
        for first in range(len(ASSIGN)):
            yield ["output", o, first]
    for first in range(len(ASSIGN)):
        for force in (False, True):
            for loc in (False, True):
                yield ["main", first, force, loc]
    for b in itertools.product(["s1", "S1", "gnu", "gcc-7.3", "debug", "", "gnu-2", "s10", "GNU", "Gcc-7.3"], repeat=3):
        yield ["strip", "_".join(b)]
    for n in range(1, 5):
        for b in itertools.product(STRIPW, repeat=n):
            if n < 4 or b[0] in ("gcc", "x"):
                yield ["under", "_".join(b)]


def system(h, b, force):
    return kw.system_of(SYSM, h, b, force)


def env_name(h, b, force):
    s = system(h, b, force)
    c = kw.env_candidates(ENVM[s], b)
    assert len(c) == 1
    return f"{s}_{c[0]}"


def stripped(h, b, force):
    s = system(h, b, force)
    al = {a for v in ENVM[s].values() for a in v}
    return "_".join(w for w in b.split("_") if w not in ENVM[s] and w not in al and w.lower() not in ("s1", "s2", "s3"))


def model(fn, *a):
    try:
        return fn(*a)
    except kw.Bad as ex:
        return ex


class World:
    def __init__(self, cx, fs, fault=None):
        self.cx = cx
        self.d = os.path.join(cx.scratch, "world")
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(os.path.join(self.d, "ini"))
        self.user = f"verif-{os.getpid()}"
        self.base = {"PATH": "/nonexistent/bin", "HOME": self.d, "LOGNAME": self.user, "USER": self.user, "GONE": "x", "TRAIL": "start", "KEEP": "kept"}
        specs, envs, sys_ = SPECS, ENVS, SYS
        if fault == "unknown op":
            specs = specs.replace("envvar-set CC : gcc\n", "envvar-set CC : gcc\nunknown-op X : 1\n")
        elif fault == "unknown op elsewhere":
            specs += "[unrelated]\nenvvar-sett X : 1\n"
        elif fault == "use cycle":
            specs += "[loop]\nenvvar-set X : 1\nuse loop2\n[loop2]\nuse loop\n"
        elif fault == "no such spec":
            specs = "[s1_other]\nenvvar-set X : 1\n"
        elif fault == "duplicate alias":
            envs = envs.replace("intel-19: intel", "intel-19: gnu").replace("gcc-7.3:\n[", "gcc-7.3:\nx: a\ny: a\n[")
            envs = envs.rstrip("\n") + "\na: z\nb: z\n"
        elif fault == "alias is env":
            envs = envs.replace("intel-19: intel", "intel-19: gcc-7.3") + "b: gcc-7.3\n"
        elif fault == "bad specs":
            specs += "[s1_gcc-7.3]\n"
        elif fault == "no section for system":
            envs = "[other]\ngcc-7.3: gnu\n"
        self.files = {"supported-systems": sys_, "supported-envs": envs, "environment-specs": specs}
        for n, t in self.files.items():
            with open(os.path.join(self.d, "ini", n + ".ini"), "w", encoding="utf-8") as f:
                f.write(t)
        if fault == "no envs file":
            os.unlink(os.path.join(self.d, "ini", "supported-envs.ini"))
        if fault == "no systems file":
            os.unlink(os.path.join(self.d, "ini", "supported-systems.ini"))
        self.fs = fs
        self.out = None

    def make(self, build, force, output=None):
        argv = ["--force"] if force else []
        ini = os.path.join(self.d, "load-env.ini")
        if self.fs == "argv output":
            output = output or os.path.join(self.d, "new", "dir", "out.sh")
        if output:
            argv += ["--output", output]
            self.out = output
        if self.fs.startswith("argv"):
            for n in self.files:
                argv += [f"--{n}", os.path.join(self.d, "ini", n + ".ini")]
            return LoadEnv(argv + [build])
        with open(ini, "w", encoding="utf-8") as f:
            f.write("[load-env]\n" + "".join(f"{n} : {os.path.join(self.d, 'ini') if self.fs == 'ini abs' else 'ini'}/{n}.ini\n" for n in self.files))
        return LoadEnv(argv + [build], load_env_ini_file=ini)

    def close(self):
        shutil.rmtree(f"/tmp/{self.user}", ignore_errors=True)

    def written(self):
        t = f"/tmp/{self.user}"
        fs = [os.path.join(t, x) for x in os.listdir(t)] if os.path.isdir(t) else []
        if self.out and os.path.exists(self.out):
            fs.append(self.out)
        return sorted(fs)


BASH = {}


def bash(cx, text, base):
    """Environment after the script."""
    key = text
    if key not in BASH:
        p = os.path.join(cx.scratch, "script.sh")
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        r = subprocess.run(["/bin/bash", "--norc", "-c", "source \"$0\" >/dev/null 2>&1; /usr/bin/env -0", p], env=base, stdout=subprocess.PIPE, stdin=subprocess.DEVNULL)
        BASH[key] = dict(x.split("=", 1) for x in r.stdout.decode().split("\0") if "=" in x)
        os.unlink(p)
    return BASH[key]


def script_ok(cx, w, path, name, what):
    with open(path, encoding="utf-8") as f:
        text = f.read()
    got = bash(cx, text, w.base)
    want, fail = senv.fold(w.base, acts(name))
    if fail is not None:
        cx.check("NOT_THERE" in text and f"LOADED_ENV_NAME={name}" in text, "{}: the script lacks the actions of {!r}: {!r}", what, name, text[-300:])
        return
    want["LOADED_ENV_NAME"] = name
    drop = {"_", "SHLVL", "PWD", "OLDPWD"}
    diff = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k) and k not in drop}
    cx.check(not diff, "{}: {} leaves (got, expected) {!r}", what, os.path.basename(path), diff)


def verdict(cx, r, want, what, anyerr=False):
    if isinstance(want, kw.Bad):
        cx.check(r[0] == "raise" and anyerr or kw.is_exit(r), "{}: got {!r}, expected an error exit ({})", what, r, want)
    else:
        cx.check(r == ("ok", want), "{}: got {!r}, expected {!r}", what, r, want)


def query(cx, w, le, q, h, b, force, what):
    """One query on the tool against the model."""
    cx.step()
    name = model(env_name, h, b, force)
    with senv.environment(w.base) as e, capture():
        if q == "sys":
            r = outcome(lambda: le.system_name)
        elif q == "env":
            r = outcome(lambda: le.parsed_env_name)
        elif q == "strip":
            r = outcome(lambda: le.env_stripped_build_name)
        elif q == "apply":
            r = outcome(le.apply_env)
        else:
            before = {p: os.stat(p).st_mtime_ns for p in w.written()}
            r = outcome(le.write_load_matching_env)
    if q == "sys":
        verdict(cx, r, model(system, h, b, force), what)
    elif q == "env":
        verdict(cx, r, name, what)
    elif q == "strip":
        verdict(cx, r, model(stripped, h, b, force), what)
    elif q == "apply":
        if isinstance(name, kw.Bad):
            verdict(cx, r, name, what)
            want = w.base
        else:
            want, fail = senv.fold(w.base, acts(name))
            if fail:
                cx.check(r[0] == "raise", "{}: {!r}, although an action fails", what, r)
            else:
                cx.check(r[0] == "ok", "{}: {!r}", what, r)
        diff = {k: (e.after.get(k), want.get(k)) for k in set(e.after) | set(want) if e.after.get(k) != want.get(k)}
        cx.check(not diff, "{}: the environment has (got, expected) {!r}", what, diff)
    else:
        if isinstance(name, kw.Bad):
            verdict(cx, r, name, what)
            cx.check(all(before.get(p) == os.stat(p).st_mtime_ns for p in w.written()), "{}: files were written although there is no environment", what)
        else:
            cx.check(r[0] == "ok", "{}: {!r}", what, r)
            if w.out:
                cx.equal(str(r[1]), os.path.realpath(w.out), what + ": path returned")
            cx.check(os.path.exists(str(r[1])) and os.path.exists(str(le.tmp_load_matching_env_file)), "{}: the script was not written", what)
            for p in {str(r[1]), str(le.tmp_load_matching_env_file)}:
                script_ok(cx, w, p, name, what)
    if q != "apply":
        cx.check(e.after == w.base, "{}: os.environ changed", what)
    cx.trace((q, str(name)))


def run(case, cx):
    logging.disable(logging.CRITICAL)
    w = World(cx, case[1] if case[0] == "seq" else case[2] if case[0] == "fault" else "argv", case[1] if case[0] == "fault" else None)
    try:
        KINDS[case[0]](case, cx, w)
    finally:
        w.close()


def seq(case, cx, w):
    _k, fs, force, first, a, n = case
    ops = [["assign", i] for i in range(len(ASSIGN))] + [[q] for q in QUERY]
    for rest in itertools.product(ops, repeat=n):
        h, b = ASSIGN[first]
        le = None
        done = []
        for op in (a,) + rest:
            done.append(op if op[0] != "assign" else ASSIGN[op[1]])
            what = f"{fs}, force={force}, first {ASSIGN[first]!r}, operations {done!r}"
            with host(h), senv.environment(w.base), capture():
                if le is None:
                    le = w.make(b, force)
                if op[0] == "assign":
                    h, b = ASSIGN[op[1]]
                    le.build_name = b
            cx.equal(le.build_name, b, what)
            if op[0] != "assign":
                with host(h):
                    query(cx, w, le, op[0], h, b, force, what)
            cx.state(fs, force, first, done)
        if rest[-1][0] == "assign" and (len(rest) < 2 or rest[-2] != rest[-1]):
            with host(h):
                for q in ("env", "strip", "sys"):
                    query(cx, w, le, q, h, b, force, what + f" then {q}")


def fault(case, cx, w):
    """With a faulty file every query that needs it fails, every time, and nothing is applied or written."""
    _k, f, fs, force, first, n = case
    h, b = ASSIGN[first]
    for qs in itertools.product(QUERY, repeat=n):
        r = None
        with host(h), senv.environment(w.base), capture():
            r = outcome(w.make, b, force)
        if r[0] == "raise":
            cx.check(f == "no systems file", "{}: {!r} at creation", f, r)
            continue
        le = r[1]
        for i, q in enumerate(qs):
            what = f"{f}, {fs}, force={force}, {ASSIGN[first]!r}, queries {qs[:i + 1]!r}"
            bad = {"unknown op": "apply write", "unknown op elsewhere": "apply write", "use cycle": "apply write", "no such spec": "apply write", "bad specs": "apply write", "no envs file": "env strip apply write",
                   "duplicate alias": "env strip apply write", "alias is env": "env strip apply write", "no systems file": "sys env strip apply write",
                   "no section for system": "env strip apply write"}[f].split()
            if q not in bad:
                with host(h):
                    query(cx, w, le, q, h, b, force, what)
                continue
            with host(h), senv.environment(w.base) as e, capture():
                r = outcome({"sys": lambda: le.system_name, "env": lambda: le.parsed_env_name, "strip": lambda: le.env_stripped_build_name, "apply": le.apply_env,
                             "write": le.write_load_matching_env}[q])
            cx.step()
            cx.check(r[0] == "raise", "{}: got {!r}, expected an error", what, r)
            cx.check(e.after == w.base, "{}: os.environ changed", what)
            cx.equal(w.written(), [], what + ": files written")
            cx.state(f, fs, force, first, qs[:i + 1])
            cx.trace((f, q))


def output(case, cx, w):
    _k, o, first = case
    h, b = ASSIGN[first]
    p = os.path.join(w.d, "out.sh")
    if o == 1:
        with open(p, "w") as f:
            f.write("echo former contents\nexport FORMER=1\n" * 50)
    elif o == 2:
        p = os.path.join(w.d, "a", "b", "c.sh")
    elif o == 3:
        with open(p, "w") as f:
            f.write("x")
        os.chmod(p, 0o400)
    elif o == 4:
        p = os.path.join(w.d, "with blank", "o ut.sh")
    elif o == 5:
        os.symlink(os.path.join(w.d, "target.sh"), p)
    with host(h):
        with senv.environment(w.base), capture():
            le = w.make(b, False, p)
        for q in ("write", "write", "env", "write"):
            query(cx, w, le, q, h, b, False, f"output {o}, {ASSIGN[first]!r}, {q}")
        with senv.environment(w.base), capture():
            le.build_name = ASSIGN[1][1]
    with host("h1"):
        query(cx, w, le, "write", "h1", ASSIGN[1][1], False, f"output {o}, {ASSIGN[first]!r}, then {ASSIGN[1]!r}, write")
    cx.state("output", o, first)


def main(case, cx, w):
    _k, first, force, loc = case
    h, b = ASSIGN[first]
    p, l = os.path.join(w.d, "o.sh"), os.path.join(w.d, "loc")
    argv = ["--output", p] + (["--force"] if force else []) + (["--load-matching-env-location", l] if loc else [])
    for n in w.files:
        argv += [f"--{n}", os.path.join(w.d, "ini", n + ".ini")]
    with host(h), senv.environment(w.base) as e, capture():
        r = outcome(load_env.main, argv + [b])
    name = model(env_name, h, b, force)
    what = f"main with {ASSIGN[first]!r}, force={force}"
    want, fail = (w.base, None) if isinstance(name, kw.Bad) else senv.fold(w.base, acts(name))
    if isinstance(name, kw.Bad):
        verdict(cx, r, name, what)
    elif fail:
        cx.check(r[0] == "raise", "{}: got {!r}, although an action fails", what, r)
    else:
        cx.check(r[0] == "ok", "{}: got {!r}", what, r)
        w.out = p
        for f in w.written():
            script_ok(cx, w, f, name, what)
        cx.check(len(w.written()) == 2, "{}: files written: {!r}", what, w.written())
        if loc:
            cx.check(open(l).read().strip() in w.written(), "{}: location file names {!r}", what, open(l).read())
    cx.check(e.after == want, "{}: environment is {!r}, expected {!r}", what, e.after, want)
    if r[0] == "raise":
        w.out = p
        cx.equal(w.written(), [], what + ": files written after an error")
    cx.step()
    cx.state("main", first, force, loc)
    cx.trace((str(name), fail is None))


def strip(case, cx, w):
    b = case[1]
    for h in ("h1", "h2"):
        for force in (False, True):
            with host(h):
                with senv.environment(w.base), capture():
                    le = w.make(b, force)
                for q in ("strip", "env", "strip", "sys"):
                    if q == "env":
                        with senv.environment(w.base), capture():
                            r = outcome(lambda: le.parsed_env_name)
                        s = model(system, h, b, force)
                        if isinstance(s, kw.Bad):
                            verdict(cx, r, s, f"build name {b!r} on {h}")
                        continue
                    query(cx, w, le, q, h, b, force, f"build name {b!r}, {q}")
    cx.state("strip", b)


def under(case, cx, w):
    b = case[1]
    words = b.split("_")
    for n, t in (("supported-systems", "".join(f"[{s}]\n{p[0]}\n" for s, p in USYS)),
                 ("supported-envs", "".join(f"[{s}]\n" + "".join(f"{e}: {' '.join(a)}\n" for e, a in UENV.items()) for s, _p in USYS))):
        with open(os.path.join(w.d, "ini", n + ".ini"), "w", encoding="utf-8") as f:
            f.write(t)
    # the words of the longest name go first; names joined by what is taken out between their words are left to the code
    marks = list(words)
    for e in sorted(UENV, key=len, reverse=True):
        ew = e.split("_")
        for i in range(len(marks) - len(ew) + 1):
            if marks[i:i + len(ew)] == ew:
                marks[i:i + len(ew)] = [None] * len(ew)
    left = [x for x in marks if x is not None]
    want = "_".join(x for x in left if x not in ("g7", "gd", "i") and x.lower() not in ("sys1", "s2"))
    cut = "_" + b + "_"
    for e in sorted(UENV, key=len, reverse=True):
        while f"_{e}_" in cut:
            cut = cut.replace(f"_{e}_", "_", 1)
    joined = cut.strip("_") != "_".join(left)
    for h in ("h1", "h2"):
        for force in (False, True):
            what = f"build name {b!r} on {h}, force={force}"
            with host(h), senv.environment(w.base), capture():
                le = w.make(b, force)
                s, e, t = outcome(lambda: le.system_name), outcome(lambda: le.parsed_env_name), outcome(lambda: le.env_stripped_build_name)
            ws = model(kw.system_of, USYS, h, b, force)
            verdict(cx, s, ws, what + ": system")
            if isinstance(ws, kw.Bad):
                verdict(cx, e, ws, what + ": environment")
                verdict(cx, t, ws, what + ": stripped")
                continue
            we = model(kw.env_candidates, UENV, b)
            verdict(cx, e, we if isinstance(we, kw.Bad) else f"{ws}_{we[0]}", what + ": environment")
            if not joined:
                verdict(cx, t, want, what + ": stripped")
            cx.trace((ws, str(we)))
            cx.step()
    cx.state("under", b)


KINDS = {"under": under, "seq": seq, "fault": fault, "output": output, "main": main, "strip": strip}
