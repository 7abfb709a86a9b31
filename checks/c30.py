"""C30: listings show exactly what is there."""
import itertools
import logging
import os
import re
import shutil

from vlib.gencfg import GenConfig, LoadEnv, gen_config, load_env
from vlib.host import host
from vlib import kw, senv
from vlib.engine import capture, outcome
from vlib.senv import SetEnvironment

BOUNDS = {
    "quick": "list_envs: every file of up to 3 of 5 environments with 0-2 aliases each, in every order, x 2 systems, alone and after every pair of other queries; the error for an unknown build name; "
             "list_config_flags: every file of up to 3 flags x types x 1-3 options, in every order; list_configs: every ordered subset of up to 3 and every subset of 4 of 14 sections (some empty) x 4 systems; "
             "pretty_print_envvars: every subset of 6 variables x every filter of up to 2 of 6 strings (or none) x keys only; listings of 40 to 300 items",
    "thorough": "as quick with 4 environments, subsets of 5 sections and filters of 3 strings",
}
ASSUMPTIONS = ["items are recognised as words after '-' or '*' at the start of a line within the frame", "socket.gethostname is a stand-in",
               "system, environment, alias, flag and option names contain no blanks"]

ALIASES = [["gnu", "default"], ["intel"], ["clang-new", "zz"]]
ENVN = ["gcc-7.3", "intel-19", "a", "s1-" + "long" * 20, "clang"]
FLAGN = ["use-mpi", "pkg", "a-type"]
OPTS = [["mpi", "no-mpi", "a"], ["none", "muelu", "empire"], ["debug", "release", "z"]]
SECS = ["s1_gcc-7.3_mpi", "s10_gcc-7.3_mpi", "s2_x", "COMMON", "s1_intel", "s1x_b", "DEFAULT", "x_s1_y", "s1", "S1_gcc-7.3_mpi", "s1_" + "long" * 20, "S3_GCC", "S3_gcc", "s3_b"]
VARS = {"A": "1", "AB": "", "B_A": "x = y", "C": "two words", "ab": "$A", "_Q": " é:ü\t "}
FILT = ["A", "AB", "B", "", "Q", "zz"]
BIG = [(1, 40), (40, 1), (13, 13), (100, 3)]
BEFORE = ["sys", "env", "strip", "assign"]


def cases(tier):
    n = 3 if tier == "quick" else 4
    for k in range(1, n + 1):
        for es in itertools.permutations(range(5), k):
            for counts in itertools.product(range(3), repeat=min(k, 3)):
                yield ["envs", list(es), list(counts)]
    for qs in itertools.product(BEFORE, repeat=2):
        for b in ("gnu", "s1", "", "nothing", "s2_gnu", "zz"):
            yield ["queries", list(qs), b]
    for k in range(1, 4):
        for fs in itertools.permutations(range(3), k):
            for counts in itertools.product((1, 2, 3), repeat=k):
                yield ["flags", list(fs), list(counts)]
    for k in range(0, 5 if tier == "quick" else 6):
        for t in itertools.permutations(range(len(SECS)), k) if k < 4 else itertools.combinations(range(len(SECS)), k):
            yield ["configs", list(t)]
    for a, b in BIG:
        yield ["envs", a, b]
        yield ["bigflags", a, b]
        yield ["configs", a * b]
        yield ["bigvars", a, b]
    names = list(VARS)
    for m in range(2 ** len(names)):
        yield ["vars", [x for i, x in enumerate(names) if m >> i & 1], 2 if tier == "quick" else 3]


def items(text):
    """[(mark, item)] of a listing, with the depth of the mark."""
    out = []
    for line in text.split("\n"):
        m = re.match(r"^\|?(\s*)([-*])\s+(\S.*?)\s*$", line)
        if m:
            out.append((len(m.group(1)), m.group(2), m.group(3)))
    return out


class World:
    def __init__(self, cx, systems="[s1]\nh1\n[s10]\nh2\n[s2]\nh3\n[S3]\nh4\n", envs="[s1]\ne: a\n", flags="[configure-flags]\nf: SELECT_ONE\n    x\n", specs="", envspecs="[s1_e]\nenvvar-set A : 1\n"):
        self.d = os.path.join(cx.scratch, "world")
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        self.base = {"PATH": "/nonexistent/bin", "HOME": self.d, "LOGNAME": f"verif-{os.getpid()}", "USER": f"verif-{os.getpid()}"}
        self.files = {"supported-systems": systems, "supported-envs": envs, "environment-specs": envspecs, "supported-config-flags": flags, "config-specs": specs}
        for n, t in self.files.items():
            with open(os.path.join(self.d, n + ".ini"), "w", encoding="utf-8") as f:
                f.write(t)
        le = ["supported-systems", "supported-envs", "environment-specs"]
        with open(os.path.join(self.d, "load-env.ini"), "w") as f:
            f.write("[load-env]\n" + "".join(f"{n} : {n}.ini\n" for n in le))
        with open(os.path.join(self.d, "gen-config.ini"), "w") as f:
            f.write("[gen-config]\nsupported-config-flags : supported-config-flags.ini\nconfig-specs : config-specs.ini\n[load-env]\n" + "".join(f"{n} : {n}.ini\n" for n in le))
        self.before = self.tree()

    def tree(self):
        t = f"/tmp/{self.base['USER']}"
        return sorted(os.listdir(self.d)) + (sorted(os.listdir(t)) if os.path.isdir(t) else [])

    def loadenv(self, argv):
        return LoadEnv(argv, load_env_ini_file=os.path.join(self.d, "load-env.ini"))

    def genconfig(self, argv):
        return GenConfig(argv, gen_config_ini_file=os.path.join(self.d, "gen-config.ini"))

    def close(self):
        shutil.rmtree(f"/tmp/{self.base['USER']}", ignore_errors=True)


def listing(cx, w, h, fn, what):
    """Text of a listing that ends the program; nothing may be applied or written."""
    with host(h), senv.environment(w.base) as e, capture() as c:
        r = outcome(fn)
    cx.step()
    cx.check(r[0] == "raise" and isinstance(r[1], SystemExit), "{}: got {!r}, expected the program to end", what, r)
    cx.check(e.after == w.base, "{}: os.environ changed", what)
    cx.check(w.tree() == w.before, "{}: files were written: {!r}", what, w.tree())
    code = r[1].code
    return c.text + (code if isinstance(code, str) else ""), code


def env_listing(cx, text, envs, what):
    """envs: {name: aliases}.  Every environment once, with exactly its aliases."""
    got, cur = {}, None
    lines = [x for x in items(text) if "Supported Environments" not in x[2]]
    base = min([d for d, m, _t in lines if m == "-"], default=0)
    for d, m, t in lines:
        if m == "*":
            continue
        if d == base:
            cx.check(t not in got, "{}: environment {!r} is listed twice", what, t)
            cur = got.setdefault(t, [])
        else:
            cx.check(cur is not None, "{}: alias {!r} before any environment", what, t)
            cur.append(t)
    cx.check({k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in envs.items()}, "{}: lists {!r}, expected {!r}", what, got, envs)


def run(case, cx):
    logging.disable(logging.CRITICAL)
    w = KINDS[case[0]](case, cx)
    if w is not None:
        w.close()


def run_envs(case, cx):
    _k, es, counts = case
    if isinstance(es, int):
        envs = {f"env-{i * 7 % es}": [f"alias-{i}-{j}" for j in range(counts)] for i in range(es)}
        return check_envs(cx, envs, es, counts)
    envs = {ENVN[e]: ALIASES[i][:counts[i]] if i < 3 else [] for i, e in enumerate(es)}
    return check_envs(cx, envs, es, counts)


def check_envs(cx, envs, es, counts):
    text = "[s1]\n"
    for i, (k, v) in enumerate(envs.items()):
        if i % 2:
            text += f"{k}:" + "".join(f"\n    {a}  # note" for a in v) + "\n"
        else:
            text += f"{k}: " + "\n    ".join(v) + "\n"
    text += "[s10]\nother: oa\n"
    w = World(cx, envs=text)
    for argv in ([], ["nothing"], ["s1"], ["--force", "s1_nothing"]):
        le = make(cx, w, "h1", w.loadenv, argv)
        t, code = listing(cx, w, "h1", le.list_envs, f"environments {envs!r}, arguments {argv!r}")
        cx.check(code in (None, 0), "environments {!r}: listing ends with {!r}", envs, code)
        env_listing(cx, t, envs, f"environments {envs!r}, arguments {argv!r}")
        cx.state(es, counts, argv)
    le = make(cx, w, "h2", w.loadenv, [])
    env_listing(cx, listing(cx, w, "h2", le.list_envs, "other system")[0], {"other": ["oa"]}, "other system")
    for q in range(2):
        # the system is not determined: an error, no listing
        le = le if q else make(cx, w, "h1", w.loadenv, ["s10_other"])
        t, code = listing(cx, w, "h1", le.list_envs, "contradicting system")
        cx.check(isinstance(code, str) and code and "oa" not in t.split(), "contradicting system: ends with {!r}, prints {!r}", code, t)
    le = make(cx, w, "h1", w.loadenv, ["nothing"])
    t, code = listing(cx, w, "h1", lambda: le.parsed_env_name, f"unknown build name, environments {envs!r}")
    cx.check(isinstance(code, str) and code, "unknown build name: the program ends with {!r}", code)
    env_listing(cx, t, envs, f"unknown build name, environments {envs!r}")
    cx.trace((es, counts))
    return w


def make(cx, w, h, fn, argv):
    with host(h), senv.environment(w.base), capture():
        return fn(argv)


def run_queries(case, cx):
    """Listing after other queries: the same list, and the queries answer the same afterwards."""
    _k, qs, b = case
    envs = {"gcc-7.3": ["gnu", "default"], "intel-19": [], "zz": []}
    w = World(cx, envs="[s1]\ngcc-7.3: gnu\n    default\nintel-19:\nzz\n[s2]\nclang: gnu\n", envspecs="[s1_gcc-7.3]\nenvvar-set A : 1\n")
    sysm = [("s1", ["h1"]), ("s10", ["h2"]), ("s2", ["h3"])]
    with host("h1"), senv.environment(w.base), capture():
        le = w.loadenv([b, "--force"])
        cur = b
        for q in qs:
            if q == "assign":
                cur = "s1_intel-19"
                le.build_name = cur
            else:
                outcome(lambda: {"sys": lambda: le.system_name, "env": lambda: le.parsed_env_name, "strip": lambda: le.env_stripped_build_name}[q]())
    s = kw.system_of(sysm, "h1", cur, True)
    want = envs if s == "s1" else {"clang": ["gnu"]}
    what = f"build name {b!r}, queries {qs!r}"
    for _i in range(2):
        env_listing(cx, listing(cx, w, "h1", le.list_envs, what)[0], want, what)
    with host("h1"), senv.environment(w.base), capture():
        r = outcome(lambda: le.parsed_env_name)
    c = kw.env_candidates(want, cur) if any(x in cur.split("_") for e, v in want.items() for x in [e] + v) else []
    cx.check(r == ("ok", f"{s}_{c[0]}") if c else kw.is_exit(r), "{}: after the listing the environment is {!r}", what, r)
    cx.state(qs, b)
    cx.trace((qs, b))
    return w


def run_bigflags(case, cx):
    _k, n, m = case
    for ty in ("SELECT_ONE", "SELECT_MANY"):
        flags = [(f"flag-{i * 7 % n}", ty, [f"o-{i}-{j * 11 % m}" for j in range(m)]) for i in range(n)]
        check_flags(cx, flags)


def run_flags(case, cx):
    _k, fs, counts = case
    for types in itertools.product(("SELECT_ONE", "SELECT_MANY", "shared"), repeat=len(fs)):
        # shared: the flag has the options of the first flag as well, at the end
        flags = [(FLAGN[f], types[i].replace("shared", "SELECT_ONE"), OPTS[f][:counts[i]] + (OPTS[fs[0]][:counts[0]] if types[i] == "shared" and i else [])) for i, f in enumerate(fs)]
        check_flags(cx, flags)


def check_flags(cx, flags):
    text = "[configure-flags]\n" + "".join(f"{n}: {t}\n" + "".join(f"    {o}\n" for o in opts) for n, t, opts in flags)
    w = World(cx, flags=text)
    g = make(cx, w, "h1", w.genconfig, ["--list-config-flags"])
    for i in range(2):
        t, _code = listing(cx, w, "h1", g.list_config_flags, f"flags {flags!r}")
        got = []
        lines = [x for x in items(t) if "Supported Flags" not in x[2]]
        base = min([d for d, m, _t in lines if m == "-"], default=0)
        for d, m, x in lines:
            if m == "*":
                kind = re.findall(r"SELECT_\w+", x)
                cx.check(got and got[-1][1] is None and len(kind) == 1, "flags {!r}: unexpected line {!r}", flags, x)
                got[-1][1] = kind[0]
            elif d == base:
                got.append([x, None, []])
            else:
                got[-1][2].append(x)
        want = [[n, ty, [o + (" (default)" if j == 0 else "") for j, o in enumerate(opts)]] for n, ty, opts in flags]
        cx.equal(got, want, f"flags {flags!r}: listing")
    cx.state(flags)
    cx.trace(want)
    w.close()
    return None


def run_configs(case, cx):
    if isinstance(case[1], int):
        secs = [f"{('s1', 's10', 's2')[i % 3]}_c-{i * 7 % case[1]}" for i in range(case[1])]
    else:
        secs = [SECS[i] for i in case[1]]
    w = World(cx, specs="".join(f"[{s}]\n" + ("opt-set x : 1\n" if i % 2 == 0 else "") for i, s in enumerate(secs)), envs="[s1]\ne: a\n[s10]\ne: a\n[s2]\ne: a\n[S3]\ne: a\n")
    for h, argv, s in (("h1", [], "s1"), ("h2", ["e"], "s10"), ("h1", ["--force", "s2_nothing"], "s2"), ("h4", ["s3_e"], "S3")):
        g = make(cx, w, h, w.genconfig, argv + ["-l"])
        what = f"sections {secs!r} on {h!r} with {argv!r}"
        t, code = listing(cx, w, h, g.list_configs, what)
        cx.check(code in (None, 0), "{}: ends with {!r}", what, code)
        cx.equal([x for _d, _m, x in items(t)], [x for x in secs if x.startswith(s + "_")], what + ": listing")
        cx.state(secs, s)
    cx.trace(secs)
    return w


def run_bigvars(case, cx):
    _k, n, m = case
    check_vars(cx, {f"V{i * 7 % n}_{'L' * (i % 2 * 90)}": f"{i}" * (m * m) for i in range(n)}, [None, ["V"], ["V1", "L"], [f"V{i}_" for i in range(n)], ["Q"] * m])


def run_vars(case, cx):
    _k, names, n = case
    check_vars(cx, {k: VARS[k] for k in names}, [f for k in range(-1, n + 1) for f in ([None] if k < 0 else [list(x) for x in itertools.product(FILT, repeat=k)])])


def check_vars(cx, base, filters):
    names = list(base)
    for f in filters:
        for only in (False, True):
            se = SetEnvironment()
            with senv.environment(base) as e, capture() as c:
                r = outcome(se.pretty_print_envvars, f, only)
            cx.step()
            what = f"variables {base!r}, filter {f!r}, keys only {only}"
            cx.check(r == ("ok", 0) and e.after == base, "{}: gives {!r}", what, r)
            got = [re.sub(r"^\[envvar\]:\s", "", x) for x in c.text.split("\n") if x.startswith("[envvar]")]
            hit = {v: f is None or any(x in v for x in f) for v in base}
            want = [f"{v} = {base[v]}" if hit[v] else v for v in base if hit[v] or not only]
            cx.check(sorted(got) == sorted(want), "{}: prints {!r}, expected {!r}", what, got, want)
            cx.state(names, f, only)
    cx.trace(names)
    return None


KINDS = {"envs": run_envs, "queries": run_queries, "flags": run_flags, "configs": run_configs, "vars": run_vars, "bigflags": run_bigflags, "bigvars": run_bigvars}
