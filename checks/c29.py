"""C29: configuration generation matches the build name and never overwrites unasked."""
import builtins
import itertools
import logging
import os
import re
import shutil

from vlib.gencfg import CALLS, GenConfig, Options, gen_config, load_env
from vlib.host import host
from vlib import env, kw, senv
from vlib.engine import capture, outcome

BOUNDS = {
    "quick": "every build name of up to 3 words over 12 words x 3 hosts x force, complete name before and after validation and every order of 3 queries; every pair of 28 specification "
             "sections x hosts x force; every sequence of up to 3 answers out of 14 x existing file or not x --yes x repeated calls; main() in each mode; 9 sets of other arguments x build names x force",
    "thorough": "as quick with triples of specification sections and build names of 4 words",
}
ASSUMPTIONS = ["setprogramoptions is a stand-in that records its calls; input() is a stand-in; socket.gethostname is a stand-in"]

SYS = "[s1]\n^h1\n[s2]\nh2\n"
SYSM = [("s1", ["^h1"]), ("s2", ["h2"])]
ENVS = "[s1]\ngcc-7:\n    gnu\nintel-19: default\n[s2]\nuse s1\n"
ENVM = {"s1": {"gcc-7": ["gnu"], "intel-19": ["default"]}}
ENVM["s2"] = ENVM["s1"]
FLAGS = "[configure-flags]\nuse-mpi: SELECT_ONE\n    mpi\n    no-mpi\npkg: SELECT_MANY\n    none\n    muelu\n    empire\ntype: SELECT_ONE\n    debug  # default\n    release\n"
FLAGM = [("use-mpi", "SELECT_ONE", ["mpi", "no-mpi"]), ("pkg", "SELECT_MANY", ["none", "muelu", "empire"]), ("type", "SELECT_ONE", ["debug", "release"])]
WORDS = ["s1", "S2", "gnu", "gcc-7", "intel-19", "no-mpi", "muelu", "empire", "release", "debug", "x", "mpi"]
SECTIONS = [
    "s1_gcc-7_mpi_none_debug", "s2_gcc-7_no-mpi_empire_muelu_release", "s1_intel-19_mpi_muelu_debug", "s2_intel-19_mpi_none_release",
    "COMMON", "ALL_CAPS-1", "123", "DEFAULT",
    "s1_gnu_mpi_none_debug", "s1_gcc-7_none_mpi_debug", "s1_gcc-7_mpi_none", "gcc-7_mpi_none_debug", "s1_gcc-7_mpi_none_debug_x", "s2_gcc-7_no-mpi_muelu_empire_release",
    "s1_gcc-7_mpi_no-mpi_none_debug", "s3_gcc-7_mpi_none_debug", "s1_mpi_none_debug", "Common", "s1_s2_gcc-7_mpi_none_debug", "S1_gcc-7_mpi_none_debug", "s1_gcc-7_mpi_none_debug_release",
    "s1_gcc-7-mpi_none_debug", "s1_gcc-7_mpi_none_debug_", "cAPS", "s2_intel-19_no-mpi_empire_debug", "s1_default_mpi_none_debug", "gcc-7", "default",
]
ANSWERS = ["y", "n", "Y", "N", "yes", "No", "", " ", "maybe", "ny", "yn", " y", "x", "1"]
QUERY = ["complete", "validate", "bash", "env", "opts"]


def cases(tier):
    for n in (0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4):
        for ws in itertools.product(WORDS, repeat=max(0, n - 1)) if n else [None]:
            yield ["names", n, None if ws is None else list(ws)]
    for b in range(len(BUILDS)):
        for force in (False, True):
            for good in (True, False):
                yield ["order", b, force, good]
    for i in range(len(SECTIONS)):
        yield ["specs", [i]]
    for t in itertools.permutations(range(len(SECTIONS)), 2):
        yield ["specs", list(t)]
    for t in itertools.permutations(range(0, len(SECTIONS), 1 if tier == "thorough" else 3), 3):
        yield ["specs", list(t)]
    for n in (0, 1, 2, 3):
        for a in itertools.product(range(len(ANSWERS)), repeat=n):
            if n < 3 or a[0] >= 6 and (a[1] >= 6 or a[1] < 2):
                yield ["answers", list(a)]
    for f in range(6):
        for yes in (False, True):
            for b in range(len(BUILDS)):
                yield ["file", f, yes, b]
    for mode in MODES:
        for b in range(len(BUILDS)):
            yield ["main", mode, b]
    for x in range(len(EXTRA)):
        for b in range(len(BUILDS)):
            for force in (False, True):
                yield ["extra", x, b, force]
    for n in (10, 100):
        for bad in (-1, 0, n // 2, n - 1):
            yield ["many", n, bad]


BUILDS = [("h1", "gnu"), ("h1", "s1_intel-19_no-mpi_empire_muelu"), ("h2", "gcc-7_release"), ("h2", "s1_gnu"), ("h1", "mpi_no-mpi_gnu"), ("h1", "nothing"), ("zz", "s2_gnu")]
EXTRA = [["--yes"], ["--ci-mode"], ["-y", "--ci-mode"], ["--cmake-fragment", "f.cmake"], ["-y", "--cmake-fragment", "f.cmake", "--ci-mode"], ["-l"], ["--list-config-flags"],
         ["--save-load-env-args", "a"], ["--bash-cmake-args-location", "l"]]
MODES = ["fragment", "bash", "save", "flags", "configs"]


def complete(h, b, force):
    s = kw.system_of(SYSM, h, b, force)
    e = kw.env_candidates(ENVM[s], b)
    if len(e) > 1:
        e = ["|".join(e)]
    have = b.split("_")
    out = f"{s}_{e[0]}"
    for f, t, opts in FLAGM:
        hit = [o for o in opts if o in have]
        if len(hit) > 1 and t == "SELECT_ONE":
            raise kw.Bad("several options")
        out += "".join("_" + o for o in (sorted(hit) or [opts[0]]))
    return out


def model(fn, *a):
    try:
        return fn(*a)
    except kw.Bad as ex:
        return ex


def specs_ok(secs):
    for s in secs:
        if s.upper() == s:
            continue
        for h in ("h1",):
            if model(complete, h, s, True) != s:
                return False
    return True


class World:
    def __init__(self, cx, secs):
        self.d = os.path.join(cx.scratch, "world")
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(os.path.join(self.d, "cfg"))
        self.user = f"verif-{os.getpid()}"
        self.base = {"PATH": "/nonexistent/bin", "HOME": self.d, "LOGNAME": self.user, "USER": self.user, "KEEP": "kept"}
        self.files = {"supported-systems": SYS, "supported-envs": ENVS, "environment-specs": "[s1_gcc-7]\nenvvar-set CC : gcc\n", "supported-config-flags": FLAGS,
                      "config-specs": "".join(f"[{s}]\nopt-set x : {i}\n" for i, s in enumerate(secs))}
        for n, t in self.files.items():
            with open(os.path.join(self.d, "cfg", n + ".ini"), "w", encoding="utf-8") as f:
                f.write(t)
        self.ini = os.path.join(self.d, "gen-config.ini")
        with open(self.ini, "w", encoding="utf-8") as f:
            f.write("[gen-config]\nsupported-config-flags : cfg/supported-config-flags.ini\nconfig-specs : cfg/config-specs.ini\n[load-env]\n"
                    f"supported-systems : {self.d}/cfg/supported-systems.ini\nsupported-envs : cfg/supported-envs.ini\nenvironment-specs : cfg/environment-specs.ini\n")

    def make(self, build, force=False, extra=()):
        argv = list(extra) + (["--force"] if force else []) + [build]
        return GenConfig(argv, gen_config_ini_file=self.ini)

    def close(self):
        shutil.rmtree(f"/tmp/{self.user}", ignore_errors=True)


class answers:
    """Stand-in for input(): the given answers, then the end of the input."""

    def __init__(self, given):
        self.given = list(given)
        self.asked = 0

    def __enter__(self):
        self.old = builtins.input

        def read(prompt=""):
            self.asked += 1
            if self.asked > len(self.given):
                raise EOFError("no more answers")
            return self.given[self.asked - 1]
        builtins.input = read
        return self

    def __exit__(self, *a):
        builtins.input = self.old
        return False


def ask(cx, w, g, q, h, b, force, good, what):
    cx.step()
    want = model(complete, h, b, force)
    del CALLS[:]
    with host(h), senv.environment(w.base), capture():
        if q == "complete":
            r = outcome(lambda: g.complete_config)
        elif q == "validate":
            r = outcome(g.validate_config_specs_ini)
        elif q == "bash":
            r = outcome(lambda: g.generated_config_flags_str)
        elif q == "env":
            r = outcome(lambda: (g.load_load_env(), g.load_env.parsed_env_name)[1])
        else:
            r = outcome(lambda: (g.load_config_keyword_parser(), g.config_keyword_parser.selected_options_str)[1])
    err = r[0] == "raise" and (isinstance(r[1], ValueError) or kw.is_exit(r))
    if q == "validate":
        if good:
            cx.check(r[0] == "ok", "{}: validation of the specification file gives {!r}", what, r)
        else:
            cx.check(err, "{}: validation of the specification file gives {!r}, expected an error", what, r)
        return
    if q == "bash" and not good:
        cx.check(err and not CALLS, "{}: got {!r}, expected an error (the specification file is not valid)", what, r)
        return
    if q in ("env", "opts") and isinstance(want, kw.Bad):
        return
    if isinstance(want, kw.Bad):
        cx.check(err, "{}: got {!r}, expected an error ({})", what, r, want)
    elif q == "complete":
        cx.check(r[0] == "ok" and pick(r[1], want), "{}: got {!r}, expected {!r}", what, r, want)
    elif q == "bash":
        cx.check(r[0] == "ok", "{}: got {!r}", what, r)
        cx.check([x.strip() for x in re.split(r"\s*\\\n\s*", r[1])] == [x.strip() for x in Options().gen_option_list(want, "bash")], "{}: got {!r} for {!r}", what, r, want)
    elif q == "env":
        cx.check(r[0] == "ok" and want.startswith(str(r[1]) + "_"), "{}: environment {!r}, expected the one of {!r}", what, r, want)
    else:
        cx.check(r[0] == "ok" and want.endswith(str(r[1])), "{}: options {!r}, expected those of {!r}", what, r, want)
    cx.trace((q, str(want)))


def pick(got, want):
    """want may hold a tie 'a|b' for the environment."""
    if "|" not in want:
        return got == want
    m = re.match(r"^([^_]*)_([^_]*)_(.*)$", want)
    return any(got == f"{m.group(1)}_{e}_{m.group(3)}" for e in m.group(2).split("|"))


def run(case, cx):
    logging.disable(logging.CRITICAL)
    secs = [SECTIONS[0], SECTIONS[4], SECTIONS[1], SECTIONS[3]]
    if case[0] == "specs":
        secs = [SECTIONS[i] for i in case[1]]
    elif case[0] == "order" and not case[3]:
        secs = [SECTIONS[0], SECTIONS[9], SECTIONS[1]]
    elif case[0] == "many":
        opts = itertools.cycle(s for s in SECTIONS[:4])
        secs = []
        for i in range(case[1]):
            s = SECTIONS[i % 4]
            secs.append(s if i < 4 else f"GROUP-{i}")
        if case[2] >= 0:
            secs[case[2]] = "s1_gcc-7_none_mpi_debug"
    w = World(cx, secs)
    try:
        KINDS[case[0]](case, cx, w, secs)
    finally:
        w.close()


def names(case, cx, w, secs):
    pre = case[2]
    last = WORDS if pre is not None else [""]
    for x in last:
        b = "_".join((pre or []) + [x])
        for h in ("h1", "h2", "zz"):
            if len(pre or []) > 1 and h == "zz":
                continue
            for force in (False, True):
                with host(h), senv.environment(w.base), capture():
                    g = w.make(b, force)
                what = f"build name {b!r} on host {h!r}, force={force}"
                if (len(pre or []) > 1 and h == "h2"):
                    qs = ("complete",)
                else:
                    qs = ("complete", "validate", "complete", "opts", "env")
                for q in qs:
                    ask(cx, w, g, q, h, b, force, True, what + f", {q}")
                if h == "h1" and len(qs) > 1 and len(pre or []) < 2:
                    with host(h), senv.environment(w.base), capture():
                        g = w.make(b, force)
                    for q in ("validate", "complete", "bash"):
                        ask(cx, w, g, q, h, b, force, True, what + f", validated first, {q}")
                cx.state(b, h, force)


def extra(case, cx, w, secs):
    """Arguments that are no part of the build name change nothing."""
    _k, x, b, force = case
    h, b = BUILDS[b]
    for qs in (("complete", "env", "validate", "complete", "opts", "env"), ("validate", "complete", "bash", "env")):
        with host(h), senv.environment(w.base), capture():
            g = w.make(b, force, [os.path.join(w.d, a) if i and EXTRA[x][i - 1][:3] in ("--c", "--s", "--b") and a[0] != "-" else a for i, a in enumerate(EXTRA[x])])
        for q in qs:
            ask(cx, w, g, q, h, b, force, True, f"build name {b!r} on host {h!r}, force={force}, arguments {EXTRA[x]!r}, {q} of {qs!r}")
    cx.state(x, b, force)


def order(case, cx, w, secs):
    _k, b, force, good = case
    h, b = BUILDS[b]
    for qs in itertools.product(QUERY, repeat=3):
        with host(h), senv.environment(w.base), capture():
            g = w.make(b, force)
        for i, q in enumerate(qs):
            what = f"build name {b!r} on host {h!r}, force={force}, specs {secs!r}, queries {qs[:i + 1]!r}"
            ask(cx, w, g, q, h, b, force, good, what)
            cx.state(b, force, good, qs[:i + 1])


def specs(case, cx, w, secs):
    good = specs_ok(secs)
    for h, b, force in (("h1", "gnu", False), ("h2", "default_release", True)):
        with host(h), senv.environment(w.base), capture():
            g = w.make(b, force)
        for q in ("validate", "bash", "validate", "complete", "env", "opts"):
            ask(cx, w, g, q, h, b, force, good, f"specification sections {secs!r}, build name {b!r} on {h!r}, force={force}, {q}")
        cx.state(secs, h)


def fragment(cx, w, g, given, h, want, path, old, yes, what, first=True):
    """One call of write_cmake_fragment; returns the contents the file must have."""
    del CALLS[:]
    with host(h), senv.environment(w.base), capture(), answers(given) as a:
        r = outcome(g.write_cmake_fragment)
    cx.step()
    now = open(path, encoding="utf-8").read() if os.path.exists(path) else None
    if isinstance(want, kw.Bad):
        cx.check(r[0] == "raise" and now == old, "{}: got {!r}, expected an error and no change of the file", what, r)
        return old
    new = Options().gen_option_list(want, "cmake_fragment")
    if old is None or yes:
        cx.check(r[0] == "ok" and a.asked == 0, "{}: got {!r} after {} questions", what, r, a.asked)
        decided = "y"
    else:
        decided = None
        used = 0
        for x in given:
            used += 1
            if x.lower()[:1] in ("y", "n"):
                decided = x.lower()[:1]
                break
        if decided is None:
            cx.check(r[0] == "raise" and now == old, "{}: got {!r} although the question was not answered; file is {!r}", what, r, now)
            return old
        cx.equal(a.asked, used, what + ": answers read")
    if decided == "n":
        cx.check(r[0] == "raise" and isinstance(r[1], SystemExit) and r[1].code == 1, "{}: got {!r}, expected exit 1", what, r)
        cx.check(now == old, "{}: the file was changed in spite of the answer", what)
        return old
    cx.check(r[0] == "ok" and str(r[1]) == os.path.realpath(path), "{}: got {!r}", what, r)
    cx.check(now is not None and now.rstrip("\n").split("\n") == new, "{}: the file contains {!r}, expected {!r}", what, now, new)
    cx.trace((decided, want))
    return now


def answered(case, cx, w, secs):
    given = [ANSWERS[i] for i in case[1]]
    path = os.path.join(w.d, "frag.cmake")
    h, b = BUILDS[1]
    want = complete(h, b, False)
    for old in ("former contents\n" * 20, ""):
        for again in (None, ["n"], ["y"], []):
            with open(path, "w") as f:
                f.write(old)
            with host(h), senv.environment(w.base), capture():
                g = w.make(b, False, ["--cmake-fragment", path])
            now = fragment(cx, w, g, given, h, want, path, old, False, f"answers {given!r}")
            if again is not None and now == old:
                fragment(cx, w, g, again, h, want, path, old, False, f"answers {given!r}, then again with {again!r}")
            cx.state(given, old, again)


def files(case, cx, w, secs):
    _k, f, yes, b = case
    h, b = BUILDS[b]
    want = model(complete, h, b, False)
    path = os.path.join(w.d, "frag.cmake")
    old = None
    if f == 1:
        old = "former\n"
    elif f == 2:
        path = os.path.join(w.d, "new", "deep", "frag.cmake")
    elif f == 3:
        path = os.path.join(w.d, "with blank.cmake")
        old = "x"
    elif f == 4:
        old = "y" * 5000
    elif f == 5:
        old = ""
    if old is not None:
        with open(path, "w") as fh:
            fh.write(old)
        if f == 4:
            os.chmod(path, 0o400)
    with host(h), senv.environment(w.base), capture():
        g = w.make(b, False, ["--cmake-fragment", path] + (["-y"] if yes else []))
    what = f"file kind {f}, yes={yes}, build name {b!r}"
    now = fragment(cx, w, g, ["Y"], h, want, path, old, yes, what)
    if not isinstance(want, kw.Bad):
        with host(h), senv.environment(w.base), capture(), answers(["y"] * 3):
            r = outcome(g.write_cmake_fragment)
        cx.check(r[0] == "ok" and open(path).read() == now, "{}: second call gives {!r}", what, r)
    cx.state(f, yes, b)


def main(case, cx, w, secs):
    _k, mode, b = case
    h, b = BUILDS[b]
    out = os.path.join(w.d, "out")
    argv = []
    for n in w.files:
        argv += [f"--{n}", os.path.join(w.d, "cfg", n + ".ini")]
    argv += {"fragment": ["--cmake-fragment", out], "bash": [], "save": ["--save-load-env-args", out, "--force", "--ci-mode"], "flags": ["--list-config-flags"], "configs": ["-l"]}[mode]
    want = model(complete, h, b, False)
    # main() reads the gen-config.ini of the installation only for its defaults; use ours
    defaults = GenConfig.__init__.__defaults__
    GenConfig.__init__.__defaults__ = tuple(w.ini if str(x).endswith("gen-config.ini") else x for x in defaults)
    try:
        with host(h), senv.environment(w.base), capture() as c, answers([]):
            r = outcome(gen_config.main, argv + [b])
    finally:
        GenConfig.__init__.__defaults__ = defaults
    what = f"main, {mode}, build name {b!r} on {h!r}"
    cx.step()
    cx.state(mode, b)
    if mode in ("fragment", "bash"):
        if isinstance(want, kw.Bad):
            cx.check(r[0] == "raise", "{}: got {!r}, expected an error", what, r)
            cx.check(not os.path.exists(out), "{}: a file was written", what)
            return
        cx.check(r[0] == "ok", "{}: got {!r}", what, r)
        if mode == "bash":
            loc = open(f"/tmp/{w.user}/.bash_cmake_args_loc").read().strip()
            text = open(loc).read()
            cx.check([x.strip() for x in re.split(r"\s*\\\n\s*", text)] == [x.strip() for x in Options().gen_option_list(want, "bash")], "{}: arguments written: {!r}", what, text)
        else:
            cx.check(open(out).read().rstrip("\n").split("\n") == Options().gen_option_list(want, "cmake_fragment"), "{}: written: {!r}", what, open(out).read())
    elif mode == "save":
        cx.check(r[0] == "ok", "{}: got {!r}", what, r)
        got = open(out).read().split()
        ns = load_env.LoadEnv(got, load_env_ini_file=os.path.join(env.SRC, "wip/loadenv/loadenv/load-env.ini")).args
        cx.check(ns.build_name == b and ns.force and all(str(getattr(ns, n.replace("-", "_") + "_file")) == os.path.realpath(os.path.join(w.d, "cfg", n + ".ini"))
                 for n in ("supported-systems", "supported-envs", "environment-specs")), "{}: arguments for LoadEnv are {!r}", what, got)
    elif mode == "flags":
        cx.check(r[0] == "raise" and isinstance(r[1], SystemExit), "{}: got {!r}", what, r)
        text = str(r[1].code) + c.text
        for f, _t, opts in FLAGM:
            cx.check(f in text and all(o in text for o in opts), "{}: list lacks flag {!r}: {!r}", what, f, text)
    else:
        cx.check(r[0] == "raise" and isinstance(r[1], SystemExit), "{}: got {!r}", what, r)
        s = model(kw.system_of, SYSM, h, b, False)
        if not isinstance(s, kw.Bad):
            cx.check(all((x in c.text) == x.startswith(s + "_") for x in secs), "{}: lists {!r}", what, c.text)
    cx.trace((mode, str(want)))


def many(case, cx, w, secs):
    good = case[2] < 0
    h, b = BUILDS[0]
    with host(h), senv.environment(w.base), capture():
        g = w.make(b, False)
    for q in ("validate", "bash", "validate") + (("complete",) if good else ()):
        ask(cx, w, g, q, h, b, False, good, f"{case[1]} sections, wrong: {case[2]}, {q}")
    cx.state(case)


KINDS = {"names": names, "order": order, "extra": extra, "specs": specs, "answers": answered, "file": files, "main": main, "many": many}
