"""C31: the tools use the files named on the command line, else those of their .ini file."""
import itertools
import logging
import os
import shutil

from vlib.gencfg import GenConfig, LoadEnv, gen_config
from vlib.host import host
from vlib import kw, senv
from vlib.engine import capture, outcome

BOUNDS = {
    "quick": "LoadEnv: every combination of 8 ways of naming each of the 3 files x 3 spellings of the .ini file's path; GenConfig: every combination of 4 ways for 5 files x 3 spellings; "
             "every working directory change and repetition afterwards; every missing section, missing key, empty or absent value, missing file x naming of the other files",
    "thorough": "as quick with 6 ways for all 5 files of GenConfig",
}
ASSUMPTIONS = ["paths contain no blanks and no symbolic links that leave the scratch directory", "socket.gethostname and setprogramoptions are stand-ins"]

LE = ["supported-systems", "supported-envs", "environment-specs"]
GC = ["supported-config-flags", "config-specs"]
WAYS = ["ini rel", "argv abs", "ini abs", "argv rel", "ini up", "argv=", "argv same", "ini same"]
INIS = ["abs", "rel", "down"]
FAULTS = ["no key", "empty", "none", "quoted empty"]
GOOD = {"supported-systems": "[good]\nh\n", "supported-envs": "[good]\ne-good: al\n[decoy]\ne-good: al\n", "environment-specs": "[good_e-good]\nenvvar-set V : good\n[good_e-decoy]\nenvvar-set V : good\n",
        "supported-config-flags": "[configure-flags]\nf: SELECT_ONE\n    o-good\n    o-more\n", "config-specs": "[good_e-good_o-good]\nopt-set x : 1\n"}
DECOY = {"supported-systems": "[decoy]\nh\n", "supported-envs": "[good]\ne-decoy: al\n[decoy]\ne-decoy: al\n", "environment-specs": "[good_e-good]\nenvvar-set V : decoy\n",
         "supported-config-flags": "[configure-flags]\nf: SELECT_ONE\n    o-decoy\n    o-good\n", "config-specs": "[good_e-decoy_o-decoy]\nopt-set x : 1\n"}


def cases(tier):
    for i in INIS:
        for ways in itertools.product(WAYS, repeat=3):
            yield ["le", i, list(ways)]
    n = 4 if tier == "quick" else 6
    for i in INIS:
        for ways in itertools.product(WAYS[:n], repeat=5):
            yield ["gc", i, list(ways)]
        for ways in itertools.product(WAYS[6:], repeat=5):
            yield ["gc", i, list(ways)]
    for tool, keys in (("le", LE), ("gc", GC + LE)):
        for k in keys:
            for f in FAULTS:
                for others in ("ini rel", "argv abs"):
                    yield ["fault", tool, k, f, others]
            yield ["fault", tool, k, "no file", "ini rel"]
        for sec in ("gen-config", "load-env") if tool == "gc" else ("load-env",):
            for others in ("ini rel", "argv abs"):
                yield ["section", tool, sec, others]
        yield ["noini", tool]
        yield ["argv", tool]
    for force in (False, True):
        for ci in (False, True):
            for b in ("al", "good_al_o-more", "", "nothing", "GOOD_Al_x"):
                for ways in itertools.product(WAYS[:2], repeat=3):
                    for more in ([], ["--cmake-fragment", "f.cmake"], ["-y"]):
                        yield ["handover", force, ci, b, list(ways), more]


class World:
    def __init__(self, cx, keys):
        self.d = os.path.realpath(os.path.join(cx.scratch, "world"))
        shutil.rmtree(self.d, ignore_errors=True)
        self.keys = keys
        # conf/ holds the .ini file and the files it names, work/ is the working directory; both hold decoys at the same relative paths
        for sub in ("conf/ini", "work/ini", "arg", "up", "work/conf/ini"):
            os.makedirs(os.path.join(self.d, sub))
        for k in keys:
            for sub in ("conf/ini", "work/ini", "arg", "up", "work/conf/ini"):
                self.put(f"{sub}/{k}.ini", DECOY[k])
            for sub in ("conf", "work"):
                self.put(f"{sub}/d-{k}.ini", DECOY[k])
        self.base = {"PATH": "/nonexistent/bin", "HOME": self.d, "LOGNAME": f"verif-{os.getpid()}", "USER": f"verif-{os.getpid()}"}

    def put(self, p, text):
        p = os.path.join(self.d, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)

    def setup(self, ways, ini, fault=None, tool="le"):
        """Arguments and .ini file that name the good files these ways; returns (argv, ini path, {key: file})."""
        argv, lines, want = [], {}, {}
        for k, w in zip(self.keys, ways):
            lines[k] = f"d-{k}.ini"
            if w == "ini rel":
                p, lines[k] = f"conf/ini/{k}.ini", f"ini/{k}.ini"
            elif w == "ini abs":
                p, lines[k] = f"conf/ini/{k}.ini", f"{self.d}/conf/ini/{k}.ini"
            elif w == "ini up":
                p, lines[k] = f"up/{k}.ini", f"../up/{k}.ini"
            elif w == "argv abs":
                p = f"arg/{k}.ini"
                argv += [f"--{k}", f"{self.d}/arg/{k}.ini"]
            elif w == "argv rel":
                p = f"arg/{k}.ini"
                argv += [f"--{k}", f"arg/{k}.ini" if ini == "down" else f"../arg/{k}.ini"]
            elif w == "argv same":
                p = f"arg/{k}/x.ini"
                argv += [f"--{k}", f"{self.d}/arg/{k}/x.ini"]
            elif w == "ini same":
                p, lines[k] = f"conf/{k}/x.ini", f"{k}/x.ini"
            else:
                p = f"work/ini/{k}.ini"
                argv += [f"--{k}=work/ini/{k}.ini" if ini == "down" else f"--{k}=ini/{k}.ini"]
            self.put(p, GOOD[k])
            want[k] = os.path.join(self.d, p)
        if fault:
            k, f = fault
            lines[k] = {"no key": None, "empty": "", "none": "<none>", "quoted empty": '""', "no file": "ini/missing.ini"}[f]
        text = ""
        for sec, keys in (("gen-config", GC), ("load-env", LE)):
            if not all(k in self.keys for k in keys) or self.skip == sec:
                continue
            text += f"[{sec}]\n"
            for k in keys:
                if lines[k] is not None:
                    text += f"{k}\n" if lines[k] == "<none>" else f"{k} : {lines[k]}\n"
        self.put("conf/tool.ini", text)
        self.cwd = self.d if ini == "down" else os.path.join(self.d, "work")
        ini = {"abs": f"{self.d}/conf/tool.ini", "rel": "../conf/tool.ini", "down": "conf/tool.ini"}[ini]
        return argv, ini, want

    skip = None
    cwd = "/"


class cwd:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.d)

    def __exit__(self, *a):
        os.chdir(self.old)
        return False


def run(case, cx):
    logging.disable(logging.CRITICAL)
    tool = case[0] if case[0] in ("le", "gc") else "gc" if case[0] == "handover" else case[1]
    w = World(cx, LE if tool == "le" else GC + LE)
    try:
        KINDS[case[0]](case, cx, w)
    finally:
        shutil.rmtree(f"/tmp/{w.base['USER']}", ignore_errors=True)


def build(w, tool, argv, ini):
    if tool == "le":
        return LoadEnv(argv, load_env_ini_file=ini)
    return GenConfig(argv, gen_config_ini_file=ini)


def paths(tool_obj, keys):
    a = tool_obj.args
    return {k: str(getattr(a, k.replace("-", "_") + "_file")) for k in keys}


def run_ways(case, cx, w):
    tool, ini, ways = case
    argv, ini, want = w.setup(ways, ini, tool=tool)
    what = f"{tool}, .ini {ini!r}, {dict(zip(w.keys, ways))!r}"
    with host("h"), senv.environment(w.base) as e, capture():
        with cwd(w.cwd):
            r = outcome(build, w, tool, argv + ["al"], ini)
            cx.check(r[0] == "ok", "{}: {!r}", what, r)
            t = r[1]
            r = outcome(paths, t, w.keys)
            cx.check(r[0] == "ok", "{}: {!r}", what, r)
            cx.check({k: os.path.realpath(v) for k, v in r[1].items()} == want and all(os.path.isabs(v) for v in r[1].values()), "{}: files are {!r}, expected {!r}", what, r[1], want)
            cx.step()
        with cwd(os.path.join(w.d, "up")):
            # what is used are these files, from any directory, again and again
            for i in range(2):
                r = outcome(paths, t, w.keys)
                cx.check(r[0] == "ok" and {k: os.path.realpath(v) for k, v in r[1].items()} == want, "{}: later the files are {!r}", what, r)
                if tool == "le":
                    r = outcome(lambda: (t.system_name, t.parsed_env_name))
                    cx.check(r == ("ok", ("good", "good_e-good")), "{}: got {!r}", what, r)
                    r = outcome(t.apply_env)
                    cx.check(r[0] == "ok" and os.environ.get("V") == "good", "{}: applied {!r}, {!r}", what, r, os.environ.get("V"))
                else:
                    r = outcome(lambda: t.complete_config)
                    cx.check(r == ("ok", "good_e-good_o-good"), "{}: got {!r}", what, r)
                    r = outcome(t.validate_config_specs_ini)
                    cx.check(r[0] == "ok", "{}: validation gives {!r}", what, r)
                    r = outcome(lambda: (t.load_set_program_options(), str(t.set_program_options.filename))[1])
                    cx.check(r == ("ok", want["config-specs"]), "{}: options are read from {!r}", what, r)
                cx.step()
    cx.state(case)
    cx.trace(case)


def run_fault(case, cx, w):
    _k, tool, key, fault, others = case
    ways = ["ini rel" if k == key else others for k in w.keys]
    for ini in INIS:
        argv, path, want = w.setup(ways, ini, fault=(key, fault), tool=tool)
        refused(cx, w, tool, argv, path, key, f"{tool}, {key}: {fault}, others {others}")
        cx.state(case, ini)


def refused(cx, w, tool, argv, path, key, what):
    value = not what.startswith(f"le, {key}: no file") and "no .ini" not in what
    with host("h"), senv.environment(w.base) as e, capture(), cwd(w.cwd):
        r = outcome(build, w, tool, argv + ["al"], path)
        got = []
        if r[0] == "ok":
            t = r[1]
            for q in ("args", "env", "args", "env", "args"):
                cx.step()
                if tool == "gc":
                    r = outcome(lambda: t.args) if q == "args" else outcome(lambda: t.complete_config)
                elif q == "args":
                    continue
                else:
                    r = outcome(lambda: (t.parsed_env_name, t.apply_env()))
                got.append(r)
                cx.check(r[0] == "raise" and (isinstance(r[1], ValueError) or not value), "{}: got {!r}, expected an error every time", what, r)
        elif value:
            cx.check(isinstance(r[1], ValueError), "{}: {!r}, expected ValueError", what, r)
        cx.check("V" not in os.environ, "{}: something was applied", what)
    cx.trace(what)


def run_section(case, cx, w):
    _k, tool, sec, others = case
    w.skip = sec
    argv, path, want = w.setup([others] * len(w.keys), "abs", tool=tool)
    if others == "ini rel" or True:
        refused(cx, w, tool, argv if others == "argv abs" else [], path, sec, f"{tool}, section {sec} is missing, files {others}")
    cx.state(case)


def run_noini(case, cx, w):
    refused(cx, w, case[1], [], os.path.join(w.d, "conf", "missing.ini"), "", f"{case[1]}, no .ini file")
    cx.state(case)


def run_argv(case, cx, w):
    argv, path, want = w.setup(["ini rel"] * len(w.keys), "abs", tool=case[1])
    for bad in ("al", ("al",), None, {"al": 1}):
        with host("h"), senv.environment(w.base), capture():
            r = outcome(build, w, case[1], bad, path)
        cx.check(r[0] == "raise" and isinstance(r[1], TypeError), "{}: arguments {!r} give {!r}", case[1], bad, r)
        cx.step()
    cx.state(case)


def run_handover(case, cx, w):
    """The arguments handed to LoadEnv name the same files, build name and force."""
    _k, force, ci, b, ways, more = case
    argv, path, want = w.setup(["ini rel", "ini rel"] + ways, "abs", tool="gc")
    argv += (["--force"] if force else []) + (["--ci-mode"] if ci else []) + more
    what = f"force={force}, ci-mode={ci}, build name {b!r}, {ways!r}, {more!r}"
    leini = os.path.join(w.d, "conf", "le.ini")
    w.put("conf/le.ini", "[load-env]\n" + "".join(f"{k} : d-{k}.ini\n" for k in LE))
    with host("h"), senv.environment(w.base), capture(), cwd(w.cwd):
        g = GenConfig(argv + [b], gen_config_ini_file=path)
        r = outcome(lambda: list(g.load_env_args))
        cx.check(r[0] == "ok", "{}: {!r}", what, r)
        for args in (r[1], None):
            if args is None:
                out = os.path.join(w.d, "args")
                defaults = GenConfig.__init__.__defaults__
                GenConfig.__init__.__defaults__ = tuple(path if str(x).endswith("gen-config.ini") else x for x in defaults)
                try:
                    r = outcome(gen_config.main, argv + ["--save-load-env-args", out, b])
                finally:
                    GenConfig.__init__.__defaults__ = defaults
                cx.check(r[0] == "ok", "{}: --save-load-env-args gives {!r}", what, r)
                args = open(out).read().split()
                cx.check(("--ci-mode" in args) == ci, "{}: saved arguments {!r}", what, args)
            le = LoadEnv(args, load_env_ini_file=leini)
            r = outcome(paths, le, LE)
            cx.check(r[0] == "ok" and {k: os.path.realpath(v) for k, v in r[1].items()} == {k: want[k] for k in LE}, "{}: LoadEnv uses {!r}", what, r)
            cx.check((le.args.build_name, le.args.force) == (b, force), "{}: LoadEnv has build name {!r}, force {!r}", what, le.args.build_name, le.args.force)
            cx.step()
    cx.state(case)
    cx.trace(case)


KINDS = {"le": run_ways, "gc": run_ways, "fault": run_fault, "section": run_section, "noini": run_noini, "argv": run_argv, "handover": run_handover}
