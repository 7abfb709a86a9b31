import atexit, contextlib, io, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, TMP, True)


def ini(text, name="a.ini"):
    path = os.path.join(TMP, name)
    with open(path, "w") as f:
        f.write(text)
    return path


def quiet(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        r = f(*a, **k)
    return r, out.getvalue()


def check(got, want, what):
    if got != want:
        print("FAIL %s: got %r, want %r" % (what, got, want))
        sys.exit(1)


import socket, types
socket.gethostname = lambda: "h1"
import load_env
for n, a in (("setprogramoptions", "SetProgramOptionsCMake"), ("LoadEnv", "LoadEnv"), ("LoadEnv.load_env", "LoadEnv")):
    m = sys.modules[n] = types.ModuleType(n)
    m.__path__ = []
    setattr(m, a, object if n[0] == "s" else load_env.LoadEnv)
sys.modules["LoadEnv"].load_env = load_env
import gen_config
os.environ["LOGNAME"] = os.environ["USER"] = "demo-%d" % os.getpid()
atexit.register(shutil.rmtree, "/tmp/" + os.environ["USER"], True)
NAMES = ["supported-systems", "supported-envs", "environment-specs", "supported-config-flags", "config-specs"]


def world(systems="[s1]\nh1\n[s2]\nh2\n", envs="[s1]\ne: a\n[s2]\ne: a\n", specs="[s1_e]\nenvvar-set V: 1\n", flags="[configure-flags]\nf: SELECT_ONE\n    x\n", configs="[s1_e_x]\nk: 1\n"):
    for n, t in zip(NAMES, (systems, envs, specs, flags, configs)):
        ini(t, n + ".ini")
    ini("[gen-config]\n" + "".join("%s: %s/%s.ini\n" % (n, TMP, n) for n in NAMES[3:]) + "[load-env]\n" + "".join("%s: %s/%s.ini\n" % (n, TMP, n) for n in NAMES[:3]), "tool.ini")


def le(*argv):
    return load_env.LoadEnv(list(argv), load_env_ini_file=TMP + "/tool.ini")


def gc(*argv):
    return gen_config.GenConfig(list(argv), gen_config_ini_file=TMP + "/tool.ini")


def listed(f):
    out = io.StringIO()
    code = None
    with contextlib.redirect_stdout(out):
        try:
            f()
        except SystemExit as e:
            code = e.code
    text = out.getvalue() + (code if isinstance(code, str) else "")
    return [x.strip("| ")[2:] for x in text.split("\n") if x.strip("| ").startswith("- ")]

world(configs="[s1_e_x]\nk: 1\n[s1_e_y]\n[s2_e_x]\nk: 1\n")
check(listed(gc().list_configs), ["s1_e_x", "s1_e_y"], "listed configurations")
