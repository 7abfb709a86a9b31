import atexit, contextlib, io, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, TMP, True)


def ini(text, name="a.ini"):
    path = os.path.join(TMP, name)
    with open(path, "w") as f:
        f.write(text)
    return path


def quiet(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        r = f(*a, **k)
    return r, out.getvalue()


def check(got, want, what):
    if got != want:
        print("FAIL %s: got %r, want %r" % (what, got, want))
        sys.exit(1)


import types, builtins, socket
socket.gethostname = lambda: "h1"


class O:
    def __init__(self, filename=None):
        pass

    def gen_option_list(self, section, gen="bash"):
        return ["new"]


m = types.ModuleType("setprogramoptions")
m.SetProgramOptionsCMake = O
sys.modules["setprogramoptions"] = m
import load_env
pk = types.ModuleType("LoadEnv")
pk.__path__ = []
sys.modules["LoadEnv"] = pk
sys.modules["LoadEnv.load_env"] = load_env
pk.load_env = load_env
ini("[s1]\nh1\n", "sys.ini")
ini("[s1]\ngcc: gnu\n", "envs.ini")
ini("[s1_gcc]\nenvvar-set A: 1\n", "specs.ini")
ini("[configure-flags]\nf: SELECT_ONE\n    a\n    b\n", "flags.ini")
ini("[s1_gcc_a]\n", "configs.ini")
top = ini("[gen-config]\nsupported-config-flags: flags.ini\nconfig-specs: configs.ini\n[load-env]\nsupported-systems: sys.ini\n"
          "supported-envs: envs.ini\nenvironment-specs: specs.ini\n", "gc.ini")
le = ini("[load-env]\nsupported-systems: sys.ini\nsupported-envs: envs.ini\nenvironment-specs: specs.ini\n", "le.ini")
ld = load_env.LoadEnv.__init__
load_env.LoadEnv.__init__ = lambda self, argv, load_env_ini_file=le: ld(self, argv, load_env_ini_file)
from gen_config import GenConfig

frag = ini("old", "f.cmake")
g = GenConfig(["--cmake-fragment", frag, "x_gnu"], gen_config_ini_file=top)
builtins.input = lambda *a: "never"
try:
    quiet(g.write_cmake_fragment)
except SystemExit:
    pass
check(open(frag).read(), "old", "fragment after the answer never")
