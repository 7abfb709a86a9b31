"""GenConfig and LoadEnv with stand-ins for what they import from elsewhere (setprogramoptions, the LoadEnv package)."""
import sys
import types

from vlib import env
from vlib.host import host  # noqa: F401 - before the code under test
import load_env
import src.config_keyword_parser as ckp
env.from_tree(load_env)
env.from_tree(ckp)

CALLS = []


class Options:
    """Stand-in for SetProgramOptionsCMake (not part of this repository)."""

    def __init__(self, filename=None):
        self.filename = filename

    def gen_option_list(self, section, generator="bash"):
        CALLS.append([str(section), str(generator)])
        return [f"-D{generator}:{section}", "-DA=1 ", "-DB=\"x y\"", "-DA=2", "-DA=1 "]


_m = types.ModuleType("setprogramoptions")
_m.SetProgramOptionsCMake = Options
sys.modules["setprogramoptions"] = _m
_p = types.ModuleType("LoadEnv")
_p.__path__ = []
_p.load_env = load_env
_p.LoadEnv = load_env.LoadEnv
sys.modules["LoadEnv"] = _p
sys.modules["LoadEnv.load_env"] = load_env
import gen_config  # noqa: E402
env.from_tree(gen_config)
GenConfig = gen_config.GenConfig
LoadEnv = load_env.LoadEnv
