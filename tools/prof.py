"""Profile a check in one process: prof.py C04 [n cases] [stride]"""
import cProfile, itertools, os, pstats, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault("VERIF_SRC", "/repo")
from vlib import engine, env
env.setup()
import importlib
mod = importlib.import_module("checks." + sys.argv[1].lower())
n = int(sys.argv[2]) if len(sys.argv) > 2 else 1000
st = int(sys.argv[3]) if len(sys.argv) > 3 else 1
with tempfile.TemporaryDirectory(dir="/dev/shm") as t:
    cx = engine.Ctx(t, engine.load_listed(HERE, sys.argv[1]))
    cs = list(itertools.islice(mod.cases("quick"), 0, n * st, st))
    pr = cProfile.Profile()
    pr.enable()
    for c in cs:
        mod.run(c, cx)
        cx.cleanup()
    pr.disable()
pstats.Stats(pr).sort_stats("tottime").print_stats(22)
