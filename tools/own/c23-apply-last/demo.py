import atexit, contextlib, io, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, TMP, True)


def ini(text, name="a.ini"):
    path = os.path.join(TMP, name)
    with open(path, "w") as f:
        f.write(text)
    return path


def quiet(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        r = f(*a, **k)
    return r, out.getvalue()


def check(got, want, what):
    if got != want:
        print("FAIL %s: got %r, want %r" % (what, got, want))
        sys.exit(1)


d = os.path.join(TMP, "bin")
os.mkdir(d)
f = os.path.join(d, "modulecmd")
with open(f, "w") as h:
    h.write("#!/bin/bash\nexit 3\n")
os.chmod(f, 0o755)
os.environ["PATH"] = d + ":/usr/bin:/bin"
from setenvironment import SetEnvironment

p = SetEnvironment(ini("[A]\nmodule-load x: 1\nenvvar-set DEMO_Y: 2\n"))
p.exception_control_level = 1
(r, _) = quiet(p.apply, "A")
check(r != 0, True, "result of apply")
