import atexit, contextlib, io, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, TMP, True)


def ini(text, name="a.ini"):
    path = os.path.join(TMP, name)
    with open(path, "w") as f:
        f.write(text)
    return path


def quiet(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        r = f(*a, **k)
    return r, out.getvalue()


def check(got, want, what):
    if got != want:
        print("FAIL %s: got %r, want %r" % (what, got, want))
        sys.exit(1)


import socket
from determinesystem.DetermineSystem import DetermineSystem
socket.gethostname = lambda: "h1"
d = DetermineSystem("x_s2", ini("[s1]\nh1\n[s2]\nh2\n"), silent=True)
for i in range(2):
    try:
        (r, _) = quiet(lambda: d.system_name)
    except SystemExit:
        continue
    check(r, "SystemExit", "query %d" % i)
