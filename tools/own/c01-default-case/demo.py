import atexit, contextlib, io, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, TMP, True)


def ini(text, name="a.ini"):
    path = os.path.join(TMP, name)
    with open(path, "w") as f:
        f.write(text)
    return path


def quiet(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        r = f(*a, **k)
    return r, out.getvalue()


def check(got, want, what):
    if got != want:
        print("FAIL %s: got %r, want %r" % (what, got, want))
        sys.exit(1)


from configparserenhanced import ConfigParserEnhanced

p = ConfigParserEnhanced(ini("[DEFAULT]\nk1: d\n[default]\nk2: x\n"))
check(dict(p.configparserenhanceddata["default"]), {"k1": "d", "k2": "x"}, "section [default]")
