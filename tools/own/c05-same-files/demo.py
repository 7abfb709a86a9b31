import atexit, contextlib, io, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, TMP, True)


def ini(text, name="a.ini"):
    path = os.path.join(TMP, name)
    with open(path, "w") as f:
        f.write(text)
    return path


def quiet(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        r = f(*a, **k)
    return r, out.getvalue()


def check(got, want, what):
    if got != want:
        print("FAIL %s: got %r, want %r" % (what, got, want))
        sys.exit(1)


from configparserenhanced import ConfigParserEnhanced

a, b = ini("[A]\nk: a\n", "a.ini"), ini("[A]\nk: b\n", "b.ini")
p = ConfigParserEnhanced([a, b])
check(p.configparserenhanceddata.get("A", "k"), "b", "a, b")
p.inifilepath = [b, a]
check(p.configparserenhanceddata.get("A", "k"), "a", "b, a")
