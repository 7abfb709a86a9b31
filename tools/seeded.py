"""Builds the planted bugs of /verif/seeded from tools/bugs.py and measures them (in scratch copies of /repo).

  seeded.py build [ID...]          write patch.diff, demo.sh, demo.py, meta.json (scratch worktree, /repo untouched)
  seeded.py verify [ID...]         tests + demo with and without the patch, in a scratch copy
  seeded.py detect [ID...] [--all] run the property's quick check (or all checks) against each; results in
                                   tools/matrix.json
No registered check uses this file.
"""
import ast, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
BASE = "604e2d2"
SEEDED = os.path.join(VERIF, "seeded")
sys.path.insert(0, HERE)

PRE = '''\
import atexit, contextlib, io, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, TMP, True)


def ini(text, name="a.ini"):
    path = os.path.join(TMP, name)
    with open(path, "w") as f:
        f.write(text)
    return path


def quiet(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        r = f(*a, **k)
    return r, out.getvalue()


def check(got, want, what):
    if got != want:
        print("FAIL %s: got %r, want %r" % (what, got, want))
        sys.exit(1)


'''
SH = '''\
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
w=$PWD/wip
export MODULESHOME=/nonexistent
export PYTHONPATH=$PWD/src:$w/keywordparser:$w/determinesystem:$w/setenvironment/src:$w/genconfig:$w/genconfig/src:$w/loadenv
exec /opt/venv/bin/python -B "$here/demo.py"
'''


def sh(*cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def git(*a):
    r = sh("git", "-C", REPO, *a)
    assert r.returncode == 0, r.stdout
    return r.stdout


def specs(ids):
    import bugs
    return [b for b in bugs.BUGS if not ids or b["id"] in ids]


def place(i):
    import bugs
    return os.path.join(HERE, "own", i) if i in bugs.OWN else os.path.join(SEEDED, i)


def build(b):
    d = place(b["id"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        diff = ""
        by = {}
        for f, old, new in b["edits"]:
            src = by.get(f) or open(os.path.join(REPO, f)).read()
            assert src.count(old) == 1, (b["id"], f, src.count(old), old)
            by[f] = src.replace(old, new)
        for f, src in sorted(by.items()):
            if f.endswith('.py'):
                ast.parse(src)
            a = os.path.join(tmp, "a", f)
            c = os.path.join(tmp, "b", f)
            for p, t in ((a, open(os.path.join(REPO, f)).read()), (c, src)):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(t)
            diff += sh("diff", "-u", "a/" + f, "b/" + f, cwd=tmp).stdout
        diff = re.sub(r"^((?:---|\+\+\+) \S+)\t.*$", r"\1", diff, flags=re.M)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(PRE + b["demo"].lstrip("\n"))
    for n in ("shell", "sched"):
        if "demo_" + n in b["demo"]:
            t = open(os.path.join(VERIF, "vlib", n + ".py")).read().replace("from vlib import env\n", "env = type('E', (), {'SRC': os.getcwd()})\n")
            open(os.path.join(d, "demo_%s.py" % n), "w").write(t.replace("vlib.shell", "demo_shell"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    # removed or changed lines have to be lines of the original repository
    mine = []
    for f in by:
        blame = git("blame", "-s", "--no-abbrev" if False else "-l", BASE + "..HEAD", "--", f).splitlines()
        new_lines = {i + 1 for i, l in enumerate(blame) if not l.startswith("^")}
        n = None
        for l in open(os.path.join(d, "patch.diff")):
            m = re.match(r"@@ -(\d+)", l)
            if l.startswith("--- "):
                cur = l.split()[1][2:]
            elif m:
                n = int(m.group(1))
            elif n is not None and cur == f:
                if l.startswith("-"):
                    if n in new_lines:
                        mine.append((f, n))
                    n += 1
                elif l.startswith(" "):
                    n += 1
    return mine


def demo(i, repo=REPO):
    d = tempfile.mkdtemp(prefix="sd-")
    try:
        for f in os.listdir(place(i)):
            if f.startswith("demo"):
                shutil.copy(os.path.join(place(i), f), d)
        return sh("bash", os.path.join(d, "demo.sh"), cwd=repo, timeout=300)
    finally:
        shutil.rmtree(d)


def verify(i):
    r = demo(i)
    if r.returncode:
        return "demo fails on the unchanged tree: " + r.stdout[-600:]
    import mutate
    tmp = tempfile.mkdtemp(prefix="seedrepo-")
    try:
        copy = os.path.join(tmp, "repo")
        assert sh("cp", "-a", REPO, copy).returncode == 0
        r = sh("git", "-C", copy, "apply", os.path.join(place(i), "patch.diff"))
        if r.returncode:
            return "does not apply: " + r.stdout
        bad = [t for t in mutate.tests(copy) if "apply_module_use_badpath" not in t]
        if bad:
            return "tests fail: %d e.g. %s" % (len(bad), bad[:3])
        r = demo(i, copy)
        if not r.returncode:
            return "demo passes with the patch"
    finally:
        shutil.rmtree(tmp)
    return "ok (" + (r.stdout.strip().splitlines() or ["?"])[-1][:160] + ")"


def detect(b, props, tier="quick"):
    """In a scratch copy, so that /repo stays free for other work."""
    res = {}
    tmp = tempfile.mkdtemp(prefix="seedrepo-")
    try:
        copy = os.path.join(tmp, "repo")
        assert sh("cp", "-a", REPO, copy).returncode == 0
        r = sh("git", "-C", copy, "apply", os.path.join(place(b["id"]), "patch.diff"))
        assert r.returncode == 0, r.stdout
        for p in props:
            t = time.time()
            r = sh("bash", os.path.join(VERIF, "run.sh"), p, tier, cwd=VERIF, env=dict(os.environ, VERIF_REPO=copy))
            v = "VIOLATION property=%s " % p in r.stdout
            res[p] = "caught" if (r.returncode == 1 and v) else "missed" if r.returncode == 0 else "rc=%d" % r.returncode
            if res[p].startswith("rc"):
                print(r.stdout[-1500:])
            print("   %s %s %s %.0fs" % (b["id"], p, res[p], time.time() - t), flush=True)
    finally:
        shutil.rmtree(tmp)
    return res


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    al = "--all" in args
    ids = [a for a in args if not a.startswith("-")]
    mf = os.path.join(HERE, "matrix.json")
    for b in specs(ids):
        if cmd == "build":
            try:
                m = build(b)
            except AssertionError as e:
                print("NOT BUILT", e)
                continue
            print(b["id"], b["property"], "built", ("TOUCHES OWN LINES %s" % m) if m else "", flush=True)
        elif cmd == "verify":
            print(b["id"], b["property"], verify(b["id"]), flush=True)
        elif cmd == "detect":
            props = ["C%02d" % n for n in list(range(1, 17)) + list(range(20, 36))] if al else [b["property"]]
            res = detect(b, props)
            mat = json.load(open(mf)) if os.path.exists(mf) else {}
            mat.setdefault(b["id"], {}).update(res)
            json.dump(mat, open(mf, "w"), indent=1, sort_keys=True)


main()
