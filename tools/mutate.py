"""Development aid: systematic mutants of the sources, filtered by the repository's tests, run against the checks.

  mutate.py OUT.jsonl [FILE-SUBSTRING...] [--jobs=N] [--list] [--lines=a-b] [--tests (only run the tests)]

Everything happens in scratch copies of /repo. No registered check uses this file.
"""
import ast, json, multiprocessing, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.environ.get("MUT_VERIF") or os.path.dirname(HERE)
REPO = os.environ.get("MUT_REPO") or "/repo"
CORE = "src/configparserenhanced/"
FILES = {
    CORE + "ConfigParserEnhanced.py": "C11 C01 C12 C14 C15 C10 C03 C02 C04 C06 C07 C05 C13".split(),
    CORE + "ExceptionControl.py": "C08 C02".split(),
    CORE + "Debuggable.py": "C16 C10".split(),
    CORE + "TypedProperty.py": "C09 C11 C13".split(),
    CORE + "HandlerParameters.py": "C11 C09 C03 C13".split(),
    "wip/setenvironment/src/setenvironment/SetEnvironment.py": "C20 C22 C23 C05 C06 C21".split(),
    "wip/setenvironment/src/setenvironment/ModuleHelper.py": "C23".split(),
    "wip/keywordparser/keywordparser/KeywordParser.py": "C24 C25 C27".split(),
    "wip/keywordparser/keywordparser/FormattedMsg.py": "C24 C25 C27".split(),
    "wip/genconfig/src/config_keyword_parser.py": "C25 C29 C30".split(),
    "wip/determinesystem/determinesystem/DetermineSystem.py": "C26 C28".split(),
    "wip/loadenv/loadenv/EnvKeywordParser.py": "C27 C28 C30".split(),
    "wip/loadenv/load_env.py": "C28 C31 C30 C32 C34 C29".split(),
    "wip/genconfig/gen_config.py": "C31 C29 C30 C33 C34".split(),
}
SKIPF = re.compile(r"pretty_print_envvars|_loginfo_print|__repr__|get_formatted_msg|get_msg|debug_message$|__parser|_loginfo_add|list_config|list_envs|_gen_script_header|_repr")
SKIPL = re.compile(r"debug_message\(|_loginfo_add\(|message \+?=|msg \+?=|print\(|logging\.|err_msg|errmsg|\bf\"|exception_control_event\(\s*$|help=")
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(path):
    src = open(path).read()
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    data = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    tree = ast.parse(src)
    out = []

    def add(n, new, kind):
        a, b = pos(n)
        m = data[:a] + new.encode() + data[b:]
        t = m.decode()
        try:
            ast.parse(t)
        except SyntaxError:
            return
        if ast.dump(ast.parse(t)) == ast.dump(tree):
            return
        out.append((n.lineno, kind, seg(src, n)[:100] + "  ==>  " + new[:100], t))

    def walk(n, fn):
        for c in ast.iter_child_nodes(n):
            f = fn
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                f = c.name
            if f and SKIPF.search(f):
                continue
            body_doc = isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant)
            if body_doc:
                continue
            if fn is None and isinstance(c, (ast.Try, ast.ExceptHandler)):
                walk(c, fn)
                continue
            if fn is None and not isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                continue
            line = lines[c.lineno - 1] if hasattr(c, "lineno") else ""
            if hasattr(c, "lineno") and SKIPL.search(line) and not isinstance(c, (ast.If, ast.For, ast.FunctionDef, ast.ClassDef, ast.While, ast.Try, ast.With)):
                continue
            visit(c)
            walk(c, f)

    def visit(c):
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            add(c, f"{seg(src, c.left)} {SWAP[type(c.ops[0])]} {seg(src, c.comparators[0])}", "cmp")
        if isinstance(c, ast.BoolOp):
            op = " or " if isinstance(c.op, ast.And) else " and "
            add(c, op.join(f"({seg(src, v)})" for v in c.values), "bool")
            for i in range(len(c.values)):
                rest = [f"({seg(src, v)})" for j, v in enumerate(c.values) if j != i]
                add(c, (" and " if isinstance(c.op, ast.And) else " or ").join(rest), "booldrop")
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            add(c, f"({seg(src, c.operand)})", "not")
        if isinstance(c, (ast.If, ast.While, ast.IfExp)) and not isinstance(c.test, (ast.Compare, ast.BoolOp)):
            add(c.test, f"(not ({seg(src, c.test)}))", "cond")
        if isinstance(c, (ast.If, ast.IfExp)):
            add(c.test, "True", "cond")
            add(c.test, "False", "cond")
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("hasattr", "delattr", "_reset_lazy_attr"):
            c.args[1].skip = True
        if isinstance(c, ast.Constant) and not hasattr(c, "skip"):
            v = c.value
            if isinstance(v, bool):
                add(c, str(not v), "const")
            elif isinstance(v, int):
                add(c, str(v + 1), "const")
                if v > 0:
                    add(c, str(v - 1), "const")
            elif isinstance(v, str) and v and len(v) < 25 and " " not in v:
                add(c, repr(v + "Q"), "const")
            elif v == "":
                add(c, repr("Q"), "const")
        if isinstance(c, ast.Call):
            if isinstance(c.func, ast.Attribute) and not c.args and not c.keywords and c.func.attr in ("lower", "upper", "strip", "copy", "rstrip", "resolve"):
                add(c, seg(src, c.func.value), "unwrap")
            if isinstance(c.func, ast.Attribute) and c.func.attr in ("strip", "rstrip", "replace"):
                add(c, seg(src, c.func.value), "unwrap")
            if isinstance(c.func, ast.Attribute) and c.func.attr == "deepcopy":
                add(c, seg(src, c.args[0]), "unwrap")
            if isinstance(c.func, ast.Name) and c.func.id in ("sorted", "set", "tuple", "list", "str", "int", "abs", "reversed", "dict") and c.args:
                add(c, seg(src, c.args[0]), "unwrap")
            if isinstance(c.func, ast.Name) and c.func.id in ("max", "min") and len(c.args) == 2:
                add(c, seg(src, c.args[0]), "unwrap")
                add(c, seg(src, c.args[1]), "unwrap")
            for k in c.keywords:
                if k.arg:
                    args = [seg(src, a) for a in c.args] + [f"{x.arg}={seg(src, x.value)}" if x.arg else "**" + seg(src, x.value) for x in c.keywords if x is not k]
                    add(c, f"{seg(src, c.func)}({', '.join(args)})", "kwdrop")
        if isinstance(c, ast.Expr):
            add(c, "pass", "del")
        if isinstance(c, (ast.Assign, ast.AugAssign, ast.Delete)):
            add(c, "pass", "del")
        if isinstance(c, ast.Raise):
            add(c, "pass", "del")
        if isinstance(c, ast.Break):
            add(c, "pass", "del")
        if isinstance(c, ast.Continue):
            add(c, "pass", "del")
        if isinstance(c, ast.Return) and c.value is not None and not isinstance(c.value, ast.Constant):
            add(c, "return None", "ret")
        if isinstance(c, ast.ListComp) and len(c.generators) == 1 and c.generators[0].ifs:
            g = c.generators[0]
            add(c, f"[{seg(src, c.elt)} for {seg(src, g.target)} in {seg(src, g.iter)}]", "filter")
        if isinstance(c, ast.Slice):
            if c.lower is not None:
                add(c.lower, f"({seg(src, c.lower)}) + 1", "slice")
        if isinstance(c, ast.Try) and c.finalbody:
            pass
    walk(tree, None)
    seen, res = set(), []
    for m in out:
        if m[3] not in seen:
            seen.add(m[3])
            res.append(m)
    return res


def tests(copy, f=None):
    w = copy + "/wip"
    src = copy + "/src"
    runs = [(copy, "", "src", []), (w + "/keywordparser", w + "/keywordparser", "tests", ["-o", "python_files=test_*.py"]),
            (w + "/determinesystem", w + "/determinesystem:" + w + "/keywordparser", "tests", []),
            (w + "/setenvironment", w + "/setenvironment/src", "src", []),
            (w + "/genconfig", w + "/keywordparser", "tests/test_unit_config_keyword_parser.py", [])]
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "MODULESHOME")}
    bad = []
    if f is not None:
        runs = [runs[i] for i in ([1, 2, 4] if "keywordparser/" in f else [2] if "determinesystem" in f else [3] if "setenv" in f else [4] if "config_keyword" in f
                                  else [] if "wip/" in f else [0, 1, 2, 3, 4])]
    for d, pp, t, extra in runs:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "--tb=no", "--timeout=60", "-rfE", *extra, t], cwd=d,
                           env=dict(e, PYTHONPATH=src + (":" + pp if pp else ""), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        bad += re.findall(r"^(?:FAILED|ERROR) (\S+)", r.stdout, re.M)
        if f is not None and [b for b in bad if "badpath" not in b]:
            break
        if r.returncode not in (0, 1):
            bad.append("rc%d %s" % (r.returncode, r.stdout[-300:]))
    return sorted(bad)


COPY = None


def init(base):
    global COPY, BASEBAD
    COPY = tempfile.mkdtemp(prefix="mut-") + "/repo"
    subprocess.run(["cp", "-a", REPO, COPY], check=True)
    BASEBAD = base


def work(job):
    f, m = job
    line, kind, what, text = m
    p = os.path.join(COPY, f)
    old = open(p).read()
    rec = {"file": f, "line": line, "kind": kind, "what": what}
    try:
        open(p, "w").write(text)
        bad = [b for b in tests(COPY, f) if "badpath" not in b]
        if bad:
            rec["result"] = "tests"
            return rec
        if "--tests" in sys.argv:
            rec["result"] = "passes tests"
            return rec
        for c in FILES[f]:
            try:
                r = subprocess.run(["bash", os.path.join(VERIF, "run.sh"), c, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1200,
                                   env=dict(os.environ, VERIF_REPO=COPY, VERIF_JOBS="1"))
            except subprocess.TimeoutExpired:
                rec["result"] = "timeout " + c
                return rec
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                rec["result"] = "caught " + c
                return rec
            if r.returncode != 0:
                rec["result"] = "rc%d %s %s" % (r.returncode, c, r.stdout[-300:])
                return rec
        rec["result"] = "SURVIVED"
        return rec
    finally:
        open(p, "w").write(old)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    out, subs = args[0], args[1:]
    rng = next((a.split("=")[1] for a in sys.argv if a.startswith("--lines=")), None)
    jobs = []
    for f in FILES:
        if not subs or any(s in f for s in subs):
            for m in mutants(REPO + "/" + f):
                if rng and not int(rng.split("-")[0]) <= m[0] <= int(rng.split("-")[1]):
                    continue
                jobs.append((f, m))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            if r["result"] == "passes tests" and "--tests" not in sys.argv:
                continue
            done.add((r["file"], r["line"], r["kind"], r["what"]))
    jobs = [j for j in jobs if (j[0], j[1][0], j[1][1], j[1][2]) not in done]
    print(len(jobs), "mutants", flush=True)
    if "--list" in sys.argv:
        for f, m in jobs:
            print(f, m[0], m[1], m[2].replace("\n", " "))
        return
    tmp = tempfile.mkdtemp(prefix="mut-") + "/repo"
    subprocess.run(["cp", "-a", REPO, tmp], check=True)
    base = tests(tmp)
    base = [b for b in base]
    shutil.rmtree(os.path.dirname(tmp))
    print("baseline failures", base, flush=True)
    n = int(next((a.split("=")[1] for a in sys.argv if a.startswith("--jobs=")), "8"))
    t = time.time()
    with multiprocessing.Pool(n, init, (base,)) as pool, open(out, "a") as o:
        for i, r in enumerate(pool.imap_unordered(work, jobs)):
            o.write(json.dumps(r) + "\n")
            o.flush()
            if r["result"] not in ("tests", "passes tests") and not r["result"].startswith("caught"):
                print("%5.0fs %d/%d %s:%d %s %s %s" % (time.time() - t, i, len(jobs), os.path.basename(r["file"]), r["line"], r["kind"], r["what"].replace("\n", " "), r["result"]), flush=True)
    subprocess.run("rm -rf /tmp/mut-*", shell=True)


if __name__ == "__main__":
    main()
