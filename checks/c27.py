"""C27: the longest matching environment name wins, names before aliases."""
import itertools
import os

from vlib import env, kw
from vlib.engine import capture, outcome
from vlib.ini import Missing, expand, read_plain, repo_files
import loadenv.EnvKeywordParser as ekp
env.from_tree(ekp)
EnvKeywordParser = ekp.EnvKeywordParser

BOUNDS = {
    "quick": "every system of up to 2 environments over 9 names with up to 2 aliases over 10 lines each, and 15 larger systems (use, DEFAULT, several systems); x every build name of "
             "up to 3 words over the names, the aliases, near misses and other words, and 17 edge forms of each name (blanks, other characters beside it); 10 to 60 environments; "
             "the environment files of the repository x every pair of names and aliases",
    "thorough": "as quick with build names of 4 words and systems of 3 environments",
}
ASSUMPTIONS = ["names and aliases contain no double quotes; where two matches have the same length either may be chosen"]

NAMES = ["gcc-7.3", "gcc-7", "gcc", "intel_19", "intel", "c++", "gcc-7.3-mpi", "a|b", "GCC"]
LINES = [["gnu", "gnu"], ["gcc-7  # c", "gcc-7"], ["intel-19", "intel-19"], ["def# d", "def"], ["c.+", "c.+"], ["two words", "two words"], ["al_ias", "al_ias"], ["gnu-7", "gnu-7"],
         ["# comment", None], ["gcc", "gcc"]]
OTHER = ["x", "", "gcc-7x3", "xgnu", "gnux", "ccc", "gcc-", "GNU", "default-env", "a"]
EDGES = ["{} ", " {}", "x_{} ", " {}_x", "{}\t", "x_ {}_y", "-{}", "{}.", "x__{}", "_{}_", "{0}_{0}", "{}/x", "x/{}", "x.{}", "{}=1", "{},x", "x:{}_y"]
FIXED = [  # (text, system, {env: lines})
    ("[s1]\nuse base\nown: mine\n[base]\ngcc: gnu\n[s2]\ngcc: other\n", "s1", {"gcc": ["gnu"], "own": ["mine"]}),
    ("[s1]\nuse base\nown: mine\n[base]\ngcc: gnu\n[s2]\ngcc: other\n", "s2", {"gcc": ["other"]}),
    ("[DEFAULT]\ngcc: gnu\n[s1]\nintel: default\n", "s1", {"gcc": ["gnu"], "intel": ["default"]}),
    ("[s1]\nuse s2\ngcc: mine\n[s2]\ngcc: gnu\nclang: cl\n", "s1", {"gcc": ["mine"], "clang": ["cl"]}),
    ("[s1]\ngcc: mine\nuse s2\n[s2]\ngcc: gnu\nclang: cl\n", "s1", {"gcc": ["gnu"], "clang": ["cl"]}),
    ("[s1]\nintel-18.0.5-mpich-7.7.6:   # name 1\n    intel-18    # alias 1\n    intel       # alias 2\n    default-env\nintel-19.0.4-mpich-7.7.6:\n    intel-19\n", "s1",
     {"intel-18.0.5-mpich-7.7.6": ["intel-18", "intel", "default-env"], "intel-19.0.4-mpich-7.7.6": ["intel-19"]}),
    ("[s1]\ngcc\nclang:\nintel = int\n", "s1", {"gcc": [], "clang": [], "intel": ["int"]}),
    ("[s1]\nuse s2\na: gnu\n[s2]\nb: gnu\n", "s1", {"b": ["gnu"], "a": ["gnu"]}),
    ("[s1]\nuse s2\na: b\n[s2]\nb: gnu\n", "s1", {"b": ["gnu"], "a": ["b"]}),
    ("[s1]\na: gnu\nb: gnu\nc: gnu\n", "s1", {"a": ["gnu"], "b": ["gnu"], "c": ["gnu"]}),
    ("[s1]\na:\n  gnu\n  q\nb: x\nc: q\nd:\n gnu\ne: gnu\nf: gnu\n", "s1", {"a": ["gnu", "q"], "b": ["x"], "c": ["q"], "d": ["gnu"], "e": ["gnu"], "f": ["gnu"]}),
    ("[s-1_x]\na: gnu\nb: g\n", "s-1_x", {"a": ["gnu"], "b": ["g"]}),
    ("[s1]\ns1-gcc: gnu\ns1: g\nintel: s1-i\n", "s1", {"s1-gcc": ["gnu"], "s1": ["g"], "intel": ["s1-i"]}),
    ("[s1]\ns1_gcc: gnu\ngcc: g\nxs1:\n", "s1", {"s1_gcc": ["gnu"], "gcc": ["g"], "xs1": []}),
    ("[s1]\ngcc: s1\nintel: s1x\n", "s1", {"gcc": ["s1"], "intel": ["s1x"]}),
]


def cases(tier):
    al = [[]] + [[i] for i in range(len(LINES))]
    al2 = al + [[0, 7], [1, 0], [7, 1], [3, 8], [0, 0], [2, 9], [4, 0], [8, 5]]
    n = 3
    for e in range(len(NAMES)):
        for a in al2:
            yield ["gen", [[e, a]], n]
    for e1, e2 in itertools.permutations(range(len(NAMES)), 2):
        for a1 in al if (e1 + e2) % 2 else al2[:6] + al2[-4:]:
            for a2 in al2[:1] + al2[3:9] + al2[11:13] if tier == "quick" else al2:
                yield ["gen", [[e1, a1], [e2, a2]], 2]
    for i in range(len(FIXED)):
        yield ["fixed", i, 3 if tier == "quick" else 4]
    if tier == "thorough":
        for es in itertools.permutations(range(7), 3):
            for a in ([[0], [2], [4]], [[], [7], [3]], [[1], [], [0]], [[7, 0], [9], []]):
                yield ["gen", [[e, x] for e, x in zip(es, a)], 3]
    for f in repo_files(os.environ["VERIF_SRC"]):
        if "supported" in f and "envs" in f:
            yield ["repo", f]
    for n in (10, 60):
        for shape in range(3):
            yield ["many", n, shape]


def show(case):
    if case[0] == "gen":
        return {"envs": [[NAMES[e], [LINES[i][0] for i in a]] for e, a in case[1]], "words per build name": case[2]}
    return case


def query(cx, path, system, envs, build, what):
    """envs: validated {env: aliases}, or Bad."""
    if isinstance(envs, kw.Bad):
        want = envs
    else:
        try:
            want = [f"{system}_{e}" for e in kw.env_candidates(envs, build)]
        except kw.Bad as ex:
            want = ex
    with capture():
        r = outcome(EnvKeywordParser, build, system, path)
    cx.step()
    what = f"{what}, build name {build!r}"
    cx.state(what)
    if isinstance(envs, kw.Bad):
        cx.check(kw.is_exit(r), "{}: got {!r}, expected an error exit ({})", what, r, want)
        return cx.trace("bad file")
    cx.check(r[0] == "ok", "{}: got {!r} at creation, expected {!r}", what, r, want)
    p = r[1]
    with capture():
        r = outcome(lambda: p.qualified_env_name)
        again = outcome(lambda: p.qualified_env_name)
    if isinstance(want, kw.Bad):
        for x in (r, again):
            cx.check(kw.is_exit(x), "{}: got {!r}, expected an error exit ({})", what, x, want)
    else:
        cx.check(r[0] == "ok" and r[1] in want, "{}: got {!r}, expected {!r}", what, r, want)
        cx.equal(again, r, what + ", asked again")
    cx.trace(str(want))


def names(voc, n):
    for k in range(1, n + 1):
        for s in itertools.product(voc, repeat=k):
            yield "_".join(s)


def valid(envs):
    try:
        return kw.validate_envs(envs)
    except kw.Bad as ex:
        return ex


def run(case, cx):
    kind = case[0]
    if kind == "gen":
        envs = {NAMES[e]: [LINES[i] for i in a] for e, a in case[1]}
        out = ["[other]", "gcc: x", "[s1]"]
        for e, ls in envs.items():
            out += kw.render_key(e, ls, not ls or not ls[0][0].startswith("#"))
        path = cx.write("\n".join(out) + "\n")
        m = valid(envs)
        voc = list(envs)
        for ls in envs.values():
            voc += [v for _t, v in ls if v and v not in voc]
        if isinstance(m, kw.Bad):
            query(cx, path, "s1", m, voc[0], f"environments {dict((k, [t for t, _ in v]) for k, v in envs.items())!r}")
            return
        n = case[2]
        voc = voc[:4] + OTHER[:4 if n < 3 else 6]
        for b in itertools.chain(names(voc, n), (t.format(w) for w in voc[:3] for t in EDGES)):
            query(cx, path, "s1", m, b, f"environments {m!r}")
        return
    if kind == "fixed":
        text, system, envs = FIXED[case[1]]
        path = cx.write(text)
        m = valid({e: [[a, a] for a in v] for e, v in envs.items()})
        voc = list(envs) + [a for v in envs.values() for a in v] + ["x", "other", "gnu", system]
        voc = list(dict.fromkeys(voc))
        for b in names(voc, case[2]):
            query(cx, path, system, m, b, f"file {text!r} system {system!r}")
        return
    if kind == "repo":
        path = os.path.join(os.environ["VERIF_SRC"], case[1])
        secs = read_plain([open(path, encoding="utf-8").read()])
        for system in secs:
            try:
                lines = {}
                for ev in expand(secs, system):
                    if ev[0] == "opt":
                        lines[ev[2][1]] = [[x, x.split("#")[0].strip() or None] for x in (ev[2][2] or "").split("\n")]
            except Missing:
                continue
            if not lines:
                continue
            m = valid(lines)
            voc = list(lines) + [v for ls in lines.values() for _t, v in ls if v]
            for b in itertools.chain(voc, ("_".join(x) for x in itertools.permutations(voc, 2)), (t.format(w) for w in voc for t in EDGES), ["_".join(voc)]):
                query(cx, path, system, m, b, f"file {case[1]}, system {system!r}")
        return
    if kind == "many":
        _k, n, shape = case
        envs = {f"env-{'x' * ((i * 7) % n if shape == 0 else i if shape == 1 else n - i)}-{i}": [f"al{i}", f"al{i}-{'y' * (n - i)}"] for i in range(n)}
        path = cx.write("[s1]\n" + "".join(f"{e}:\n  " + "\n  ".join(a) + "\n" for e, a in envs.items()))
        es = list(envs)
        for b in (es[0], es[-1], f"{es[1]}_{es[2]}", "al1", f"al0_al{n - 1}", "_".join(es), "_".join(envs[es[i]][i % 2] for i in range(n)), "none",
                  f"{es[3]}x", f"x_{envs[es[4]][1]}_al5", f"al7_{es[6]}"):
            query(cx, path, "s1", envs, b, f"{n} environments, shape {shape}")
