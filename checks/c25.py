"""C25: selected options follow the build name, flag by flag."""
import itertools
import os

from vlib import env, kw
from vlib.engine import capture, outcome
from vlib.ini import read_plain, repo_files
import src.config_keyword_parser as ckp
env.from_tree(ckp)
ConfigKeywordParser = ckp.ConfigKeywordParser

BOUNDS = {
    "quick": "every file of 1 or 2 flags (SELECT_ONE, SELECT_MANY, no type) whose options are sequences of up to 3 of 5 words, plus 15 larger files; "
             "every build name of up to 3 words over the options, near misses and other words; every sequence of 3 build names x queries in between; "
             "files of 5 to 60 options; the flag files of the repository x every pair of options",
    "thorough": "as quick with build names of up to 4 words, sequences of 4 build names and 3-flag files",
}
ASSUMPTIONS = ["every flag lists at least one option; options are not named SELECT_ONE or SELECT_MANY"]

WORDS = ["a", "b", "a-b", "B", "no-a"]
OTHER = ["", "x", "b-a", "SELECT", "f1"]
FILES = [  # name -> [(flag, type, options)]
    [("mpi", "SELECT_ONE", ["mpi", "no-mpi"]), ("node", "SELECT_ONE", ["serial", "openmp"]), ("pkg", "SELECT_MANY", ["none", "empire", "sparc", "muelu"])],
    [("pkg", "SELECT_MANY", ["z", "y", "x", "w"]), ("one", "SELECT_ONE", ["o1", "o2", "o3"])],
    [("m1", "SELECT_MANY", ["b", "a"]), ("m2", "SELECT_MANY", ["d", "c"]), ("o", "SELECT_ONE", ["f", "e"])],
    [("o1", "SELECT_ONE", ["a", "b"]), ("o2", "SELECT_ONE", ["c", "a"])],
    [("o1", "SELECT_ONE", ["a", "b"]), ("o2", "SELECT_MANY", ["c", "d"]), ("o3", None, ["e", "f"])],
    [("a", "SELECT_ONE", ["b"]), ("c", "SELECT_ONE", ["d"]), ("e", "SELECT_MANY", ["f"]), ("g", "SELECT_MANY", ["h", "i"])],
    [("v", "SELECT_ONE", ["1.0", "1", "10", "0.1"]), ("w", "SELECT_MANY", ["2", "12", "1-2", "21"])],
    [("dash", "SELECT_ONE", ["a", "a-a", "aa"]), ("deb", "SELECT_MANY", ["A", "Aa", "A-A"])],
    [("same", "SELECT_ONE", ["a", "same"]), ("t", "SELECT_ONE", ["c", "d"])],
    [("dup", "SELECT_MANY", ["a", "b", "a"]), ("t", "SELECT_ONE", ["c", "d"])],
    [("t1", "SELECT_ONE", ["a", "b"]), ("t2", "SELECT_MANY", ["c", "a"]), ("t3", "SELECT_ONE", ["d", "a"])],
    [("t1", "SELECT_ONE", ["a"]), ("t2", "SELECT_ONE", ["a", "b"]), ("t3", "SELECT_MANY", ["b", "a"]), ("t4", "SELECT_MANY", ["c", "a"])],
    [("t1", "SELECT_ONE", ["a", "b"]), ("t2", "SELECT_MANY", ["c"]), ("t3", "SELECT_ONE", ["d"]), ("t4", "SELECT_ONE", ["e", "f", "b"])],
    [("t1", None, ["select-one", "a", "b"]), ("t2", "SELECT_MANY", ["c"])],
    [("t1", None, ["SELECTONE", "a", "b"]), ("t2", "SELECT_MANY", ["c"])],
]


def optseqs(n):
    for k in range(1, n + 1):
        yield from (list(s) for s in itertools.permutations(WORDS, k))


def names(words, n):
    for k in range(n + 1):
        for s in itertools.product(words, repeat=k):
            yield "_".join(s)


def cases(tier):
    deep = tier == "thorough"
    for t in ("SELECT_ONE", "SELECT_MANY", None):
        for o in optseqs(3):
            yield ["files", [["f1", t, o]], 3, 0]
    for t1, t2 in itertools.product(("SELECT_ONE", "SELECT_MANY", None), repeat=2):
        if t1 is None and t2 is None:
            continue
        for o1 in optseqs(2):
            for o2 in optseqs(2):
                if t1 == "SELECT_MANY" and t2 == "SELECT_MANY" and len(o1) + len(o2) < 4 and not deep:
                    continue
                yield ["files", [["f1", t1, o1], ["f2", t2, o2]], 2, len(o1)]
    for i in range(len(FILES)):
        for deco in range(3):
            yield ["files", FILES[i], 3 if not deep else 4, deco]
    for i in range(len(FILES)):
        for first in range(NBN):
            yield ["seq", i, first, 3 if not deep else 4]
    if deep:
        for ts in itertools.product(("SELECT_ONE", "SELECT_MANY"), repeat=3):
            for o in itertools.permutations(WORDS, 4):
                yield ["files", [["f1", ts[0], [o[0]]], ["f2", ts[1], [o[1]]], ["f3", ts[2], [o[2], o[3]]]], 3, 1]
    for f in flag_files():
        yield ["repo", f]
    for n in (5, 20, 60):
        for t in ("SELECT_ONE", "SELECT_MANY"):
            for shape in range(4):
                yield ["many", n, t, shape]


def flag_files():
    """The flag files of the repository."""
    root = os.environ["VERIF_SRC"]
    for f in repo_files(root):
        if f.endswith("supported-config-flags.ini"):
            yield f


NBN = 6


def show(case):
    if case[0] == "files":
        return {"flags": case[1], "build names": f"all of up to {case[2]} words"}
    return case


def render(flags, deco=0):
    out = ["[configure-flags]"]
    for i, (f, t, opts) in enumerate(flags):
        lines = ([t] if t else []) + list(opts)
        if deco == 0:
            out.append(f"{f}:  {lines[0]}")
            out += ["    " + x for x in lines[1:]]
        elif deco == 1:
            out.append(f"{f} = {lines[0]}   # the type")
            out.append("  # a comment line")
            for x in lines[1:]:
                out += [f"  {x} # {flags[0][2][0]} is the first", ""]
        else:
            out.append(f"{f}:")
            for x in lines:
                out.append(f"      {x}# comment")
    return "\n".join(out) + "\n"


def model(flags, build):
    """The selected options, or the set of what may be raised."""
    keys = [f for f, _t, _o in flags]
    every = []
    bad = set()
    for f, t, o in flags:
        try:
            kw.values_of([[x, x] for x in ([t] if t else []) + list(o)], keys)
        except kw.Bad:
            bad.add("exit")
        if t is None:
            bad.add("value")
        every += o
    if len(set(every)) != len(every):
        bad.add("exit")
    have = build.split("_")
    sel = []
    for f, t, o in flags:
        hit = [x for x in o if x in have]
        if not hit:
            sel.append((f, o[0]))
        elif len(hit) == 1:
            sel.append((f, hit[0]))
        elif t == "SELECT_ONE":
            bad.add("value")
        else:
            sel.append((f, sorted(hit)))
    return bad or sel


def as_str(sel):
    return "".join(f"_{x}" for _f, v in sel for x in (v if isinstance(v, list) else [v]))


def expect(cx, p, want, what, q):
    with capture():
        r = outcome(lambda: p.selected_options if q == "o" else p.selected_options_str)
    cx.step()
    if isinstance(want, set):
        cx.check("exit" in want and kw.is_exit(r) or "value" in want and r[0] == "raise" and isinstance(r[1], ValueError),
                 "{}: got {!r}, expected an error ({})", what, r, sorted(want))
    else:
        cx.check(r[0] == "ok", "{}: got {!r}, expected {!r}", what, r, want)
        if q == "o":
            cx.equal(list(r[1].items()), want, what)
        else:
            cx.equal(r[1], as_str(want), what + " as a string")
    cx.trace((q, sorted(want) if isinstance(want, set) else want))


def run(case, cx):
    kind = case[0]
    if kind == "files":
        _k, flags, n, deco = case
        path = cx.write(render(flags, deco % 3))
        voc = []
        for _f, _t, o in flags:
            voc += [x for x in o if x not in voc]
        voc = voc[:6] + [x for x in OTHER if x not in voc][: 5 if len(voc) < 4 else 2]
        p = ConfigKeywordParser("", path)
        for b in names(voc, n):
            want = model(flags, b)
            p.build_name = b
            expect(cx, p, want, f"flags {flags!r}, build name {b!r}", "o")
            expect(cx, p, want, f"flags {flags!r}, build name {b!r}", "s")
            cx.state(flags, b)
        q = ConfigKeywordParser(b, path)
        expect(cx, q, want, f"flags {flags!r}, build name {b!r}, new object", "s")
        if isinstance(want, list):
            seen = set()
            for b in names(voc, 2):
                want = model(flags, b)
                if isinstance(want, list) and as_str(want) not in seen:
                    seen.add(as_str(want))
                    for s in (as_str(want), "env-1.0" + as_str(want), "system_" + as_str(want)[1:]):
                        expect(cx, ConfigKeywordParser(s, path), want, f"flags {flags!r}, build name {s!r} (the options string of {b!r})", "o")
        for _f, t, o in flags:
            if not isinstance(want, list):
                break
            for i, x in enumerate(o):
                cx.equal(q.is_default_option(x), i == 0, f"flags {flags!r}: is_default_option({x!r})")
        return
    if kind == "repo":
        path = os.path.join(os.environ["VERIF_SRC"], case[1])
        flags = []
        for o in read_plain([open(path, encoding="utf-8").read()])["configure-flags"]:
            vals = [x.split("#")[0].strip() for x in (o[2] or "").split("\n")]
            vals = [x for x in vals if x]
            t = vals.pop(0) if vals and vals[0] in kw.SELECT else None
            if not vals:
                return
            flags.append([o[1], t, vals])
        words = [x for _f, _t, o in flags for x in o]
        p = ConfigKeywordParser("", path)
        for b in itertools.chain([""], words, map("_".join, itertools.permutations(words, 2)), ["x_" + "_".join(words)]):
            p.build_name = b
            want = model(flags, b)
            expect(cx, p, want, f"file {case[1]}, build name {b!r}", "o")
            expect(cx, p, want, f"file {case[1]}, build name {b!r}", "s")
            cx.state(case[1], b)
        return
    if kind == "seq":
        flags = FILES[case[1]]
        path = cx.write(render(flags))
        o = [x for f in flags for x in f[2]]
        bns = ["", o[1 % len(o)], "_".join(o[:2]), "x_" + o[-1], "_".join(reversed(o)), "_".join(o[i] for i in range(0, len(o), 2))]
        ops = ["", "o", "s", "os", "mo"]
        for q0 in ops:
            for rest in itertools.product(range(NBN), repeat=case[3] - 1):
                p = ConfigKeywordParser(bns[case[2]], path)
                for n, bi in enumerate((case[2],) + rest):
                    if n:
                        p.build_name = bns[bi]
                    want = model(flags, bns[bi])
                    for q in (q0 if n < case[3] - 1 else "os"):
                        what = f"flags {flags!r}, build names {[bns[x] for x in (case[2],) + rest[:n]]!r}, queried {q0!r} after each"
                        if q == "m":
                            with capture():
                                outcome(p.parse_selected_options)
                            continue
                        expect(cx, p, want, what, q)
                    cx.state(case[1], case[2], rest[:n], q0)
                cx.equal(p.build_name, bns[bi], "build_name")
        return
    if kind == "many":
        _k, n, t, shape = case
        o = [f"o{(i * 7) % n}" for i in range(n)] if n % 7 else [f"o{i}" for i in range(n)][::-1]
        flags = [["first", "SELECT_ONE", ["z1", "z2"]], ["many", t, o]]
        path = cx.write(render(flags, shape % 3))
        for b in ("", o[n - 1], o[0], f"{o[n - 1]}_{o[1]}", "_".join(o), "_".join(o[::-1]), "z2_" + "_".join(f"x{i}" for i in range(n)), "oo1_o1o_o", f"z1_z2_{o[0]}"):
            want = model(flags, b)
            expect(cx, ConfigKeywordParser(b, path), want, f"{n} options, build name {b!r}", "o")
            expect(cx, ConfigKeywordParser(b, path), want, f"{n} options, build name {b!r}", "s")
            cx.state(n, t, shape, b)
