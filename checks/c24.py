"""C24: keyword values are exactly the uncommented words, validated."""
import itertools

from vlib import env, kw
from vlib.engine import capture, outcome
import keywordparser
env.from_tree(keywordparser)
from keywordparser import KeywordParser  # noqa: E402

BOUNDS = {
    "quick": "every value block of up to 3 lines over 32 kinds of lines, with the first line on the key's line or below it, ':' or '=', 2 indentations; "
             "every section of 2 keys with up to 2 lines each over 18 kinds of lines (2 and 1) and of 3 keys with 1 line each, every lookup in it; "
             "sections built with use and DEFAULT; pairs of queries on one object in every order; blocks of 10 to 300 lines; a duplicate at every pair of positions and a bad line at every position of 2 to 7 lines",
    "thorough": "as quick with blocks of up to 4 lines over 18 kinds of lines and sections of 2 keys with 2 lines each",
}
ASSUMPTIONS = ["values contain no double quotes; a value is listed under one key only where values are looked up"]

# how a value line is written -> the value it stands for
L = [
    ["v1", "v1"], ["v1  # a comment", "v1"], ["v2# no blank before", "v2"], ["", None], ["# only a comment", None], ["v2 # one # two", "v2"], ["v3\t# tab", "v3"], ["v-3.0", "v-3.0"],
    ["a b", "a b"], ["a_b", "a_b"], ["SELECT_ONE", "SELECT_ONE"], ["SELECT_MANY  # type", "SELECT_MANY"], ["k2", "k2"], ["k1 # a key", "k1"],
    ["^v1", "^v1"], ["v^1", "v^1"], ["v2^ # caret", "v2^"], ["v1 v1", "v1 v1"], ["a\tb", "a\tb"], ["a\u00a0b", "a\u00a0b"], ["_", "_"], ["v1_", "v1_"], ["; semicolon comment", None],
    ["V1", "V1"], ["x=1", "x=1"], ["x:y", "x:y"], ["v%%1", "v%1"], ["SELECT_TWO", "SELECT_TWO"], ["SELECT_ONE_x", "SELECT_ONE_x"], ["xSELECT_MANY", "xSELECT_MANY"], ["#", None], ["\u00e9t\u00e9 # \u00e9", "\u00e9t\u00e9"],
]
SMALL = [0, 1, 3, 4, 5, 7, 8, 9, 10, 12, 13, 15]
MID = SMALL + [2, 6, 11, 14, 18, 22]


def first_ok(line):
    """A comment line of the file itself (starting with ';') is one only on a line of its own."""
    return not line[0].startswith(";") and line[0] != ""


def cases(tier):
    n = len(L)
    for first, delim, indent in ((1, ":", "    "), (0, ":", "  "), (1, " =", "\t")):
        for i in range(n):
            yield ["block", first, delim, indent, [], 1, i]
        for i in range(n):
            if not first or first_ok(L[i]):
                yield ["block", first, delim, indent, [i], n, None]
        if delim == " =":
            continue
        for i, j in itertools.product(range(n), repeat=2):
            if not first or first_ok(L[i]):
                yield ["block", first, delim, indent, [i, j], n, None]
    sub = MID
    if tier == "thorough":
        for i, j, k in itertools.product(MID, repeat=3):
            if first_ok(L[i]):
                yield ["block", 1, ":", "    ", [i, j, k], n, None]
    for a in seqs(sub, 2):
        for b in seqs(sub, 1 if tier == "quick" else 2):
            yield ["two", a, b]
            yield ["two", b, a]
    for t in itertools.product(SMALL, repeat=3):
        yield ["three", list(t)]
    for n in (10, 30, 100, 300):
        for shape in range(5):
            yield ["long", n, shape]
    for n in range(2, 8):       # every pair of positions of a duplicate, every position of another bad line
        for i, j in itertools.combinations(range(n), 2):
            yield ["pos", n, i, j]
        for i in range(n):
            for k in (8, 9, 12, 18):
                yield ["pos", n, i, -k]
    for shape in range(12):
        yield ["use", shape]
    for a in seqs(SMALL[:8], 2):
        yield ["again", a]
    yield ["novalue"]


def seqs(alpha, maxlen):
    for n in range(maxlen + 1):
        for s in itertools.product(alpha, repeat=n):
            yield list(s)


def show(case):
    if case[0] == "block":
        return {"block": [L[i][0] for i in case[4]], "then": "every kind of line"}
    if case[0] == "two":
        return {"k1": [L[i][0] for i in case[1]], "k2": [L[i][0] for i in case[2]]}
    return case


def expect_values(cx, p, sec, key, lines, keys):
    try:
        want = kw.values_of(lines, keys)
    except kw.Bad as ex:
        want = ex
    with capture():
        r = outcome(p.get_values_for_section_key, sec, key)
    cx.step()
    what = f"values of {key!r} written as {[t for t, _ in lines]!r}"
    if isinstance(want, kw.Bad):
        cx.check(kw.is_exit(r), "{}: got {!r}, expected an error exit ({})", what, r, want)
    else:
        cx.check(r[0] == "ok", "{}: got {!r}, expected {!r}", what, r, want)
        cx.equal(r[1], want, what)
    cx.state(key, [t for t, _ in lines], str(want))
    cx.trace(str(want))
    return r


def expect_key(cx, p, sec, model, value):
    try:
        want = kw.key_of(model, value)
    except kw.Bad as ex:
        want = ex
    with capture():
        r = outcome(p.get_key_for_section_value, sec, value)
    cx.step()
    what = f"key of {value!r} in {dict((k, [t for t, _ in v]) for k, v in model.items())!r}"
    if isinstance(want, kw.Bad):
        # a lookup may stop at the key that lists the value, before it sees an invalid one
        ok = r[0] == "ok" and r[1] is not None and found_before_error(model, value) == r[1]
        cx.check(ok or kw.is_exit(r), "{}: got {!r}, expected an error exit ({})", what, r, want)
    else:
        cx.check(r == ("ok", want), "{}: got {!r}, expected {!r}", what, r, want)
    cx.trace((value, str(want)))


def found_before_error(model, value):
    try:
        for k, lines in model.items():
            if value in kw.values_of(lines, model):
                return k
    except kw.Bad:
        pass
    return None


def write(cx, secs, first=True, delim=":", indent="    "):
    out = []
    for name, opts in secs:
        out.append(f"[{name}]")
        for o in opts:
            if isinstance(o, str):
                out.append(o)
            else:
                lines = o[1]
                f = first and (not lines or first_ok(lines[0]))
                out += kw.render_key(o[0], lines, f, delim, indent)
    return cx.write("\n".join(out) + "\n")


PROBES = ["v1", "v2", "v-3.0", "k1", "nothing", "SELECT_ONE", "v^1", "", "V1", "V-3.0", "v", "v1 ", "K1", "select_one"]


def lookups(cx, p, sec, model):
    try:
        flat = [v for k in model for v in kw.values_of(model[k], model)]
    except kw.Bad:
        flat = []
    for v in sorted(set(flat) | set(PROBES)):
        if flat.count(v) < 2:
            expect_key(cx, p, sec, model, v)


def run(case, cx):
    kind = case[0]
    if kind == "block":
        _k, first, delim, indent, pre, n, only = case
        lasts = range(len(L)) if only is None else [only]
        secs = []
        for j in lasts:
            lines = [L[i] for i in pre] + [L[j]]
            if first and not pre and not first_ok(L[j]):
                continue
            secs.append((f"s{j}", lines))
        if not secs:
            return
        p = KeywordParser(write(cx, [(s, [("k1", ls), ("k2", [["other", "other"]])]) for s, ls in secs], first, delim, indent))
        for s, ls in secs:
            expect_values(cx, p, s, "k1", ls, ["k1", "k2"])
            expect_values(cx, p, s, "k2", [["other", "other"]], ["k1", "k2"])
        return
    if kind in ("two", "three"):
        ls = [[L[i] for i in x] for x in case[1:]] if kind == "two" else [[L[i]] for i in case[1]]
        model = {f"k{i + 1}": x for i, x in enumerate(ls)}
        p = KeywordParser(write(cx, [("s", list(model.items()))]))
        lookups(cx, p, "s", model)
        for k in model:
            expect_values(cx, p, "s", k, model[k], model)
        return
    if kind == "long":
        n, shape = case[1:]
        lines = [[f"v-{i}" + ("  # c" if i % 3 == shape else ""), f"v-{i}"] for i in range(n)]
        if shape == 1:
            lines.append(["v-0", "v-0"])                      # duplicate of the first
        elif shape == 2:
            lines.insert(n // 2, ["v-x y", "v-x y"])
        elif shape == 3:
            lines = [x for y in lines for x in (y, ["# c", None])]
        elif shape == 4:
            lines = [["", None]] * 3 + [["x" * n, "x" * n]] + lines
        model = {"k0": lines, "k1": [["w", "w"]]}
        p = KeywordParser(write(cx, [("s", list(model.items()))]))
        expect_values(cx, p, "s", "k0", lines, model)
        lookups(cx, p, "s", {k: v for k, v in model.items()}) if n <= 30 else expect_key(cx, p, "s", model, f"v-{n - 1}")
        return
    if kind == "pos":
        _, n, i, j = case
        lines = [[f"w{x}", f"w{x}"] for x in range(n)]
        if j < 0:
            lines[i] = L[-j]
        else:
            lines[j] = [f"w{i} # again", f"w{i}"]
        model = {"k1": [["a", "a"]], "k2": lines, "k3": []}
        p = KeywordParser(write(cx, [("s", list(model.items()))]))
        for k in model:
            expect_values(cx, p, "s", k, model[k], model)
        expect_key(cx, p, "s", model, f"w{n - 1}")
        expect_key(cx, p, "s", model, "a")
        return
    if kind == "use":
        a, b, c, d = ["a1", "a1"], ["b1 # c", "b1"], ["c1", "c1"], ["A", "A"]
        shapes = [
            ([("A", [("k1", [a])]), ("s", [("k2", [b]), "use A"])], {"k2": [b], "k1": [a]}),
            ([("A", [("k1", [a])]), ("s", ["use A", ("k1", [b])])], {"k1": [b]}),
            ([("A", [("k1", [b])]), ("s", [("k1", [a]), "use A"])], {"k1": [b]}),
            ([("DEFAULT", [("k1", [a])]), ("s", [("k2", [b])])], {"k1": [a], "k2": [b]}),
            ([("DEFAULT", [("k1", [a])]), ("s", [("k1", [b, c])])], {"k1": [b, c]}),
            ([("A", [("k1", [a])]), ("B", ["use A", ("k3", [d])]), ("s", ["use B", ("k2", [c])])], {"k1": [a], "k3": [d], "k2": [c]}),
            ([("A", [("x", [["k2", "k2"]])]), ("s", ["use A", ("k2", [c])])], {"x": [["k2", "k2"]], "k2": [c]}),
            ([("A", [("k2", [a])]), ("s", [("x", [["k2", "k2"]]), "use A"])], {"x": [["k2", "k2"]], "k2": [a]}),
            ([("A", ["use s", ("k1", [a])]), ("s", [("k2", [b]), "use A"])], {"k2": [b], "k1": [a]}),
            ([("A", [("k1", [a])]), ("s", ["use A"])], {"k1": [a]}),
            ([("A", [("k1", [a])]), ("s", [("A", [b])])], {"A": [b]}),
            ([("A", [("k1", None)]), ("s", ["use A", ("k2", [])])], {"k1": [], "k2": []}),
        ]
        secs, model = shapes[case[1]]
        p = KeywordParser(write(cx, secs))
        lookups(cx, p, "s", model)
        for k in model:
            expect_values(cx, p, "s", k, model[k], model)
        return
    if kind == "again":
        lines = [L[i] for i in case[1]]
        model = {"k1": lines, "k2": [["w1", "w1"], ["w2", "w2"]]}
        ops = [("v", "k1"), ("v", "k2"), ("l", "w1"), ("l", "v1"), ("l", "nothing")]
        path = write(cx, [("s", list(model.items()))])
        for seq in itertools.product(ops, repeat=3):
            p = KeywordParser(path)
            for op, x in seq:
                if op == "v":
                    r = expect_values(cx, p, "s", x, model[x], model)
                    if r[0] == "ok":
                        r[1].append("added by the caller")
                        r[1].reverse()
                else:
                    expect_key(cx, p, "s", model, x)
        return
    if kind == "novalue":
        model = {"k1": [], "k2": [], "k3": [["v", "v"]]}
        p = KeywordParser(write(cx, [("s", [("k1", None), ("k2", []), ("k3", model["k3"])])]))
        for k in model:
            expect_values(cx, p, "s", k, model[k], model)
        lookups(cx, p, "s", model)
