"""C14: handler return codes are enforced."""
import itertools

from vlib import rec
from vlib.engine import capture, outcome
from vlib.ini import DEFAULT, expand, kv, opt, render, sections, use

BOUNDS = {
    "quick": "20 return values x 11 call positions in 3 files (initialize, finalize, DEFAULT, used sections at 3 depths, repeated visits) x public/"
             "private x levels 0-5 x silent x compact, through parse and read; all pairs of positions x 6 x 6 values x levels",
    "thorough": "as quick, pairs with all 20 x 20 values",
}
ASSUMPTIONS = ["handlers are wrapped with operation_handler"]
GOOD = [0, False]
WARN = [1, 2, 5, 9, 10, -1, -5, -100, True]
FATAL = [11, 12, 20, 100, 255, 256, 10 ** 12]
WRONG = [None, "0", "", 0.0, 1.5, [], {}]
VALUES = GOOD + WARN + FATAL + WRONG
PAIR = [0, 1, 10, 11, None, -5]


def op(n):
    return opt(f"op {n}: v", f"op {n}", "v", "op", [str(n)])


FILES = [
    [["A", [op(1), kv("k1", "a"), use("B"), op(2)]], ["B", [op(3), use("C"), kv("k2", "b")]], ["C", [kv("k3", "c"), op(4)]]],
    [[DEFAULT, [op("d"), kv("k0", "d")]], ["A", [use("C"), op(1), use("B")]], ["B", [use("C"), kv("k1", "b")]], ["C", [op(4)]]],
    [["A", [op(1), use("B")]], ["B", [use("A"), op(3), op(5)]], ["C", [kv("k", "v")]]],
]


def names(fi):
    return ["initialize"] + [o[1][3:] for _, b in FILES[fi] for o in b if o[3] == "op"] + ["finalize"]


def cases(tier):
    for fi in range(3):
        for kind in ("public", "private"):
            for vi in range(len(VALUES)):
                for n in names(fi):
                    yield [fi, kind, {n: vi}]
    vals = range(len(VALUES)) if tier == "thorough" else [VALUES.index(v) for v in PAIR]
    for fi in range(3):
        for a, b in itertools.combinations(names(fi), 2):
            for va in vals:
                for vb in vals:
                    yield [fi, "public" if fi else "private", {a: va, b: vb}]
    for fi in range(3):
        for vi in range(len(VALUES)):
            yield [fi, "public", {n: vi for n in names(fi)}]


def show(case):
    return {"file": render(FILES[case[0]]), "handlers": case[1], "return values": {k: repr(VALUES[v]) for k, v in case[2].items()}}


def run(case, cx):
    fi, kind, plan = case
    file = FILES[fi]
    secs = sections(file)
    path = cx.write(render(file))
    spec = [["op", kind, True]]
    cls = rec.make_class(spec)
    rv = {k: VALUES[v] for k, v in plan.items()}
    pair = len(plan) == 2

    def hook(name, section, hp):
        n = hp.params[0] if name.endswith("handler_op") else name[8:]
        return rv.get(n, 0)

    for level, silent, compact in itertools.product(range(6), (False, True), (True, False)):
        if pair and (silent or not compact):
            continue
        for root in secs if compact and not silent else ["A"]:
            ev = expand(secs, root)
            full = rec.expected(ev, root, spec)
            cyc = [i for i, e in enumerate(ev) if e[0] == "cycle"]
            if cyc and level == 5:
                continue        # the cycle itself raises
            calls, warns, exc = [], [], None
            for c in full:
                calls.append(c)
                v = rv.get(c[4][0] if c[0].endswith("handler_op") else c[0][8:], 0)
                if not isinstance(v, int):
                    exc = TypeError
                    break
                if v > 10 or (v != 0 and level == 5):
                    exc = RuntimeError
                    break
                if v != 0:
                    warns.append((c[0], str(v)))
            for how in ("parse", "read") if compact and not pair else ("parse",):
                p = cls(path)
                p.hook = hook
                p.exception_control_level = level
                p.exception_control_silent_warnings = silent
                p.exception_control_compact_warnings = compact
                with capture() as out:
                    r = outcome(p.parse_section, root) if how == "parse" else outcome(lambda: dict(p.configparserenhanceddata.options(root)))
                what = f"{how} {root!r}, level {level}, silent {silent}"
                if exc is None:
                    cx.check(r[0] == "ok", "{}: raised {!r}", what, r[1])
                else:
                    cx.check(r[0] == "raise" and type(r[1]) is exc, "{}: expected {}, got {!r}", what, exc.__name__, r)
                    if exc is RuntimeError:
                        cx.check(calls[-1][0] in str(r[1]), "{}: {!r} does not name the handler", what, r[1])
                cx.check(p.calls == calls, "{}: handler calls {!r}, expected {!r}", what, p.calls, calls)
                n = out.text.count("EXCEPTION SKIPPED")
                if level == 0 or silent:
                    cx.check(out.text == "", "{}: printed {!r}", what, out.text[:300])
                elif not cyc:
                    cx.check(n == len(warns), "{}: {} warnings, expected {!r}", what, n, warns)
                if level > 0 and not silent:
                    m = out.text.count("RuntimeError")
                    cx.check(m == len(warns), "{}: {} RuntimeError warnings, expected {!r} in {!r}", what, m, warns, out.text[:800])
                    lines = [x for x in out.text.splitlines() if "RuntimeError" in x]
                    cx.check(not compact or all("WARNING" in x for x in lines), "{}: severity of {!r}", what, lines)
                    cx.check(compact or all(h in out.text for h, v in warns), "{}: {!r} does not name the handlers {!r}", what, out.text[:800], warns)
                if exc is None and not warns and not cyc:
                    cx.check(out.text == "", "{}: all handlers returned 0 but {!r} was printed", what, out.text[:300])
                cx.step(len(calls))
                cx.state(level, silent, root, repr(calls), exc and exc.__name__)
    cx.trace(repr(sorted((k, repr(v)) for k, v in rv.items())))
