"""C02: every use graph terminates; cycles are cut and reported once each."""
import itertools

from vlib import graphs, rec
from vlib.engine import capture, outcome
from vlib.ini import contents, expand, kv, opt, render, sections, seqs, use

BOUNDS = {
    "quick": "all graphs on 2 sections (<=2 options), on DEFAULT+2 and on 3 sections (<=2 options each), all roots; "
             "levels 0-5 x silent x compact on the small ones, 7 settings on the others; rings, complete graphs, "
             "back edges at every depth up to 60; 4 families of similar section names",
    "thorough": "as quick, all settings everywhere, <=3 options in DEFAULT+2 sections, <=2 uses per section on 4 sections",
}
ASSUMPTIONS = ["`use` names a section that exists"]
SPEC = [["mark", "public", True]]
ALL = [[lv, s, c] for lv in range(6) for s in (False, True) for c in (False, True)]
SOME = [[0, False, False], [1, False, False], [3, False, True], [4, False, False], [4, True, False], [5, False, False],
        [5, True, True]]


def mark(sec):
    return opt(f"mark {sec}: {sec}", f"mark {sec}", sec, "mark", sec.split())


def bodies(sec, targets, maxlen):
    return list(seqs([kv("k", "v" + sec), mark(sec)] + [use(t) for t in targets], maxlen))


def only_uses(sec, targets, maxlen):
    for b in seqs([use(t) for t in targets], maxlen):
        yield [mark(sec)] + b


def product(names, per, dflt=None):
    for c in itertools.product(*per):
        yield [[n, b] for n, b in zip(names, c)]


def rings(sizes):
    for n in sizes:
        names = [f"Sec{i}" for i in range(n)]
        for back in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
            f = []
            for i, s in enumerate(names):
                b = [mark(s), kv("k", s)]
                b.append(use(names[i + 1] if i + 1 < n else names[back]))
                b.append(kv(f"after{i}", s))
                f.append([s, b])
            yield f
    for n in (2, 3, 4, 5):
        names = [f"Sec{i}" for i in range(n)]
        yield [[s, [mark(s)] + [use(t) for t in names] + [kv("k", s)]] for s in names]
        yield [["DEFAULT", [mark("DEFAULT")] + [use(t) for t in names]]] + \
              [[s, [use("DEFAULT"), mark(s)] + [use(t) for t in names]] for s in names[:3]] + \
              [[s, [mark(s)]] for s in names[3:]]


def cases(tier):
    big = tier == "thorough"
    A, B, C = "SecA", "SecB", "SecC"
    for f in product([A, B], [bodies(n, [A, B], 2) for n in (A, B)]):
        yield [f, ALL]
    for f in rings((1, 2, 3, 4, 5, 8, 20, 60)):
        yield [f, ALL if big else SOME]
    n3 = ["DEFAULT", A, B]
    for f in product(n3, [list(only_uses(n, n3, 2)) for n in n3]):
        yield [f, ALL]
    n3 = [A, B, C]
    for f in product(n3, [list(only_uses(n, n3, 2)) for n in n3]):
        yield [f, ALL]
    for n3 in (["DEFAULT", A, B], [A, B, C]):
        for f in product(n3, [[b for b in bodies(n, n3, 2) if big or mark(n) not in b] for n in n3]):
            yield [f, ALL if big else SOME]
    # names that are equal but for case, prefixes of each other, or differ in one character
    for n3 in (["Sec", "sec", "SEC"], ["S1", "S11", "S111"], ["S-1", "S_1", "S 1"], ["Default", "DEFAULT", "DEFAULT2"]):
        for f in product(n3, [list(only_uses(n, n3, 2)) for n in n3]):
            yield [f, SOME if big else [[4, False, False], [5, False, False]]]
    if big:
        n3 = ["DEFAULT", A, B]
        for f in product(n3, [list(seqs([mark(n)] + [use(t) for t in n3], 3)) for n in n3]):
            yield [f, SOME]
        n4 = [A, B, C, "SecD"]
        for f in product(n4, [list(only_uses(n, n4, 2)) for n in n4]):
            yield [f, [[4, False, False], [5, False, False]]]


def show(case):
    return {"file": render(case[0])[:1500], "settings": case[1][:3]}


def run(case, cx):
    file, settings = case
    secs = sections(file)
    path = cx.write(render(file))
    cls = rec.make_class(SPEC)
    plans = {}
    for root in secs:
        ev = expand(secs, root)
        cut = [e for e in ev if e[0] == "cycle"]
        plans[root] = (ev, contents(ev, {"mark"}), rec.expected(ev, root, SPEC), cut)
    for level, silent, compact in settings:
        p = cls(path)
        p.exception_control_level = level
        p.exception_control_silent_warnings = silent
        p.exception_control_compact_warnings = compact
        for root, (ev, data, calls, cut) in plans.items():
            p.calls = []
            with capture() as out:
                r = outcome(lambda: dict(p.configparserenhanceddata.options(root)))
            cx.step(len(ev) + 1)
            cx.trace((level, silent, len(cut), r[0]))
            what = f"section {root!r} at level {level} (silent {silent}, compact {compact})"
            if level == 5 and cut:
                cx.check(r[0] == "raise" and isinstance(r[1], ValueError),
                         "{}: a cycle must raise ValueError, got {!r}", what, r)
                named(cx, str(r[1]), cut[0], what)
                n = ev.index(cut[0])
                want = rec.expected(ev[:n], root, SPEC, True, False)
                cx.equal(p.calls, want, what + ": handler calls before the cycle")
                warned(cx, out.text, [], what, compact)
                continue
            cx.check(r == ("ok", data), "{}: got {!r}, expected {!r}", what, r, data)
            if p.calls != calls:
                cx.equal(p.calls, calls, what + ": sections visited")
            warned(cx, out.text, [] if level == 0 or silent else cut, what, compact)
            cx.state(root, tuple(data.items()), len(cut), level, silent, compact)


def named(cx, text, cut, what):
    cx.check(cut[1] in text and cut[2] in text, "{}: the report of the cycle {}->{} does not name both sections: {!r}",
             what, cut[1], cut[2], text)


def warned(cx, text, cuts, what, compact):
    parts = text.split("EXCEPTION SKIPPED")[1:]
    cx.check(len(parts) == len(cuts), "{}: {} warnings printed, {} links are cut", what, len(parts), len(cuts))
    if not cuts:
        cx.check(text == "", "{}: printed {!r}", what, text[:500])
    for part, cut in zip(parts, cuts):
        cx.check("WARNING" in part and "ValueError" in part, "{}: warning without severity or exception: {!r}", what,
                 part[:300])
        if not compact:
            named(cx, part.split("Call Stack")[0], cut, what)
