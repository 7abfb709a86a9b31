"""C03: each option goes to exactly the right handler, once per visit, in order."""
import itertools
import types

from vlib import graphs, rec, spell
from vlib.cpe import AmbiguousHandlerError, ConfigParserEnhanced
from vlib.engine import capture, outcome
from vlib.ini import contents, expand, kv, opt, render, sections, seqs, use

BOUNDS = {
    "quick": "all files of 2 sections (<=3 and <=2 options out of 9 operation spellings, plus use) x 8 handler sets; every "
             "subset of 7 operations with common prefixes; 48 key spellings x handler kinds; inherited, overridden, mixed-in and instance handlers; all initialize/finalize "
             "flags; DEFAULT; both-handlers case at levels 0-5; use graphs on 3 sections",
    "thorough": "as quick with <=3 options in both sections and all 4-section DAGs",
}
ASSUMPTIONS = ["keys have balanced quotes"]

ALPHA = [
    opt("op-a x: 1", "op-a x", "1", "op_a", ["x"]),
    opt("op_a y", "op_a y", None, "op_a", ["y"]),
    opt("op-a", "op-a", None, "op_a", []),
    opt("op-b 'p q' r = two words", "op-b 'p q' r", "two words", "op_b", ["p q", "r"]),
    opt('op-b "p q":', 'op-b "p q"', "", "op_b", ["p q"]),
    opt("op: v", "op", "v", "op", []),
    opt("initialize: v", "initialize", "v", "initialize", []),
    opt("finalize now", "finalize now", None, "finalize", ["now"]),
    opt("plain-key one: v", "plain-key one", "v", "plain_key", ["one"]),
]
SETS = [
    [],
    [["op_a", "public", True]],
    [["op_a", "private", False]],
    [["op_b", "public", False], ["op_a", "private", True]],
    [["op", "public", True]],
    [["op_a", "public", False], ["op_b", "private", True], ["op", "private", False]],
    [["initialize_x", "public", True], ["op_a", "public", True]],
    [["plain_key", "private", True], ["op", "public", False]],
]
PREFIX = ["op", "op_a", "op_a_b", "Op", "op_", "op__a", "_op"]


def cases(tier):
    big = tier == "thorough"
    # one section, all handler sets, all flags
    for body in seqs(ALPHA, 2):
        for spec in SETS:
            yield ["flags", [["A", body]], spec]
    # every spelling of a key, with and without a handler of that name
    for k in spell.KEYS:
        if k[1] is None:
            continue
        for v in (None, ("v", "v"), ("", ""), ('"q r"', "q r"), ("a\n  b", "a\nb")):
            o = spell.make(k, ": ", v)
            f = [["A", [kv("z", "1"), o, kv("y", "2")]], ["B", [use("A"), kv("x", "3")]]]
            for spec in spelled_specs(k[1]):
                yield ["flags", f, spec]
    # operations whose names are prefixes of each other: every subset of handlers
    body = [opt("op 1: a", "op 1", "a", "op", ["1"]), opt("op-a 2: b", "op-a 2", "b", "op_a", ["2"]),
            opt("op-a-b 3: c", "op-a-b 3", "c", "op_a_b", ["3"]), opt("Op 4: d", "Op 4", "d", "Op", ["4"]),
            opt("op- 5: e", "op- 5", "e", "op_", ["5"]),
            opt("op--a 6: f", "op--a 6", "f", "op__a", ["6"]), opt("-op 7: g", "-op 7", "g", "_op", ["7"])]
    for r in range(len(PREFIX) + 1):
        for sub in itertools.combinations(PREFIX, r):
            for kinds in itertools.product(("public", "private"), repeat=min(r, 2)):
                spec = [[o, kinds[i % len(kinds)], i % 2 == 0] for i, o in enumerate(sub)]
                for rot in range(len(body)):
                    yield ["flags", [["A", body[rot:] + body[:rot]]], spec]
    # both a public and a private handler
    for body in seqs(ALPHA[:1] + ALPHA[5:6] + ALPHA[8:], 3):
        for d in (True, False):
            yield ["both", [["A", body + [use("B")]], ["B", body]], [["op_a", "both", d]]]
            yield ["both", [["A", body]], [["op", "both", d], ["op_a", "public", True]]]
    # inherited and overridden handlers, a mixin
    for how in ("inherit", "override", "mixin", "deep", "instance"):
        for f in graphs.small_graphs("AB", 2):
            f = [[n, [ALPHA[0]] + b] for n, b in f]
            yield [how, f, [["op_a", "public", True], ["k1", "private", True]]]
    # files of two sections
    uses = [use("B")]
    for spec in SETS[1:] if big else SETS[1:6:2]:
        for a in seqs(ALPHA[:6] + uses, 3 if big else 2):
            for b in seqs(ALPHA[:5] + [use("A")], 2):
                yield ["flags" if len(a) + len(b) < 3 else "plain", [["A", a], ["B", b]], spec]
    # use graphs, with and without a default section: handlers see every visit
    spec = [["k1", "public", True], ["k2", "private", False]]
    for f in graphs.small_graphs("AB", 2, default_len=2):
        yield ["plain", f, spec]
    for f in graphs.small_graphs("ABC", 2, keys=1):
        yield ["plain", f, spec]
    for f in graphs.positions(4):
        yield ["flags", f, spec]
    for f in graphs.scaling(chain=(5, 20), width=(5, 20), options=(5, 100), diamond=(3, 5)):
        yield ["plain", f, spec]
        yield ["plain", f, [["only1", "public", True], ["p0", "public", True], ["p99", "public", True], ["k1", "public", True]]]
    if big:
        for f in graphs.dags("ABCD"):
            yield ["plain", f, spec]


def spelled_specs(op):
    if op in ("initialize", "finalize"):
        return [[], [["other", "public", True]]]
    return [[], [[op, "public", True]], [[op, "public", False]], [[op, "private", True]], [[op + "x", "public", True]],
            [[op.swapcase(), "public", True]] if op.swapcase() not in (op, "use") else []]


def show(case):
    return {"mode": case[0], "file": render(case[1])[:1500], "handlers": case[2]}


def run(case, cx):
    mode, file, spec = case
    secs = sections(file)
    path = cx.write(render(file))
    hs = rec.handled(spec)
    if mode == "both":
        return both(cx, path, secs, spec, hs)
    cls = rec.make_class(spec)
    if mode == "inherit":
        cls = type("Child", (cls,), {})
    elif mode == "override":
        parent = cls
        cls = type("Child", (parent,), {"handler_op_a": rec.method("handler_op_a", False)})
    elif mode == "mixin":
        mix = type("Mix", (), {"handler_op_a": rec.method("handler_op_a", True)})
        cls = type("Child", (mix, rec.make_class(spec[1:])), {})
    elif mode == "deep":
        for i in range(5):
            cls = type("Child%d" % i, (cls,), {})
    elif mode == "instance":        # a method that only this parser has
        plain = rec.make_class(spec[1:])

        def cls(path):
            p = plain(path)
            p.handler_op_a = types.MethodType(rec.method("handler_op_a", True), p)
            return p
    flags = [(True, True)] if mode != "flags" else [(True, True), (False, True), (True, False), (False, False)]
    for root in secs:
        for ini, fin in flags:
            p = cls(path)
            p.exception_control_silent_warnings = True
            ev = expand(secs, root, initialize=ini)
            with capture() as out:
                if (ini, fin) == (True, True):
                    r = outcome(p.parse_section, root)
                else:
                    r = outcome(p.parse_section, root, initialize=ini, finalize=fin)
                cx.check(r[0] == "ok", "parse_section({!r}) raised {!r}", root, r[1])
                want = rec.expected(ev, root, spec, ini, fin)
                if p.calls != want:
                    cx.check(False, "handler calls of {!r} (initialize={}, finalize={}): got {!r}, expected {!r}", root,
                             ini, fin, p.calls, want)
                n = len(p.calls)
                data = contents(ev, hs)
                got = outcome(lambda: list(p.configparserenhanceddata.options(root).items()))
                cx.check(got == ("ok", list(data.items())), "data of {!r}: got {!r}, expected {!r}", root, got, data)
                cx.check(len(p.calls) == n, "reading the parsed section {!r} called handlers again", root)
                if (ini, fin) == (True, True):
                    q = cls(path)       # the same through a read
                    q.exception_control_silent_warnings = True
                    got = outcome(lambda: q.configparserenhanceddata.get(root))
                    cx.check(got == ("ok", data), "get({!r}): got {!r}, expected {!r}", root, got, data)
                    cx.check(q.calls == want, "handler calls of a read of {!r}: got {!r}, expected {!r}", root, q.calls, want)
            cx.check(out.text == "", "printed {!r}", out.text[:300])
            cx.step(len(ev))
            cx.state(root, repr(want), tuple(data.items()))
            cx.trace(repr(want))


def both(cx, path, secs, spec, hs):
    cls = rec.make_class(spec)
    amb = {s[0] for s in spec if s[1] == "both"}
    for level in range(6):
        for root in secs:
            p = cls(path)
            p.exception_control_level = level
            p.exception_control_compact_warnings = True
            ev = expand(secs, root)
            n = next((i for i, e in enumerate(ev) if e[0] == "opt" and e[2][3] in amb), None)
            with capture() as out:
                r = outcome(p.parse_section, root)
            if n is not None and level >= 3:
                cx.check(r[0] == "raise" and isinstance(r[1], AmbiguousHandlerError),
                         "level {}: expected AmbiguousHandlerError, got {!r}", level, r)
                want = rec.expected(ev[:n], root, spec, True, False)
                warns = 0
            else:
                cx.check(r[0] == "ok", "level {}: parse_section raised {!r}", level, r[1])
                want = rec.expected(ev, root, spec)
                warns = 0 if level == 0 else sum(1 for e in ev if e[0] == "opt" and e[2][3] in amb)
                data = contents(ev, hs)
                got = outcome(lambda: dict(p.configparserenhanceddata.options(root)))
                cx.check(got == ("ok", data), "data: got {!r}, expected {!r}", got, data)
            cx.check(p.calls == want, "level {}: handler calls {!r}, expected {!r}", level, p.calls, want)
            lines = [x for x in out.text.splitlines() if "EXCEPTION SKIPPED" in x]
            cx.check(len(lines) == warns and all("SERIOUS" in x and "AmbiguousHandlerError" in x for x in lines),
                     "level {}: warnings {!r}, expected {}", level, lines, warns)
            cx.step(len(ev))
            cx.state(level, root, repr(want))
            cx.trace((level, r[0], repr(want)))
