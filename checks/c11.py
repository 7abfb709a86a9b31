"""C11: handler context: shared data per parse, own fields per call."""
import itertools

from vlib import graphs
from vlib.cpe import ConfigParserEnhanced
from vlib.engine import capture, outcome
from vlib.ini import DEFAULT, Missing, expand, kv, opt, render, sections, seqs, use

BOUNDS = {
    "quick": "files of 2 sections with <=2 and <=2 options out of 5 operations, plain options and use links, with and without DEFAULT; all "
             "use graphs on 2 sections (<=2 options) and DAG families; 8 kinds of handlers (unmodifying, modifying their fields in 4 ways, returning a nonzero value or a failure, none of initialize and finalize); all sequences of 3 parses",
    "thorough": "as quick with <=3 and <=2 options, all graphs on 3 sections, all sequences of 4 parses",
}
ASSUMPTIONS = ["handlers modify data_shared in place and assign or modify op, params, value and raw_option only"]
OPS = {"put": "handler_put", "drop": "_handler_drop", "acc": "handler_acc", "raw": "_handler_raw", "boom": "handler_boom"}
DECO = {"put", "drop", "acc", "boom"}
MUT = ["none", "assign", "inplace", "delete", "result", "rval", "bare", "fail"]


def op(name, n, v="v"):
    return opt(f"{name} {n} 'p q': {v}", f"{name} {n} 'p q'", v, name, [str(n), "p q"])


ALPHA = [op("put", 1), op("put", 2, "w"), op("drop", 1), op("acc", 1), op("raw", 1), kv("plain", "x"), opt("w.x y", "w.x y", None, None)]


def cases(tier):
    big = tier == "thorough"
    nparse = 4 if big else 3
    for mut in MUT:
        for a in seqs(ALPHA + [use("B")], 2):
            yield [mut, [["A", a], ["B", [op("put", 3), op("acc", 2)]]], ["A", "B", "A"]]
    for mut in MUT:
        for a in seqs(ALPHA[:5] + [use("B")], 3 if big else 2):
            for b in seqs(ALPHA[1:6] + [use("A")], 2):
                yield [mut, [["A", a], ["B", b]], ["A", "B"]]
        for d in seqs(ALPHA[:4] + [use("A")], 2):
            yield [mut, [[DEFAULT, d], ["A", [op("put", 1, "a"), use("B"), op("acc", 1)]], ["B", [op("raw", 2), op("acc", 3), use(DEFAULT)]]],
                   ["A", "B", DEFAULT, "A"]]
    reps = [
        [["A", [op("put", 1), use("B"), op("acc", 1)]], ["B", [op("put", 2), op("acc", 2), use("C")]], ["C", [op("drop", 1), op("acc", 3)]]],
        [["A", [op("acc", 1), use("B"), op("acc", 2)]], ["B", [op("acc", 3), use("A"), kv("k", "v")]], ["C", [op("boom", 1)]]],
        [["A", [use("B"), use("C"), op("raw", 1)]], ["B", [op("put", 2), use("C"), op("raw", 2)]], ["C", [op("acc", 1)]]],
        [["A", [op("put", 1), use("nowhere"), op("acc", 1)]], ["B", [op("acc", 2), use("A")]], ["C", [op("put", 3), op("put", 4)]]],
        [[DEFAULT, [op("acc", 0)]], ["A", [op("put", 1), use("B")]], ["B", [op("acc", 2), op("boom", 1), op("acc", 3)]], ["C", []]],
    ]
    for f in reps:
        for seq in itertools.product("ABC", repeat=nparse):
            for mut in MUT:
                yield [mut, f, list(seq)]
    graph = list(graphs.small_graphs("AB", 2)) + list(graphs.small_graphs("AB", 1, default_len=2)) + list(graphs.positions(4))
    if big:
        graph += list(graphs.small_graphs("ABC", 2, keys=1))
    for f in graph:
        f = [[n, [op("acc", n + o[1][1:], o[2]) if o[3] != "use" else o for o in b]] for n, b in f]
        yield ["assign", f, [n for n, _ in f]]
    for f in graphs.scaling(chain=(5, 20), width=(5, 20), options=(5, 60), diamond=(3,)):
        f = [[n, [op("acc", n + o[1], o[2]) if o[3] not in ("use", None) else o for o in b]] for n, b in f]
        for mut in MUT:
            yield [mut, f, [f[0][0], f[-1][0], f[0][0]]]


def show(case):
    return {"handlers modify": case[0], "file": render(case[1])[:1500], "parses": case[2]}


def snap(hp):
    return [hp.handler_name, hp.op, list(hp.params), hp.value, tuple(hp.raw_option), hp.section_root, repr(hp.data_shared)]


def mutate(how, hp):
    if how == "assign":
        hp.op, hp.value, hp.params, hp.raw_option = "changed", None, ["changed"], ("changed", "changed")
        hp.handler_name = "changed"
    elif how == "inplace":
        hp.params.append("changed")
        hp.params[:1] = ["a", "b"]
    elif how == "delete":
        hp.params.clear()
        hp.op, hp.value, hp.raw_option = "", "", (None, None)


def update(shared, name, key, section):
    """What the handlers do to the shared data (used by the handlers and by the model)."""
    if name == "handler_put":
        shared[key] = section
    elif name == "_handler_drop":
        shared.clear()
    elif name in ("handler_acc", "_handler_raw"):
        shared.setdefault("acc", []).append([key, section])
    elif name == "handler_initialize":
        shared["init"] = section
    elif name == "handler_finalize":
        shared["fin"] = len(shared)


def failing(name, key):
    return name == "handler_put" and key.startswith("put 2") or name == "_handler_drop"


class Boom(Exception):
    pass


def build(mut):
    log = []

    def body(name):
        def handler(self, section_name, hp):
            log.append(["call", name, section_name, snap(hp)])
            update(hp.data_shared, name, hp.raw_option[0], section_name)
            if name == "handler_boom":
                raise Boom()
            mutate(mut, hp)
            if name == "_handler_raw" and mut != "none":
                hp.handler_name = "_handler_raw"
            return 3 if mut == "rval" else 11 if mut == "fail" and failing(name, hp.raw_option[0]) else 0
        handler.__name__ = name
        return handler

    ns = {}
    for o, name in OPS.items():
        h = body(name)
        ns[name] = ConfigParserEnhanced.operation_handler(h) if o in DECO else h
    for name in ("handler_initialize", "handler_finalize") if mut != "bare" else ():
        ns[name] = ConfigParserEnhanced.operation_handler(body(name))

    def enter_handler(self, handler_parameters):
        log.append(["enter", None, None, snap(handler_parameters), id(handler_parameters)])
        return ConfigParserEnhanced.enter_handler(self, handler_parameters)

    def exit_handler(self, handler_parameters):
        log.append(["exit", None, None, snap(handler_parameters), id(handler_parameters)])
        return ConfigParserEnhanced.exit_handler(self, handler_parameters)
    ns["enter_handler"] = enter_handler
    ns["exit_handler"] = exit_handler
    return type("Ctx", (ConfigParserEnhanced,), ns), log


def model(events, root, missing, mut):
    """[[name, section, snapshot before], ...], final shared data or the reason of the failure."""
    shared, calls = {}, []

    def call(name, sec, op_, params, value, raw):
        calls.append(["call", name, sec, [name, op_, params, value, raw, root, repr(shared)]])
        update(shared, name, raw[0], sec)

    if mut != "bare":
        call("handler_initialize", root, "", [], "", (None, None))
    for kind, sec, o in events:
        if kind == "use":
            calls.append(["use", sec])
        elif kind == "endu":
            calls.append(["endu", sec])
        elif kind == "opt" and o[3] in OPS:
            call(OPS[o[3]], sec, o[3], list(o[4]), o[2], (o[1], o[2]))
            if o[3] == "boom":
                return calls, Boom
            if mut == "fail" and failing(OPS[o[3]], o[1]):
                return calls, RuntimeError
    if missing:
        return calls, KeyError
    if mut != "bare":
        call("handler_finalize", root, "", [], "", (None, None))
    return calls, shared


def brackets(cx, log, calls, ok, mut):
    """Every decorated handler call is enclosed by its own enter/exit pair, and pairs nest."""
    stack = []
    for i, e in enumerate(log):
        if e[0] == "enter":
            stack.append(e)
        elif e[0] == "call" and e[1] != "_handler_raw":
            top = stack[-1] if stack else None
            cx.check(top is not None and i > 0 and log[i - 1] is top and top[3] == e[3],
                     "handler {} was called with {!r} without an enter_handler call of its own just before (open: {!r})", e[1], e[3], top)
            if i + 1 < len(log) or e[1] != "handler_boom":
                cx.check(i + 1 < len(log), "handler {} was not followed by exit_handler", e[1])
                nx = log[i + 1]
                cx.check(nx[0] == "exit" and nx[4] == top[4], "handler {} was not followed by exit_handler but by {!r}", e[1], nx[:4])
        elif e[0] == "exit":
            cx.check(stack, "exit_handler without enter_handler")
            top = stack.pop()
            cx.check(top[4] == e[4], "exit_handler was called with other parameters than enter_handler")
            if mut in ("none", "rval"):
                cx.check(top[3][:-1] == e[3][:-1], "exit_handler was called with {!r}, enter_handler with {!r}", e[3], top[3])
    if ok:
        cx.check(not stack, "enter_handler without exit_handler: {!r}", stack)
    # what happens in a used section happens between enter and exit of its use
    depth, seen = 0, []
    for e in log:
        if e[0] in ("enter", "exit") and e[3][1] == "use":
            depth += 1 if e[0] == "enter" else -1
        elif e[0] == "call":
            seen.append((e[1], depth))
    want, depth = [], 0
    for c in calls:
        if c[0] == "use":
            depth += 1
        elif c[0] == "endu":
            depth -= 1
        else:
            want.append((c[1], depth))
    cx.check(seen == want, "nesting of handler calls: {!r}, expected {!r}", seen, want)


def run(case, cx):
    mut, file, seq = case
    secs = sections(file)
    path = cx.write(render(file))
    cls, log = build(mut)
    p = cls(path)
    p.exception_control_silent_warnings = True
    last = None
    for n, root in enumerate(seq):
        missing = False
        try:
            ev = expand(secs, root)
        except Missing as m:
            ev, missing = m.events, True
        calls, result = model(ev, root, missing, mut)
        del log[:]
        with capture():
            r = outcome(p.parse_section, root)
        got = [e for e in log if e[0] == "call"]
        want = [c for c in calls if c[0] == "call"]
        if got != want:
            i = next((i for i, (g, w) in enumerate(itertools.zip_longest(got, want)) if g != w), None)
            cx.check(False, "parse {} ({!r}), handler call {}: got {!r}, expected {!r}", n + 1, root, i, got[i:i + 1], want[i:i + 1])
        brackets(cx, log, calls, isinstance(result, dict), mut)
        if isinstance(result, dict):
            cx.check(r[0] == "ok" and type(r[1]) is dict and r[1] == result, "parse_section({!r}) gives {!r}, expected {!r}", root, r, result)
            cx.check(p.parse_section_last_result == result, "last result is {!r}, expected {!r}", p.parse_section_last_result, result)
            last = result
            if mut == "result":
                r[1].clear()
                r[1]["left"] = "over"
        else:
            cx.check(r[0] == "raise" and isinstance(r[1], result), "parse_section({!r}) gives {!r}, expected {}", root, r, result.__name__)
            if last is not None and mut != "result":
                cx.check(p.parse_section_last_result == last, "after a failed parse the last result is {!r}, expected {!r}",
                         p.parse_section_last_result, last)
        cx.step(len(want))
        cx.state(mut, repr(want), repr(result))
    cx.trace(repr([e[:3] for e in log]))
