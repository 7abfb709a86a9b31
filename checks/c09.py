"""C09: typed properties never hold a value that violates their declaration."""
import copy
import itertools

from configparserenhanced import typed_property
from configparserenhanced.HandlerParameters import HandlerParameters
from vlib.engine import outcome

BOUNDS = {
    "quick": "all declarations of a small grammar x every sequence of 3 operations out of 24 on two instances (2 properties each), then a read of all "
             "four; 8 fields of HandlerParameters x every sequence of 3 operations out of 26; a factory with varying results x every sequence of 5 operations out of 5",
    "thorough": "as quick with sequences of 4 operations",
}
ASSUMPTIONS = ["property names do not end in _is_set"]
ABSENT = "-"
NONE = type(None)


class Counter:
    n = 0

    def __call__(self):
        Counter.n += 1
        return ["made"]


def boom(v):
    raise LookupError("validator")


DEFAULTS = {ABSENT: None, "none": None, "five": 5, "text": "d", "list": [1, [2]], "dict": {"a": [1]}}
FACTORY = {ABSENT: None, "list": lambda: ["f"], "nest": lambda: ["f", ["g"]], "bad": 5}
INTERNAL = {ABSENT: None, "str": str, "int": int, "list": list, "tuple": tuple}
VALID = {ABSENT: None, "nonempty": lambda v: v if not isinstance(v, int) else v > 0, "never": lambda v: 0, "always": lambda v: 1,
         "boom": boom, "bad": 7, "short": lambda v: len(v) <= 2}
TRANS = {ABSENT: None, "double": lambda v: v + v, "str": lambda v: str(v), "bad": 7, "wrap": lambda v: [v]}
TYPES = {"int": int, "str": str, "int,str": (int, str), "[int,str]": [int, str], "str,None": (str, NONE), "list": list,
         "list,tuple": (list, tuple), "dict": dict, "bool": bool, "any": object, "float": (float,)}
#        type          default  factory internal valid     transform  required
DECLS = [[t, d, f, i, v, tr, r] for t, d, f, i, v, tr, r in itertools.chain(
    [(t, ABSENT, ABSENT, ABSENT, ABSENT, ABSENT, False) for t in TYPES],
    [("int,str", d, f, ABSENT, ABSENT, ABSENT, r) for d in DEFAULTS for f in (ABSENT, "list") for r in (False, True)],
    [("list,tuple", "list", ABSENT, i, v, tr, False) for i in (ABSENT, "list", "tuple") for v in (ABSENT, "short", "nonempty")
     for tr in (ABSENT, "double")],
    [("any", "five", ABSENT, i, ABSENT, tr, False) for i in ("int", "str") for tr in (ABSENT, "str", "double")],
    [("int,str", "text", ABSENT, ABSENT, v, ABSENT, r) for v in ("never", "always", "boom", "bad", "nonempty") for r in (False, True)],
    [("int,str", "text", ABSENT, ABSENT, ABSENT, tr, False) for tr in ("bad", "wrap")],
    [("int,str", ABSENT, "bad", ABSENT, ABSENT, ABSENT, False), ("dict", "dict", ABSENT, ABSENT, "nonempty", ABSENT, False),
     ("list", ABSENT, "list", "list", "short", "double", True)],
    [(t, d, "nest", i, ABSENT, ABSENT, r) for t, d, i in (("int", "five", "int"), ("int,str", ABSENT, "str"), ("int", ABSENT, ABSENT)) for r in (False, True)],
)]
VALUES = [1, 0, "a", "", "12", None, [], [1], (1, 2), {"x": 1}, True, 2.5]
OPS = [["set", w, i] for w in (0, 1) for i in range(len(VALUES))]
OPS = [["set", 0, i] for i in range(len(VALUES))] + [["set", 1, 0], ["set", 1, 2], ["set", 1, 7], ["setq", 0, 2]] + \
      [[o, w] for o in ("get", "del", "mutate") for w in (0, 1)] + [["getq", 0], ["delq", 0]]
FIELDS = {
    "section_root": [(str,), None, None], "raw_option": [(tuple,), (None, None), "pair"], "op": [(str,), "", None],
    "params": [(list, tuple), [], "list"], "value": [(str, NONE), "", None], "data_shared": [(dict,), {}, None],
    "data_internal": [(dict,), {}, None], "handler_name": [(str,), "", None],
}
HVALUES = ["s", "", None, 5, ["x"], ("a", "b"), ("a",), (1, 2, 3), {"k": 1}, {}, [], True]
HOPS = [["set", 0, i] for i in range(len(HVALUES))] + [["set", 1, i] for i in (0, 4, 5, 8)] + \
       [[o, w] for o in ("get", "del", "mutate") for w in (0, 1)]


def cases(tier):
    n = 4 if tier == "thorough" else 3
    fops = [["bump", 0], ["get", 0], ["get", 1], ["del", 0], ["set", 0]]
    for s in itertools.product(fops, repeat=n + 2):
        yield ["factory", list(s)]
    for d in range(1, n + 1):
        for i in range(len(DECLS)):
            for s in itertools.product(range(len(OPS)), repeat=d):
                if d >= 3 and (OPS[s[-1]][0] in ("get", "getq") or (d == 4 and i % 3)):
                    continue        # the final reads do that anyway
                yield ["decl", i, list(s)]
        for f in FIELDS:
            for s in itertools.product(range(len(HOPS)), repeat=d):
                if d >= 3 and HOPS[s[-1]][0] == "get":
                    continue
                yield ["field", f, list(s)]


def factory(cx, ops):
    """A factory whose results differ: every first read takes what it gives then."""
    cell = [0]
    cls = type("C", (), {"p": typed_property("p", (int, list), default_factory=lambda: [cell[0]])})
    objs, have = [cls(), cls()], [None, None]
    for n, (op, i) in enumerate(ops):
        what = f"operations {ops[:n + 1]}"
        if op == "bump":
            cell[0] += 1
        elif op == "set":
            objs[i].p = have[i] = 7
        elif op == "del":
            del objs[i].p
            have[i] = None
        elif have[i] is None:
            have[i] = [cell[0]]
        if op == "get":
            cx.check(objs[i].p == have[i], "{}: reading gives {!r}, expected {!r}", what, objs[i].p, have[i])
        cx.step()
        cx.state(cell, have)
    cx.trace(repr((cell, have)))


def show(case):
    if case[0] == "factory":
        return {"operations": case[1]}
    if case[0] == "decl":
        return {"declaration": dict(zip(("type", "default", "factory", "internal", "validator", "transform", "required"),
                                        DECLS[case[1]])), "operations": [OPS[i][:2] + [repr(VALUES[i]) for i in OPS[i][2:]]
                                                                         for i in case[2]]}
    return {"field": case[1], "operations": [HOPS[i] for i in case[2]]}


class P:
    """Model of one property of one instance."""

    def __init__(self, decl):
        self.t, self.d, self.f, self.i, self.v, self.tr, self.req = decl
        self.set = False
        self.stored = ABSENT

    def get(self):
        if self.req and not self.set:
            return UnboundLocalError
        if self.stored is ABSENT:
            if self.d != ABSENT:
                self.stored = copy.deepcopy(DEFAULTS[self.d])
            elif self.f == "bad":
                return TypeError
            elif self.f == ABSENT:
                self.stored = None
            else:
                self.stored = FACTORY[self.f]()
        return None

    def assign(self, v):
        types = TYPES[self.t]
        types = tuple(types) if isinstance(types, (list, tuple)) else (types,)
        if not isinstance(v, types):
            return TypeError
        try:
            if self.i != ABSENT:
                v = INTERNAL[self.i](v)
            if self.tr == "bad":
                return TypeError
            if self.tr != ABSENT:
                v = TRANS[self.tr](v)
                if self.i != ABSENT:
                    v = INTERNAL[self.i](v)
            if self.v == "bad":
                return TypeError
            if self.v != ABSENT and not VALID[self.v](v):
                return ValueError
        except Exception as ex:
            return type(ex)
        self.stored = v
        self.set = True
        return None

    def delete(self):
        self.stored = ABSENT
        self.set = False


def kwargs(decl):
    t, d, f, i, v, tr, r = decl
    kw = {"expected_type": TYPES[t], "req_assign_before_use": r}
    if d != ABSENT:
        kw["default"] = copy.deepcopy(DEFAULTS[d])
    if f != ABSENT:
        kw["default_factory"] = FACTORY[f]
    if i != ABSENT:
        kw["internal_type"] = INTERNAL[i]
    if v != ABSENT:
        kw["validator"] = VALID[v]
    if tr != ABSENT:
        kw["transform"] = TRANS[tr]
    return kw


def read(cx, obj, name, m, what):
    r = outcome(getattr, obj, name)
    err = m.get()
    cx.step()
    if err is not None:
        cx.check(r[0] == "raise" and type(r[1]) is err, "{}: reading gives {!r}, expected {}", what, r, err.__name__)
        return
    cx.check(r[0] == "ok" and r[1] == m.stored and type(r[1]) is type(m.stored), "{}: reading gives {!r}, expected {!r}", what, r, m.stored)


def write(cx, obj, name, m, v, what):
    r = outcome(setattr, obj, name, copy.deepcopy(v))
    err = m.assign(copy.deepcopy(v))
    cx.step()
    if err is None:
        cx.check(r[0] == "ok", "{}: assigning {!r} raised {!r}", what, v, r[1])
    else:
        cx.check(r[0] == "raise" and type(r[1]) is err, "{}: assigning {!r} gives {!r}, expected {}", what, v, r, err.__name__)


def mutate(obj, name, m):
    """Change the value in place, if there is one that can be changed."""
    r = outcome(getattr, obj, name)
    if m.get() is not None or r[0] != "ok":
        return
    for x in (r[1], m.stored):
        if isinstance(x, list):
            x.append("more")
            if len(x) > 1 and isinstance(x[1], list):
                x[1].append("deep")
        elif isinstance(x, dict):
            x["more"] = 1
            if isinstance(x.get("a"), list):
                x["a"].append("deep")


def run(case, cx):
    if case[0] == "factory":
        return factory(cx, case[1])
    if case[0] == "decl":
        decl = DECLS[case[1]]
        cls = type("C", (), {"p": typed_property("p", **kwargs(decl)), "pp": typed_property("pp", **kwargs(decl))})
        objs = [cls(), cls()]
        ms = [P(decl), P(decl)]
        q = P(decl)
        done = []
        for i in case[2]:
            op = OPS[i]
            done.append([op[0], op[1]] + [VALUES[x] for x in op[2:]])
            what = f"{decl}, operations {done}"
            o, m = objs[op[1]], ms[op[1]]
            one(cx, o, "pp" if op[0][-1] == "q" else "p", q if op[0][-1] == "q" else m, op, VALUES, what)
            cx.state(case[1], [repr((x.set, x.stored)) for x in (*ms, q)])
        what = f"{decl}, operations {done}, then a read"
        for o, m in zip(objs, ms):
            read(cx, o, "p", m, what)
        read(cx, objs[0], "pp", q, what + " of the other property")
        read(cx, objs[1], "pp", P(decl), what + " of the other property of the other instance")
        read(cx, cls(), "p", P(decl), what + " of a new instance")
        cx.trace((case[1], repr([(x.set, x.stored) for x in ms])))
    else:
        f = case[1]
        types, default, conv = FIELDS[f]
        objs = [HandlerParameters(), HandlerParameters()]
        ms = [FieldModel(types, default, conv) for _ in objs]
        done = []
        for i in case[2]:
            op = HOPS[i]
            done.append([op[0], op[1]] + [HVALUES[x] for x in op[2:]])
            what = f"HandlerParameters.{f}, operations {done}"
            one(cx, objs[op[1]], f, ms[op[1]], op, HVALUES, what)
            cx.state(f, [repr(x.stored) for x in ms])
        for o, m in zip(objs + [HandlerParameters()], ms + [FieldModel(types, default, conv)]):
            read(cx, o, f, m, f"HandlerParameters.{f}, operations {done}, then a read")
        cx.trace((f, repr([x.stored for x in ms])))


def one(cx, o, name, m, op, values, what):
    k = op[0].rstrip("q") if op[0] in ("setq", "getq", "delq") else op[0]
    if k == "set":
        write(cx, o, name, m, values[op[2]], what)
    elif k == "get":
        read(cx, o, name, m, what)
    elif k == "del":
        r = outcome(delattr, o, name)
        cx.check(r[0] == "ok", "{}: deleting raised {!r}", what, r[1])
        m.delete()
        cx.step()
    else:
        mutate(o, name, m)
        cx.step()


class FieldModel(P):
    def __init__(self, types, default, conv):
        self.types, self.default, self.conv = types, default, conv
        self.set, self.stored, self.req = False, ABSENT, False

    def get(self):
        if self.stored is ABSENT:
            self.stored = copy.deepcopy(self.default)
        return None

    def assign(self, v):
        if not isinstance(v, self.types):
            return TypeError
        if self.conv == "list":
            v = list(v)
        if self.conv == "pair" and len(v) != 2:
            return ValueError
        self.stored, self.set = v, True
        return None
