"""Subclasses of the parser that record the calls of their handlers (documented subclass interface)."""
from vlib.cpe import ConfigParserEnhanced

_cache = {}


def snapshot(hp, name, section):
    """What a handler was given."""
    return [name, section, hp.handler_name, hp.op, list(hp.params), hp.value, tuple(hp.raw_option), hp.section_root]


def method(name, deco):
    def handler(self, section_name, handler_parameters):
        self.calls.append(snapshot(handler_parameters, name, section_name))
        if self.hook is not None:
            r = self.hook(name, section_name, handler_parameters)
            return 0 if r is NotImplemented else r
        return 0

    handler.__name__ = name
    handler.__qualname__ = name
    if deco:
        return ConfigParserEnhanced.operation_handler(handler)
    return handler


def make_class(spec, base=ConfigParserEnhanced, ends="deco", brackets=False):
    """spec: [[op, kind, decorated], ...], kind in public, private, both; ends: how
    handler_initialize/finalize are overridden: 'deco', 'plain' or None (not overridden)."""
    key = (repr(spec), base, ends, brackets)
    if key in _cache:
        return _cache[key]
    ns = {"hook": None}
    for op, kind, deco in spec:
        if kind in ("public", "both"):
            ns["handler_" + op] = method("handler_" + op, deco)
        if kind in ("private", "both"):
            ns["_handler_" + op] = method("_handler_" + op, deco)
    if ends:
        for e in ("handler_initialize", "handler_finalize"):
            ns[e] = method(e, ends == "deco")

    def __init__(self, *a, **kw):
        self.calls = []
        base.__init__(self, *a, **kw)

    ns["__init__"] = __init__
    if brackets:
        def enter_handler(self, handler_parameters):
            self.calls.append(["enter", handler_parameters.handler_name, id(handler_parameters)])
            return base.enter_handler(self, handler_parameters)

        def exit_handler(self, handler_parameters):
            self.calls.append(["exit", handler_parameters.handler_name, id(handler_parameters)])
            return base.exit_handler(self, handler_parameters)
        ns["enter_handler"] = enter_handler
        ns["exit_handler"] = exit_handler
    cls = type("Rec", (base,), ns)
    if len(_cache) > 500:
        _cache.clear()
    _cache[key] = cls
    return cls


def expected(events, root, spec, initialize=True, finalize=True):
    """The calls that the model predicts for a visit sequence."""
    names = {}
    for op, kind, _ in spec:
        names[op] = ("_handler_" if kind == "private" else "handler_") + op
    out = []
    if initialize:
        out.append(["handler_initialize", root, "handler_initialize", "", [], "", (None, None), root])
    for kind, sec, o in events:
        if kind == "opt" and o[3] in names:
            n = names[o[3]]
            out.append([n, sec, n, o[3], list(o[4]), o[2], (o[1], o[2]), root])
    if finalize:
        out.append(["handler_finalize", root, "handler_finalize", "", [], "", (None, None), root])
    return out


def handled(spec):
    return {s[0] for s in spec}
