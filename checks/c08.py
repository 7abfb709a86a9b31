"""C08: exception control: raise, warn or stay silent exactly by level and severity."""
import itertools

from vlib.cpe import ConfigParserEnhanced
from vlib.engine import capture, outcome

try:
    from configparserenhanced import ExceptionControl
    if not isinstance(ExceptionControl, type):
        ExceptionControl = ExceptionControl.ExceptionControl
except ImportError:
    from configparserenhanced.ExceptionControl import ExceptionControl

BOUNDS = {
    "quick": "complete matrix of 20 level assignments x 4 flag settings x 14 severity spellings x 9 exception types x 7 messages x "
             "2 classes; 20 bad severities and 10 things that cannot be raised at every level; every sequence of 3 out of 36 "
             "operations on two objects",
    "thorough": "as quick with 4 out of 36 operations",
}
ASSUMPTIONS = ["exception types can be constructed without arguments; messages are strings or None"]


class Mine(ValueError):
    pass


class AnExceptionWithAnUncommonlyLongNameOfItsOwn(OSError):
    pass


class Base(BaseException):
    pass


class Plain(ExceptionControl):
    pass


EXC = [ValueError, KeyError, RuntimeError, OSError, Exception, UserWarning, AnExceptionWithAnUncommonlyLongNameOfItsOwn, Mine, Base, KeyboardInterrupt, SystemExit]
REQ = {"WARNING": 5, "SILENT": 5, "MINOR": 4, "SERIOUS": 3, "CRITICAL": 2, "CATASTROPHIC": 0}
SEV = list(REQ) + [x.lower() for x in REQ] + ["Warning", "sErIoUs"]
MSG = [None, "", "text", "two\nlines", "{braces} %s %d", "\u00fc\u65e5", "x" * 300]
LEVELS = [[0, 0], [1, 1], [2, 2], [3, 3], [4, 4], [5, 5], [-1, 0], [-100, 0], [6, 5], [1000, 5], ["3", 3], ["0", 0], ["9", 5],
          [2.9, 2], [True, 1], [False, 0], [4.999, 4], [-0.5, 0], [" 2 ", 2], [None, 4]]
BADSEV = ["", "ERROR", "WARN", "FATAL", "WARNING ", " SERIOUS", "CRITICAL1", "INFO", "5", 5, None, 0, "CATASTROPHI", "MINORS", "DEBUG",
          "silents", "SIL ENT", "None", "serious-", True]
OPS = [["level", o, lv] for o in (0, 1) for lv in range(6)] + [["silent", o, b] for o in (0, 1) for b in (True, False)] + \
      [["compact", o, b] for o in (0, 1) for b in (True, False)] + [["event", o, s] for o in (0, 1) for s in REQ] + \
      [["badlevel", 0], ["badsilent", 0], ["badcompact", 0], ["badevent", 0]]


def cases(tier):
    for cls in (0, 1):
        for lv in range(len(LEVELS)):
            for silent in (False, True):
                for compact in (False, True):
                    yield ["matrix", cls, lv, silent, compact]
        for lv in range(6):
            yield ["bad", cls, lv]
    for d in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for s in itertools.product(range(len(OPS)), repeat=d):
            yield ["seq", list(s)]


def make(cls):
    return Plain() if cls == 0 else ConfigParserEnhanced()


def fire(cx, o, sev, exc, msg, level, silent, compact, what):
    with capture() as out:
        r = outcome(o.exception_control_event, sev, exc, msg) if msg is not None else outcome(o.exception_control_event, sev, exc)
    cx.step()
    s = sev.upper()
    if level >= REQ[s]:
        cx.check(r[0] == "raise" and type(r[1]) is exc, "{}: expected {} to be raised, got {!r}", what, exc.__name__, r)
        cx.check(r[1].args == (() if msg is None else (msg,)), "{}: raised with {!r} instead of the message {!r}", what, r[1].args, msg)
        cx.check(out.text == "", "{}: raised and printed {!r}", what, out.text[:200])
        return
    cx.check(r == ("ok", None), "{}: expected nothing to be raised, got {!r}", what, r)
    if level == 0 or silent or s == "SILENT":
        cx.check(out.text == "", "{}: printed {!r}, expected nothing", what, out.text[:200])
        return
    t = out.text
    cx.check(t.count("EXCEPTION SKIPPED") == 1, "{}: printed {} warnings, expected one", what, t.count("EXCEPTION SKIPPED"))
    head = t.split("Call Stack")[0]
    cx.check(s in head and exc.__name__ in head, "{}: the warning does not name severity and exception: {!r}", what, head)
    if compact:
        cx.check(len(t.strip().splitlines()) == 1, "{}: the compact warning has several lines: {!r}", what, t)
    else:
        cx.check(len(t.splitlines()) > 3, "{}: the warning is compact although that was not asked for", what)
        for line in (msg or "").splitlines():
            cx.check(line in head, "{}: the message is missing in the warning: {!r}", what, head)


def run(case, cx):
    kind = case[0]
    if kind == "matrix":
        _, cls, lv, silent, compact = case
        o = make(cls)
        cx.check(o.exception_control_level == 4 and o.exception_control_silent_warnings is False and
                 o.exception_control_compact_warnings is False, "wrong default settings")
        arg, level = LEVELS[lv]
        if arg is not None:
            o.exception_control_level = arg
        cx.check(o.exception_control_level == level and type(o.exception_control_level) is int,
                 "level {!r} is read back as {!r}, expected {!r}", arg, o.exception_control_level, level)
        o.exception_control_silent_warnings = silent
        o.exception_control_compact_warnings = compact
        for sev in SEV:
            for exc in EXC:
                for msg in MSG if exc in (ValueError, Mine) or compact else MSG[:3]:
                    what = f"level {arg!r}, silent {silent}, compact {compact}: {sev} {exc.__name__} {msg!r:.40}"
                    fire(cx, o, sev, exc, msg, level, silent, compact, what)
                    cx.state(level, silent, compact, sev, exc.__name__, msg)
        # inside an exception handler the same holds
        for sev in REQ:
            try:
                raise LookupError("outer")
            except LookupError:
                fire(cx, o, sev, ValueError, "m", level, silent, compact, f"level {level}: {sev} inside an except clause")
        cx.trace((level, silent, compact))
    elif kind == "bad":
        _, cls, lv = case
        for silent in (False, True):
            o = make(cls)
            o.exception_control_level = lv
            o.exception_control_silent_warnings = silent
            for sev in BADSEV:
                r = outcome(o.exception_control_event, sev, ValueError, "m")
                cx.check(r[0] == "raise" and not isinstance(r[1], ValueError), "level {}: unknown severity {!r} gives {!r}", lv, sev, r)
                cx.step()
            for bad in (5, "ValueError", object(), None, int, object, [ValueError], (ValueError,), print, 0.5):
                for sev in REQ:
                    r = outcome(o.exception_control_event, sev, bad, "m")
                    cx.check(r[0] == "raise" and isinstance(r[1], TypeError), "level {}: {} event with {!r} gives {!r}, expected "
                             "TypeError", lv, sev, bad, r)
                    cx.step()
            cx.state("bad", lv, silent)
        cx.trace(("bad", lv))
    else:
        objs = [make(0), make(1)]
        st = [[4, False, False], [4, False, False]]
        done = []
        for i in case[1]:
            op = OPS[i]
            done.append(op)
            what = f"operations {done}"
            o = objs[op[1]]
            cx.step()
            if op[0] == "level":
                o.exception_control_level = op[2]
                st[op[1]][0] = op[2]
            elif op[0] == "silent":
                o.exception_control_silent_warnings = op[2]
                st[op[1]][1] = op[2]
            elif op[0] == "compact":
                o.exception_control_compact_warnings = op[2]
                st[op[1]][2] = op[2]
            elif op[0] == "event":
                fire(cx, o, op[2], ValueError, "m", *st[op[1]], what)
            elif op[0] == "badlevel":
                for bad in ("x", None, [], "2.5"):
                    r = outcome(setattr, o, "exception_control_level", bad)
                    cx.check(r[0] == "raise" and isinstance(r[1], (TypeError, ValueError)), "{}: level {!r} accepted", what, bad)
            elif op[0] == "badevent":
                r = outcome(o.exception_control_event, "NONSENSE", ValueError)
                cx.check(r[0] == "raise", "{}: unknown severity accepted", what)
            else:
                for bad in (0, 1, "True", None):
                    r = outcome(setattr, o, f"exception_control_{op[0][3:]}_warnings", bad)
                    cx.check(r[0] == "raise" and isinstance(r[1], TypeError), "{}: flag {!r} accepted: {!r}", what, bad, r)
            for o, s in zip(objs, st):
                got = [o.exception_control_level, o.exception_control_silent_warnings, o.exception_control_compact_warnings]
                cx.check(got == s, "{}: settings are {!r}, expected {!r}", what, got, s)
            cx.state("seq", repr(st), op)
        cx.trace(("seq", repr(st)))
