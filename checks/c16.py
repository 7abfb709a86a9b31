"""C16: debug messages appear exactly when the debug level asks for them."""
import io
import itertools
import sys

from vlib.cpe import ConfigParserEnhanced
from vlib.engine import capture, outcome
from configparserenhanced.Debuggable import Debuggable

BOUNDS = {
    "quick": "levels -3..12, 100, 10**9 (also as str, float, bool) x message levels 0..12, 100 x 11 messages x 5 line ends x prefix on/off x "
             "positional/keyword; all sequences of 3 assignments out of 14 (accepted or rejected), with messages in between, on two objects",
    "thorough": "as quick, all sequences of 4 assignments",
}
ASSUMPTIONS = ["message levels are not negative"]
LEVELS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 100]
MESSAGES = ["m", "", "two\nlines", "{x} %s %(a)s", "[D-1] x", " lead", "\t\u00fc\u65e5", "x" * 2000, None, 5, ["a", 1]]
ENDS = ["\n", "", " ", "\n\n", "END"]
ASSIGN = [0, 1, 2, 5, -1, -100, "3", "-2", 2.9, True, False, "x", None, [1]]


class Plain(Debuggable):
    pass


class Mixed(Debuggable, dict):
    pass


def cases(tier):
    for cls in (0, 1, 2):
        for lv in [-3, -2, -1] + LEVELS + [10 ** 9]:
            for form in ("int", "str", "float"):
                if form == "float" and lv > 10 ** 6:
                    continue
                yield ["matrix", cls, lv, form]
    for cls in (0, 1, 2):
        for n in (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3):
            for seq in itertools.product(range(len(ASSIGN)), repeat=n):
                yield ["assign", cls, list(seq)]


def show(case):
    return case if case[0] == "matrix" else [case[0], case[1], [repr(ASSIGN[i]) for i in case[2]]]


def make(cx, cls):
    return [Plain, Mixed, ConfigParserEnhanced][cls]()


def say(cx, o, lv, what, full=False):
    for n in LEVELS:
        for m in MESSAGES if full else MESSAGES[:1]:
            for end in ENDS if full else ("\n",):
                for pre in (True, False):
                    want = ""
                    if n <= lv:
                        want = (f"[D-{n}] " if n > 0 and pre else "") + str(m) + end
                    forms = [lambda: o.debug_message(n, m, end=end, useprefix=pre), lambda: o.debug_message(n, m, end, pre)]
                    if end == "\n" and pre:
                        forms.append(lambda: o.debug_message(n, m))
                        forms.append(lambda: o.debug_message(debug_level=n, message=m))
                    for f in forms if full else forms[:1]:
                        with capture() as out:
                            r = outcome(f)
                        cx.check(r[0] == "ok" and out.text == want, "{}: debug_message({}, {!r}, {!r}, {}) gives {!r} and prints {!r}, expected {!r}",
                                 what, n, m, end, pre, r, out.text, want)
                        cx.step()
                        cx.check(o.debug_level == lv, "{}: debug_message changed the level to {!r}", what, o.debug_level)


def run(case, cx):
    o, other = make(cx, case[1]), make(cx, case[1])
    cx.check(o.debug_level == 0 and type(o.debug_level) is int, "default level is {!r}", o.debug_level)
    if case[0] == "matrix":
        lv = case[2]
        o.debug_level = {"int": int, "str": str, "float": float}[case[3]](lv)
        say(cx, o, max(lv, 0), f"level {lv}", full=True)
        cx.state(case[1], lv, case[3])
        cx.trace(lv)
        return
    lv = 0
    say(cx, o, 0, "level not assigned")
    for i in case[2]:
        v = ASSIGN[i]
        try:
            new = max(int(v), 0)
        except (ValueError, TypeError) as ex:
            new = type(ex)
        r = outcome(setattr, o, "debug_level", v)
        if isinstance(new, int):
            cx.check(r[0] == "ok", "assigning {!r} raised {!r}", v, r[1])
            lv = new
        else:
            cx.check(r[0] == "raise" and isinstance(r[1], new), "assigning {!r}: expected {}, got {!r}", v, new.__name__, r)
        cx.check(o.debug_level == lv and type(o.debug_level) is int, "after assigning {!r} the level is {!r}, expected {}", v, o.debug_level, lv)
        say(cx, o, lv, f"assignments {[ASSIGN[j] for j in case[2]]}")
        cx.state(case[1], lv, repr(v))
    cx.check(other.debug_level == 0, "another object's level is {!r}", other.debug_level)
    say(cx, other, 0, "another object")
    cx.trace(lv)
