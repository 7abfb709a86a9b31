"""C26: the system is determined by host and build name, and conflicts are errors."""
import itertools

from vlib.host import host
from vlib import env, kw
from vlib.engine import capture, outcome
import determinesystem
env.from_tree(determinesystem)
from determinesystem import DetermineSystem  # noqa: E402

BOUNDS = {
    "quick": "every file of 2 systems with up to 2 of 11 host patterns each (27 pairs of patterns), with and without DEFAULT, and of 3 systems with up to 1 of 6 patterns; x 10 host names x 16 build names x force x "
             "silent; every sequence of 3 queries on one object; 11 sets of system names (similar ones, and with capitals) x build names of 2 words; use between systems; up to 40 systems",
    "thorough": "as quick with 3 systems of up to 2 patterns, and all sequences of 4 queries",
}
ASSUMPTIONS = ["patterns contain no ':' or '='; socket.gethostname is replaced by a stand-in"]

# how a pattern is written in the file -> the pattern
PATS = [["host1", "host1"], ["^node[0-9]+$", "^node[0-9]+$"], ["host  # comment", "host"], ["login\\d", "login\\d"], ["h.st2# c", "h.st2"], ["(ab|cd)?x", "(ab|cd)?x"],
        ["x*  # maybe # twice", "x*"], ["1$", "1$"], ["t[^a-z]", "t[^a-z]"], ["NODE", "NODE"], ["9", "9"]]
HOSTS = ["host1", "node12", "node12.x", "myhost2", "login7", "abx", "xxy", "other", "HOST1", "b9"]
BUILDS = ["", "s1", "s2", "S1_intel", "intel_s2_x", "s1_s2", "s1_s1", "s10", "xs1_y", "intel", "s-1", "_s2_", "default", "s3_S2", "s3_s1_s2", "s2_s1_x_S3"]
NAMESETS = [["a-b", "c"], ["a-b", "ab"], ["a.b", "axb"], ["s", "s1", "s11"], ["1", "2"], ["a b", "a"], ["\u00e9", "e"], ["default", "s"], ["Big1", "small"], ["AB", "Ab-c"], ["SYS", "sys2"]]
QUERIES = ["name", "determine", "host", "build"]


def lists(n):
    yield []
    for i in range(len(PATS)):
        yield [i]
    if n > 1:
        for a, b in itertools.permutations(range(len(PATS)), 2):
            if (a + b) % 4 == 0:
                yield [a, b]


def cases(tier):
    for p1 in lists(2):
        for p2 in lists(2):
            if len(p1) + len(p2) < 4 or tier == "thorough":
                yield ["table", [["s1", p1], ["s2", p2]], None]
    for p1 in lists(1):
        for p2 in lists(1):
            for d in ([0], [4, 7], []):
                yield ["table", [["s1", p1], ["s2", p2]], d]
    three = list(lists(2)) if tier == "thorough" else [[], [0], [1], [2], [4], [6], [7]]
    for a, b, c in itertools.product(three, repeat=3):
        if tier == "thorough" and len(a) + len(b) + len(c) > 4:
            continue
        yield ["table", [["s2", a], ["s3", b], ["s1", c]], None]
    for h in range(len(HOSTS)):
        for b in range(len(BUILDS)):
            for force in (False, True):
                yield ["repeat", [["s1", [0, 4]], ["s2", [1, 5]], ["s3", [8]]], h, b, force, 3 if tier == "quick" else 4]
    for n in range(len(NAMESETS)):
        yield ["names", n]
    for shape in range(6):
        yield ["use", shape]
    for n in (5, 15, 40):
        for shape in range(3):
            yield ["many", n, shape]


def show(case):
    if case[0] == "table":
        return {"systems": [[s, [PATS[i][0] for i in p]] for s, p in case[1]], "DEFAULT": case[2]}
    return case


def render(systems, default=None, delim=""):
    out = []
    if default is not None:
        out += ["[DEFAULT]"] + [PATS[i][0] + delim for i in default]
    for s, ps in systems:
        out += [f"[{s}]"] + [PATS[i][0] + delim for i in ps]
    return "\n".join(out) + "\n"


def system(fn):
    try:
        return fn()
    except kw.Bad as ex:
        return ex


def expect(cx, r, want, what):
    if isinstance(want, kw.Bad):
        cx.check(kw.is_exit(r), "{}: got {!r}, expected an error exit ({})", what, r, want)
    else:
        cx.check(r == ("ok", want), "{}: got {!r}, expected {!r}", what, r, want)
    cx.trace(str(want))


def ask(cx, path, systems, h, b, force, silent, what):
    want = system(lambda: kw.system_of(systems, h, b, force))
    with capture():
        r = outcome(lambda: DetermineSystem(b, path, force_build_name=force, silent=silent).system_name)
    cx.step()
    expect(cx, r, want, f"{what}, host {h!r}, build name {b!r}, force={force}")
    cx.state(what, h, b, force)


def run(case, cx):
    kind = case[0]
    if kind == "table":
        _k, systems, default = case
        model = [(s, [PATS[i][1] for i in (default or []) + ps]) for s, ps in systems]
        path = cx.write(render(systems, default))
        for n, h in enumerate(HOSTS):
            with host(h):
                with capture():
                    got = DetermineSystem("", path).get_sys_name_from_hostname(h)
                cx.equal(got, kw.host_system(model, h), f"systems {model!r}: system of host {h!r}")
                for m, b in enumerate(BUILDS):
                    for force in (False, True):
                        ask(cx, path, model, h, b, force, bool((n + m) % 2), f"systems {model!r}")
        return
    if kind == "repeat":
        _k, systems, hi, bi, force, n = case
        model = [(s, [PATS[i][1] for i in ps]) for s, ps in systems]
        path = cx.write(render(systems))
        h, b = HOSTS[hi], BUILDS[bi]
        with host(h):
            for seq in itertools.product(QUERIES, repeat=n):
                for silent in (False, True):
                    with capture():
                        ds = DetermineSystem(b, path, force, silent)
                    for i, q in enumerate(seq):
                        want = system(lambda: kw.system_of(model, h, b, force))
                        what = f"systems {model!r}, host {h!r}, build name {b!r}, force={force}, queries {seq[:i + 1]!r}"
                        with capture():
                            if q == "name":
                                r = outcome(lambda: ds.system_name)
                            elif q == "determine":
                                r = outcome(ds.determine_system)
                                if not isinstance(want, kw.Bad):
                                    want = None
                            elif q == "host":
                                r = outcome(ds.get_sys_name_from_hostname, h)
                                want = kw.host_system(model, h)
                            else:
                                r = outcome(ds.get_sys_name_from_build_name)
                                named = kw.named_systems(model, b)
                                want = kw.Bad("several") if len(named) > 1 else named[0] if named else None
                        cx.step()
                        expect(cx, r, want, what)
                        cx.state(hi, bi, force, seq[:i + 1])
        return
    if kind == "names":
        names = NAMESETS[case[1]]
        model = [(s, [f"^h{i}"]) for i, s in enumerate(names)]
        path = cx.write("".join(f"[{s}]\n{p[0]}\n" for s, p in model))
        words = []
        for s in names:
            words += [s, s.upper(), s.lower(), s.replace("-", "").replace(".", "").replace(" ", ""), s.replace("-", "_").replace(".", "_").replace(" ", "_"), s + "0", "x" + s, s[:1]]
        words = list(dict.fromkeys(words)) + ["", "x"]
        for h in [f"h{i}" for i in range(len(names))] + ["zz"]:
            with host(h):
                for k in (1, 2):
                    for b in itertools.product(words, repeat=k):
                        for force in (False, True):
                            ask(cx, path, model, h, "_".join(b), force, True, f"systems {model!r}")
        return
    if kind == "use":
        shapes = [
            ("[common]\nhost1\n[s1]\nuse common\n[s2]\nuse 'common'\nabx\n", [("common", ["host1"]), ("s1", ["host1"]), ("s2", ["host1", "abx"])]),
            ("[s1]\nuse s3\n[s2]\nuse s3\n^x\n[s3]\nlogin\n", [("s1", ["login"]), ("s2", ["login", "^x"]), ("s3", ["login"])]),
            ("[s2]\nabx :\n[s1]\nuse s2\nhost1 = value\n", [("s2", ["abx"]), ("s1", ["abx", "host1"])]),
            ("[DEFAULT]\nlogin7 # c\n[s1]\n[s2]\n", [("s1", ["login7"]), ("s2", ["login7"])]),
            ("[s1]\nuse s2\n[s2]\nuse s1\nnode12 : # c\n", [("s1", ["node12"]), ("s2", ["node12"])]),
            ("[s1]\n\n# host1\n; node12\n[s2]\nmyhost  # is host1\n", [("s1", []), ("s2", ["myhost"])]),
        ]
        text, model = shapes[case[1]]
        path = cx.write(text)
        for h in HOSTS:
            with host(h):
                for b in BUILDS:
                    for force in (False, True):
                        ask(cx, path, model, h, b, force, True, f"file {text!r}")
        return
    if kind == "many":
        _k, n, shape = case
        model = [(f"sys{i}", [f"^h{i}$" if shape == 0 else f"h{i}" if shape == 1 else f"h{n - i}x?"]) for i in range(n)]
        path = cx.write("".join(f"[{s}]\n{p[0]}\n" for s, p in model))
        for h in ("h0", f"h{n - 1}", f"h{n // 2}", f"h{n}", "zz"):
            with host(h):
                for b in ("", "sys0", f"sys{n - 1}", f"SYS{n // 2}_sysx", f"sys1_sys{n - 1}", "sys"):
                    for force in (False, True):
                        ask(cx, path, model, h, b, force, False, f"{n} systems")
