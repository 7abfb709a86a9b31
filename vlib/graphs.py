"""Families of files built from `use` graphs (shared by several checks)."""
import itertools

from vlib.ini import kv, opt, seqs, use


def own(sec, n):
    """Option number n of a section: the key is shared by all sections, the value is its own."""
    return kv(f"k{n}", f"v{n}{sec}")


def bodies(sec, targets, maxlen, keys=2, quotes=None):
    alpha = [own(sec, i + 1) for i in range(keys)] + [use(t, quotes) for t in targets]
    return list(seqs(alpha, maxlen))


def small_graphs(names, maxlen, keys=2, default_len=None, default_at=0):
    """Every file over the given sections with bodies of at most maxlen options."""
    targets = list(names)
    per = [bodies(n, targets + (["DEFAULT"] if default_len is not None else []), maxlen, keys) for n in names]
    dflt = [None] if default_len is None else bodies("DEFAULT", targets, default_len, keys)
    combos = itertools.product(dflt, *per)
    for c in combos:
        f = [[n, b] for n, b in zip(names, c[1:])]
        if c[0] is not None:
            f.insert(default_at, ["DEFAULT", c[0]])
        yield f


def dags(names, quotes=None):
    """Every DAG (edges from earlier to later names), every order of the uses of a section, the
    section's own option before or after them."""
    per = []
    for i, n in enumerate(names):
        rest = names[i + 1:]
        opts = []
        for r in range(len(rest) + 1):
            for perm in itertools.permutations(rest, r):
                u = [use(t, quotes) for t in perm]
                opts.append([own(n, 1)] + u)
                if u:
                    opts.append(u + [own(n, 1)])
        per.append(opts)
    for c in itertools.product(*per):
        yield [[n, b] for n, b in zip(names, c)]


def positions(depth):
    """Chains of the given depth; each section has its options before, after or around its use."""
    names = [f"S{i}" for i in range(depth)]
    shapes = []
    for i, n in enumerate(names):
        u = [use(names[i + 1])] if i + 1 < depth else []
        shapes.append([
            u + [own(n, 1)],
            [own(n, 1)] + u,
            [own(n, 1)] + u + [own(n, 2)],
            [own(n, 2)] + u + [own(n, 1)],
            u,
        ][: 5 if u else 3])
    for c in itertools.product(*shapes):
        yield [[n, b] for n, b in zip(names, c)]


def scaling(chain=(5, 10, 20, 50, 100), width=(5, 10, 20, 50, 100), options=(5, 10, 50, 200, 500),
            diamond=(3, 5, 7)):
    for n in chain:
        names = [f"s{i}" for i in range(n)]
        for shape in range(3):
            f = []
            for i, s in enumerate(names):
                b = [kv(f"only{i}", f"o{i}")]
                u = [use(names[i + 1])] if i + 1 < n else []
                if shape == 0:
                    b = [own(s, 1)] + u + b
                elif shape == 1:
                    b = u + [own(s, 1)] + b
                else:
                    b = b + u + ([use(names[0], '"')] if i == n - 1 else [])    # back edge
                f.append([s, b])
            yield f
            yield f[::-1]
    for n in width:
        leaves = [[f"s{i}", [own(f"s{i}", 1), kv(f"only{i}", "o")]] for i in range(n)]
        hub = ["hub", [use(f"s{i}") for i in range(n)]]
        yield [hub] + leaves
        yield leaves + [["hub", [own("hub", 1)] + hub[1] + [own("hub", 2)]]]
        # the same target n times, in different spellings of the key
        yield [["hub", [opt(f"use t x{i}", f"use t x{i}", None, "use", ["t", f"x{i}"]) for i in range(n)]],
               ["t", [own("t", 1)]]]
    for n in options:
        a = ["a", [kv(f"p{i}", f"a{i}") for i in range(n)]]
        b = ["b", [kv(f"p{i}", f"b{i}") for i in range(n)]]
        yield [a]
        yield [["a", a[1] + [use("b")]], b]
        yield [["a", [use("b")] + a[1]], b]
        yield [["a", a[1][: n // 2] + [use("b")] + a[1][n // 2:]], b]
    for n in diamond:
        f = []
        for i in range(n):
            f.append([f"t{i}", [use(f"l{i}"), own(f"t{i}", 1), use(f"r{i}")]])
            nxt = [use(f"t{i + 1}")] if i + 1 < n else []
            f.append([f"l{i}", nxt + [own(f"l{i}", 2)]])
            f.append([f"r{i}", [own(f"r{i}", 2)] + nxt])
        yield f
    for n in (4, 5, 6):     # complete graphs: every simple path is walked
        names = [f"c{i}" for i in range(n)]
        yield [[s, [own(s, 1)] + [use(t) for t in names]] for s in names]


NAMES = ["A", "a", "sec name", " lead", "sec-1", "sec_1", "sec.1", "sec:1", "sec=1", "S\u00e9c", "#sec", "1",
         "default", "Default", "use A", "sec'q", "a/b", "[x", "n" * 200, "use", "k1"]


def named():
    """Section names of all kinds, reached directly and through a use."""
    for n in NAMES:
        q = '"' if "'" in n else "'"
        yield [[n, [own("N", 1), kv("k3", "v3")]]]
        if ":" in n or "=" in n:
            continue    # a delimiter ends the key
        yield [[n, [own("N", 1)]], ["root", [use(n, q), own("root", 2)]]]
        yield [["root", [own("root", 1), use(n, q)]], [n, [own("N", 1), use("root")]]]
        if " " not in n and "'" not in n and ":" not in n and "=" not in n:
            yield [["root", [use(n, "")]], [n, [own("N", 1)]]]
    for n in ("default", "Default", "DEFAULT2", "DEFAUL"):
        yield [["DEFAULT", [own("D", 1), own("D", 2)]], [n, [own("N", 1)]], ["root", [use(n), kv("k3", "v3")]]]
    # names that differ in case or by a suffix only are different sections
    for a, b in (("A", "a"), ("A", "A "), ("A", "AA"), ("AA", "A"), ("x", "x x")):
        if a.strip() == b.strip():
            continue
        yield [[a, [own("1", 1)]], [b, [own("2", 1), own("2", 2)]], ["r", [use(b), use(a)]]]
        yield [[a, [own("1", 1), use(b)]], [b, [own("2", 1), own("2", 2)]]]
