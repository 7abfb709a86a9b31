"""Alphabets of option spellings: what stands in the file, and what it means."""
from vlib.ini import opt

# (text of the key, operation or None, params)
KEYS = [
    ("k", "k", []),
    ("Key", "Key", []),
    ("KEY", "KEY", []),
    ("key-1", "key_1", []),
    ("key_1", "key_1", []),
    ("key 1", "key", ["1"]),
    ("key 'a b'", "key", ["a b"]),
    ('key "a b" c', "key", ["a b", "c"]),
    ("key a b c d e f", "key", ["a", "b", "c", "d", "e", "f"]),
    ("key  wide", "key", ["wide"]),
    ("key\ttab", "key", ["tab"]),
    ("key a\\ b", "key", ["a b"]),
    ("key ''", "key", [""]),
    ("key ' a ' b", "key", [" a ", "b"]),
    ("key -x --y _z z-", "key", ["-x", "--y", "_z", "z-"]),
    ("key a#b #c ;d", "key", ["a#b", "#c", ";d"]),
    ("key a\"b\"c'd' \"e'f\"", "key", ["abcd", "e'f"]),
    ("key $HOME ~ * %%x", "key", ["$HOME", "~", "*", "%%x"]),
    ("key X x X x", "key", ["X", "x", "X", "x"]),
    ("key key use", "key", ["key", "use"]),
    ("key.with.dots", None, []),
    ("'quoted key'", None, []),
    ("key/path", None, []),
    ("k+", None, []),
    ("@k", None, []),
    ("$k", None, []),
    ("k#x", None, []),
    ("k;x", None, []),
    ("k[0]", None, []),
    ("k,l m", None, []),
    ("-k", "_k", []),
    ("1", "1", []),
    ("k\u00e9y", "k\u00e9y", []),
    ("\u65e5 x", "\u65e5", ["x"]),
    ("use-this", "use_this", []),
    ("used", "used", []),
    ("reuse A", "reuse", ["A"]),
    ("Use A", "Use", ["A"]),
    ("USE A", "USE", ["A"]),
    ("initialize x", "initialize", ["x"]),
    ("finalize", "finalize", []),
    ("ke\u0301y", None, []),
    ("k\u017fy x\u212b", "k\u017fy", ["x\u212b"]),
    ("\uff4b", "\uff4b", []),
    ("\u0130\u0131\u00df", "\u0130\u0131\u00df", []),
    ("key 'a\tb' \"c  d\"", "key", ["a\tb", "c  d"]),
    ("initialize-x", "initialize_x", []),
    ("finalizer y", "finalizer", ["y"]),
    ("k" * 300, "k" * 300, []),
]

SEPS = [": ", ":", "=", " = ", " : ", "= ", ":\t"]

# (text of the value, value as read)
VALUES = [
    ("v", "v"),
    ("", ""),
    ("two words", "two words"),
    ("  padded  ", "padded"),
    ('"quoted"', "quoted"),
    ('""', ""),
    ('"a" b', 'a" b'),
    ('"""x"""', "x"),
    ('x"', "x"),
    ('"  in  "', "  in  "),
    ("'single'", "'single'"),
    ("a:b=c", "a:b=c"),
    ("a = b : c", "a = b : c"),
    ("=x", "=x"),
    ("a # b", "a # b"),
    ("#x", "#x"),
    ("; x", "; x"),
    ("100%%", "100%"),
    ("%%(x)s", "%(x)s"),
    ("a\n  b", "a\nb"),
    ("\n  b", "b"),
    ("\n  a\n  b\n  c", "a\nb\nc"),
    ('"a\n  b"', "a\nb"),
    ("a\n\n  b", "a\n\nb"),
    ("a\n\n\n  b\n    c", "a\n\n\nb\nc"),
    ("${HOME}", "${HOME}"),
    ("a\\b", "a\\b"),
    ("\u00fc \u65e5", "\u00fc \u65e5"),
    ("a\tb", "a\tb"),
    ("a  b \t c", "a  b \t c"),
    ("e\u0301 \u00e9 \u212b \uff4b \u017f \u0130", "e\u0301 \u00e9 \u212b \uff4b \u017f \u0130"),
    ("a\u00a0b", "a\u00a0b"),
    ("None", "None"),
    ("0", "0"),
    ("[x]", "[x]"),
    ("use A", "use A"),
    ("x" * 3000, "x" * 3000),
]


def make(k, sep, v):
    """k: entry of KEYS; v: entry of VALUES or None (no delimiter at all)."""
    if v is None:
        return opt(k[0], k[0], None, k[1], k[2])
    return opt(k[0] + sep + v[0], k[0], v[1], k[1], k[2])
