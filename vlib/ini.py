"""
The reference model of an enhanced .ini file.

A file is a list of [section, [option, ...]]; an option is [text, key, value, op, params]:
  text    the line(s) as they stand in the file
  key     the option's key as a reader must see it
  value   the option's value as a reader must see it (None: no delimiter)
  op      the operation the key's first word names ('-' read as '_'), or None when the first
          word cannot be an operation
  params  the remaining words of the key
The model never looks at ``text``; what a line means is fixed by the alphabets of the checks.
"""

DEFAULT = "DEFAULT"


class Missing(Exception):
    pass


def opt(text, key, value, op=None, params=()):
    return [text, key, value, op, list(params)]


def kv(key, value, sep=": "):
    """A plain one-word option."""
    text = key if value is None else f"{key}{sep}{value}"
    return opt(text, key, value, key.replace("-", "_"), [])


QUOTES = {"A": "'", "C": '"', "E": '"'}       # the usual ways of writing a target, by name


def use(target, quote=None, tail=""):
    if quote is None:
        quote = QUOTES.get(target, "" if target.replace("_", "a").isalnum() else "'")
    key = f"use {quote}{target}{quote}"
    return opt(key + tail, key, None if tail == "" else "", "use", [target])


def render(file, blank=False):
    out = []
    for name, opts in file:
        out.append(f"[{name}]")
        for o in opts:
            out.append(o[0])
        if blank:
            out.append("")
    return "\n".join(out) + "\n"


def sections(file):
    return {name: opts for name, opts in file}


def expand(secs, root, default=DEFAULT, initialize=True, stop=None):
    """The visit sequence of a search that starts at ``root``.

    [('opt', section, option) | ('use', section, option) | ('cycle', section, target)]
    Raises Missing when an unknown section is reached (``events`` attribute: what came before).
    """
    ev = []
    stack = []

    def visit(sec):
        if sec not in secs:
            m = Missing(sec)
            m.events = ev
            raise m
        stack.append(sec)
        for o in secs[sec]:
            if o[3] == "use":
                ev.append(("use", sec, o))
                target = o[4][0]
                if target in stack:
                    ev.append(("cycle", sec, target))
                else:
                    visit(target)
                ev.append(("endu", sec, o))
            else:
                ev.append(("opt", sec, o))
        stack.pop()

    if initialize and default in secs and root != default:
        visit(default)
    visit(root)
    return ev


def contents(events, handled=()):
    """Section contents (ordered dict) that result from a visit sequence."""
    data = {}
    for kind, _sec, o in events:
        if kind == "opt" and o[3] not in handled:
            data[o[1]] = o[2]
    return data


def seqs(alphabet, maxlen, key=lambda o: o[1], minlen=0):
    """All sequences of options with pairwise distinct keys, shortest first."""
    level = [[]]
    for n in range(maxlen + 1):
        if n >= minlen:
            for s in level:
                yield s
        if n < maxlen:
            level = [s + [o] for s in level for o in alphabet if all(key(o) != key(x) for x in s)]


def read_plain(texts, delimiters=("=", ":")):
    """What the standard parser finds in the texts (one file each, merged in order), as model sections."""
    import configparser
    import shlex
    c = configparser.ConfigParser(allow_no_value=True, delimiters=tuple(delimiters), default_section="$none")
    c.optionxform = str
    for t in texts:
        c.read_string(t)
    secs = {}
    for s in c.sections():
        opts = []
        for k, v in c[s].items():
            if v is not None:
                v = v.strip().strip('"')
            words = shlex.split(k)
            opts.append(opt("", k, v, words[0].replace("-", "_"), words[1:]))
        secs[s] = opts
    return secs


def repo_files(root):
    """The .ini files of the repository (links, build output and settings of tools left out), relative to its root."""
    import os
    for d, dirs, names in os.walk(root):
        dirs[:] = sorted(x for x in dirs if not x.startswith(".") and x not in ("build", "dist", "__pycache__"))
        for n in sorted(names):
            if n.endswith(".ini") and n not in ("pytest.ini", "tox.ini", "mypy.ini"):
                yield os.path.relpath(os.path.join(d, n), root)
