"""Reference model of keyword files: values of keys, flags and environments.

A value line is [text, value]: how the line is written and the value it stands for (None: none).
"""

SELECT = ("SELECT_ONE", "SELECT_MANY")


class Bad(Exception):
    """The file or the query must be rejected."""


def values_of(lines, keys):
    """The validated values of a key whose value lines are ``lines``, in a section with these keys."""
    vals = [v for _t, v in lines if v is not None]
    if len(set(vals)) != len(vals):
        raise Bad("duplicate")
    for v in vals:
        if v in SELECT:
            continue
        if "_" in v or any(c.isspace() for c in v):
            raise Bad("blank or delimiter")
    for v in vals:
        if v in keys:
            raise Bad("equals a key")
    return vals


def key_of(section, value):
    """section: {key: lines}"""
    found = None
    for k, lines in section.items():
        if value in values_of(lines, section):
            found = k
    if found is None:
        raise Bad("no such value")
    return found


def render_key(key, lines, first=True, delim=":", indent="    "):
    """``first``: the first line stands on the line of the key.  lines None: no delimiter at all."""
    if lines is None:
        return [key]
    out = []
    rest = list(lines)
    head = f"{key}{delim}"
    if first and rest:
        head += " " + rest.pop(0)[0]
    out.append(head)
    for t, _v in rest:
        out.append(indent + t if t else "")
    return out


def is_exit(r):
    """An error exit: SystemExit with a code that is not success."""
    return r[0] == "raise" and isinstance(r[1], SystemExit) and r[1].code not in (None, 0)


def words(name):
    return name.split("_")


# -- systems ---------------------------------------------------------------------------------
def host_system(systems, host):
    """systems: [(name, [pattern])]; the first one with a pattern found in the host name."""
    import re
    for name, pats in systems:
        if any(re.search(p, host) for p in pats):
            return name
    return None


def named_systems(systems, build):
    have = build.lower().split("_")
    return [n for n, _p in systems if n.lower() in have]


def system_of(systems, host, build, force):
    named = named_systems(systems, build)
    by_host = host_system(systems, host)
    if len(named) > 1:
        raise Bad("several systems named")
    if named:
        if named[0] != by_host and not force:
            raise Bad(f"host is {by_host}")
        return named[0]
    if by_host is None:
        raise Bad("no system")
    return by_host


# -- environments ----------------------------------------------------------------------------
def inside(name, build):
    """Is name in the build name, between '_' or ends?"""
    return f"_{name}_" in f"_{build}_"


def env_candidates(envs, build):
    """envs: {environment: [alias]} (validated).  All environments that the rules allow (several only on a tie)."""
    hit = [e for e in envs if inside(e, build)]
    if hit:
        n = max(map(len, hit))
        return [e for e in hit if len(e) == n]
    al = [(a, e) for e in envs for a in envs[e] if inside(a, build)]
    if not al:
        raise Bad("no environment")
    n = max(len(a) for a, _e in al)
    return [e for a, e in al if len(a) == n]


def validate_envs(envs):
    """envs: {environment: lines} -> {environment: [alias]}"""
    out = {e: values_of(lines, envs) for e, lines in envs.items()}
    every = [a for v in out.values() for a in v]
    if len(set(every)) != len(every):
        raise Bad("duplicate alias")
    return out
