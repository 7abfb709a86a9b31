"""Access to SetEnvironment, and the model of its action lists."""
import os

from vlib import env

os.environ.setdefault("MODULESHOME", "/nonexistent/verif")
import setenvironment  # noqa: E402

env.from_tree(setenvironment)
from setenvironment import SetEnvironment, ModuleHelper  # noqa: E402

ENVVAR = ["envvar_append", "envvar_assert_not_empty", "envvar_find_in_path", "envvar_prepend", "envvar_remove_path_entry",
          "envvar_remove_substr", "envvar_set", "envvar_set_if_empty", "envvar_unset"]
MODULE = ["module_load", "module_purge", "module_swap", "module_unload", "module_use"]
HANDLED = set(ENVVAR + MODULE + ["envvar_remove", "module_remove"])


def actions(events):
    out = []
    for kind, _sec, o in events:
        if kind != "opt":
            continue
        op, params, value = o[3], o[4], o[2]
        if op in ENVVAR:
            if op == "envvar_assert_not_empty" and value is None:
                value = ""
            out.append({"op": op, "envvar": params[0], "value": value})
        elif op in MODULE:
            out.append({"op": op, "module": params[0] if params else None, "value": value})
        elif op == "envvar_remove":
            out = [a for a in out if a.get("envvar") != params[0]]
        elif op == "module_remove":
            out = [a for a in out if "module" not in a or
                   not (a["module"] == params[0] or (a["value"] is not None and params[0] in a["value"]))]
    return out


# -- the effect of envvar actions ---------------------------------------------------------------
class AssertFailed(Exception):
    pass


def subst(env, text):
    """$VAR and ${VAR} of variables that exist."""
    import re
    return re.sub(r"\$(?:(\w+)|\{([^}]*)\})", lambda m: env.get(m.group(1) or m.group(2), m.group(0)), text, flags=re.ASCII)


def find(env, name, need_x=True):
    """First file of that name in the directories of PATH."""
    for d in env.get("PATH", "").split(":"):
        f = os.path.join(d, name)
        if d and name and os.path.isfile(f) and (not need_x or os.access(f, os.X_OK)):
            return f
    return ""


def effect(env, a):
    """The environment after an envvar action (raises AssertFailed)."""
    env = dict(env)
    op, n = a["op"][len("envvar_"):], a["envvar"]
    v = None if a["value"] is None else subst(env, a["value"])
    old = env.get(n)
    if op == "set":
        env[n] = v
    elif op == "set_if_empty":
        if not old:
            env[n] = v
    elif op == "unset":
        env.pop(n, None)
    elif op == "append":
        env[n] = v if old is None else old + ":" + v
    elif op == "prepend":
        env[n] = v if old is None else v + ":" + old
    elif op == "remove_substr":
        if old is not None and v != "":
            env[n] = "".join(old.split(v))
    elif op == "remove_path_entry":
        if old is not None:
            env[n] = ":".join(x for x in old.split(":") if x != v)
    elif op == "find_in_path":
        env[n] = find(env, v)
    elif op == "assert_not_empty":
        if not old:
            raise AssertFailed(v)
    else:
        raise AssertionError(op)
    return env


def fold(env, acts):
    """(environment, None) or (environment at the failure, AssertFailed)."""
    for a in acts:
        try:
            env = effect(env, a)
        except AssertFailed as ex:
            return env, ex
    return env, None


class environment:
    """Run with exactly the given environment variables."""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        self.saved = dict(os.environ)
        os.environ.clear()
        os.environ.update(self.env)
        return self

    def __exit__(self, *exc):
        self.after = dict(os.environ)
        os.environ.clear()
        os.environ.update(self.saved)
        return False
