"""Put the code under test (from /repo's working tree) on the import path."""
import os
import sys

SRC = os.environ.get("VERIF_SRC", "/repo")


def setup():
    paths = [
        f"{SRC}/src",
        f"{SRC}/wip/keywordparser",
        f"{SRC}/wip/determinesystem",
        f"{SRC}/wip/setenvironment/src",
        f"{SRC}/wip/genconfig",
        f"{SRC}/wip/loadenv",
    ]
    for p in reversed(paths):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(1, p)


def from_tree(module):
    """Make sure that what was imported is the working tree's code."""
    f = os.path.realpath(module.__file__)
    if not f.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError(f"{module.__name__} was imported from {f}, not from {SRC}")
    return module
