"""Access to the core package under test."""
from vlib import env
import configparserenhanced

env.from_tree(configparserenhanced)
from configparserenhanced import ConfigParserEnhanced  # noqa: E402
try:
    from configparserenhanced import AmbiguousHandlerError
except ImportError:
    from configparserenhanced.ConfigParserEnhanced import AmbiguousHandlerError


def quiet(p):
    p.exception_control_silent_warnings = True
    return p
