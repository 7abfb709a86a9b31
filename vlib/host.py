"""Stand-in for the host name. Import this before the code under test, so that a name it imports is the stand-in, too."""
import platform
import socket

_real = socket.gethostname
_name = []


def _gethostname():
    return _name[-1] if _name else _real()


socket.gethostname = _gethostname
platform.node = _gethostname


class host:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        _name.append(self.name)

    def __exit__(self, *a):
        _name.pop()
        return False
