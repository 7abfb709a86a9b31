"""A controlled scheduler for shells that run in one Install: every shell stops before each external command it starts (and its
Python programs before and after they open a file for writing) until the scheduler lets it go on, and only one shell runs at a time.
"""
import os
import select
import shutil
import signal
import subprocess
import time

GATED = ("cat", "rm", "python3", "cmake", "mkdir")
# {n}: the program as it was before, under another name
WRAP = '''#!/bin/bash
if [ -n "$VGATE" ]; then
  exec 9<>"$VGATE.reply"
  echo "$$ {n} $*" >"$VGATE.req"
  read -r v <&9
  if [ "$v" = fail ]; then exit 1; fi
  exec 9<&-
fi
exec {d}/real/{n} "$@"
'''
PYGATE = '''
import builtins as _b
_open = _b.open
def _gate(what):
    with _open(os.environ["VGATE"] + ".req", "w") as f:
        f.write("%d %s\\n" % (os.getpid(), what))
    with _open(os.environ["VGATE"] + ".reply") as f:
        f.readline()
def _gated(file, mode="r", *a, **k):
    if not set(mode) & set("wax+") or not isinstance(file, (str, bytes, os.PathLike)):
        return _open(file, mode, *a, **k)
    _gate("before " + mode)
    try:
        return _open(file, mode, *a, **k)
    finally:
        _gate("after " + mode)
if os.environ.get("VGATE"):
    _b.open = _gated
'''


class Stuck(Exception):
    pass


class Shells:
    def __init__(self, inst, fine=True):
        """Put gates into an installation.  fine: also around files that Python programs open for writing."""
        self.w = inst
        d = inst.d
        os.makedirs(f"{d}/real", exist_ok=True)
        for n in GATED:
            if not os.path.lexists(f"{d}/real/{n}"):
                os.rename(f"{d}/bin/{n}", f"{d}/real/{n}")
                inst.prog(n, WRAP.format(n=n, d=d))
        # the version question needs no gate
        inst.prog("python3", '#!/bin/bash\nif [ "$1" = -c ]; then exec %s/real/python3 "$@"; fi\n' % d + WRAP.format(n="python3", d=d).split("\n", 1)[1])
        inst.prog("cmake", open(f"{d}/bin/cmake").read())
        if fine:
            b = open(f"{d}/boot.py").read()
            if PYGATE not in b:
                inst.put("boot.py", b.replace("import runpy,", PYGATE + "\nimport runpy,", 1))
        self.shells = []

    def start(self, script, base, stdin="", gated=True):
        """Start a shell; it runs up to its first gate or its end."""
        i = len(self.shells)
        g = f"{self.w.d}/gate{i}"
        for x in (".req", ".reply"):
            if os.path.exists(g + x):
                os.unlink(g + x)
            os.mkfifo(g + x)
        s = Shell(self.w, i, g, script, dict(base, VGATE=g), stdin)
        self.shells.append(s)
        s.wait()
        return s

    def close(self):
        for s in self.shells:
            s.close()


class Shell:
    def __init__(self, w, i, gate, script, base, stdin):
        self.w, self.i, self.gate = w, i, gate
        self.req = os.open(gate + ".req", os.O_RDWR | os.O_NONBLOCK)
        self.reply = os.open(gate + ".reply", os.O_RDWR | os.O_NONBLOCK)
        self.log, self.at, self.buf = [], None, b""
        for f in os.listdir(w.d):
            if f.startswith(f"dump{i}."):
                os.unlink(os.path.join(w.d, f))
        from vlib.shell import prelude
        pre = prelude(f"{w.d}/dump{i}")
        self.out = open(f"{w.d}/out{i}", "wb")
        r, wr = os.pipe()
        os.write(wr, stdin.encode())
        os.close(wr)
        self.p = subprocess.Popen(["/bin/bash", "--norc", "--noprofile", "-c", pre + script], env=base, cwd=os.path.join(w.d, "work"), stdin=r, stdout=self.out,
                                  stderr=subprocess.STDOUT, start_new_session=True)
        os.close(r)
        self.pidfd = os.pidfd_open(self.p.pid)

    @property
    def done(self):
        return self.p.returncode is not None

    def wait(self, timeout=60):
        """Until the shell stands at a gate (True) or has ended (False)."""
        end = time.time() + timeout
        while True:
            if b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                self.pid, self.at = line.decode("utf-8", "replace").split(" ", 1)
                self.log.append(self.at)
                return True
            left = end - time.time()
            if left <= 0:
                raise Stuck(f"shell {self.i} does not go on after {self.log[-3:]!r}")
            r, _w, _x = select.select([self.req, self.pidfd], [], [], left)
            if self.req in r:
                try:
                    self.buf += os.read(self.req, 65536)
                except BlockingIOError:
                    pass
            elif self.pidfd in r:
                self.p.wait()
                self.at = None
                return False

    def step(self, word="go"):
        """Let the shell go on to its next gate or its end."""
        if self.done:
            return False
        os.write(self.reply, word.encode() + b"\n")
        return self.wait()

    def finish(self, limit=500):
        n = 0
        while self.step():
            n += 1
            if n > limit:
                raise Stuck(f"shell {self.i} does not end")

    def signal(self, sig):
        """To the shell itself, which handles it when its current command has ended."""
        os.kill(self.p.pid, sig)

    def signal_all(self, sig):
        """To the shell and all its programs, as a terminal does."""
        os.killpg(self.p.pid, sig)
        return self.wait()

    def kill(self):
        """Kill the command that stands at the gate."""
        os.kill(int(self.pid), signal.SIGKILL)
        return self.wait()

    def dumps(self):
        from vlib.shell import read_dump
        out = []
        while os.path.exists(f"{self.w.d}/dump{self.i}.{len(out)}.rc"):
            n = f"{self.w.d}/dump{self.i}.{len(out)}"
            e = read_dump(f"{self.w.d}/dump{self.i}", len(out))
            e.pop("VGATE", None)
            out.append((int(open(n + ".rc").read()), e))
        return out

    @property
    def output(self):
        self.out.flush()
        return open(f"{self.w.d}/out{self.i}", encoding="utf-8", errors="replace").read()

    def close(self):
        if not self.done:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()
        for f in (self.req, self.reply, self.pidfd):
            os.close(f)
        self.out.close()
