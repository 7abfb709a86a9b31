"""Run the shell front ends (load-env.sh, gen-config.sh) of the working tree in a scratch installation.

The installation holds copies of the tree's scripts.  ``python3``, ``cmake`` and ``sleep`` on its PATH are stand-ins: python3
runs the real interpreter with the tree's packages, a given host name and a stand-in for setprogramoptions; cmake records how it
was called and in which environment; sleep does nothing.
"""
import os
import shutil
import subprocess

from vlib import env

BOOT = r'''
import os, sys
a = sys.argv[1:]
flags = ""
while a and a[0].startswith("-") and a[0] not in ("-c", "--version", "-V"):
    flags += a.pop(0)
if "E" in flags or "I" in flags:      # the interpreter was started without them: PYTHONPATH is to be ignored
    sys.path[:] = [p for p in sys.path if p not in os.environ.get("PYTHONPATH", "").split(":")]
if a[:1] == ["-c"]:
    sys.argv = ["-c"] + a[2:]
    exec(a[1])
    sys.exit(0)
if a[:1] in (["--version"], ["-V"]):
    print("Python 3.12")
    sys.exit(0)
import runpy, socket, platform, types
for p in %(paths)r:
    sys.path.insert(0, p)
socket.gethostname = lambda: open(%(host)r).read().strip()
platform.node = socket.gethostname


class Options:
    def __init__(self, filename=None):
        self.filename = filename

    def gen_option_list(self, section, generator="bash"):
        opts = open(%(opts)r, encoding="utf-8").read().split("\n")
        return [] if opts == ["<none>"] else ["-DCONFIG:STRING=" + section] + opts


m = types.ModuleType("setprogramoptions")
m.SetProgramOptionsCMake = Options
sys.modules["setprogramoptions"] = m
sys.argv = a
sys.path.insert(0, os.path.dirname(os.path.abspath(a[0])))
runpy.run_path(a[0], run_name="__main__")
'''
SHADOW = ("argparse", "getpass", "textwrap", "uuid", "configparser", "setenvironment", "loadenv", "keywordparser", "determinesystem", "configparserenhanced")
NOISE = {"_", "SHLVL", "PWD", "OLDPWD"}


class Install:
    def __init__(self, d, user, files, options=(), bare=True):
        """files: {name: text} of the .ini files.  bare: only load-env."""
        self.d, self.user = d, user
        shutil.rmtree(d, ignore_errors=True)
        for s in ("bin", "cfg", "work", "home", "src dir", "shadow"):
            os.makedirs(os.path.join(d, s))
        w = os.path.join(env.SRC, "wip")
        self.le = os.path.join(d, "genconfig", "LoadEnv")
        self.gc = os.path.join(d, "genconfig")
        os.makedirs(self.le)
        for x in ("load-env.sh", "load_env.py"):
            shutil.copy(os.path.join(w, "loadenv", x), self.le)
        shutil.copytree(os.path.join(w, "loadenv", "loadenv"), os.path.join(self.le, "loadenv"), ignore=shutil.ignore_patterns("__pycache__"))
        for x in ("gen-config.sh", "gen_config.py"):
            shutil.copy(os.path.join(w, "genconfig", x), self.gc)
        shutil.copytree(os.path.join(w, "genconfig", "src"), os.path.join(self.gc, "src"), ignore=shutil.ignore_patterns("__pycache__"))
        for n, t in files.items():
            self.put(f"cfg/{n}.ini", t)
        le = [n for n in ("supported-systems", "supported-envs", "environment-specs")]
        self.put("genconfig/LoadEnv/loadenv/load-env.ini", "[load-env]\n" + "".join(f"{n} : {d}/cfg/{n}.ini\n" for n in le))
        self.put("genconfig/src/gen-config.ini", "[gen-config]\n" + "".join(f"{n} : {d}/cfg/{n}.ini\n" for n in ("supported-config-flags", "config-specs"))
                 + "[load-env]\n" + "".join(f"{n} : {d}/cfg/{n}.ini\n" for n in le))
        self.put("host", "h1")
        self.put("options", "\n".join(options))
        paths = [f"{env.SRC}/{p}" for p in ("src", "wip/keywordparser", "wip/determinesystem", "wip/setenvironment/src")] + [self.gc]
        self.put("boot.py", BOOT % {"paths": paths, "host": f"{d}/host", "opts": f"{d}/options"})
        self.prog("python3", f'#!/bin/sh\nexec /usr/bin/env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -W ignore {d}/boot.py "$@"\n')
        self.prog("cmake", f'#!/bin/bash\nn=$(/usr/bin/ls {d}/cmake 2>/dev/null | /usr/bin/wc -l)\n/usr/bin/mkdir -p {d}/cmake/$n\nprintf "%s\\0" "$@" > {d}/cmake/$n/args\n/usr/bin/env -0 > {d}/cmake/$n/env\n'
                  f'[ -f {d}/cmakefails ] && exit 3\nexit 0\n')
        for m in SHADOW:      # what a PYTHONPATH of the caller's shell may offer
            self.put(f"shadow/{m}.py", "raise SystemExit(7)\n")
        self.prog("sleep", "#!/bin/sh\nexit 0\n")
        for x in ("which", "cat", "rm", "dirname", "expr", "ls", "mkdir", "wc"):
            os.symlink(shutil.which(x, path="/usr/bin:/bin"), os.path.join(d, "bin", x))

    def put(self, p, text):
        p = os.path.join(self.d, p)
        if os.path.lexists(p):
            os.unlink(p)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)

    def prog(self, n, text):
        self.put(f"bin/{n}", text)
        os.chmod(os.path.join(self.d, "bin", n), 0o755)

    def base(self, **more):
        return {"PATH": f"{self.d}/bin", "HOME": f"{self.d}/home", "LOGNAME": self.user, "USER": self.user, "KEEP": "kept one", "TRAIL": "start", "GONE": "x", **more}

    def run(self, script, base, stdin="", timeout=60):
        """Run a bash script in the working directory; returns (exit status, [environments it dumped with 'dump'], output)."""
        for f in os.listdir(self.d):
            if f.startswith("dump."):
                os.unlink(os.path.join(self.d, f))
        pre = prelude(f"{self.d}/dump")
        p = subprocess.run(["/bin/bash", "--norc", "--noprofile", "-c", pre + script], env=base, cwd=os.path.join(self.d, "work"), input=stdin.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, start_new_session=True)
        dumps = []
        while os.path.exists(f"{self.d}/dump.{len(dumps)}.rc"):
            i = len(dumps)
            dumps.append((int(open(f"{self.d}/dump.{i}.rc").read()), read_dump(f"{self.d}/dump", i)))
        return p.returncode, dumps, p.stdout.decode("utf-8", "replace")

    def cmakes(self):
        out = []
        t = f"{self.d}/cmake"
        for n in sorted(os.listdir(t), key=int) if os.path.isdir(t) else []:
            out.append((open(f"{t}/{n}/args", encoding="utf-8").read().split("\0")[:-1], read_env(f"{t}/{n}/env")))
        shutil.rmtree(t, ignore_errors=True)
        return out

    def left(self):
        """Files left in the working directory and in the user's temporary directory."""
        out = sorted(os.listdir(os.path.join(self.d, "work")))
        t = f"/tmp/{self.user}"
        return out, sorted(os.listdir(t)) if os.path.isdir(t) else []

    def close(self):
        shutil.rmtree(f"/tmp/{self.user}", ignore_errors=True)
        shutil.rmtree(self.d, ignore_errors=True)


def prelude(p):
    """Defines dump (record status $1, exported variables and state of the shell) and mark (this is the state that has to remain)."""
    return (f'_n=0\nfunction _state() {{ trap -p; echo "directory $PWD"; echo "options $-"; umask; }}\nfunction mark() {{ _state > {p}.mark; }}\nmark\n'
            f'function dump() {{ local rc=$1; _state > {p}.$_n.state; /usr/bin/env -0 > {p}.$_n; printf "%s" "$rc" > {p}.$_n.rc; _n=$((_n+1)); }}\n')


def read_dump(p, i):
    out = read_env(f"{p}.{i}")
    was, now = (open(f"{p}.{x}", encoding="utf-8", errors="replace").read().split("\n") for x in ("mark", f"{i}.state"))
    if was != now:
        out["<signal handlers, directory, options of the shell>"] = f"{[x for x in now if x not in was]!r} instead of {[x for x in was if x not in now]!r}"
    return out


def read_env(p):
    with open(p, encoding="utf-8", errors="surrogateescape") as f:
        return dict(x.split("=", 1) for x in f.read().split("\0") if "=" in x)


def diff(got, want, drop=NOISE):
    return {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k) and k not in drop}
