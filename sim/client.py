"""Client of the xsim server: one server process per worker."""
import base64, json, os, select, subprocess, sys

from . import build as B


def b64(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return base64.b64encode(b).decode("ascii")


def unb64(s):
    return base64.b64decode(s)


class SimDied(Exception):
    pass


class Sim:
    """mounts: virtual path -> real path; files: virtual path -> bytes."""

    def __init__(self, mounts, dirs=("/tmp", "/w", "/dev"), files=None, cpu=None):
        self.mounts, self.dirs, self.files, self.cpu = mounts, list(dirs), files or {}, cpu
        self.p = None
        self.runs = 0

    def start(self):
        cmd = [B.xsim()]
        if self.cpu is not None:
            cmd += ["--cpu", str(self.cpu)]
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={"PATH": "/usr/bin:/bin"})
        files = {"/dev/null": {"t": "chr", "dev": "n"}, "/dev/zero": {"t": "chr", "dev": "z"}, "/dev/full": {"t": "chr", "dev": "f"},
                 "/dev/urandom": {"t": "chr", "dev": "u"}, "/dev/random": {"t": "chr", "dev": "u"}}
        for k, v in self.files.items():
            files[k] = {"b64": b64(v)}
        self.call({"cmd": "image", "reset": True, "dirs": self.dirs, "mounts": self.mounts, "files": files})

    def call(self, q):
        try:
            self.p.stdin.write(json.dumps(q).encode() + b"\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = b""
        if not line:
            err = self.p.stderr.read().decode("utf-8", "replace")[-2000:]
            self.stop()
            raise SimDied("xsim died: " + err)
        return json.loads(line)

    def run(self, q):
        if self.p is None:
            self.start()
        self.runs += 1
        q = dict(q)
        q["cmd"] = "run"
        return self.call(q)

    def stop(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
            except Exception:
                pass
            self.p.kill()
            self.p.wait()
            self.p = None


def std_fds(stdin=b"", in_kind="p", out_kind="p"):
    return {"0": {"src": b64(stdin), "kind": in_kind}, "1": {"sink": "out", "kind": out_kind}, "2": {"sink": "err", "kind": out_kind}}


ENV = ["PATH=/usr/bin:/bin", "HOME=/root", "LANG=C"]


def cmd(exe, argv, stdin=b"", env=ENV, cwd="/w", fds=None):
    return {"exe": exe, "argv": argv, "env": list(env), "cwd": cwd, "fds": fds or std_fds(stdin)}


class WSim:
    """The simulated WASI host (node)."""

    def __init__(self, modules, mounts, dirs=("/tmp", "/w", "/dev"), cpu=None, timeout=90):
        self.modules, self.mounts, self.dirs, self.cpu, self.timeout = modules, mounts, list(dirs), cpu, timeout
        self.p = None

    def start(self):
        cmd = ["node", "--stack-size=4000", "--single-threaded", os.path.join(B.VERIF, "wsim", "wsim.js")]
        if self.cpu is not None:
            cmd = ["taskset", "-c", str(self.cpu)] + cmd
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env={"PATH": os.environ.get("PATH", "/usr/bin:/bin")}, bufsize=0)
        self.buf = b""
        self.call({"cmd": "image", "dirs": self.dirs, "mounts": self.mounts, "modules": self.modules,
                   "files": {"/dev/null": {"t": "chr", "dev": "n"}, "/dev/full": {"t": "chr", "dev": "f"}}})

    def call(self, q):
        try:
            data = json.dumps(q).encode() + b"\n"
            o = 0
            while o < len(data):
                o += self.p.stdin.write(data[o:])
        except BrokenPipeError:
            self.stop()
            raise SimDied("wsim died")
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], self.timeout)
            if not r:
                self.stop()
                return None
            d = self.p.stdout.read(1 << 20)
            if not d:
                self.stop()
                raise SimDied("wsim died")
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        r = json.loads(line)
        if "error" in r:
            self.stop()
            raise SimDied("wsim: " + r["error"][:1500])
        return r

    def run(self, q):
        if self.p is None:
            self.start()
        q = dict(q)
        q["cmd"] = "run"
        r = self.call(q)
        if r is None:      # endless computation without a host call
            r = {"outcome": "cpuhang", "trap": "", "phases": [{"procs": [{"lin": "0", "exe": "", "st": 9, "n": 0, "root": True, "code": -1}], "steps": 0, "diff": {}, "crashed": False}],
                 "sinks": {}, "events": [], "fired": [], "chosen": [], "fcount": {}, "steps": 0, "simns": 0, "hsched": "", "htrace": "hang", "unknown": [], "mutated": [], "trace": [], "openfds": 0}
        return r

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None
