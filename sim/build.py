"""Builds what the checks need from /repo's current working tree, outside /repo.

The tree is copied to /verif/build/<hash of the sources>/t; host-built tools are linked statically so
that the simulator sees every system call they make.  Each part is built at most once per source hash.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

CLEAN_ENV = {"HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "CC": "gcc",
             "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"}


class BuildError(Exception):
    pass


def _files(root, sub):
    out = []
    for base, dirs, files in os.walk(os.path.join(root, sub)):
        dirs[:] = sorted(d for d in dirs if d not in ("obj", ".git", "node_modules", ".external"))
        for f in sorted(files):
            if f.endswith((".o", ".a", ".d", ".wasm", "~")):
                continue
            p = os.path.join(base, f)
            if os.path.isfile(p) and not os.path.islink(p):
                out.append(os.path.relpath(p, root))
    return out


def tree_files():
    fs = ["Makefile"]
    for d in ("src", "libsrc", "include", "tool"):
        fs += _files(REPO, d)
    fs += [f for f in _files(REPO, "examples") if f.endswith((".c", ".h"))]
    fs += [f for f in _files(REPO, "tests") if f.endswith((".c", ".h", ".inc"))]
    return fs


def tree_hash():
    h = hashlib.sha256()
    for f in tree_files():
        if f.startswith("tests") or f.startswith("examples"):
            # workload sources; part of the key as well
            pass
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    with open(os.path.abspath(__file__), "rb") as fp:
        h.update(fp.read())
    return h.hexdigest()[:16]


def _run(cmd, cwd, env=None, what="build", timeout=600):
    e = dict(CLEAN_ENV)
    if env:
        e.update(env)
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       stdin=subprocess.DEVNULL)
    if r.returncode != 0:
        raise BuildError("%s failed (%s): %s" % (what, " ".join(cmd), r.stdout.decode("utf-8", "replace")[-3000:]))
    return r.stdout


class Build:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.hash = tree_hash()
        self.dir = os.path.join(BUILD, self.hash)
        self.t = os.path.join(self.dir, "t")
        self.times = {}

    def _stage(self, name, fn):
        os.makedirs(self.dir, exist_ok=True)
        stamp = os.path.join(self.dir, name + ".ok")
        with open(os.path.join(self.dir, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if os.path.exists(stamp):
                return
            t0 = time.time()
            fn()
            self.times[name] = round(time.time() - t0, 1)
            open(stamp, "w").close()

    def copy(self):
        def fn():
            # old builds are of no use any more
            for d in os.listdir(BUILD):
                p = os.path.join(BUILD, d)
                if len(d) == 16 and os.path.isdir(p) and d != self.hash and time.time() - os.path.getmtime(p) > 3600:
                    shutil.rmtree(p, ignore_errors=True)
            shutil.rmtree(self.t, ignore_errors=True)
            for f in tree_files():
                dst = os.path.join(self.t, f)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copy(os.path.join(REPO, f), dst)
        self._stage("copy", fn)

    def native(self):
        self.copy()

        def fn():
            _run(["make", "-j8", "exes", "OPTIMIZE=-O2", "LDFLAGS=-static"], self.t, what="make exes")
            _run(["make", "-j8", "libs", "OPTIMIZE=-O2", "LDFLAGS=-static"], self.t, what="make libs")
        self._stage("native", fn)

    def wcc(self):
        self.copy()

        def fn():
            _run(["make", "-j8", "wcc", "OPTIMIZE=-O2", "LDFLAGS=-static"], self.t, what="make wcc")
        self._stage("wcc", fn)

    def gen2(self):
        self.native()
        self._stage("gen2", lambda: _run(["make", "-j8", "HOST=", "TARGET=gen2", "OPTIMIZE=-O2", "self-hosting"], self.t, what="make gen2"))

    def ccwasm(self):
        self.wcc()
        self._stage("ccwasm", lambda: _run(["make", "-j8", "HOST_TARGET=wcc", "HOST_WCC=./wcc", "CC=./wcc", "WCC_TARGET=", "OPTIMIZE=-O2",
                                            "wcc-self-hosting"], self.t, what="make cc.wasm"))

    def libc_driver(self):
        """The op-script interpreter linked with the bundled C library, native."""
        self.native()

        def fn():
            src = os.path.join(VERIF, "libdrv", "drv.c")
            out = os.path.join(self.dir, "drv")
            _run([os.path.join(self.t, "xcc"), "-o", out, src], self.dir, what="compile the libc driver with xcc")
        self._stage("drv-" + _srckey("libdrv"), fn)
        return os.path.join(self.dir, "drv")

    def ref_driver(self):
        """The same interpreter on the host's C library: the reference for plain system-call wrappers."""
        self.copy()

        def fn():
            _run(["gcc", "-w", "-O1", "-static", "-DREFERENCE", "-o", os.path.join(self.dir, "drvref"), os.path.join(VERIF, "libdrv", "drv.c")], self.dir, what="compile the reference driver")
        self._stage("rdrv-" + _srckey("libdrv"), fn)
        return os.path.join(self.dir, "drvref")

    def wasm_driver(self):
        self.wcc()

        def fn():
            src = os.path.join(VERIF, "libdrv", "drv.c")
            out = os.path.join(self.dir, "drv.wasm")
            _run([os.path.join(self.t, "wcc"), "-o", out, src], self.dir, what="compile the libc driver with wcc")
        self._stage("wdrv-" + _srckey("libdrv"), fn)
        return os.path.join(self.dir, "drv.wasm")


def _srckey(sub):
    h = hashlib.sha256()
    d = os.path.join(VERIF, sub)
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            with open(p, "rb") as fp:
                h.update(f.encode() + fp.read())
    return h.hexdigest()[:12]


def xsim():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "xsim-" + _srckey("xsim"))
    with open(os.path.join(BUILD, ".xlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            _run(["g++", "-O1", "-std=c++17", "-o", out + ".tmp", os.path.join(VERIF, "xsim", "xsim.cpp")], VERIF, what="build xsim")
            os.rename(out + ".tmp", out)
    return out


if __name__ == "__main__":
    b = Build()
    for a in sys.argv[1:] or ["native", "wcc", "gen2", "ccwasm"]:
        t0 = time.time()
        if a == "xsim":
            xsim()
        else:
            getattr(b, a)()
        print(a, round(time.time() - t0, 1), "s")
    print(b.dir)
