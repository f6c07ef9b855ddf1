"""C library scenarios: operation scripts run by libdrv/drv.c, compiled and linked by the tree under test,
on the simulated kernel ("n") or the simulated WASI host ("w"), judged by small reference models."""
import errno as E, json, os, random, struct

from . import client as C
from .engine import Prop, rng_for, ddmin_list

OPS = {}
for _i, _l in enumerate("""END; FOPEN i s s; FDOPEN i i s; FCLOSE i; FPUTC i i; FPUTS i s; PUTS s; PUTCHAR i; FWRITE i i i s; FPRINTF i i i i s; FFLUSH i;
FGETC i; UNGETC i i; FGETS i i; GETLINE i i; FREAD i i i; FEOF i; FERROR i; FSEEK i i i; FTELL i; TMPFILE i;
FMEMOPEN i i i s s; MEMSTREAM i i; MEMSTATE i; REMOVE s; FILENO i; FREELINE i; FREEMEM i; LINEBUF i i; PERROR s i; MEMBUF i i""".replace("\n", " ").split(";")):
    _p = _l.split()
    OPS[_p[0]] = (_i, _p[1:])
for _b, _t in ((40, "MALLOC i i i; CALLOC i i i i; REALLOC i i i; FREE i; VERIFY"),
               (50, "STRDUP s; STRNDUP s i; SNPRINTF i i s; GETCWDN i; MKSTEMP i s; MKSTEMPS i s i; GETRANDOM i"),
               (60, "OPEN i s i i; READ i i; WRITE i s; CLOSE i; LSEEK i i i; STAT s; FSTAT i; LSTAT s; UNLINK s; MKDIR s i; RMDIR s; CHDIR s; "
                    "CHMOD s i; GETCWD i; DUP i i; PIPE i i; FORK i i; KILL i i; ISATTY i; CLOCK i; TIME i; WAIT; WAITPID i i; EXECVE s s; IOCTL i i; "
                    "OPENAT; UNLINKAT; MKDIRAT i s i; FSTATAT i s i; FCHMODAT; PIPE2; WAIT4 i i; EXECVP s s; SETERRNO i"),
               (100, "EXIT i; RETURN i; ATEXIT i; DEFHANDLER i i; HANDLER; EXECARG")):
    for _i, _l in enumerate(_t.split(";")):
        _p = _l.split()
        OPS[_p[0]] = (_b + _i, _p[1:])
NAME = {v[0]: k for k, v in OPS.items()}


def enc_op(op):
    code, spec = OPS[op[0]]
    o = bytes([code])
    if op[0] == "DEFHANDLER":           # ["DEFHANDLER", k, [ops]]
        body = encode(op[2])
        return o + struct.pack("<qq", op[1], len(body)) + body
    if op[0] == "FORK":                 # ["FORK", [child ops], exit code]
        body = encode(op[1])
        return o + struct.pack("<qq", len(body), op[2]) + body
    for t, v in zip(spec, op[1:]):
        if t == "i":
            o += struct.pack("<q", v)
        else:
            b = v.encode("latin-1")
            o += struct.pack("<q", len(b)) + b + b"\0"
    return o


def encode(ops):
    return b"".join(enc_op(o) for o in ops)


class Rec:
    __slots__ = ("op", "who", "ret", "err", "data")

    def __init__(self, op, who, ret, err, data):
        self.op, self.who, self.ret, self.err, self.data = op, who, ret, err, data

    def __repr__(self):
        return "%s->%d errno %d %r" % (self.op, self.ret, self.err, self.data[:40])


def decode(b):
    out, o = [], 0
    while o + 26 <= len(b):
        op, who, ret, err, n = struct.unpack_from("<BBqqq", b, o)
        if o + 26 + n > len(b):
            break
        out.append(Rec(NAME.get(op, str(op)), who, ret, err, b[o + 26:o + 26 + n]))
        o += 26 + n
    return out


def V(cls, msg, **kw):
    d = {"cls": cls, "msg": msg}
    d.update(kw)
    return d


class Model(Exception):
    """A violation found by a reference model."""

    def __init__(self, cls, msg):
        Exception.__init__(self, msg)
        self.cls, self.msg = cls, msg


WERR = {"EIO": 29, "ENOSPC": 51, "EINTR": 27, "EACCES": 2, "EMFILE": 33, "EINVAL": 28, "EFBIG": 22, "EPERM": 63, "ENOMEM": 48, "EROFS": 69, "ENOTCAPABLE": 76, "EBADF": 8, "ENFILE": 41,
        "EISDIR": 31, "EPIPE": 64}


def werr(e):
    return WERR.get(E.errorcode.get(e, "EIO"), 29)


WOPS = {"read": "fd_read", "write": "fd_write", "open": "path_open", "close": "fd_close", "lseek": "fd_seek", "unlink": "path_unlink_file", "getrandom": "random_get"}
PREOPENS = [[["/", "/"]], [["/", "/"], [".", "/w"]], [[".", "/w"], ["/w", "/w"], ["/tmp", "/tmp"], ["/dev", "/dev"]], [["/tmp", "/tmp"], ["/w", "/w"], ["/dev", "/dev"]]]


class LibProp(Prop):
    wasm = True
    real = ["libsrc/ (the bundled C library) compiled by the tree's own xcc and linked by its ld, running natively under the simulated kernel",
            "the same library for wasm compiled and linked by the tree's own wcc, running in node's wasm engine on a simulated WASI host"]
    stub = ["kernel (xsim) and WASI host (wsim)", "client program: libdrv/drv.c, an interpreter of operation scripts"]
    wasm_share = 0.3

    def prepare(self, build):
        build.libc_driver()
        if self.wasm:
            build.wasm_driver()

    def make_sim(self, name, ctx):
        if name == "w":
            return C.WSim({"drv": ctx.build.wasm_driver()}, {}, cpu=ctx.cpu)
        m = {"/x/drv": ctx.build.libc_driver()}
        if name == "ref":
            m = {"/x/drv": ctx.build.ref_driver()}
        return C.Sim(m, cpu=ctx.cpu)

    def pick_target(self, rng):
        return "w" if self.wasm and rng.random() < self.wasm_share else "n"

    def script_run(self, ctx, case, trace=0, target=None, inline=1 << 20):
        """case: t, ops, sim, files, stdin, kinds -> response, records"""
        t = target or case["t"]
        q = dict(case.get("sim") or {})
        q["files"] = {k: ({"b64": C.b64(v)} if isinstance(v, str) else v) for k, v in (case.get("files") or {}).items()}
        kinds = case.get("kinds", "ppp")
        fds = {"0": {"src": C.b64(case.get("stdin", "")), "kind": kinds[0]}, "1": {"sink": "out", "kind": kinds[1]}, "2": {"sink": "err", "kind": kinds[2]},
               "10": {"src": C.b64(encode(case["ops"])), "control": True}, "11": {"sink": "res", "control": True}}
        q["inline"] = inline
        if trace:
            q["trace"] = trace
        if t == "w":
            q["module"] = "drv"
            q["fds"] = fds
            q["preopens"] = PREOPENS[case.get("pre", 0)]
            q["rules"] = [dict(r, op=WOPS.get(r["op"], r["op"]), val=werr(r["val"]) if r["kind"] == "err" else r["val"]) for r in q.get("rules", [])]
            r = ctx.run(q, "w")
        else:
            q["phases"] = [{"cmds": [C.cmd("/x/drv", ["/x/drv"], fds=fds)]}]
            r = ctx.run(q, "ref" if t == "ref" else "native")
        ctx.last = r
        recs = decode(C.unb64(r["sinks"].get("res", "")))
        return r, recs

    def status(self, r):
        for p in r["phases"][0]["procs"]:
            if p["root"]:
                return p["st"]
        return None

    def died(self, r):
        """text if the program did not end by itself"""
        if r["outcome"] != "ok":
            return r["outcome"]
        st = self.status(r)
        if r.get("trap"):
            return "trap: " + r["trap"]
        if st is None or st & 0x7f:
            return "killed by signal %d" % ((st or 0) & 0x7f)
        return None

    def final(self, r, case, path):
        """bytes of a file after the run; None if there is none"""
        e = r["phases"][0]["diff"].get(path)
        if e is None:
            f = (case.get("files") or {}).get(path)
            return f.encode("latin-1") if isinstance(f, str) else None
        if e["op"] == "deleted" or "b64" not in e:
            return None
        return C.unb64(e["b64"])

    def judge(self, ctx, case, r, recs):
        raise NotImplementedError

    trace = 0

    def execute(self, ctx, case):
        r, recs = self.script_run(ctx, case, trace=self.trace)
        ctx.stats.probe("target_" + case["t"])
        ctx.stats.nontrivial.add(r["htrace"] + str(hash_ops(case["ops"])))
        try:
            self.judge(ctx, case, r, recs)
        except Model as m:
            return [V(m.cls, "[%s] %s" % (case["t"], m.msg), sig="", fired=[f for f in r["fired"] if f["kind"] != "short"][:5] or r["fired"][:3])]
        return []

    def shrink(self, ctx, case, viol):
        for l in ddmin_list(case["ops"]):
            yield dict(case, ops=l)
        s = case.get("sim") or {}
        for k in ("faults", "rules"):
            if s.get(k):
                for l in ddmin_list(s[k]):
                    yield dict(case, sim=dict(s, **{k: l}))
        for k in ("pshortr", "pshortw", "disk", "brkshift", "rand", "fdlimit", "memadd"):
            if k in s:
                n = dict(s)
                del n[k]
                yield dict(case, sim=n)
        # shorter strings
        for i, op in enumerate(case["ops"]):
            for j, a in enumerate(op):
                if j and isinstance(a, str) and len(a) > 8 and op[0] in ("FPUTS", "PUTS", "STRDUP"):
                    n = list(op)
                    n[j] = a[:len(a) // 2]
                    yield dict(case, ops=case["ops"][:i] + [n] + case["ops"][i + 1:])


def hash_ops(ops):
    import zlib
    return zlib.crc32(json.dumps(ops).encode())


def rdata(rng, n, text=True):
    """Random bytes without NUL; newlines now and then."""
    p = rng.choice([0, 0, 0.01, 0.1])
    return "".join("\n" if rng.random() < p else chr(rng.choice((rng.randrange(33, 127), rng.randrange(1, 256)))) for _ in range(n)).replace("\0", "x")


def size_of(rng, big=True):
    return rng.choice([0, 1, 1, 2, 3, 7, 16, 60, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 385, 1000] + ([3000] if big else []))
