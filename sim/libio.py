"""stdio of the bundled C library: C10 (output), C11 (input), C12 (positions)."""
import errno as E

from . import client as C
from .libc import LibProp, Model, rdata, size_of

WRITES = ("write", "writev", "pwrite64", "fd_write", "fd_pwrite")
READS = ("read", "readv", "pread64", "fd_read", "fd_pread")
SEEKS = ("lseek", "fd_seek", "fd_tell")
CLOSES = ("close", "fd_close")


def per_op(r, recs):
    """Trace entries that belong to each record, and those after the last one."""
    out, cur = [], []
    for e in r["trace"]:
        if e[2] == "!log":
            out.append(cur)
            cur = []
        elif e[2] != "!die":
            cur.append(e)
    if len(out) != len(recs):
        raise RuntimeError("%d records, %d log entries" % (len(recs), len(out)))
    return out, cur


class Pattern:
    """Bytes that must (or may) arrive, in order; bit-parallel matching."""

    def __init__(self):
        self.b = bytearray()
        self.opt = 0        # bit i: byte i is optional
        self.n = 0

    def add(self, data, optional):
        if optional and data:
            self.opt |= ((1 << len(data)) - 1) << self.n
        self.b += data
        self.n += len(data)

    def all_optional(self):
        self.opt = (1 << self.n) - 1

    def states(self, got):
        masks = {}
        for i, c in enumerate(self.b):
            masks[c] = masks.get(c, 0) | (1 << i)
        O = self.opt
        S = 1
        S |= (O + (S & O)) ^ O
        for k, c in enumerate(got):
            S = (S & masks.get(c, 0)) << 1
            if not S:
                return None, k
            S |= (O + (S & O)) ^ O
        return S, len(got)

    def check(self, got, complete):
        """None if `got` can be what has been delivered so far, else a text."""
        if not self.opt:
            if bytes(self.b[:len(got)]) != bytes(got):
                k = next((i for i in range(min(len(got), self.n)) if got[i] != self.b[i]), min(len(got), self.n))
                return "byte %d of %d delivered is not the byte accepted there (%d accepted)" % (k, len(got), self.n)
            if complete and len(got) != self.n:
                return "%d of %d accepted bytes delivered" % (len(got), self.n)
            return None
        S, k = self.states(got)
        if S is None:
            return "byte %d of %d delivered does not continue the accepted bytes in order" % (k, len(got))
        if complete and not (S >> self.n) & 1:
            return "accepted bytes are missing from the %d delivered" % len(got)
        return None


def printf_text(kind, a, b, s):
    if kind == 0:
        return s
    if kind == 1:
        return "%d:%s\n" % (a, s)
    if kind == 2:
        return "[%*s]" % (a, s)
    if kind == 3:
        return s[:a] + chr(b)
    if kind == 4:
        return "<%d,%d,%x>" % (a, b, a)
    if kind == 5:
        return "%-*s|%05d|%%\n" % (a, s, b)
    return "%s=%s;" % (s, s)


def cstr(s):
    return s.replace("\0", "x")


def out_op(rng, k, big=True):
    """One output operation on stream k."""
    c = rng.random()
    if k == -2 and c < 0.15:
        return ["PUTS", cstr(rdata(rng, size_of(rng, big)))]
    if k == -2 and c < 0.25:
        return ["PUTCHAR", rng.randrange(256)]
    if c < 0.4:
        return ["FPUTC", k, rng.choice([10, 0, 255, rng.randrange(256), rng.randrange(256)])]
    if c < 0.6:
        return ["FPUTS", k, cstr(rdata(rng, size_of(rng, big)))]
    if c < 0.8:
        size = rng.choice([1, 1, 1, 2, 3, 4, 7, 8, 13, 64, 130, 300])
        n = size_of(rng, big)
        count = min(max(n // size, rng.choice([0, 1, 2])), 3000 // size or 1)
        return ["FWRITE", k, size, count, rdata(rng, size * count)]
    kind = rng.randrange(7)
    s = cstr(rdata(rng, rng.choice([0, 1, 5, 20, 100, 126, 127, 130, 300])))
    a, b = rng.choice([0, 1, 7, 33, 150]), rng.choice([1, 7, 9999, 123456])
    if kind == 3:
        a, b = max(1, a), rng.randrange(1, 128)
    return ["FPRINTF", k, kind, a, b, s]


def bytes_of(op):
    n = op[0]
    if n == "FPUTC":
        return bytes([op[2] & 255])
    if n == "PUTCHAR":
        return bytes([op[1] & 255])
    if n == "FPUTS":
        return op[2].encode("latin-1")
    if n == "PUTS":
        return op[1].encode("latin-1") + b"\n"
    if n == "FWRITE":
        return op[4].encode("latin-1")[:op[2] * op[3]]
    if n == "FPRINTF":
        return printf_text(op[2], op[3], op[4], op[5]).encode("latin-1")
    return None


def stream_of(op):
    return -2 if op[0] in ("PUTS", "PUTCHAR") else op[1]


class OutModel:
    """One output stream: what was accepted, what must have arrived."""

    def __init__(self, path, init=b"", writable=True):
        self.path, self.init, self.writable = path, init, writable
        self.pat = Pattern()
        self.failed = False          # a failure has been reported
        self.closed = False
        self.synced = False

    def output(self, op, rec, werr):
        data = bytes_of(op)
        n = op[0]
        desc = "%s of %d bytes" % (n, len(data))
        if not self.writable:
            if n == "FWRITE" and rec.ret > 0 or n != "FWRITE" and rec.ret >= 0 and data:
                raise Model("readonly-output-accepted", desc + " on a stream opened for reading returned %d" % rec.ret)
            return
        if n == "FWRITE":
            if rec.ret < 0 or rec.ret > op[3]:
                raise Model("output-result", desc + ": returned %d of %d items" % (rec.ret, op[3]))
            if op[2] == 0 or rec.ret == op[3]:
                self.pat.add(data, False)
                return
            self.pat.add(data[:rec.ret * op[2]], False)
            ok = False
            rest = data[rec.ret * op[2]:]
        else:
            rest = data
            ok = rec.ret >= 0
            if ok and n in ("FPUTC", "PUTCHAR") and rec.ret != data[0]:
                raise Model("output-result", desc + " returned %d" % rec.ret)
            if ok and n == "FPRINTF" and rec.ret != len(data):
                raise Model("output-result", desc + " returned %d" % rec.ret)
        if ok:
            self.pat.add(rest, False)
            return
        if not werr:
            raise Model("spurious-failure", desc + " on %s reports failure (%d) though no write failed" % (self.path, rec.ret))
        self.pat.add(rest, True)
        self.pat.all_optional()
        self.failed = True

    def arrived(self, got, complete, when):
        t = self.pat.check(got, complete)
        if t:
            raise Model("output-lost" if complete and "missing" in t or "of %d accepted bytes delivered" % self.pat.n in t else "output-order", "%s, %s: %s" % (self.path, when, t))


class C10(LibProp):
    id = "C10"
    trace = 2
    quick_runs = 50000
    thorough_runs = 3000000
    rule = "distinct (call history, operation script) pairs; scripts of up to 60 output operations on up to 5 files, stdout and stderr"
    assumptions = ["formats used with fprintf are %s %d %ld %lu %lx %c %% with widths and precisions (formatting itself is N04)"]

    def gen(self, rng, ctx, i):
        t = self.pick_target(rng)
        ns = rng.choice([1, 1, 2, 3, 5])
        streams = rng.sample([-2, -3, 0, 1, 2, 3, 4], ns)
        files, ops, openk = {}, [], {}
        mk = rng.choice([1, 4, 12, 30, 60])
        sim = {"seed": rng.randrange(1 << 30), "rules": []}
        paths = {-2: "<out>", -3: "<err>"}
        big = rng.random() < 0.4

        def opening(k):
            mode = rng.choice(["w", "w", "wb", "a", "ab", "w+", "a+", "r+", "w+b"] + (["r"] if rng.random() < 0.3 else []))
            p = "/w/f%d" % k
            paths[k] = p
            if mode.startswith("r") or (rng.random() < 0.3 and p not in files):
                files.setdefault(p, rdata(rng, rng.choice([0, 5, 300])))
            if rng.random() < 0.15:
                # through a descriptor
                fl = {"r": 0, "w": 0x241, "a": 0x441}[mode[0]]
                if "+" in mode:
                    fl = (fl & ~1) | 2
                ops.append(["OPEN", k, p, fl, 0o644])
                ops.append(["FDOPEN", k, k, mode])
            else:
                ops.append(["FOPEN", k, p, mode])
            openk[k] = mode

        for _ in range(mk):
            k = rng.choice(streams)
            if k >= 0 and k not in openk:
                opening(k)
                continue
            c = rng.random()
            if c < 0.1:
                ops.append(["FFLUSH", k])
            elif c < 0.14 and k >= 0:
                ops.append(["FCLOSE", k])
                del openk[k]
            else:
                ops.append(out_op(rng, k, big))
        for k in list(openk):
            if rng.random() < 0.8:
                ops.append(["FCLOSE", k])
        for k in (-2, -3):
            if k in streams and rng.random() < 0.5:
                ops.append([rng.choice(["FFLUSH", "FCLOSE"]), k])
        f = rng.random()
        if f < 0.75:
            sim["pshortw"] = rng.choice([0, 100, 500, 950])
        if f > 0.4:
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = rng.choice(streams)
                if k not in paths:
                    continue
                # an error, or a split, at a certain write to this stream
                kind = rng.choice(["err", "err", "err", "short"])
                sim["rules"].append({"op": "write", "path": paths[k], "after": rng.choice([0, 0, 1, 2, 3, rng.randrange(12)]), "count": rng.choice([1, 1, 2, 3, -1]), "kind": kind,
                                     "val": rng.choice([E.EIO, E.ENOSPC, E.EINTR, E.EFBIG, E.EAGAIN]) if kind == "err" else rng.choice([1, 2, 100])})
            if rng.random() < 0.1 and openk:
                sim["rules"].append({"op": "close", "path": paths[rng.choice(list(openk))], "after": 0, "count": 1, "kind": "err", "val": E.EIO})
        elif f < 0.1:
            sim["disk"] = rng.choice([0, 1, 100, 128, 300, 1000])
        return {"t": t, "ops": ops, "sim": sim, "files": files, "kinds": rng.choice(["ppp", "ptt", "prr"]), "pre": rng.randrange(4)}

    def judge(self, ctx, case, r, recs):
        d = self.died(r)
        if d:
            raise Model("died", d)
        ops = case["ops"]
        if len(recs) != len(ops):
            raise Model("died", "the program stopped after %d of %d operations" % (len(recs), len(ops)))
        per, tail = per_op(r, recs)
        outs = {-2: OutModel("<out>"), -3: OutModel("<err>")}
        got = {}          # bytes that arrived, by path, since the stream was opened
        werr = {}         # failed writes since the stream was opened
        nextpos = {}

        def take(tr):
            closed = False
            for e in tr:
                if e[2] == "!data":
                    p, data, pos = e[3], C.unb64(e[4]), e[5]
                    if pos >= 0:
                        if nextpos.get(p) not in (None, pos):
                            raise Model("output-place", "%s: %d bytes written at %d, expected at %d" % (p, len(data), pos, nextpos[p]))
                        nextpos[p] = pos + len(data)
                    got.setdefault(p, bytearray()).extend(data)
                elif e[2] in WRITES and e[7] < 0:
                    werr[e[3]] = werr.get(e[3], 0) + 1
                elif e[2] in CLOSES and e[7] < 0:
                    closed = True
            return closed

        opened = set()
        for op, rec, tr in zip(ops, recs, per):
            closed_err = take(tr)
            n = op[0]
            if rec.ret == -9999 and rec.err == 9999:
                continue
            if n == "OPEN":
                opened.discard(op[1])
                if rec.ret >= 0:
                    opened.add(op[1])
                elif case["sim"].get("disk") is None:
                    raise Model("spurious-failure", "open of %s failed (errno %d)" % (op[2], rec.err))
                continue
            if n == "FDOPEN" and op[2] not in opened:
                outs.pop(op[1], None)
                continue
            if n in ("FOPEN", "FDOPEN"):
                k = op[1]
                if not rec.ret:
                    if case["sim"].get("disk") is not None:
                        outs.pop(k, None)
                        continue
                    raise Model("spurious-failure", "%s failed (errno %d)" % (n, rec.err))
                p, mode = "/w/f%d" % k, op[3]
                for old in [q for q, m in outs.items() if m.path == p]:
                    del outs[old]
                outs[k] = OutModel(p, writable=mode[0] != "r" or "+" in mode)
                got[p] = bytearray()
                werr[p] = 0
                nextpos[p] = None if mode[0] == "a" else 0
                continue
            k = stream_of(op)
            m = outs.get(k)
            if m is None:
                continue
            p = m.path
            if m.closed:
                if k < 0 and bytes_of(op) is not None and (rec.ret > 0 if n == "FWRITE" else rec.ret >= 0 and bytes_of(op)):
                    raise Model("output-after-close", "%s after fclose of %s returned %d" % (n, p, rec.ret))
                continue
            if n in ("FFLUSH", "FCLOSE"):
                if rec.ret == 0:
                    if n == "FCLOSE" and closed_err:
                        raise Model("close-error-hidden", "fclose of %s reports success though close failed" % p)
                    m.arrived(got.get(p, b""), True, "after a successful " + n.lower())
                else:
                    if not werr.get(p) and not closed_err:
                        raise Model("spurious-failure", "%s on %s reports failure though no write failed" % (n, p))
                    m.failed = True
                    m.pat.all_optional()
                    m.arrived(got.get(p, b""), False, "after a failed " + n.lower())
                if n == "FCLOSE":
                    m.closed = True
                continue
            m.output(op, rec, werr.get(p, 0))
        before = dict(werr)
        take(tail)
        for k, m in outs.items():
            p = m.path
            whole = not m.closed and not m.failed and not werr.get(p)
            m.arrived(got.get(p, b""), whole, "at the end")
            if m.closed and not m.failed:
                m.arrived(got.get(p, b""), True, "at the end")
        ctx.stats.probe("failed_reported" if any(m.failed for m in outs.values()) else "no_failure")


class InModel:
    """One input stream. `pos` is a set of possible positions: one, except after a failed call."""

    def __init__(self, path, data):
        self.path, self.data = path, data
        self.pos = {0}
        self.unget = None
        self.eof = False          # must feof be set?  None: unknown
        self.koff = 0             # bytes the kernel has handed out
        self.lost = False         # not followed any further

    def take(self, want, op):
        """want(avail bytes) -> number of bytes this call consumes, whether it met the end; -> list of (pos, bytes, end)"""
        out = []
        for p in self.pos:
            pre = b"" if self.unget is None else bytes([self.unget])
            av = pre + self.data[p:]
            k, end = want(av)
            out.append((p, av[:k], end, p + max(0, k - len(pre)), self.unget if (k == 0 and self.unget is not None) else None))
        return out

    def settle(self, cands, what, rec):
        if not cands:
            raise Model("input-bytes", "%s of %s: what was handed over (%s) is not what the stream holds there" % (what, self.path, rec))
        self.pos = {c[3] for c in cands}
        ends = {c[2] for c in cands}
        if ends == {True}:
            self.eof = True
        elif len(ends) == 2 and self.eof is False:
            self.eof = None
        self.unget = None


def line_want(limit):
    def f(av):
        k = av.find(b"\n")
        if k >= 0 and (limit is None or k + 1 <= limit):
            return k + 1, False
        if limit is not None and len(av) >= limit:
            return limit, False
        return len(av), True
    return f


class C11(LibProp):
    id = "C11"
    trace = 1
    quick_runs = 50000
    thorough_runs = 3000000
    rule = "distinct (call history, operation script) pairs; scripts of up to 60 input operations on up to 3 files and stdin (pipe, terminal, regular file)"
    assumptions = ["one pushed-back character at a time", "no repositioning (C12)"]

    def gen(self, rng, ctx, i):
        t = self.pick_target(rng)
        streams = rng.sample([-1, 0, 1, 2], rng.choice([1, 1, 2, 3]))
        sim = {"seed": rng.randrange(1 << 30), "rules": []}

        def content():
            n = rng.choice([0, 1, 2, 10, 100, 190, 191, 192, 193, 255, 256, 257, 400, 512, 600, 1500, 3000])
            p = rng.choice([0, 0.005, 0.03, 0.2])
            q = rng.choice([0, 0, 0.02])
            d = "".join("\n" if rng.random() < p else "\0" if rng.random() < q else chr(rng.choice((rng.randrange(33, 127), rng.randrange(1, 256)))) for _ in range(n))
            if rng.random() < 0.4 and d:
                d = d[:-1] + "\n"
            return d

        case = {"t": t, "files": {}, "stdin": "", "kinds": rng.choice("ptr") + "pp", "sim": sim, "pre": rng.randrange(4)}
        ops, paths = [], {-1: "<src0>" if t == "n" else "<src>"}
        for k in streams:
            if k < 0:
                case["stdin"] = content()
                continue
            p = paths[k] = "/w/i%d" % k
            case["files"][p] = content()
            mode = rng.choice(["r", "r", "rb", "r+", "a+" if False else "r+b"])
            if rng.random() < 0.2:
                ops += [["OPEN", k, p, 2 if "+" in mode else 0, 0], ["FDOPEN", k, k, mode]]
            else:
                ops.append(["FOPEN", k, p, mode])
        if rng.random() < 0.5:
            ops += [["MALLOC", j, rng.choice([8, 24, 40, 100]), j * 3 + 1] for j in range(3)]
        small = rng.random() < 0.5
        for _ in range(rng.choice([1, 4, 12, 30, 60])):
            k = rng.choice(streams)
            c = rng.random()
            if c < 0.25:
                ops += [["FGETC", k] for _ in range(rng.choice([1, 1, 2, 5]))]
            elif c < 0.35:
                ops.append(["UNGETC", rng.choice([10, 255, 65, 0, rng.randrange(256)]), k])
            elif c < 0.5:
                ops.append(["FGETS", k, rng.choice([2, 3, 10, 64, 128, 256, 257, 300, 1000])])
            elif c < 0.65:
                j = rng.randrange(3)
                if rng.random() < 0.2:
                    ops += [["FREELINE", j], ["LINEBUF", j, rng.choice([1, 2, 15, 16, 17, 64, 300])]]
                ops.append(["GETLINE", k, j])
            elif c < 0.85:
                size = rng.choice([1, 1, 1, 2, 3, 8, 13, 100])
                n = rng.choice([1, 2, 5, 30, 100]) if small else rng.choice([150, 190, 191, 192, 193, 200, 256, 257, 500, 512, 1000])
                ops.append(["FREAD", k, size, max(1, n // size)])
            elif c < 0.95:
                ops.append(["FEOF", k])
            else:
                ops.append(["VERIFY"])
        ops.append(["VERIFY"])
        f = rng.random()
        if f < 0.8:
            sim["pshortr"] = rng.choice([0, 100, 500, 950])
        if f > 0.45:
            for _ in range(rng.choice([1, 1, 2])):
                sim["rules"].append({"op": "read", "path": paths[rng.choice(streams)], "after": rng.choice([0, 0, 1, 2, 3, rng.randrange(12)]), "count": rng.choice([1, 1, 2, 3]), "kind": "err",
                                     "val": rng.choice([E.EIO, E.EINTR, E.EAGAIN, E.EISDIR])})
        case["ops"] = ops
        return case

    def judge(self, ctx, case, r, recs):
        d = self.died(r)
        if d:
            raise Model("died", d)
        if any(x.op == "VERIFY" and x.data == b"capa" for x in recs):
            raise Model("getline-capacity", "getline stored more than the capacity it reports")
        ops = case["ops"]
        if len(recs) != len(ops):
            raise Model("died", "the program stopped after %d of %d operations" % (len(recs), len(ops)))
        per, tail = per_op(r, recs)
        ins = {-1: InModel("<src0>" if case["t"] == "n" else "<src>", case["stdin"].encode("latin-1"))}
        opened = set()
        for op, rec, tr in zip(ops, recs, per):
            n = op[0]
            if n == "OPEN":
                if rec.ret < 0:
                    raise Model("open-failed", "open failed")
                opened.add(op[1])
                continue
            if n in ("FOPEN", "FDOPEN"):
                if n == "FDOPEN" and op[2] not in opened:
                    continue
                if not rec.ret:
                    raise Model("open-failed", "%s failed with errno %d" % (n, rec.err))
                p = op[2] if n == "FOPEN" else "/w/i%d" % op[1]
                if p in case["files"]:
                    ins[op[1]] = InModel(p, case["files"][p].encode("latin-1"))
                continue
            if n == "VERIFY":
                if rec.ret >= 0:
                    raise Model("memory-damaged", "memory outside the library's buffers was overwritten (%d)" % rec.ret)
                continue
            if n in ("MALLOC", "LINEBUF", "FREELINE"):
                continue
            if rec.ret == -9999 and rec.err == 9999:
                continue
            k = op[2] if n == "UNGETC" else op[1]
            m = ins.get(k)
            if m is None or m.lost:
                continue
            rerr = False
            for e in tr:
                if e[2] in READS and e[3] == m.path:
                    if e[7] > 0:
                        m.koff += e[7]
                    elif e[7] < 0:
                        rerr = True
            self.step(m, op, rec, rerr)

    def step(self, m, op, rec, rerr):
        n = op[0]
        if n == "FEOF":
            if m.eof is not None and bool(rec.ret) != m.eof:
                raise Model("eof-flag", "feof of %s is %d, %s" % (m.path, rec.ret, "but the end was met" if m.eof else "but the end has not been met"))
            return
        if n == "UNGETC":
            if m.unget is not None:
                # only one is guaranteed; a second may be refused
                if rec.ret == -1:
                    return
                raise Model("ungetc", "a second ungetc was accepted, which this model does not follow")
            if rec.ret != (op[1] & 255):
                raise Model("ungetc", "ungetc(%d) returned %d" % (op[1], rec.ret))
            m.unget = op[1] & 255
            m.eof = False
            return
        if n == "FGETC":
            if rec.ret == -1:
                if rerr:
                    self.after_error(m, -1)
                    return
                c = [x for x in m.take(lambda av: (min(1, len(av)), not av), op) if x[2]]
                if not c:
                    raise Model("eof-early", "fgetc of %s reports the end at %s of %d" % (m.path, sorted(m.pos)[:3], len(m.data)))
                m.settle(c, n, rec)
                return
            c = [x for x in m.take(lambda av: (min(1, len(av)), not av), op) if not x[2] and x[1][0] == rec.ret]
            m.settle(c, n, rec)
        elif n == "FGETS":
            size = op[2]
            if rec.data[size:] != b"\xa5" * 16:
                raise Model("buffer-overrun", "fgets(%d) wrote beyond its buffer" % size)
            c = m.take(line_want(size - 1), op)
            if not rec.ret:
                if rerr:
                    self.after_error(m, 0)
                    return
                c = [x for x in c if x[2] and not x[1]]
                if not c:
                    raise Model("eof-early", "fgets of %s reports the end at %s of %d" % (m.path, sorted(m.pos)[:3], len(m.data)))
                m.settle(c, n, rec)
                return
            c = [x for x in c if x[1] and rec.data.startswith(x[1] + b"\0")]
            if rerr and not c:
                raise Model("input-error-hidden", "a read failed during fgets of %s, and it returned a part of the line as success" % m.path)
            m.settle(c, n, rec)
        elif n == "GETLINE":
            c = m.take(line_want(None), op)
            if rec.ret == -1:
                if rerr:
                    self.after_error(m, 0)
                    return
                c = [x for x in c if x[2] and not x[1]]
                if not c:
                    raise Model("eof-early", "getline of %s reports the end at %s of %d" % (m.path, sorted(m.pos)[:3], len(m.data)))
                m.settle(c, n, rec)
                return
            c = [x for x in c if x[1] and rec.ret == len(x[1]) and rec.data == x[1] + b"\0"]
            if rerr and not c:
                raise Model("input-error-hidden", "a read failed during getline of %s, and it returned a part of the line as success" % m.path)
            m.settle(c, n, rec)
        elif n == "FREAD":
            size, count = op[2], op[3]
            total = size * count
            if rec.data[total:] != b"\xa5" * 16:
                raise Model("buffer-overrun", "fread(%d, %d) wrote beyond its buffer" % (size, count))
            if rec.ret < 0 or rec.ret > count:
                raise Model("input-result", "fread of %d items returned %d" % (count, rec.ret))
            c = m.take(lambda av: (min(total, len(av)), len(av) < total), op)
            if rec.ret < count and rerr:
                got = rec.data[:rec.ret * size]
                c = [x for x in c if x[1].startswith(got)]
                if not c:
                    raise Model("input-bytes", "fread of %s: the %d items handed over before the error are not what the stream holds" % (m.path, rec.ret))
                m.pos = {x[0] for x in c}
                self.after_error(m, len(got))
                return
            c = [x for x in c if rec.ret == len(x[1]) // size and rec.data[:rec.ret * size] == x[1][:rec.ret * size]]
            m.settle(c, n, rec)

    def after_error(self, m, consumed):
        """A call failed because a read failed. fgetc loses nothing (consumed -1); the other calls continue behind what
        they handed over or, if they had taken more bytes already, anywhere up to what the kernel has delivered."""
        if m.unget is not None:
            m.lost = True       # the pushed-back character may or may not have been consumed: not followed any further
        if consumed >= 0:
            lo = min(m.pos) + consumed
            m.pos = set(range(lo, max(m.koff, lo) + 1))
        if m.eof is not True:
            m.eof = False


class C12(LibProp):
    id = "C12"
    trace = 1
    quick_runs = 50000
    thorough_runs = 3000000
    rule = "distinct (call history, operation script) pairs; scripts of up to 60 reads, writes, seeks and tells on one file opened once or several times in any mode"
    assumptions = ["reading and writing alternate only as C allows (fflush or fseek after output, fseek or end-of-file after input)",
                   "the position right after fopen in an append mode is not judged (implementation-defined)"]

    def gen(self, rng, ctx, i):
        t = self.pick_target(rng)
        sim = {"seed": rng.randrange(1 << 30), "rules": []}
        n0 = rng.choice([0, 1, 10, 100, 128, 200, 256, 257, 300, 600, 1500])
        init = rdata(rng, n0)
        p = "/w/s0"
        files = {p: init} if rng.random() < 0.85 else {}
        ops = []
        size = len(init) if files else 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            modes = ["w", "w+", "a", "a+", "wb", "w+b", "wb+", "ab", "a+b"]
            if files:
                modes += ["r", "r+", "r+", "r+", "rb", "r+b", "rb+"]
            mode = rng.choice(modes)
            if mode[0] in "wa":
                files = files or {}
            rd, wr, ap = mode[0] == "r" or "+" in mode, mode[0] != "r" or "+" in mode, mode[0] == "a"
            ops.append(["FOPEN", 0, p, mode])
            if mode[0] == "w":
                size = 0
            last = "seek"
            fresh = ap            # position not defined yet
            eofable = False
            for _ in range(rng.choice([2, 6, 15, 40])):
                c = rng.random()
                if c < 0.025:
                    # far beyond the end, and back: nothing is written there
                    big = rng.choice([(1 << 31) - 2000, 1 << 30] + ([1 << 31, (1 << 31) + 77, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 40] if t == "n" else []))
                    ops += [["FSEEK", 0, big, 0], ["FTELL", 0]]
                    if rd and rng.random() < 0.5:
                        ops += [["FGETC", 0], ["FEOF", 0]]
                    ops += [["FSEEK", 0, rng.choice([-1, 1, -300, 1000, -(1 << 29)]), 1], ["FTELL", 0]] if rng.random() < 0.5 else []
                    ops.append(["FSEEK", 0, rng.choice([0, size]), 0])
                    last = "seek"
                    fresh = False
                elif c < 0.28:
                    w = rng.choice([0, 0, 1, 2])
                    if w == 0:
                        o = rng.choice([0, 1, size, max(0, size - 1), rng.randrange(size + 1), rng.randrange(size + 200), 128, 256])
                    elif w == 1:
                        o = rng.choice([0, 0, 1, -1, 5, -5, -130, 130, -300, 300])
                    else:
                        o = rng.choice([0, 0, -1, -size, -(size // 2), 3, 100, -size - 1])
                    if rng.random() < 0.04:
                        o = -rng.randrange(1, 2000)
                    if fresh and w == 1:
                        w, o = 0, max(0, o)
                    ops.append(["FSEEK", 0, o, w])
                    last = "seek"
                    fresh = False
                elif c < 0.42:
                    if not fresh:
                        ops.append(["FTELL", 0])
                elif c < 0.47:
                    if last != "read":
                        ops.append(["FFLUSH", 0])
                        if last == "write":
                            last = "flush"
                elif c < 0.72 and rd and last != "write" and not fresh:
                    k = rng.random()
                    if k < 0.3:
                        ops += [["FGETC", 0]] * rng.choice([1, 1, 3])
                    elif k < 0.45:
                        ops.append(["FGETS", 0, rng.choice([2, 10, 100, 300])])
                    elif k < 0.55:
                        ops += [["FGETC", 0], ["UNGETC", rng.choice([65, 10, 200]), 0]]
                    elif k < 0.62:
                        ops.append(["FEOF", 0])
                        continue
                    elif k < 0.7:
                        # up to the end: output may follow directly
                        ops += [["FSEEK", 0, -rng.choice([0, 0, 1, min(size, 100)]), 2], ["FREAD", 0, 1, 200]]
                        last = "eof"
                        continue
                    else:
                        s = rng.choice([1, 1, 2, 7])
                        ops.append(["FREAD", 0, s, max(1, rng.choice([1, 5, 50, 191, 192, 200, 256, 300, 700]) // s)])
                    last = "read"
                elif c < 0.97 and wr and last != "read":
                    o = out_op(rng, 0, False)
                    if o[0] in ("PUTS", "PUTCHAR"):
                        continue
                    ops.append(o)
                    size += len(bytes_of(o))
                    last = "write"
                    fresh = False
            ops.append(["FCLOSE", 0])
            files = files or {}
        f = rng.random()
        if f < 0.8:
            sim["pshortr"] = rng.choice([0, 100, 500, 950])
            sim["pshortw"] = rng.choice([0, 100, 500, 950])
        if f > 0.6:
            for _ in range(rng.choice([1, 2])):
                sim["rules"].append({"op": "lseek", "path": p, "after": rng.randrange(10), "count": rng.choice([1, 1, 2]), "kind": "err", "val": rng.choice([E.EINVAL, E.EIO])})
        if rng.random() < 0.2:
            sim["rules"].append({"op": "write", "path": p, "after": rng.randrange(6), "count": rng.choice([1, 1, 2, 3]), "kind": "err", "val": rng.choice([E.EIO, E.ENOSPC, E.EINTR])})
        return {"t": t, "ops": ops, "sim": sim, "files": files if p in files else {}, "pre": rng.randrange(4)}

    def judge(self, ctx, case, r, recs):
        d = self.died(r)
        if d:
            raise Model("died", d)
        ops = case["ops"]
        if len(recs) != len(ops):
            raise Model("died", "the program stopped after %d of %d operations" % (len(recs), len(ops)))
        per, tail = per_op(r, recs)
        p = "/w/s0"
        f = case["files"].get(p)
        data = bytearray(f.encode("latin-1")) if f is not None else None
        pos, unget, eof, mode, last, ok = 0, None, False, None, None, False
        for idx, (op, rec, tr) in enumerate(zip(ops, recs, per)):
            n = op[0]
            where = "operation %d, %s" % (idx, n)
            seekerr = any(e[2] in SEEKS and e[7] < 0 and len(e) > 8 for e in tr)
            if any(e[2] in WRITES and e[7] == (-22 if case["t"] == "w" else -E.EFBIG) and len(e) == 8 for e in tr):
                mode = None
                break
            writeerr = any(e[2] in WRITES and e[7] < 0 and len(e) > 8 for e in tr)
            if rec.ret == -9999 and rec.err == 9999:
                continue
            if writeerr:
                if n not in ("FSEEK", "FTELL", "FFLUSH", "FCLOSE"):
                    mode = None       # how much of an output call that failed is kept is the matter of C10
                    break
                if (rec.ret != -1 if n == "FTELL" else rec.ret == 0):
                    raise Model("write-error-hidden", where + " returned %d though writing out the buffer failed" % rec.ret)
                if n == "FCLOSE":
                    break
                continue              # the position stays, what could not be written is still to be written
            if n == "FOPEN":
                mode = op[3]
                if mode[0] == "r" and data is None:
                    if rec.ret:
                        raise Model("open-result", "fopen(%s) of a missing file succeeded" % mode)
                    mode = None
                    continue
                if not rec.ret:
                    raise Model("open-result", "fopen(%s) failed with errno %d" % (mode, rec.err))
                if mode[0] == "w" or data is None:
                    data = bytearray()
                rd, wr, ap = mode[0] == "r" or "+" in mode, mode[0] != "r" or "+" in mode, mode[0] == "a"
                pos, unget, eof, last = (None if ap else 0), None, False, "seek"
                continue
            if mode is None:
                continue
            if n == "FCLOSE":
                if rec.ret != 0:
                    raise Model("close-result", where + " returned %d" % rec.ret)
                mode = None
                continue
            if n == "FSEEK":
                o, w = op[2], op[3]
                if pos is None and w == 1:
                    mode = None       # cannot follow a removed operation's effect; only minimised scripts get here
                    break
                base = {0: 0, 1: pos, 2: len(data)}[w]
                if w == 1 and unget is not None:
                    base -= 1
                np = base + o
                if seekerr or np < 0:
                    if rec.ret == 0:
                        raise Model("seek-result", where + "(%d, %d) at %s of %d returned success" % (o, w, pos, len(data)))
                    continue
                if rec.ret != 0:
                    raise Model("seek-result", where + "(%d, %d) at %s of %d failed" % (o, w, pos, len(data)))
                pos, unget, eof, last = np, None, False, "seek"
            elif n == "FTELL":
                if pos is None:
                    continue
                if seekerr:
                    if rec.ret != -1:
                        raise Model("tell-result", where + " returned %d though the system call failed" % rec.ret)
                    continue
                if unget is not None and pos == 0:
                    continue
                if rec.ret != pos - (unget is not None):
                    raise Model("tell-result", where + " returned %d, the position is %d (mode %s, size %d, after %s)" % (rec.ret, pos - (unget is not None), mode, len(data), last))
            elif n == "FFLUSH":
                if last == "read":
                    mode = None
                    break
                if rec.ret != 0:
                    raise Model("flush-result", where + " failed")
                if last == "write":
                    last = "flush"
            elif n == "FEOF":
                if bool(rec.ret) != eof:
                    raise Model("eof-flag", where + ": feof is %d at %s of %d" % (rec.ret, pos, len(data)))
            elif n == "UNGETC":
                if unget is not None or last != "read":
                    mode = None
                    break
                if rec.ret != op[1] & 255:
                    raise Model("ungetc", where + " returned %d" % rec.ret)
                unget, eof = op[1] & 255, False
            elif bytes_of(op) is not None:
                b = bytes_of(op)
                if last == "read" and not eof or unget is not None:
                    mode = None
                    break
                if pos is not None and pos >= 1 << 27:
                    mode = None       # the way back failed: the simulated kernel has no file that large
                    break
                if not wr:
                    if (rec.ret > 0 if n == "FWRITE" else rec.ret >= 0 and b):
                        raise Model("readonly-output-accepted", where + " on mode %s returned %d" % (mode, rec.ret))
                    continue
                if (rec.ret != op[3] and op[2] and op[3] if n == "FWRITE" else rec.ret < 0):
                    raise Model("write-result", where + " returned %d" % rec.ret)
                if b:
                    if ap:
                        pos = len(data)
                    if pos > len(data):
                        data.extend(b"\0" * (pos - len(data)))
                    data[pos:pos + len(b)] = b
                    pos += len(b)
                    last = "write"
            else:
                if last == "write" or pos is None:
                    mode = None
                    break
                if not rd:
                    if (rec.ret >= 0 if n == "FGETC" else rec.ret > 0):
                        raise Model("writeonly-input", where + " on mode %s returned %d" % (mode, rec.ret))
                    continue
                av = (b"" if unget is None else bytes([unget])) + bytes(data[pos:])
                pre = 0 if unget is None else 1
                if n == "FGETC":
                    k, end = (1, False) if av else (0, True)
                    if rec.ret != (av[0] if av else -1):
                        raise Model("read-bytes", where + " returned %d instead of %d at %d of %d (mode %s)" % (rec.ret, av[0] if av else -1, pos, len(data), mode))
                elif n == "FGETS":
                    k, end = line_want(op[2] - 1)(av)
                    if bool(rec.ret) != (k > 0) or (k and not rec.data.startswith(av[:k] + b"\0")):
                        raise Model("read-bytes", where + " gave other bytes than the file holds at %d of %d (mode %s)" % (pos, len(data), mode))
                else:
                    total = op[2] * op[3]
                    k, end = min(total, len(av)), len(av) < total
                    if rec.ret != k // op[2] or rec.data[:rec.ret * op[2]] != av[:rec.ret * op[2]]:
                        raise Model("read-bytes", where + " gave %d items, other bytes than the file holds at %d of %d (mode %s)" % (rec.ret, pos, len(data), mode))
                if k:
                    unget = None
                pos += max(0, k - pre)
                if end:
                    eof = True
                last = "read"
        else:
            fin = self.final(r, case, p)
            if mode is None and data is not None and fin is not None and fin != bytes(data):
                k = next((i for i in range(min(len(fin), len(data))) if fin[i] != data[i]), min(len(fin), len(data)))
                raise Model("file-content", "the file differs from the model at byte %d (%d bytes instead of %d)" % (k, len(fin), len(data)))
            return
