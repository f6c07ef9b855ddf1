"""Temporary files (C15), exit (C16) and system-call wrappers (C17) of the bundled C library."""
import errno as E, re, struct

from . import client as C
from .libc import LibProp, Model, rdata
from .libio import CLOSES, OutModel, WRITES, bytes_of, cstr, out_op, per_op, stream_of
from .toolchain import sched_knobs


def by_process(r):
    """lineage -> list of (record bytes start order, trace entries) per process"""
    out = {}
    for e in r["trace"]:
        lin = e[0]
        l = out.setdefault(lin, [[]])
        if e[2] == "!log":
            l.append([])
        elif e[2] != "!die":
            l[-1].append(e)
    return out


class C15(LibProp):
    id = "C15"
    trace = 1
    quick_runs = 25000
    thorough_runs = 1500000
    rule = "distinct (call history, operation script) pairs; up to three processes creating temporary files, with prepared collisions, weak or failing randomness and refused opens"
    assumptions = ["suffix lengths are not negative"]
    TEMPL = ["/tmp/abXXXXXX", "/tmp/XXXXXX", "/tmp/Xa_XXXXXX", "/w/f.XXXXXX", "/tmp/XXXXXXXXXX", "/tmp/tmpXXXXXX", "/w/sub/XXXXXX"]
    BAD = [["MKSTEMP", "/tmp/abXXXXX"], ["MKSTEMP", "/tmp/ab"], ["MKSTEMP", "XXXXX"], ["MKSTEMP", ""], ["MKSTEMP", "/tmp/XXXXXX.c"], ["MKSTEMP", "/tmp/XXXXXx"], ["MKSTEMPS", "/tmp/aXXXXXX.c", 3],
           ["MKSTEMPS", "/tmp/aXXXXXX.c", 1], ["MKSTEMPS", "XXXXXX", 1], ["MKSTEMPS", "/tmp/aXXXXX.c", 2], ["MKSTEMPS", "/tmp/aXXXXXX", 4], ["MKSTEMPS", ".c", 2], ["MKSTEMP", "/tmp/XXXYXX"], ["MKSTEMPS", "abcdef", 6], ["MKSTEMPS", "/tmp/abc.c", 10], ["MKSTEMPS", "abcdefgh", 7], ["MKSTEMPS", "XXXXXX", 2]]

    def body(self, rng, n, base):
        ops = []
        for j in range(n):
            c = rng.random()
            k = base + j
            if c < 0.5:
                ops.append(["MKSTEMP", k, rng.choice(self.TEMPL)])
            elif c < 0.7:
                suf = rng.choice(["", ".c", ".s", ".XX", "X", ".longsuffix"])
                ops.append(["MKSTEMPS", k, rng.choice(self.TEMPL) + suf, len(suf)])
            elif c < 0.85:
                d = cstr(rdata(rng, rng.choice([1, 30, 200])))
                ops += [["TMPFILE", k], ["FPUTS", k, d], ["FSEEK", k, 0, 0], ["FREAD", k, 1, len(d)]]
                continue
            elif c < 0.95:
                b = list(rng.choice(self.BAD))
                ops.append([b[0], k] + b[1:])
                continue
            else:
                ops.append(["MKSTEMP", k, rng.choice(["/none/aXXXXXX", "/w/plain/XXXXXX"])])
                continue
            d = "id%d" % (k * 7) + rdata(rng, rng.choice([0, 5, 100]))
            ops += [["WRITE", k, d], ["LSEEK", k, 0, 0], ["READ", k, len(d) + 4]]
            if rng.random() < 0.3:
                ops.append(["CLOSE", k])
        return ops

    def gen(self, rng, ctx, i):
        t = self.pick_target(rng)
        sim = {"seed": rng.randrange(1 << 30), "rules": [], "rand": rng.choice(["seed", "const", "const", "two", "collide"])}
        files = {"/w/sub": {"t": "dir"}, "/w/plain": "not a directory"}
        ops = self.body(rng, rng.choice([1, 2, 3, 6]), 0)
        if t == "n" and rng.random() < 0.6:
            for c in range(rng.choice([1, 1, 2])):
                # the child starts with a copy of the parent's random state
                at = rng.randrange(len(ops) + 1)
                ops.insert(at, ["FORK", self.body(rng, rng.choice([1, 2, 4]), 20 + 10 * c), 0])
            sim.update(sched_knobs(rng, False))
            ops += [["WAIT"], ["WAIT"]]
        case = {"t": t, "ops": ops, "sim": sim, "files": files, "pre": rng.randrange(4)}
        # which names would be chosen: some of them exist already
        if rng.random() < 0.6:
            r, recs = self.script_run(ctx, case)
            names = [x.data.decode("latin-1") for x in recs if x.op in ("MKSTEMP", "MKSTEMPS") and x.ret >= 0]
            for nm in names:
                if rng.random() < 0.6:
                    files[nm] = rng.choice(["", "precious", {"t": "dir"}, {"b64": C.b64("readonly"), "mode": 0o400}])
        f = rng.random()
        if f < 0.4:
            for _ in range(rng.choice([1, 2])):
                k = rng.random()
                if k < 0.45:
                    sim["rules"].append({"op": "open", "after": rng.randrange(6), "count": rng.choice([1, 2, 10]), "kind": "err", "val": E.EEXIST})
                elif k < 0.7:
                    sim["rules"].append({"op": "open", "after": rng.randrange(6), "count": 1, "kind": "err", "val": rng.choice([E.EACCES, E.EMFILE, E.ENOSPC, E.EROFS, E.EINTR])})
                elif t == "n":
                    sim["rules"].append(rng.choice([{"op": "open", "path": "/dev/urandom", "kind": "err", "val": E.EMFILE}, {"op": "read", "path": "/dev/urandom", "kind": "err", "val": E.EINTR},
                                                    {"op": "read", "path": "/dev/urandom", "kind": "short", "val": rng.choice([1, 3, 5])}, {"op": "getrandom", "kind": "err", "val": E.ENOSYS}]))
                else:
                    sim["rules"].append({"op": "getrandom", "kind": "err", "val": E.EIO, "count": rng.choice([1, -1])})
        elif f < 0.45 and t == "n":
            sim["fdlimit"] = rng.choice([3, 4, 5, 8])
        return case

    def leak(self, case, what, calls, keep):
        """Every descriptor opened during the call is closed again, except the one handed out."""
        if case["t"] != "n":
            return
        held = []
        for e in calls:
            if e[2] in ("open", "openat") and e[7] >= 0:
                held.append(e[7])
            elif e[2] == "close" and e[5] in held:
                held.remove(e[5])
        if keep == "one" and len(held) == 1:
            return
        if keep is not None and keep in held:
            held.remove(keep)
        if held:
            raise Model("descriptor-leak", "%s left descriptor %s open" % (what, held))

    def judge(self, ctx, case, r, recs):
        d = self.died(r)
        if d:
            raise Model("died", d)
        if r["outcome"] != "ok":
            raise Model("died", r["outcome"])
        files = case["files"]
        tr = by_process(r)
        logs = {}
        for e in r["trace"]:
            if e[2] == "!log":
                logs.setdefault(e[0], []).append(C.unb64(e[3]))
        made, data = {}, {}

        def run(lin, ops, skip):
            from .libc import decode
            rs = decode(b"".join(logs.get(lin, [])))
            calls = tr.get(lin, [[]])
            if skip:
                rs, calls = rs[1:], calls[1:]
            nchild = 0
            last = {}
            if len(rs) < len(ops):
                raise Model("died", "process %s stopped after %d of %d operations" % (lin, len(rs), len(ops)))
            for idx, (op, rec) in enumerate(zip(ops, rs)):
                cl = calls[idx] if idx < len(calls) else []
                n = op[0]
                if n == "FORK":
                    if rec.ret > 0:
                        run("%s.%d" % (lin, nchild), op[1], True)
                        nchild += 1
                    continue
                # opening may fail for another reason than an existing name
                err = [e for e in cl if e[2] in ("open", "openat", "path_open") and e[7] < 0 and e[7] != (-E.EEXIST if case["t"] == "n" else -20) and "random" not in e[3]]
                if n in ("MKSTEMP", "MKSTEMPS"):
                    t = op[2]
                    suf = op[3] if n == "MKSTEMPS" else 0
                    core = t[:len(t) - suf] if suf <= len(t) else None
                    valid = core is not None and core.endswith("XXXXXX")
                    name = rec.data.decode("latin-1")
                    last.pop(op[1], None)
                    if rec.ret == -77:
                        raise Model("template", "%s of %s (suffix %d) wrote in front of the template" % (n, t, suf))
                    self.leak(case, "%s of %s" % (n, t), cl, rec.ret if rec.ret >= 0 else None)
                    if rec.ret < 0:
                        if not valid:
                            continue
                        if not err:
                            raise Model("spurious-failure", "%s of %s failed with errno %d though no open was refused for another reason than an existing name" % (n, t, rec.err))
                        continue
                    if not valid:
                        raise Model("bad-template-accepted", "%s of %s (suffix %d) returned %d" % (n, t, suf, rec.ret))
                    body = core.rstrip("X")
                    end = t[len(core):]
                    if len(name) != len(t) or not name.startswith(body) or not name.endswith(end) or re.search(r"[/\0]", name[len(body):len(core)]):
                        raise Model("template", "%s of %s gave the name %r" % (n, t, name))
                    if name in files:
                        raise Model("existing-file", "%s of %s opened the existing %s" % (n, t, name))
                    if name in made:
                        raise Model("not-exclusive", "%s was created by two calls" % name)
                    made[name] = b""
                    last[op[1]] = name
                elif n == "WRITE" and op[1] in last:
                    b = op[2].encode("latin-1")
                    if rec.ret != len(b):
                        raise Model("not-writable", "write to %s returned %d" % (last[op[1]], rec.ret))
                    made[last[op[1]]] = b
                elif n == "READ" and op[1] in last and idx >= 2 and ops[idx - 1][0] == "LSEEK":
                    b = made[last[op[1]]]
                    if rec.ret != len(b) or rec.data[:rec.ret] != b:
                        raise Model("not-readable", "%s does not read back what was written to it" % last[op[1]])
                elif n == "TMPFILE":
                    last.pop(op[1], None)
                    self.leak(case, "tmpfile", cl, "one" if rec.ret else None)
                    if not rec.ret:
                        if not err:
                            raise Model("spurious-failure", "tmpfile failed with errno %d" % rec.err)
                        continue
                    last[("t", op[1])] = 1
                elif n == "FREAD" and ("t", op[1]) in last and idx >= 2 and ops[idx - 2][0] == "FPUTS":
                    b = ops[idx - 2][2].encode("latin-1")
                    if op[3] == len(b) and (rec.ret != len(b) or rec.data[:len(b)] != b):
                        raise Model("not-readable", "a temporary stream does not read back what was written to it")
        run("0", case["ops"], False)
        diff = r["phases"][0]["diff"]
        for p, e in diff.items():
            if e["op"] != "new":
                if p in files:
                    raise Model("existing-file", "%s existed before and was %s" % (p, e["op"]))
                continue
            if p in files:
                continue
            if p not in made:
                raise Model("stray-file", "%s was created and is not the name of a successful call" % p)
            if case["t"] == "n" and e["mode"] & 0o777 != 0o600:
                raise Model("permissions", "%s was created with mode %o" % (p, e["mode"] & 0o777))
            if C.unb64(e["b64"]) != made[p]:
                raise Model("not-exclusive", "%s does not hold what its creator wrote" % p)
        for p in made:
            if p not in diff:
                raise Model("missing", "%s was never created" % p)
        ctx.stats.probe("created", len(made))


class ExitNow(Exception):
    def __init__(self, code):
        self.code = code


class C16(LibProp):
    id = "C16"
    trace = 2
    quick_runs = 40000
    thorough_runs = 2500000
    rule = "distinct (call history, operation script) pairs; up to 40 handlers, 60 open streams, nested exit and registration inside handlers, up to two processes"
    assumptions = ["a process forks only while nothing is buffered", "formats used with fprintf are those of C10"]

    def opens(self, rng, k, tag, files):
        c = rng.random()
        p = "/w/%s%d" % (tag, k)
        if c < 0.75:
            return [["FOPEN", k, p, rng.choice(["w", "w", "wb", "a", "w+", "a+"])]]
        if c < 0.85:
            return [["OPEN", k, p, 0x241, 0o644], ["FDOPEN", k, k, "w"]]
        if c < 0.9:
            files["/w/in"] = "input\n"
            return [["FOPEN", k, "/w/in", "r"]]
        if c < 0.95:
            return [["MEMSTREAM", k, k % 16]]
        return [["FMEMOPEN", k, k % 16, 64, "w", "i" * 64]]

    def body(self, rng, n, tag, files, streams, nh, std, deep=0):
        """some operations; handlers are numbered below nh"""
        ops = []
        for _ in range(n):
            c = rng.random()
            if c < 0.3 and streams:
                ops += self.opens(rng, rng.choice(streams), tag, files)
            elif c < 0.75:
                k = rng.choice(streams + ([-2, -3] if std else [])) if streams or std else None
                if k is not None:
                    ops.append(out_op(rng, k, rng.random() < 0.2))
            elif c < 0.8 and streams:
                ops.append([rng.choice(["FFLUSH", "FCLOSE"]), rng.choice(streams)])
            elif nh:
                ops.append(["ATEXIT", rng.randrange(nh)])
        return ops

    def gen(self, rng, ctx, i):
        t = self.pick_target(rng)
        files = {}
        fork = t == "n" and rng.random() < 0.15
        std = not fork
        ns = rng.choice([0, 1, 2, 5, 10, 40])
        streams = sorted(rng.sample(range(60), ns))
        nh = rng.choice([0, 1, 3, 8, 12, 40])
        ops = []
        for k in range(nh):
            h = self.body(rng, rng.choice([0, 1, 1, 3]), "h", files, streams, 0, std)
            c = rng.random()
            if c < 0.25 and k + 1 < nh:
                # only handlers with higher numbers: it ends
                for _ in range(rng.choice([1, 1, 2])):
                    h.insert(rng.randrange(len(h) + 1), ["ATEXIT", rng.randrange(k + 1, nh)])
            if c > 0.8:
                h.insert(rng.randrange(len(h) + 1), [rng.choice(["EXIT", "EXIT", "RETURN"]), rng.choice([0, 1, 3, 77, 255])])
            ops.append(["DEFHANDLER", k, h])
        for _ in range(rng.choice([0, 1, 2, 3, 7, 8, 9, 12]) if nh else 0):
            ops.append(["ATEXIT", rng.randrange(nh)])
        if fork:
            ops.append(["FORK", self.body(rng, rng.choice([1, 5, 10]), "c", files, streams, nh, std) + ([["EXIT", 9]] if rng.random() < 0.5 else []), rng.choice([0, 5])])
        every = rng.random() < 0.3
        if every:
            for k in streams:
                ops += self.opens(rng, k, "f", files)
                ops.append(out_op(rng, k, False))
        ops += self.body(rng, rng.choice([0, 1, 3, 10, 30]), "f", files, streams, nh, std)
        if fork:
            ops.append(["WAIT"])
        ops.append([rng.choice(["EXIT", "RETURN"]), rng.choice([0, 1, 2, 42, 127, 128, 255, 256, 511, 1000])] if rng.random() < 0.8 else ["EXIT", rng.choice([-1, -256, 1 << 30])])
        if rng.random() < 0.1:
            ops.pop()
        if rng.random() < 0.1:
            ops.insert(rng.randrange(nh, len(ops) + 1), ["EXIT", rng.randrange(256)])
        sim = {"seed": rng.randrange(1 << 30), "rules": []}
        if fork:
            sim.update(sched_knobs(rng, False))
        if rng.random() < 0.4:
            sim["pshortw"] = rng.choice([100, 500, 950])
        if rng.random() < 0.4:
            paths = ["<out>", "<err>"] + ["/w/%s%d" % (x, k) for k in streams for x in "fhc"]
            for _ in range(rng.choice([1, 1, 2, 4])):
                sim["rules"].append({"op": "write", "path": rng.choice(paths), "after": rng.choice([0, 0, 0, 1, 2]), "count": rng.choice([1, 1, -1]), "kind": "err", "val": rng.choice([E.EIO, E.ENOSPC, E.EINTR])})
        if rng.random() < 0.04:
            sim["disk"] = rng.choice([0, 10, 100, 1000])
        if rng.random() < 0.1:
            sim["brkshift"] = rng.randrange(1 << 12) * 16
        if not fork and rng.random() < 0.15:
            # memory runs out while streams are opened
            ops.insert(nh, ["MALLOC", 0, rng.randrange(1, 12000), 1])
            if t == "w":
                sim["memadd"] = rng.choice([0, 0, 1])
            else:
                sim["rules"].append({"op": "brk", "after": rng.choice([1, 1, 2, 2, 3, 4, 5]), "count": -1, "kind": "err", "val": E.ENOMEM})
        return {"t": t, "ops": ops, "sim": sim, "files": files, "pre": rng.randrange(4), "kinds": rng.choice(["ppp", "ptt", "prr"])}

    def judge(self, ctx, case, r, recs):
        from .libc import decode
        if r["outcome"] != "ok":
            raise Model("hang" if r["outcome"] != "error" else "died", r["outcome"])
        if r.get("trap"):
            raise Model("died", "trap: " + r["trap"])
        tr = by_process(r)
        logs = {}
        for e in r["trace"]:
            if e[2] == "!log":
                logs.setdefault(e[0], []).append(C.unb64(e[3]))
        disk = case["sim"].get("disk") is not None
        oom = "memadd" in case["sim"] or any(x["op"] == "brk" for x in case["sim"].get("rules", []))
        got, werr, cerr = {}, {}, {}
        state = self

        def take(es):
            for e in es:
                if e[2] == "!data":
                    got.setdefault(e[3], bytearray()).extend(C.unb64(e[4]))
                elif e[2] in WRITES and e[7] < 0:
                    werr[e[3]] = werr.get(e[3], 0) + 1
                elif e[2] in CLOSES and e[7] < 0:
                    cerr[e[3]] = 1

        class Proc:
            def __init__(p, lin, parent=None):
                p.lin = lin
                p.recs = decode(b"".join(logs.get(lin, [])))
                p.calls = tr.get(lin, [[]])
                p.i = 0
                p.reg = list(parent.reg) if parent else []
                p.H = dict(parent.H) if parent else {}
                p.outs = {} if parent else {-2: OutModel("<out>"), -3: OutModel("<err>")}
                p.live = []
                p.nchild = 0
                p.ret = 0
                p.ran = 0
                p.fdpath = {}

            def next(p, what):
                if p.i >= len(p.recs):
                    raise Model("died" if not what.startswith("exit handler") else "handler-missing", "process %s ended where %s was due" % (p.lin, what))
                rec = p.recs[p.i]
                take(p.calls[p.i])
                p.i += 1
                return rec

            def run(p, ops, top):
                for op in ops:
                    n = op[0]
                    if n == "DEFHANDLER":
                        p.H[op[1]] = op[2]
                        continue
                    rec = p.next(n)
                    if rec.op != n:
                        raise Model("handler-order", "%s was due, but %s %d came" % (n, rec.op, rec.ret))
                    if n == "EXIT":
                        raise ExitNow(op[1])
                    if n == "RETURN":
                        if top:
                            p.ret = op[1]
                        return
                    if n == "ATEXIT":
                        if rec.ret == 0:
                            p.reg.append(op[1])
                        elif len(p.reg) < 8:
                            raise Model("registration-refused", "atexit returned %d with %d handlers registered" % (rec.ret, len(p.reg)))
                        else:
                            ctx.stats.probe("registration_refused")
                        continue
                    if n == "FORK":
                        if rec.ret > 0:
                            c = Proc("%s.%d" % (p.lin, p.nchild), p)
                            p.nchild += 1
                            c.next("the child")
                            c.main(op[1], op[2], False)
                            p.child = (rec.ret, c)
                        continue
                    if n in ("WAIT", "MALLOC"):
                        continue
                    p.stream(op, rec)

            def stream(p, op, rec):
                n = op[0]
                if rec.ret == -9999 and rec.err == 9999:
                    return
                if n == "OPEN":
                    p.fdpath[op[1]] = op[2] if rec.ret >= 0 else None
                    return
                if n in ("FOPEN", "FDOPEN", "MEMSTREAM", "FMEMOPEN"):
                    k = op[1]
                    p.outs.pop(k, None)
                    if not rec.ret:
                        if disk or oom or n == "FDOPEN":
                            return
                        raise Model("spurious-failure", "%s failed (errno %d)" % (n, rec.err))
                    if n in ("MEMSTREAM", "FMEMOPEN") or n == "FOPEN" and op[3] == "r":
                        return
                    path = op[2] if n == "FOPEN" else p.fdpath.pop(op[2], None)
                    if path is None:
                        return
                    # a second stream of the same file: neither is followed
                    for m in p.live:
                        if m.path == path:
                            m.skip = True
                    m = OutModel(path)
                    m.skip = any(q.path == path for q in p.live)
                    p.live.append(m)
                    p.outs[k] = m
                    got[path] = bytearray()
                    werr[path] = 0
                    return
                m = p.outs.get(stream_of(op))
                if m is None or getattr(m, "skip", False):
                    return
                if n in ("FFLUSH", "FCLOSE"):
                    if rec.ret == 0:
                        m.arrived(got.get(m.path, b""), True, "after a successful " + n.lower())
                    else:
                        if not werr.get(m.path) and not cerr.get(m.path):
                            raise Model("spurious-failure", "%s on %s reports failure though no write failed" % (n, m.path))
                        m.failed = True
                        m.pat.all_optional()
                    if n == "FCLOSE":
                        m.closed = True
                        if m in p.live:
                            p.live.remove(m)
                        p.outs.pop(op[1], None)
                    return
                if not m.closed:
                    m.output(op, rec, werr.get(m.path, 0))

            def main(p, ops, code, top):
                try:
                    p.run(ops, top)
                    status = p.ret if top else code
                except ExitNow as x:
                    status = x.code
                while p.reg:
                    k = p.reg.pop()
                    rec = p.next("exit handler %d" % k)
                    if rec.op != "HANDLER" or rec.ret != k:
                        raise Model("handler-order", "exit handler %d was due, but %s %d came" % (k, rec.op, rec.ret))
                    p.ran += 1
                    try:
                        p.run(p.H.get(k, []), False)
                    except ExitNow as x:
                        status = x.code
                if p.i < len(p.recs):
                    x = p.recs[p.i]
                    raise Model("handler-twice", "%s %d ran although no handler was left" % (x.op, x.ret))
                for es in p.calls[p.i:]:
                    take(es)
                for m in list(p.live) + [p.outs[k] for k in (-2, -3) if k in p.outs]:
                    if getattr(m, "skip", False) or m.closed:
                        continue
                    m.arrived(got.get(m.path, b""), not m.failed and not werr.get(m.path), "after exit")
                st = [q for q in r["phases"][0]["procs"] if q["lin"] == p.lin]
                if not st or st[0]["st"] & 0x7f:
                    raise Model("died", "process %s: killed by signal %s" % (p.lin, st and st[0]["st"] & 0x7f))
                if case["t"] == "n":
                    if st[0]["st"] >> 8 & 255 != status & 255:
                        raise Model("status", "exit status %d, expected %d" % (st[0]["st"] >> 8 & 255, status & 255))
                elif st[0]["code"] & 0xffffffff != status & 0xffffffff:
                    raise Model("status", "exit status %d, expected %d" % (st[0]["code"], status))
                ctx.stats.probe("handlers_run", p.ran)
                ctx.stats.probe("streams_open_at_exit", len(p.live))

        Proc("0").main(case["ops"], 0, True)



CALLS = {"OPEN": "open openat", "READ": "read", "WRITE": "write", "CLOSE": "close", "LSEEK": "lseek", "STAT": "stat newfstatat", "FSTAT": "fstat newfstatat", "LSTAT": "lstat newfstatat",
         "UNLINK": "unlink unlinkat", "MKDIR": "mkdir mkdirat", "RMDIR": "rmdir unlinkat", "CHDIR": "chdir", "CHMOD": "chmod fchmodat", "GETCWD": "getcwd", "DUP": "dup", "PIPE": "pipe pipe2",
         "FORK": "fork vfork clone clone3", "KILL": "kill", "ISATTY": "ioctl", "IOCTL": "ioctl", "CLOCK": "clock_gettime", "TIME": "time clock_gettime gettimeofday", "WAIT": "wait4 waitid",
         "WAITPID": "wait4 waitid", "WAIT4": "wait4 waitid", "EXECVE": "execve", "EXECVP": "execve", "REMOVE": "unlink unlinkat rmdir", "MKDIRAT": "mkdirat", "FSTATAT": "newfstatat"}
CALLS = {k: set(v.split()) for k, v in CALLS.items()}
ERRS = [E.EPERM, E.ENOENT, E.EINTR, E.EIO, E.ENXIO, E.E2BIG, E.EBADF, E.EAGAIN, E.ENOMEM, E.EACCES, E.EFAULT, E.EBUSY, E.EEXIST, E.ENOTDIR, E.EISDIR, E.EINVAL, E.ENFILE, E.EMFILE, E.EFBIG,
        E.ENOSPC, E.ESPIPE, E.EROFS, E.EPIPE, E.ERANGE, E.EDEADLK, E.ENAMETOOLONG, E.ENOSYS, E.ENOTEMPTY, E.ELOOP, E.EOVERFLOW, E.ETIMEDOUT, E.ESTALE, E.EDQUOT, 133]


class C17(LibProp):
    id = "C17"
    trace = 1
    wasm = False
    quick_runs = 30000
    thorough_runs = 2000000
    rule = "distinct (call history, operation script) pairs; scripts of up to 40 wrapper calls in up to three processes"
    assumptions = ["x86-64 Linux system-call numbers", "execvp is used with paths that contain a slash, remove with files that are not directories"]
    real = ["libsrc/unistd and libsrc/stdio/remove.c compiled by the tree's own xcc and linked by its ld, running natively under the simulated kernel"]
    stub = ["kernel (xsim)", "client program: libdrv/drv.c; for fault-free runs the same client on the host's C library is the reference"]
    PATHS = ["/w/a", "/w/b", "a", "b", "./a", "/w/d", "d", "d/x", "d/../a", "/w/none/x", "/w/ro", "/tmp/t", "/tmp", "/", ".", "..", "", "/dev/null", "/w/a/", "/w/a/x", "/w/new", "/w/e", "/w/" + "n" * 300]

    def one(self, rng, child):
        P = lambda: rng.choice(self.PATHS)
        k = rng.randrange(8)
        c = rng.randrange(27)
        if c < 5:
            fl = rng.choice([0, 0, 1, 2]) | rng.choice([0, 0, 0x40, 0x40, 0x240, 0x200, 0xc0, 0x400, 0x440, 0x80000])
            return [["OPEN", k, P(), fl, rng.choice([0o644, 0o600, 0o777, 0o444, 0])]]
        if c < 8:
            return [["READ", rng.choice([k, k, k, k, 1000, 1077, -1]), rng.choice([0, 1, 7, 100, 5000])]]
        if c < 11:
            return [["WRITE", rng.choice([k, k, k, k, 1001, 1002, 1077, -1]), rdata(rng, rng.choice([0, 1, 9, 200]))]]
        if c == 11:
            return [["CLOSE", rng.choice([k, k, k, 1055, -1])]]
        if c == 12:
            return [["LSEEK", rng.choice([k, k, k, 1000, -1]), rng.choice([0, 1, 3, 100, -1, -5, 70000]), rng.choice([0, 1, 2, 0, 1, 2, 7])]]
        if c == 13:
            return [["OPEN", 9, "/w/b", 0, 0], ["LSEEK", 9, rng.choice([5 << 32, (1 << 31) - 1, 1 << 31, 1 << 40, -1 << 40]), rng.choice([0, 2])], ["LSEEK", 9, 0, 1], ["READ", 9, 10]]
        if c == 14:
            return [[rng.choice(["STAT", "LSTAT"]), P()], ["FSTAT", rng.choice([k, 1000, 1001, 1077])]]
        if c == 15:
            return [rng.choice([["UNLINK", P()], ["REMOVE", rng.choice(["/w/a", "/w/b", "/w/none", "/w/a/x", "/w/new"])]])]
        if c == 16:
            return [["MKDIR", P(), rng.choice([0o755, 0o700, 0o111])]]
        if c == 17:
            return [["RMDIR", P()]]
        if c == 18:
            return [["CHDIR", P()], ["GETCWD", rng.choice([1, 2, 3, 4, 5, 100])]]
        if c == 19:
            return [["CHMOD", P(), rng.choice([0o644, 0o600, 0o777, 0o400])]]
        if c == 20:
            return [["DUP", rng.randrange(8), rng.choice([k, k, 1001, 1077])]]
        if c == 21:
            a, b = rng.sample(range(8), 2)
            return [["PIPE", a, b], ["WRITE", b, "through"], ["READ", a, rng.choice([3, 7, 20])]]
        if c == 22:
            return [["ISATTY", rng.choice([k, 1000, 1001, 1002, 1077])], ["IOCTL", rng.choice([k, 1001]), rng.choice([0x5413, 0x5401, 0x1234])]]
        if c == 23:
            return [["CLOCK", rng.choice([0, 1, 99])], ["TIME", rng.randrange(2)]]
        if c == 24:
            return [rng.choice([["MKDIRAT", -100, P(), 0o755], ["FSTATAT", -100, P(), rng.choice([0, 0x100])], ["MKDIRAT", k, "q", 0o755], ["FSTATAT", k, "a", 0]])]
        if child:
            return [[rng.choice(["EXECVE", "EXECVP"]), rng.choice(["/x/drv", "/w/none", "/w/a", "/w/d", "/w/ro", "/w/a/x"]), rng.choice(["arg", "", "a b", "x" * 300])]]
        w = rng.random()
        body = [o for _ in range(rng.choice([0, 1, 3, 5])) for o in self.one(rng, True)]
        if w < 0.6:
            return [["FORK", body, rng.choice([0, 1, 7, 200])], rng.choice([["WAIT"], ["WAITPID", -1, 0], ["WAITPID", -1000, 0], ["WAIT4", -1000, 0]])]
        if w < 0.8:     # a child that waits for ever is killed
            return [["PIPE", 10, 11], ["FORK", [["READ", 10, 4]], 0], ["KILL", -1000, rng.choice([9, 15, 2])], rng.choice([["WAIT"], ["WAITPID", -1000, 0]])]
        return [rng.choice([["WAIT"], ["WAITPID", -1, 1], ["WAITPID", 4000, 0], ["KILL", 4000, 0], ["KILL", 4000, 9], ["KILL", -1000, 77], ["WAIT4", -1, 1], ["WAITPID", -1, 0x7000]])]

    def gen(self, rng, ctx, i):
        ops = []
        n = rng.choice([1, 3, 8, 20])
        while len(ops) < n:
            ops += self.one(rng, False)
        sim = {"seed": rng.randrange(1 << 30), "rules": [], "clock": rng.choice([1, 1700000000, (1 << 31) - 1, 1 << 31, 5000000000]), "clockstep": 0}
        files = {"/w/a": rdata(rng, rng.choice([0, 20, 300])), "/w/b": rdata(rng, 50), "/w/d": {"t": "dir"}, "/w/e": {"t": "dir"}, "/w/ro": {"b64": C.b64("ro"), "mode": 0o444}}
        if rng.random() < 0.5:
            files["/w/d/x"] = "nested"
        c = rng.random()
        if c < 0.55:
            for _ in range(rng.choice([1, 1, 2, 4])):
                names = sorted(set().union(*(CALLS[o[0]] for o in ops if o[0] in CALLS)))
                sim["rules"].append({"op": rng.choice(names), "after": rng.choice([0, 0, 1, 2, 4]), "count": rng.choice([1, 1, 2, -1]), "kind": "err", "val": rng.choice(ERRS)})
        elif c < 0.65:
            sim["pshortr"] = sim["pshortw"] = rng.choice([100, 500])
        elif c < 0.7:
            sim["fdlimit"] = rng.choice([3, 4, 5])
        elif c < 0.73:
            sim["disk"] = rng.choice([0, 5, 100])
        return {"t": "n", "ops": ops, "sim": sim, "files": files, "kinds": rng.choice(["ppp", "ptt", "prr"])}

    def walk(self, r, ops):
        """(process, op, record, calls) of every operation, in the order of each process; children after the fork"""
        from .libc import decode
        tr, logs = by_process(r), {}
        for e in r["trace"]:
            if e[2] == "!log":
                logs.setdefault(e[0], []).append(C.unb64(e[3]))

        def go(lin, ops, skip):
            rs = decode(b"".join(logs.get(lin, [])))
            calls = tr.get(lin, [[]])
            if skip:
                rs, calls = rs[1:], calls[1:]
            nchild = 0
            for i, op in enumerate(ops):
                if i >= len(rs):
                    yield lin, op, None, calls[i] if i < len(calls) else []
                    return
                yield lin, op, rs[i], calls[i]
                if op[0] in ("EXECVE", "EXECVP") and rs[i].op == "EXECARG":
                    return
                if op[0] == "FORK" and rs[i].ret > 0:
                    yield from go("%s.%d" % (lin, nchild), op[1], True)
                    nchild += 1
        yield from go("0", ops, False)

    def judge(self, ctx, case, r, recs):
        if r["outcome"] not in ("ok", "deadlock", "orphans"):
            raise Model("died", r["outcome"])
        st = {p["lin"]: p["st"] for p in r["phases"][0]["procs"]}
        killed = {}
        clock = case["sim"]["clock"]
        for lin, op, rec, calls in self.walk(r, case["ops"]):
            n = op[0]
            if rec is None:
                # a script may wait for something a refused call did not bring about
                if r["outcome"] == "deadlock" and n in ("READ", "WAIT", "WAITPID", "WAIT4"):
                    continue
                if any(e[2] == "kill" and e[7] == 0 for e in r["trace"]) or st.get(lin, 0) & 0x7f in (13, 9, 15, 2):
                    continue
                raise Model("died", "process %s stopped at %s (status %s)" % (lin, n, st.get(lin)))
            if n not in CALLS:
                continue
            es = [e for e in calls if e[2] in CALLS[n]]
            if rec.op == "EXECARG":
                want = b"".join(x.encode("latin-1") + b"\0" for x in [op[1], op[2]] + (["K=V"] if n == "EXECVE" else C.ENV))
                if rec.ret != 2 or rec.data != want:
                    raise Model("arguments", "the program started by %s saw %r (%d), expected %r" % (n, rec.data, rec.ret, want))
                continue
            if rec.op != n:
                raise Model("died", "record of %s where %s was due" % (rec.op, n))
            if not es:
                if rec.ret >= 0 and not (n in ("GETCWD", "ISATTY") and rec.ret == 0):
                    raise Model("no-call", "%s returned %d without a system call" % (n, rec.ret))
                continue
            e = es[-1]
            k = e[7]
            fail = 0 if n in ("GETCWD", "ISATTY") else -1
            what = "%s%r" % (n, tuple(op[1:])) if n != "FORK" else n
            if -4096 < k < 0:
                if rec.ret != fail:
                    raise Model("failure-value", "%s returned %d though the kernel refused with error %d" % (what, rec.ret, -k))
                if rec.err != -k:
                    raise Model("errno", "%s set errno to %d, the kernel's error was %d" % (what, rec.err, -k))
                ok = True
                if n in ("READ", "GETCWD"):
                    ok = set(rec.data) <= {0xa5}
                elif n == "PIPE":
                    ok = rec.data == struct.pack("<qq", -99, -99)
                elif n in ("WAIT", "WAITPID", "WAIT4"):
                    ok = rec.data == struct.pack("<q", -5)
                elif n == "CLOCK":
                    ok = rec.data == struct.pack("<qq", -1, -1)
                elif n == "TIME":
                    ok = rec.data == struct.pack("<q", -7)
                if not ok:
                    raise Model("clobbered", "%s failed and changed the caller's memory" % what)
                ctx.stats.probe("refused_" + n)
                continue
            if n == "GETCWD":
                good = rec.ret == 1 and rec.data[:k].endswith(b"\0") and rec.data[:1] == b"/" and set(rec.data[k:]) <= {0xa5}
            elif n == "ISATTY":
                good = rec.ret == 1
            elif n == "TIME":
                good = rec.ret == clock and rec.data == struct.pack("<q", clock if op[1] else -7)
            elif n == "CLOCK":
                good = rec.ret == k and (op[1] != 0 or rec.data == struct.pack("<qq", clock, 0))
            else:
                good = rec.ret == k
            if not good:
                raise Model("result", "%s returned %d where the kernel returned %d" % (what, rec.ret, k))
            if n == "READ" and not set(rec.data[k:]) <= {0xa5}:
                raise Model("clobbered", "%s wrote beyond the %d bytes read" % (what, k))
            if n in ("READ", "WRITE") and e[6] != (op[2] if n == "READ" else len(op[2])):
                raise Model("arguments", "%s asked the kernel for %d bytes" % (what, e[6]))
            if n in ("WAIT", "WAITPID", "WAIT4"):
                s = struct.unpack("<q", rec.data)[0]
                if k == 0 and s != -5 or k > 0 and s & 0xffffffff not in st.values():
                    raise Model("result", "%s gave the status %d" % (what, s))
        if r["fired"] or case["sim"]["rules"] or case["sim"].get("pshortr") or case["sim"].get("fdlimit") or case["sim"].get("disk") is not None:
            return
        # the same operations through the host's C library
        q, ref = self.script_run(ctx, case, trace=1, target="ref")
        ctx.last = r
        ctx.stats.probe("compared_with_reference")
        a = list(self.walk(r, case["ops"]))
        b = list(self.walk(q, case["ops"]))
        if len(a) != len(b):
            raise Model("reference", "%d operations, %d with the host's library" % (len(a), len(b)))
        for (lin, op, x, _), (lin2, op2, y, _) in zip(a, b):
            if (x is None) != (y is None):
                raise Model("reference", "%s: %r, with the host's library %r" % (op, x, y))
            if x is None or op[0] == "EXECVP":
                continue
            dx, dy = x.data, y.data
            if op[0] in ("STAT", "LSTAT", "FSTAT", "FSTATAT"):
                dx, dy = dx[:24] + dx[32:], dy[:24] + dy[32:]
            fail = 0 if op[0] in ("GETCWD", "ISATTY") else -1
            if (x.op, x.ret, dx) != (y.op, y.ret, dy) or x.ret == fail and x.err != y.err:
                if op[0] == "ISATTY" and x.ret == y.ret:
                    continue
                if op[0] == "REMOVE" and x.err == E.EISDIR:
                    return      # removing a directory is left to rmdir
                raise Model("reference", "%s: %r %r, with the host's library %r %r" % (op if op[0] != "FORK" else "FORK", x, dx[:60], y, dy[:60]))
        if r["phases"][0]["diff"] != q["phases"][0]["diff"] or {k: v for k, v in r["sinks"].items() if k != "res"} != {k: v for k, v in q["sinks"].items() if k != "res"}:
            raise Model("reference", "files or output differ from those the host's library makes: %r %r" % (str(r["phases"][0]["diff"])[:300], str(q["phases"][0]["diff"])[:300]))
