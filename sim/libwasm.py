"""The wasm C library on its WASI host (C18) and the compiler hosted in WebAssembly (C19)."""
import hashlib, os, struct

from . import client as C, corpus, gencode, genlit, gensrc
from .engine import ddmin_list
from .libc import LibProp, Model, WERR, rdata
from .toolchain import ToolProp, V, brief, enc_files, highbytes, out_state, req, root_status, tool_mounts, wkey, workload_wcc

LONG = ["/" + "p" * n for n in (253, 254, 255, 300)]
LAYOUTS = [
    [["/", "/"]],
    [["/", "/"], [".", "/w"]],
    [[".", "/w"]],
    [["/w", "/w"]],
    [["/tmp", "/tmp"], ["/w", "/w"], [".", "/w"]],
    [["/w", "/w"], ["/w/d", "/w/d"], [".", "/w/d"]],
    [[LONG[0], "/tmp"], [LONG[1], "/w"], [".", "/w"]],
    [[LONG[2], "/tmp"], [LONG[3], "/tmp"], ["/w", "/w"], ["/", "/"]],
    [["/m", "/w"], ["/n", "/tmp"], [".", "/tmp"]],
    [["/tmp", "/tmp"], ["/dev", "/dev"]],
    [],
]
PATHCALLS = {"OPEN": "path_open", "STAT": "path_filestat_get", "LSTAT": "path_filestat_get", "UNLINK": "path_unlink_file", "REMOVE": "path_unlink_file", "MKDIR": "path_create_directory", "RMDIR": "path_remove_directory"}


class Node:
    def __init__(self, kind, data=b"", mode=0o644):
        self.kind, self.data, self.mode = kind, bytearray(data), mode


class Fs:
    """Reference model: the tree, the preopened directories and the descriptors."""

    def __init__(self, layout, files):
        self.layout = layout
        self.t = {p: Node("dir") for p in ("/", "/tmp", "/w", "/dev")}
        self.t["/dev/null"] = Node("null")
        self.t["/dev/full"] = Node("full")
        for p, v in files.items():
            if isinstance(v, str):
                self.t[p] = Node("reg", v.encode("latin-1"))
            elif v.get("t") == "dir":
                self.t[p] = Node("dir")
            elif v.get("t") == "lnk":
                self.t[p] = Node("lnk", v["to"].encode())
            elif v.get("fake"):
                self.t[p] = Node("big", b"BIG", v["mode"])
                self.t[p].size = v["fake"]
            else:
                self.t[p] = Node("reg", C.unb64(v["b64"]), v.get("mode", 0o644))
        self.fd = {}

    def inside(self, root, rel, follow):
        """(path, trailing slash) or None: refused, missing or not a directory on the way"""
        if rel == "":
            rel = "."
        if rel[0] == "/" or "\0" in rel:
            return None
        parts = []
        names = rel.split("/")
        i = -1
        while i + 1 < len(names):
            i += 1
            x = names[i]
            if x in ("", "."):
                continue
            if x == "..":
                if not parts:
                    return None
                parts.pop()
                continue
            parts.append(x)
            n = self.t.get((root if root != "/" else "") + "/" + "/".join(parts))
            if n is not None and n.kind == "lnk" and (follow or i < len(names) - 1):
                parts.pop()
                if len(names) > 5000:
                    return None
                names[i + 1:i + 1] = bytes(n.data).decode().split("/")
                continue
            if i < len(names) - 1:
                if n is None or n.kind != "dir":
                    return None
        p = ("" if root == "/" else root) + "/" + "/".join(parts) if parts else root
        return p, rel.endswith("/")

    def places(self, fn, follow=False):
        """What the name means through the preopened directories: a list of (path, slash)."""
        out = []
        for name, root in self.layout:
            if len(name) >= 256:
                continue
            if fn.startswith("/"):
                if name == "/":
                    rel = fn[1:]
                elif fn == name:
                    rel = "."
                elif name.startswith("/") and fn.startswith(name + "/"):
                    rel = fn[len(name) + 1:]
                else:
                    continue
            elif name == ".":
                rel = fn
                if fn == "":
                    continue
            else:
                continue
            if rel.startswith("/"):
                continue
            r = self.inside(root, rel, follow)
            if r:
                out.append(r)
        return out

    def ok(self, op, path, slash, flags=0):
        n = self.t.get(path)
        par = self.t.get(path.rsplit("/", 1)[0] or "/")
        if slash and n is not None and n.kind != "dir":
            return False
        if op == "OPEN":
            w = flags & 3 in (1, 2)
            if n is None:
                return bool(flags & 0o100) and not slash and par is not None and par.kind == "dir"
            if flags & 0o300 == 0o300:
                return False
            if n.kind == "dir":
                return not w
            return not (w and n.kind in ("reg", "big") and not n.mode & 0o200)
        if op in ("STAT", "LSTAT"):
            return n is not None
        if op in ("UNLINK", "REMOVE"):
            return n is not None and n.kind != "dir"
        if op == "MKDIR":
            return n is None and par is not None
        if op == "RMDIR":
            return n is not None and n.kind == "dir" and path not in [r for _, r in self.layout] and not any(k.startswith(path + "/") for k in self.t)


class C18(LibProp):
    id = "C18"
    trace = 2
    quick_runs = 40000
    thorough_runs = 1200000
    rule = "distinct (host call history, operation script) pairs; scripts of up to 30 calls over 11 preopen layouts"
    assumptions = ["names of preopened directories are absolute without a trailing slash, or \".\"", "O_EXCL only together with O_CREAT, O_TRUNC only with write access", "files smaller than 2 GB (off_t has 32 bits on wasm)", "names reach one file whichever of several preopened directories they are taken through"]
    real = ["libsrc/_wasm and the rest of the bundled C library compiled and linked by the tree's own wcc, running in node's wasm engine"]
    stub = ["WASI host (wsim)", "client program: libdrv/drv.c"]
    wasm_share = 1.0

    def prepare(self, build):
        build.wasm_driver()

    def paths(self, rng, lay):
        base = ["a", "b", "d", "d/x", "d/../a", "./a", "new", "none/x", "ro", "a/", "a/x", "d/", "d/y", "./", "..", "../w/a", "n" * rng.choice([100, 255, 256, 1000]), "d/./x", "d//x", "ln", "ln", "ld", "ld/x", "ld/", "dang", "big", "ld/../a"]
        c = rng.random()
        if c < 0.25 or not lay:
            return rng.choice(base)
        name = rng.choice(lay)[0]
        if c < 0.35:
            return rng.choice(["/w/a", "/tmp/t", "/w", "/", "/w/d/x", "/wx/a", "/tmp/../w/a", "/none", "", ".", "/dev/null", "/dev/full", "/w/./a", "/tmpx"])
        if name == ".":
            return rng.choice(base)
        if rng.random() < 0.08:
            return name
        if rng.random() < 0.1 and name != "/":   # names that only look like the directory's
            return rng.choice([name + rng.choice("x-X.") + rng.choice(base), (name[:-1] if len(name) > 2 else "/x") + "/" + rng.choice(base), name + name, name + rng.choice("x-.")])
        return (name if name != "/" else rng.choice(["", "/w", "/tmp"])) + "/" + rng.choice(base)

    def gen(self, rng, ctx, i):
        lay = rng.choice(LAYOUTS)
        ops = []
        P = lambda: self.paths(rng, lay)
        for _ in range(rng.choice([1, 4, 10, 30])):
            c = rng.randrange(22)
            k = rng.randrange(4)
            if c < 7:
                fl = rng.choice([0, 0, 1, 2, 2]) | rng.choice([0, 0, 0o100, 0o100, 0o300, 0o2000, 0o2100])
                if fl & 3 and rng.random() < 0.3:
                    fl |= 0o1000
                ops.append(["OPEN", k, P(), fl, 0o644])
                if rng.random() < 0.5:
                    ops.append(["WRITE", k, rdata(rng, rng.choice([1, 10, 100]))])
            elif c < 9:
                ops.append(["READ", rng.choice([k, k, k, 1000, 1077, -1]), rng.choice([0, 1, 7, 100, 3000])])
            elif c < 11:
                ops.append(["WRITE", rng.choice([k, k, k, 1001, 1077]), rdata(rng, rng.choice([0, 1, 9, 300]))])
            elif c < 13:
                ops.append(["LSEEK", rng.choice([k, k, k, k, 1000, 1077]), rng.choice([0, 0, 1, 3, 50, -1, -7]), rng.randrange(3)])
            elif c < 15:
                ops.append([rng.choice(["STAT", "STAT", "LSTAT"]), P()])
            elif c == 15:
                ops.append(["FSTAT", rng.choice([k, k, 1000, 1077])])
            elif c == 16:
                ops.append([rng.choice(["UNLINK", "REMOVE"]), P()])
            elif c == 17:
                ops.append(["MKDIR", P(), 0o755])
            elif c == 18:
                ops.append(["RMDIR", P()])
            elif c == 19:
                ops.append(["CLOSE", rng.choice([k, k, 1077])])
            elif c == 20:
                ops.append(rng.choice([["CLOCK", rng.choice([0, 1])], ["TIME", 0], ["TIME", 1]]))
            else:
                ops.append(["GETRANDOM", rng.choice([0, 1, 16, 200])])
        files = {"/w/a": rdata(rng, rng.choice([0, 20, 300])), "/w/b": rdata(rng, 50), "/w/d": {"t": "dir"}, "/w/ro": {"b64": C.b64("ro"), "mode": 0o444}, "/tmp/a": "tmp file a", "/tmp/d": {"t": "dir"}}
        if rng.random() < 0.6:
            files["/w/d/x"] = "nested"
        if rng.random() < 0.6:
            for d in ("/w", "/tmp"):
                files[d + "/ln"] = {"t": "lnk", "to": rng.choice(["a", "./a", "d/../a", "d"])}
                files[d + "/ld"] = {"t": "lnk", "to": "d"}
                files[d + "/dang"] = {"t": "lnk", "to": rng.choice(["nothere", "ln", "ld/z"])}
        if rng.random() < 0.4:
            files["/w/big"] = {"b64": C.b64("BIG"), "mode": 0o444, "fake": rng.choice([(1 << 31) - 1, 1 << 30, 70000])}
        sim = {"seed": rng.randrange(1 << 30), "rules": [], "rand": rng.choice(["seed", "const"]), "clock": rng.choice([0, 1, 1700000000, (1 << 31) - 1])}
        c = rng.random()
        if c < 0.45:
            for _ in range(rng.choice([1, 1, 2, 3])):
                sim["rules"].append({"op": rng.choice(["path_open", "path_filestat_get", "path_unlink_file", "path_create_directory", "path_remove_directory", "fd_read", "fd_write", "fd_seek", "fd_close", "fd_filestat_get",
                                                       "fd_prestat_get", "fd_prestat_dir_name", "clock_time_get", "random_get", "args_get", "args_sizes_get", "*"]),
                                     "after": rng.choice([0, 0, 1, 2, 3, 6]), "count": rng.choice([1, 1, 2, -1]), "kind": "err", "val": rng.choice(list(WERR.values()) + [1, 20, 44, 52, 54, 76])})
        elif c < 0.65:
            sim["pshortr"] = sim["pshortw"] = rng.choice([100, 500, 900])
        elif c < 0.7:
            sim["disk"] = rng.choice([0, 5, 100])
        elif c < 0.75:
            sim["fdlimit"] = rng.choice([5, 7, 9])
        case = {"t": "w", "ops": ops, "sim": sim, "files": files, "layout": lay, "kinds": rng.choice(["ppp", "ptt", "prr"]), "stdin": rdata(rng, 30)}
        if rng.random() < 0.05:
            case["argv"] = ["prog"] + [rdata(rng, rng.choice([0, 1, 30, 300])) for _ in range(rng.choice([1, 2, 10, 50]))]
        return case

    def script_run(self, ctx, case, trace=0, target=None, inline=1 << 20):
        from .libc import decode, encode
        q = dict(case["sim"], module="drv", preopens=case["layout"], inline=inline, trace=trace)
        q["files"] = {k: ({"b64": C.b64(v)} if isinstance(v, str) else v) for k, v in case["files"].items()}
        kinds = case["kinds"]
        q["fds"] = {"0": {"src": C.b64(case["stdin"]), "kind": kinds[0]}, "1": {"sink": "out", "kind": kinds[1]}, "2": {"sink": "err", "kind": kinds[2]},
                    "10": {"src": C.b64(encode(case["ops"])), "control": True}, "11": {"sink": "res", "control": True}}
        if case.get("argv"):
            q["argv"] = case["argv"]
        r = ctx.run(q, "w")
        ctx.last = r
        return r, decode(C.unb64(r["sinks"].get("res", "")))

    def judge(self, ctx, case, r, recs):
        from .libio import per_op
        d = self.died(r)
        if d:
            raise Model("died", d)
        per, tail = per_op(r, recs)
        refused = lambda es: any(len(e) > 8 and e[8] in ("err", "enospc") for e in es if e[2][0] != "!")
        if case.get("argv"):
            start = per[0] if per else tail
            if not (per and recs[0].op == "EXECARG"):
                if not refused(start):
                    raise Model("arguments", "the program saw no arguments")
            else:
                want = b"".join(a.encode("latin-1") + b"\0" for a in case["argv"])
                if recs[0].ret != len(case["argv"]) or recs[0].data != want:
                    raise Model("arguments", "the program saw %d arguments %r" % (recs[0].ret, recs[0].data[:80]))
                return
        if len(recs) != len(case["ops"]):
            raise Model("died", "the program stopped after %d of %d operations" % (len(recs), len(case["ops"])))
        fs = Fs(case["layout"], case["files"])
        full = case["sim"].get("disk") is not None or case["sim"].get("fdlimit")
        startfail = False
        first = True
        slot = {}
        sin = case["stdin"].encode("latin-1")
        inpos = 0
        for op, rec, es in zip(case["ops"], recs, per):
            if first:
                startfail = any(e[2] == "fd_prestat_get" and len(e) > 8 for e in es)
                first = False
            n = op[0]
            what = "%s%r" % (n, tuple(a if not isinstance(a, str) or len(a) < 60 else a[:50] + "..." for a in op[1:]))
            bad = refused(es) or startfail
            if n in PATHCALLS:
                fn = op[2] if n == "OPEN" else op[1]
                good = [e for e in es if e[2] == PATHCALLS[n] and e[7] >= 0]
                fl = op[3] if n == "OPEN" else 0
                cands = [(p, s) for p, s in fs.places(fn, n == "STAT" or n == "OPEN" and fl & 0o300 != 0o300) if fs.ok(n, p, s, fl)]
                succ = rec.ret >= 0
                if n == "OPEN":
                    slot[op[1]] = rec.ret
                if not succ:
                    if rec.ret != -1:
                        raise Model("failure-value", "%s returned %d" % (what, rec.ret))
                    if good:
                        raise Model("hidden-success", "%s failed though the host did it" % what)
                    if cands and not bad and not (full and n in ("OPEN", "MKDIR")):
                        raise Model("spurious-failure", "%s failed though %s is there and the host refused nothing" % (what, cands[0][0]))
                    if n == "OPEN" and cands and not bad and full is None:
                        raise Model("spurious-failure", "%s failed" % what)
                    ctx.stats.probe("failed_" + n)
                    continue
                if not good:
                    raise Model("claimed-success", "%s returned %d though no host call succeeded" % (what, rec.ret))
                if len(good) > 1:
                    raise Model("done-twice", "%s: %d host calls succeeded" % (what, len(good)))
                path = good[0][3]
                if path not in [p for p, s in cands]:
                    raise Model("wrong-file", "%s acted on %s, expected %s" % (what, path, [p for p, s in cands] or "a failure"))
                node = fs.t.get(path)
                ctx.stats.probe("did_" + n)
                if n == "OPEN":
                    if node is None:
                        node = fs.t[path] = Node("reg")
                    elif fl & 0o1000 and node.kind == "reg":
                        del node.data[:]
                    if rec.ret in fs.fd:
                        raise Model("result", "%s returned the descriptor %d, which is in use" % (what, rec.ret))
                    fs.fd[rec.ret] = [node, 0, fl, rec.ret]
                elif n in ("STAT", "LSTAT"):
                    self.stat(what, rec, node)
                elif n in ("UNLINK", "REMOVE"):
                    del fs.t[path]
                elif n == "MKDIR":
                    fs.t[path] = Node("dir")
                elif n == "RMDIR":
                    del fs.t[path]
                continue
            if n in ("READ", "WRITE", "LSEEK", "FSTAT", "CLOSE"):
                k = op[1]
                num = k - 1000 if k >= 1000 else k if k < 0 else slot.get(k, -1)
                f = fs.fd.get(num)
                hc = [e for e in es if e[2] == {"READ": "fd_read", "WRITE": "fd_write", "LSEEK": "fd_seek", "FSTAT": "fd_filestat_get", "CLOSE": "fd_close"}[n]]
                hr = hc[-1][7] if hc else None
                if hr is not None and hr < 0:
                    if rec.ret != -1:
                        raise Model("failure-value", "%s returned %d though the host refused" % (what, rec.ret))
                    if n == "READ" and not set(rec.data) <= {0xa5}:
                        raise Model("clobbered", "%s failed and changed the buffer" % what)
                    if not bad and f is not None and not full:
                        node, pos, fl, fd = f
                        must = {"READ": fl & 3 != 1 and node.kind == "reg", "WRITE": fl & 3 != 0 and node.kind == "reg", "FSTAT": True, "CLOSE": True,
                                "LSEEK": node.kind == "reg" and n == "LSEEK" and (op[2] + (0 if op[3] == 0 else pos if op[3] == 1 else len(node.data))) >= 0}[n]
                        if must:
                            raise Model("spurious-failure", "%s failed" % what)
                    if n == "CLOSE":
                        fs.fd.pop(num, None)
                    continue
                if hr is None:
                    if rec.ret >= 0 and not (n in ("READ", "WRITE") and rec.ret == 0):
                        raise Model("claimed-success", "%s returned %d without a host call" % (what, rec.ret))
                    continue
                if n in ("READ", "WRITE", "LSEEK") and rec.ret != hr or n in ("FSTAT", "CLOSE") and rec.ret != 0:
                    raise Model("result", "%s returned %d, the host's result was %d" % (what, rec.ret, hr))
                if n == "READ" and not set(rec.data[max(rec.ret, 0):]) <= {0xa5}:
                    raise Model("clobbered", "%s wrote beyond the bytes read" % what)
                if k == 1000 and n == "READ":
                    if rec.data[:rec.ret] != sin[inpos:inpos + rec.ret]:
                        raise Model("data", "%s gave other bytes than standard input holds" % what)
                    inpos += rec.ret
                if k == 1000 and n == "LSEEK":
                    inpos = rec.ret
                if f is None:
                    continue
                node, pos, fl, fd = f
                if n == "READ" and node.kind == "reg":
                    if fl & 3 == 1:
                        raise Model("rights", "%s of a descriptor opened for writing only succeeded" % what)
                    if rec.data[:rec.ret] != bytes(node.data[pos:pos + rec.ret]) or (rec.ret == 0) != (not op[2] or pos >= len(node.data)):
                        raise Model("data", "%s at %d gave %r" % (what, pos, rec.data[:rec.ret][:40]))
                    f[1] += rec.ret
                elif n == "WRITE" and node.kind == "reg":
                    if fl & 3 == 0:
                        raise Model("rights", "%s to a descriptor opened for reading succeeded" % what)
                    if fl & 0o2000 and rec.ret:
                        f[1] = pos = len(node.data)
                    b = op[2].encode("latin-1")[:rec.ret]
                    if not bad and not full and not case["sim"].get("pshortw") and rec.ret != len(op[2]):
                        raise Model("result", "%s wrote %d bytes" % (what, rec.ret))
                    if pos > len(node.data) and b:
                        node.data.extend(b"\0" * (pos - len(node.data)))
                    node.data[pos:pos + len(b)] = b
                    f[1] += len(b)
                elif n == "LSEEK" and node.kind == "reg":
                    want = op[2] + (0 if op[3] == 0 else pos if op[3] == 1 else len(node.data))
                    if rec.ret != want:
                        raise Model("result", "%s returned %d, expected %d" % (what, rec.ret, want))
                    f[1] = want
                elif n == "FSTAT":
                    self.stat(what, rec, node)
                elif n == "CLOSE":
                    fs.fd.pop(num, None)
                continue
            hc = [e for e in es if e[2] in ("clock_time_get", "random_get")]
            if not hc:
                if n != "GETRANDOM" or op[1]:
                    raise Model("claimed-success", "%s without a host call" % what)
                continue
            e = hc[-1]
            if e[7] < 0:
                if rec.ret != -1:
                    raise Model("failure-value", "%s returned %d though the host refused" % (what, rec.ret))
                continue
            if n == "GETRANDOM":
                if rec.ret != op[1] or rec.data[:min(op[1], 16)].hex() != e[3] or not set(rec.data[op[1]:]) <= {0xa5}:
                    raise Model("data", "%s returned %d" % (what, rec.ret))
            else:
                t = int(e[3])
                if n == "CLOCK":
                    good = rec.ret == 0 and rec.data == struct.pack("<qq", t // 10**9, t % 10**9) and e[5] == op[1]
                else:
                    good = rec.ret == t // 10**9 and rec.data == struct.pack("<q", t // 10**9 if op[1] else -7) and e[5] == 0
                if not good:
                    raise Model("data", "%s gave %d %r when the host's clock said %d" % (what, rec.ret, rec.data, t))
        # the tree at the end
        diff = r["phases"][0]["diff"]
        start = Fs(case["layout"], case["files"]).t
        for p in sorted(set(start) | set(fs.t) | set(diff)):
            a, b, e = start.get(p), fs.t.get(p), diff.get(p)
            if b is None:
                if a is not None and (e is None or e["op"] != "deleted") or a is None and e is not None:
                    raise Model("final-state", "%s is there at the end" % p)
            elif e is None:
                if a is None or a.kind != b.kind or a.data != b.data:
                    raise Model("final-state", "%s is not what was made of it" % p)
            elif e["op"] == "deleted" or (e["t"] == "dir") != (b.kind == "dir") or b.kind == "reg" and C.unb64(e["b64"]) != bytes(b.data):
                raise Model("final-state", "%s is not what was made of it" % p)

    def stat(self, what, rec, node):
        mode, size = struct.unpack("<qq", rec.data[:16])
        want = node.size if node.kind == "big" else len(node.data)
        if mode & 0o170000 != {"reg": 0o100000, "big": 0o100000, "dir": 0o040000, "lnk": 0o120000}.get(node.kind, 0o020000) or node.kind in ("reg", "big") and size != want:
            raise Model("data", "%s: mode %o size %d, expected %s of %d bytes" % (what, mode, size, node.kind, want))


# ---------------------------------------------------------------- C19
WFAULT = {"fd_read": [29, 27, 8, 76], "fd_write": [29, 51, 22, 27, 76], "fd_seek": [29, 28, 70], "fd_close": [29, 51, 8], "path_open": [2, 29, 33, 41, 44, 76], "fd_filestat_get": [29],
          "path_filestat_get": [29, 2], "path_unlink_file": [29, 63], "fd_prestat_get": [8, 29], "fd_prestat_dir_name": [29], "args_get": [28], "args_sizes_get": [28], "random_get": [29, 52],
          "clock_time_get": [28, 52]}


CCPRE = [[["/", "/"], [".", "/w"]], [["/usr", "/usr"], ["/tmp", "/tmp"], ["/s", "/s"], ["/t", "/t"], ["/l", "/l"], ["/ex", "/ex"], ["/w", "/w"], [".", "/w"]]]


class C19(ToolProp):
    id = "C19"
    wcc = True
    quick_runs = 5000
    thorough_runs = 200000
    pool = 30
    assumptions = ["sources that include files by relative name are themselves named absolutely (WASI has no current directory, so the spelling of header names in line markers and __FILE__ would differ)"]
    real = ["cc.wasm: wcc with the bundled wasm C library, compiled and linked by wcc itself, running in node's wasm engine", "the native wcc as the reference, fault-free on the simulated kernel"]
    stub = ["WASI host (wsim); kernel (xsim) for the reference run"]
    rule = ("case = one command of wcc hosted in WebAssembly with seeded splits of reads and writes and, in two thirds of the cases, 1-3 refusals placed on calls of its fault-free history, a full disk, a descriptor "
            "limit or a limit on the linear memory; the reference is the fault-free run of the native wcc. Non-trivial: a fault fired or a transfer was split. Distinct by history hash.")

    def prepare(self, build):
        ToolProp.prepare(self, build)
        build.ccwasm()

    def make_sim(self, name, ctx):
        m = tool_mounts(ctx.build, wcc=True)
        for k in ("include", "lib"):
            m["/usr/" + k] = os.path.join(ctx.build.t, k)
        if name == "w":
            m = {k: v for k, v in m.items() if k.startswith(("/usr/", "/s", "/l/", "/ex", "/t"))}
            return C.WSim({"cc": os.path.join(ctx.build.t, "cc.wasm")}, m, cpu=ctx.cpu)
        m["/usr/wcc"] = os.path.join(ctx.build.t, "wcc")
        return C.Sim(m, cpu=ctx.cpu)

    def workload(self, rng, ctx):
        w = workload_wcc(rng, ctx, exe="/usr/wcc")
        # WASI has no current directory: names of included files are the same only for sources named absolutely
        w["argv"] = ["/w/" + a if a == "inc.c" or a.endswith(".c") and a[0] != "/" and rng.random() < 0.4 else a for a in w["argv"]]
        if rng.random() < 0.25:
            d = dict((k, v) for k, v in w["files"].items() if k.endswith(".c"))
            if d:      # bytes beyond ASCII
                k = sorted(d)[0]
                w["files"][k] = highbytes(rng) + w["files"][k]
        return w

    def wrun(self, ctx, w, sim, trace=0, count=True):
        q = dict(sim, module="cc", argv=w["argv"], preopens=CCPRE[sim.get("pre", 0)], trace=trace, files=enc_files(w["files"]))
        q["fds"] = {"0": {"src": "", "kind": "p"}, "1": {"sink": "out", "kind": "p"}, "2": {"sink": "err", "kind": "p"}}
        return ctx.run(q, "w", count=count)

    def wbase(self, ctx, w, pre):
        k = ("wbase", wkey(w), pre)
        if k not in ctx.cache:
            h = ctx.hash.copy()
            ctx.cache[k] = self.wrun(ctx, w, {"pre": pre}, trace=1, count=False)["trace"]
            ctx.hash = h
        return ctx.cache[k]

    def nbase(self, ctx, w):
        """Status and outputs (as the WASI host names them) of the native wcc."""
        k = ("nbase", wkey(w))
        if k not in ctx.cache:
            h = ctx.hash.copy()
            r = ctx.run(req(w, inline=1 << 24), count=False)
            ctx.hash = h
            o = out_state(r, w)
            for p in w["outs"]:
                e = r["phases"][0]["diff"].get(p)
                if e and e["op"] != "deleted":
                    o[p] = hashlib.sha256(C.unb64(e["b64"])).hexdigest()[:32]
            ctx.cache[k] = (root_status(r), o, r["outcome"])
        return ctx.cache[k]

    def fresh(self, rng, ctx):
        """A source of its own for one case."""
        k = rng.random()
        t = genlit.source(rng, rng.choice([1, 3, 8, 20])) if k < 0.5 else corpus.program(rng, rng.choice([1, 3, 8, 20])) if k < 0.75 else gencode.program(rng, rng.choice([2, 5]), exact=True) if k < 0.9 else gensrc.program(rng, rng.choice([1, 5, 12]))
        t = t.encode("utf-8").decode("latin-1")
        opt = rng.choice([[], [], ["-O1"], ["-O2"], ["-Wall"], ["-DX=3"], ["-I."]])
        kind = rng.choice(["-c", "-c", "-c", "-E", "link"])
        w = {"exe": "/usr/wcc", "files": {"/w/f.c": t}, "outs": ["/w/out"], "stdout": False, "name": "fresh" + kind}
        if kind == "link":
            if "main(" not in t:
                w["files"]["/w/f.c"] += "\nint main(void) { return 0; }\n"
            opt += rng.choice([[], [], ["--stack-size=%d" % rng.choice([1024, 65536])], ["-nostdlib", "-e", "main"]])
        w["argv"] = ["/usr/wcc"] + ([] if kind == "link" else [kind]) + opt + ["-o", "out", "/w/f.c"]
        return w

    def gen(self, rng, ctx, i):
        fresh = rng.random() < 0.35
        w = self.fresh(rng, ctx) if fresh else self.pick_workload(rng, ctx)
        s = {"seed": rng.randrange(1 << 40)}
        if rng.random() < 0.5:
            s["pshortr"] = rng.choice([0, 50, 300, 900])
            s["pshortw"] = rng.choice([0, 50, 300, 900])
        if fresh:
            s.update(rand="seed", pre=0, maxsteps=3000000)
            return {"w": w, "sim": s, "fresh": 1}
        s["rand"] = rng.choice(["seed", "seed", "const"])
        s["pre"] = rng.choice([0, 0, 1])
        s["maxsteps"] = 3000000
        c = rng.random()
        if c < 0.4:
            t = self.wbase(ctx, w, s["pre"])
            names = {}
            for e in t:
                if e[2] in WFAULT:
                    names.setdefault((e[2], e[4]), []).append(e)
            s["faults"] = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                k = rng.choice(sorted(names))
                e = rng.choice(names[k])
                s["faults"].append({"p": "0", "n": e[1], "kind": "err", "val": rng.choice(WFAULT[e[2]])})
        elif c < 0.5:
            op = rng.choice(sorted(WFAULT))
            s["rules"] = [{"op": op, "after": rng.choice([0, 1, 2, 5, 20]), "count": rng.choice([1, 3, -1]), "kind": "err", "val": rng.choice(WFAULT[op])}]
        elif c < 0.57:
            s["disk"] = rng.choice([0, 1, 100, 1000, 5000, 30000])
        elif c < 0.62:
            s["fdlimit"] = rng.choice([5, 6, 7, 8])
        elif c < 0.7:
            s["memadd"] = rng.choice([0, 1, 2, 4, 8, 16, 32])
        return {"w": w, "sim": s}

    def execute(self, ctx, case):
        w, s = case["w"], case["sim"]
        st, outs, oc = self.nbase(ctx, w)
        if case.get("fresh"):
            ctx.cache.pop(("nbase", wkey(w)), None)
        if oc != "ok" or st & 0x7f:
            return []
        r = self.wrun(ctx, w, s)
        ctx.last = r
        if r["fired"] or "memadd" in s:
            ctx.stats.nontrivial.add(r["htrace"])
        hard = [f for f in r["fired"] if f["kind"] != "short"] or "memadd" in s or "fdlimit" in s or "disk" in s
        if r["outcome"] != "ok":
            return [V("hang", "%s: %s" % (brief(w), r["outcome"]), fired=r["fired"][:5])]
        code = r["phases"][0]["procs"][0]["code"]
        want = st >> 8
        if r["trap"] or code != 0:
            if hard:
                ctx.stats.probe("fault_reported" if not r["trap"] else "fault_trap")
                return []
            if r["trap"] or want != code:
                return [V("status-differs", "%s: %s, native %d; stderr %r" % (brief(w), r["trap"] or code, want, C.unb64(r["sinks"]["err"])[-300:]), fired=r["fired"][:5])]
            ctx.stats.probe("rejected")
            return []
        if want:
            return [V("accepted-rejected-input", "%s exit 0, the native wcc ends with %d" % (brief(w), want), fired=r["fired"][:5])]
        ctx.stats.probe("fault_survived" if hard else "split_only")
        h = lambda o: {k: v[0] if isinstance(v, list) else v for k, v in o.items()}
        a, b = h(out_state(r, w)), outs
        if a != b:
            return [V("damaged-output" if hard else "output-differs", "%s: exit 0 with %s instead of %s" % (brief(w), a, b), fired=r["fired"][:5])]
        return []

    def shrink(self, ctx, case, viol):
        s = case["sim"]
        for k in ("faults", "rules"):
            if s.get(k):
                for l in ddmin_list(s[k]):
                    yield dict(case, sim=dict(s, **{k: l}))
        for k in ("pshortr", "pshortw", "disk", "rand", "fdlimit", "memadd"):
            if k in s:
                n = dict(s)
                del n[k]
                yield dict(case, sim=n)
