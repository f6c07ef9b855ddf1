"""The allocator (C13) and library calls that allocate (C14) of the bundled C library."""
import errno as E, struct

from . import client as C
from .libc import LibProp, Model, rdata
from .libio import C11, InModel, OutModel, Pattern, bytes_of, cstr, out_op, per_op, printf_text, stream_of


def brk_refused(tr, state):
    """Did the system refuse memory in these calls? `state` carries the last break."""
    bad = False
    for e in tr:
        if e[2] == "brk":
            if len(e) > 8 or state.get("brk") == e[7]:
                bad = True
            state["brk"] = e[7]
        elif e[2] in ("mmap", "mremap") and e[7] < 0:
            bad = True
    return bad


S_LEAK = 400000


class C13(LibProp):
    id = "C13"
    trace = 1
    quick_runs = 25000
    thorough_runs = 1500000
    rule = "distinct (call history, operation script) pairs; scripts of up to 250 malloc/calloc/realloc/free over up to 100 live blocks, with refusals, limits and impossible sizes"
    assumptions = ["alignment expected: 16 bytes on x86-64, 8 on wasm", "realloc to size 0 is not used"]

    def size(self, rng, style):
        if style == "small":
            return rng.choice([1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 64, 100])
        if style == "huge":
            return rng.choice([20, 5000, 65535, 65536, 65537, 70000, 131072, 150000, 200000])
        if style == "large":
            return rng.choice([1000, 4000, 4079, 4080, 4081, 4096, 5000, 10000, 40000])
        return rng.choice([0, 1, 8, 16, 17, 32, 100, 200, 500, 1000, 2000, 4064, 4080, 4096, 4097, 8192, 20000])

    def gen(self, rng, ctx, i):
        t = self.pick_target(rng)
        sim = {"seed": rng.randrange(1 << 30), "rules": []}
        k = rng.random()
        case = {"t": t, "sim": sim, "ops": [], "mode": "churn"}
        ops = case["ops"]
        if k < 0.2:
            # the same allocations round after round: freed memory must come back
            case["mode"] = "rounds"
            style = rng.choice(["small", "mixed", "large"])
            sizes = [max(1, self.size(rng, style)) for _ in range(rng.choice([3, 10, 25]))]
            total = sum((s + 47) // 16 * 16 for s in sizes)
            order0 = list(range(len(sizes)))
            kind = rng.choice(["lifo", "fifo", "random"])
            for rd in range(rng.choice([6, 12])):
                for j, s in enumerate(sizes):
                    if rng.random() < 0.2:
                        ops.append(["CALLOC", j, s, 1, (j + rd) & 255])
                    else:
                        ops.append(["MALLOC", j, s, (j * 5 + rd) & 255])
                ops.append(["VERIFY"])
                o = list(order0)
                if kind == "lifo":
                    o.reverse()
                elif kind == "random":
                    rng.shuffle(o)
                ops += [["FREE", j] for j in o]
            if t == "n":
                sim["mem"] = total * 3 + 262144
            else:
                sim["memadd"] = total * 3 // 65536 + 4
            return case
        if k < 0.3:
            # fill up to the limit, free, fill again
            case["mode"] = "refill"
            size = rng.choice([100, 1000, 3000, 4080, 20000])
            n = 60 if size <= 1000 else 30
            if t == "n":
                sim["mem"] = rng.choice([8192, 20000, 65536, 300000])
            else:
                sim["memadd"] = rng.choice([0, 1, 2])
            for rd in range(2):
                ops += [["MALLOC", j, size, j + rd] for j in range(n)]
                ops.append(["VERIFY"])
                o = list(range(n))
                rng.shuffle(o)
                ops += [["FREE", j] for j in o]
            case["n"] = n
            return case
        style = rng.choice(["small", "mixed", "large", "small", "mixed", "large", "huge"])
        live = {}
        huge = [(1 << 64) - 1, (1 << 64) - 8, (1 << 64) - 4096, (1 << 63), (1 << 63) - 1, 1 << 50] if t == "n" else [(1 << 32) - 1, (1 << 32) - 8, (1 << 32) - 4096, (1 << 31) + 5, (1 << 32) - 65536 * 2]
        for _ in range(rng.choice([5, 20, 60, 120, 250] if style != "huge" else [5, 20, 40])):
            c = rng.random()
            if c < 0.03:
                ops.append(["VERIFY"])
            elif c < 0.06:
                h = rng.choice(huge)
                h = h - (1 << 64) if h >= 1 << 63 else h
                free = [j for j in range(100) if j not in live]
                w = rng.random()
                if w < 0.4:
                    ops.append(["MALLOC", free[0], h, 1])
                elif w < 0.6 and live:
                    ops.append(["REALLOC", rng.choice(sorted(live)), h, 1])
                else:
                    a, b = rng.choice([(1 << 32, 1 << 32), (1 << 33, (1 << 31) + 1), ((1 << 63) // 8 + 1, 16), (3, (1 << 64) // 3 + 1)] if t == "n" else [(1 << 16, 1 << 16), (1 << 17, (1 << 15) + 1), (3, (1 << 32) // 3 + 1)])
                    ops.append(["CALLOC", free[0], a, b, 1])
            elif c < 0.5 and len(live) < 80 or not live:
                j = rng.choice([j for j in range(100) if j not in live])
                s = self.size(rng, style)
                if rng.random() < 0.3:
                    a = rng.choice([1, 1, 2, 4, 8])
                    b = s // a
                    if rng.random() < 0.5:
                        a, b = b, a
                    ops.append(["CALLOC", j, a, b, rng.randrange(256)])
                    live[j] = a * b
                else:
                    ops.append(["MALLOC", j, s, rng.randrange(256)])
                    live[j] = s
            elif c < 0.65:
                j = rng.choice(sorted(live))
                s = max(1, rng.choice([self.size(rng, style), live[j] + 1, live[j] // 2, live[j] * 2]))
                ops.append(["REALLOC", j, min(s, 60000), rng.randrange(256)])
                live[j] = min(s, 60000)
            else:
                j = rng.choice(sorted(live))
                ops.append(["FREE", j])
                del live[j]
        ops.append(["VERIFY"])
        f = rng.random()
        if t == "n":
            if f < 0.5:
                for _ in range(rng.choice([1, 1, 2])):
                    sim["rules"].append({"op": "brk", "after": rng.choice([0, 1, 1, 2, 3, 5, 9]), "count": rng.choice([1, 2, 4, 20]), "kind": "err", "val": E.ENOMEM})
            elif f < 0.65:
                sim["mem"] = rng.choice([0, 4096, 16384, 100000])
        elif f < 0.5:
            sim["memadd"] = rng.choice([0, 0, 1, 2, 3])
        return case

    def judge(self, ctx, case, r, recs):
        d = self.died(r)
        if d:
            raise Model("died", d + " after %d operations" % len(recs))
        ops = case["ops"]
        if len(recs) != len(ops):
            raise Model("died", "the program stopped after %d of %d operations" % (len(recs), len(ops)))
        per, tail = per_op(r, recs)
        native = case["t"] == "n"
        align = 16 if native else 8
        top = (1 << 47) if native else (1 << 32)
        live = {}
        st = {}
        nulls = 0
        okfirst = None
        seen = {}
        for idx, (op, rec, tr) in enumerate(zip(ops, recs, per)):
            n = op[0]
            refused = brk_refused(tr, st)
            if n == "FREE":
                live.pop(op[1], None)
                continue
            if n == "VERIFY":
                if rec.ret >= 0:
                    raise Model("block-damaged", "operation %d: %s" % (idx, "program data overwritten" if rec.ret == 10000 else "block %d was overwritten" % rec.ret))
                continue
            k = op[1]
            size = op[2] % (1 << (64 if native else 32))
            if n == "CALLOC":
                size *= op[3]
            where = "operation %d: %s of %d bytes" % (idx, n.lower(), size)
            bad = struct.unpack("<q", rec.data)[0]
            a = rec.ret & ((1 << 64) - 1)
            impossible = size >= ((1 << 46) if native else (1 << 31))
            if a == 0:
                nulls += 1
                if impossible or size == 0:
                    continue
                if case["mode"] == "rounds":
                    raise Model("not-reusable", where + " failed: memory freed before is not available again")
                if case["mode"] == "refill":
                    if idx > len(ops) // 2 and seen.get(k) and sum(1 for v in seen.values() if v) > 2 and k < max(j for j in seen if seen[j]) - 1:
                        raise Model("not-reusable", where + " failed: it succeeded before everything was freed")
                    seen.setdefault(k, False)
                    continue
                if refused and not (native and case["sim"].get("mem") is None and not any(e[2] == "brk" and len(e) > 8 for e in tr) and size < 1 << 30):
                    continue
                if native or case["sim"].get("memadd") is None:
                    raise Model("spurious-null", where + " failed though the system refused nothing")
                continue
            if case["mode"] == "refill":
                seen.setdefault(k, True)
            if impossible:
                raise Model("impossible-size", where + " succeeded")
            if a % align:
                raise Model("alignment", where + " returned %#x" % a)
            if a + size > top:
                raise Model("range", where + " returned %#x" % a)
            if n == "REALLOC":
                live.pop(k, None)
            for j, (b, m) in live.items():
                if a < b + max(m, 1) and b < a + max(size, 1):
                    raise Model("overlap", where + " returned %#x, inside block %d (%#x, %d bytes)" % (a, j, b, m))
            if bad >= 0:
                raise Model("contents", where + ": byte %d is not %s" % (bad, "zero" if n == "CALLOC" else "kept"))
            live[k] = (a, size)
        ctx.stats.probe("nulls", nulls)
        ctx.stats.probe("mode_" + case["mode"])


class MemOut(OutModel):
    """open_memstream: a call may fail when memory is out, but what was accepted stays."""

    def output(self, op, rec, mayfail):
        data = bytes_of(op)
        n = op[0]
        if n == "FWRITE":
            if rec.ret < 0 or rec.ret > op[3]:
                raise Model("output-result", "fwrite of %d items to a memory stream returned %d" % (op[3], rec.ret))
            ok = rec.ret == op[3] or not data
            acc = data if ok else data[:rec.ret * op[2]]
        else:
            ok = rec.ret >= 0
            acc = data if ok else b""
            if ok and (n == "FPRINTF" and rec.ret != len(data) or n == "FPUTC" and rec.ret != data[0]):
                raise Model("output-result", "%s of %d bytes to a memory stream returned %d" % (n, len(data), rec.ret))
        if not ok and not mayfail:
            raise Model("spurious-failure", "%s to a memory stream failed though memory was available" % n)
        self.pat.add(acc, False)
        self.pat.add(data[len(acc):], True)


class C14(LibProp):
    id = "C14"
    trace = 1
    quick_runs = 40000
    thorough_runs = 2000000
    rule = "distinct (call history, operation script) pairs; library calls before, during and after the heap is exhausted"
    assumptions = ["natively a call may fail only if the system refused memory during it; on wasm, whose memory growth is not a host call, only while the heap is exhausted",
                   "getline that fails may have consumed a part of the line"]
    stepper = C11()

    EXH_N = [3000, 1500, 1000, 500, 250, 120, 64, 32, 16, 8, 1]
    EXH_W = [60000, 40000, 20000, 10000, 5000] + EXH_N

    def libops(self, rng, st, n, again):
        ops = []
        for _ in range(n):
            c = rng.random()
            free = [k for k in range(8) if k not in st["open"]]
            if c < 0.2 and free:
                k = free[0]
                w = rng.random()
                if w < 0.35:
                    ops.append(["FOPEN", k, "/w/o%d" % k, rng.choice(["w", "w", "w+", "a"])])
                    st["open"][k] = "o"
                elif w < 0.5:
                    ops.append(["FOPEN", k, "/w/in%d" % (k % 3), rng.choice(["r", "r+"])])
                    st["open"][k] = "i"
                elif w < 0.62:
                    ops += [["OPEN", k, "/w/o%d" % k, 0x241, 0o644], ["FDOPEN", k, k, "w"]]
                    st["open"][k] = "o"
                    st["fd"].add(k)
                elif w < 0.75:
                    ops.append(["TMPFILE", k])
                    st["open"][k] = "t"
                elif w < 0.92:
                    m = k
                    ops.append(["MEMSTREAM", k, m])
                    st["open"][k] = "m"
                else:
                    d = rdata(rng, 40)
                    ops.append(["FMEMOPEN", k, k % 8, 40, "r", d])
                    st["open"][k] = "f"
            elif c < 0.6 and st["open"]:
                k = rng.choice(sorted(st["open"]))
                w = st["open"][k]
                if w in "om":
                    for _ in range(10):
                        o = out_op(rng, k, False)
                        if o[0] not in ("PUTS", "PUTCHAR") and len(bytes_of(o)) <= (100 if again else 400):
                            break
                    else:
                        continue
                    ops.append(o)
                    if w == "m" and rng.random() < 0.3:
                        ops += [["FFLUSH", k], ["MEMSTATE", k]]
                elif w in "if":
                    ops.append(rng.choice([["FGETC", k], ["FGETS", k, 30], ["GETLINE", k, k], ["GETLINE", k, k], ["FREAD", k, 1, 20]]))
                elif w == "t":
                    d = cstr(rdata(rng, rng.choice([1, 20, 200]))).replace("\n", "n")
                    ops += [["FSEEK", k, 0, 0], ["FPUTS", k, d], ["FSEEK", k, 0, 0], ["FREAD", k, 1, len(d)]]
                if rng.random() < 0.25:
                    ops += self.closing(rng, st, k)
            elif c < 0.7:
                s = cstr(rdata(rng, rng.choice([0, 1, 10, 100, 500])))
                ops.append(["STRDUP", s])
            elif c < 0.78:
                s = cstr(rdata(rng, rng.choice([0, 1, 10, 100, 500])))
                ops.append(["STRNDUP", s, rng.choice([0, 1, 5, 100, 1000])])
            elif c < 0.88:
                ops.append(["SNPRINTF", rng.choice([1, 2, 10, 50, 200]), rng.choice([0, 5, 77, 123456]), cstr(rdata(rng, rng.choice([0, 5, 40, 150])))])
            elif c < 0.94:
                ops.append(["GETCWDN", rng.choice([0, 0, 100, 300, 1000])])
            else:
                ops.append(["VERIFY"])
        return ops

    def closing(self, rng, st, k):
        ops = []
        if st["open"].pop(k) == "m":
            ops = [["FFLUSH", k], ["MEMSTATE", k], ["FCLOSE", k], ["FREEMEM", k]]
        else:
            ops = [["FCLOSE", k]]
        if k in st["fd"]:
            st["fd"].discard(k)
            ops.append(["CLOSE", k])      # fails if fclose has closed it already
        return ops

    def gen(self, rng, ctx, i):
        t = self.pick_target(rng)
        sim = {"seed": rng.randrange(1 << 30), "rules": []}
        files = {"/w/in%d" % k: "".join(rdata(rng, rng.choice([0, 3, 14, 15, 16, 30, 31, 32, 60, 130])).replace("\n", "n") + "\n" for _ in range(rng.choice([1, 5, 12]))) for k in range(3)}
        if rng.random() < 0.06:
            # the same calls again and again, most of them failing: the memory they used is available afterwards
            units = [[["FOPEN", 1, "/w/o1", "w"], ["FPUTS", 1, "some text\n"], ["FCLOSE", 1]], [["FOPEN", 1, "/w/none", "r"]], [["FOPEN", 1, "/w/in0", "r"], ["FGETC", 1], ["FCLOSE", 1]], [["FOPEN", 1, "/none/o", "w"]],
                     [["TMPFILE", 1], ["FPUTS", 1, "x"], ["FCLOSE", 1]], [["MEMSTREAM", 1, 1], ["FPUTS", 1, "y" * rng.choice([1, 300, 3000])], ["FCLOSE", 1], ["FREEMEM", 1]],
                     [["FMEMOPEN", 1, 1, 40, "r", "z" * 40], ["FGETC", 1], ["FCLOSE", 1]], [["OPEN", 1, "/w/o1", 0x241, 0o644], ["FDOPEN", 1, 1, "w"], ["FPUTS", 1, "q"], ["FCLOSE", 1]],
                     [["FOPEN", 1, "/w/in1", "r"], ["GETLINE", 1, 1], ["GETLINE", 1, 1], ["FREELINE", 1], ["FCLOSE", 1]], [["SNPRINTF", 100, 77, "w" * 150]], [["STRDUP", "v" * 500]], [["STRNDUP", "v" * 500, 20]], [["GETCWDN", 0]],
                     [["FOPEN", 1, "/w/in0", "q"]], [["MEMSTREAM", 1, 1], ["FCLOSE", 1], ["FREEMEM", 1]]]
            if t == "n":
                units += [[["GETCWDN", 1]], [["GETCWDN", 5000]]] + [[["CHDIR", "/w/" + "d" * 250], ["CHDIR", "e" * 200], ["GETCWDN", 400]]] * 2
                files["/w/" + "d" * 250] = files["/w/" + "d" * 250 + "/" + "e" * 200] = {"t": "dir"}
            u = sum((rng.choice(units) for _ in range(rng.choice([1, 1, 2, 3]))), [])
            S = S_LEAK
            if t == "n":
                sim["mem"] = 700000
            else:
                sim["memadd"] = 10
            ops = u * 3 + [["MALLOC", 0, S, 1], ["FREE", 0]] + u * min(rng.choice([1, 5, 30, 100]), 200000 // len(str(u))) + [["MALLOC", 0, S, 2], ["FREE", 0]]
            return {"t": t, "sim": sim, "files": files, "pre": 0, "ops": ops, "mode": "leak"}
        st = {"open": {}, "fd": set()}
        ops = [["OPEN", 60, "/dev/null", 0, 0], ["CLOSE", 60]]
        deep = ""
        if t == "n" and rng.random() < 0.25:
            deep = "/w"
            for x in rng.choice([[60], [200, 50], [200, 200, 80], [250, 240], [250, 255], [200, 200, 200]]):
                deep += "/" + "d" * x
                files[deep] = {"t": "dir"}
            ops.insert(0, ["CHDIR", deep])
        ops += self.libops(rng, st, rng.choice([0, 2, 8]), False)
        grow = rng.random() < 0.4
        if grow:
            files["/w/in9"] = "".join(rdata(rng, rng.choice([3, 14, 40, 70, 140, 300, 700])).replace("\n", "n") + "\n" for _ in range(12))
            ops.append(["FOPEN", 9, "/w/in9", "r"])
            if rng.random() < 0.5:
                ops.append(["FGETC", 9])
            st["open"][9] = "i"
        # some blocks to be freed one after the other while memory is out
        spare = [rng.choice([16, 40, 100, 170, 320, 400, 600]) for _ in range(rng.randrange(6))]
        ops += [["MALLOC", 10 + j, s, j] for j, s in enumerate(spare)]
        ops += [["MALLOC", 30, 12000, 77]]
        exh = [s for s in (self.EXH_N if t == "n" else self.EXH_W) for _ in range(3)]
        ops += [["MALLOC", 40 + j, s, j] for j, s in enumerate(exh)]
        for j in range(len(spare) + 1):
            ops += self.libops(rng, st, rng.choice([1, 2, 5]), False)
            if j < len(spare):
                ops.append(["FREE", 10 + j])
                if grow:
                    # a buffer that grows in one call, more often than the little memory allows
                    ops += rng.choice([[["GETLINE", 9, 9]], [["GETLINE", 9, 9], ["FREELINE", 9], ["VERIFY"]], [["GETLINE", 9, 9], ["GETLINE", 9, 9]]])
        ops.append(["VERIFY"])
        ops += [["FREE", 30]]
        case = {"t": t, "sim": sim, "files": files, "pre": rng.randrange(4)}
        case["again"] = "AGAIN"
        mark = len(ops)
        ops += self.libops(rng, st, rng.choice([2, 5, 10]), True)
        for k in sorted(st["open"]):
            ops += self.closing(rng, st, k)
        ops += [["VERIFY"], ["OPEN", 60, "/dev/null", 0, 0], ["CLOSE", 60]]
        # the marker survives minimisation: an operation that does nothing else
        ops.insert(mark, ["SETERRNO", 0])
        case["ops"] = ops
        if t == "n":
            sim["rules"].append({"op": "brk", "after": rng.choice([1, 2, 3, 4, 5, 6]), "count": -1, "kind": "err", "val": E.ENOMEM})
            if rng.random() < 0.3:
                sim["rules"][0]["count"] = rng.randrange(1, 60)
        else:
            sim["memadd"] = rng.choice([0, 0, 1])
        return case

    def balanced(self, ops):
        """Every stream and buffer a round opens it also gives back (minimisation may have dropped that)."""
        opened = set()
        for o in ops:
            if o[0] in ("FOPEN", "TMPFILE", "FDOPEN", "MEMSTREAM", "FMEMOPEN"):
                if ("F", o[1]) in opened:
                    return False
                if o[0] == "FOPEN" and (o[2] in ("/w/none", "/none/o") or o[3] == "q"):
                    continue
                opened.add(("F", o[1]))
                if o[0] == "MEMSTREAM":
                    opened.add(("M", o[2]))
            elif o[0] == "FCLOSE":
                opened.discard(("F", o[1]))
            elif o[0] == "FREEMEM":
                opened.discard(("M", o[1]))
            elif o[0] == "GETLINE":
                opened.add(("L", o[2]))
            elif o[0] == "FREELINE":
                opened.discard(("L", o[1]))
        return not opened

    def judge(self, ctx, case, r, recs):
        d = self.died(r)
        if d:
            raise Model("died", d + " after %d operations, the last one %s" % (len(recs), recs[-1] if recs else ""))
        if any(x.op == "VERIFY" and x.data == b"capa" for x in recs):
            raise Model("getline-capacity", "getline stored more than the capacity it reports")
        ops = case["ops"]
        if len(recs) != len(ops):
            raise Model("died", "the program stopped after %d of %d operations" % (len(recs), len(ops)))
        if case.get("mode") == "leak":
            big = [x.ret for o, x in zip(ops, recs) if o[0] == "MALLOC"]
            if len(big) > 1 and big[0] and not big[-1] and [o[0] for o in ops if o[0] in ("MALLOC", "FREE")][:3] == ["MALLOC", "FREE", "MALLOC"] and self.balanced(ops):
                raise Model("memory-leak", "%d bytes were available before, and are not after %s" % (S_LEAK, [o[0] for o in ops if o[0] not in ("MALLOC", "FREE")][:12]))
            ctx.stats.probe("leak_rounds")
            return
        per, tail = per_op(r, recs)
        native = case["t"] == "n"
        S = {}
        again = False
        spare_ok = False
        st = {}
        nfd = None
        failed = 0
        opens = set()
        content = {}
        cwd = b"/w" if native else b"."
        for idx, (op, rec, tr) in enumerate(zip(ops, recs, per)):
            n = op[0]
            refused = brk_refused(tr, st)
            mayfail = (refused if native else case["sim"].get("memadd") is not None) and not again
            where = "operation %d, %s" % (idx, n)

            def fail():
                nonlocal failed
                failed += 1
                if not mayfail:
                    raise Model("spurious-failure", where + " failed (errno %d) though memory was available" % rec.err)
            if n == "CHDIR":
                if rec.ret == 0:
                    cwd = op[1].encode()
                continue
            if n == "MALLOC":
                if op[1] == 30:
                    spare_ok = rec.ret != 0
                continue
            if n == "FREE":
                continue
            if n == "SETERRNO":
                again = spare_ok and any(o[0] == "FREE" and o[1] == 30 for o in ops[:idx])
                continue
            if n == "VERIFY":
                if rec.ret >= 0:
                    raise Model("block-damaged", where + ": %s" % ("program data overwritten" if rec.ret == 10000 else "block %d was overwritten" % rec.ret))
                continue
            if n == "OPEN":
                if rec.ret < 0:
                    raise Model("open-failed", where + " failed with errno %d" % rec.err)
                if op[1] == 60:
                    if nfd is None:
                        nfd = rec.ret
                    elif not S and not opens and rec.ret != nfd:
                        raise Model("descriptor-leak", "all streams are closed, but a new descriptor is %d instead of %d" % (rec.ret, nfd))
                opens.add(op[1])
                continue
            if n == "CLOSE":
                opens.discard(op[1])
                continue
            if n in ("FOPEN", "FDOPEN", "TMPFILE", "MEMSTREAM", "FMEMOPEN"):
                if n == "FDOPEN" and op[2] not in opens:
                    continue
                S.pop(op[1], None)
                if not rec.ret:
                    fail()
                    if n in ("FOPEN", "FDOPEN"):
                        content["/w/o%d" % op[1]] = None      # may have been created or truncated
                    continue
                if n == "FOPEN" and op[3][0] == "r":
                    S[op[1]] = InModel(op[2], case["files"][op[2]].encode("latin-1"))
                elif n == "FMEMOPEN":
                    S[op[1]] = InModel("<mem>", op[5].encode("latin-1")[:op[3]])
                    S[op[1]].koff = op[3]
                elif n == "TMPFILE":
                    S[op[1]] = "tmp"
                elif n == "MEMSTREAM":
                    S[op[1]] = MemOut("<memory stream>")
                else:
                    p = "/w/o%d" % op[1]
                    S[op[1]] = OutModel(p)
                    if op[3][0] == "w":
                        content[p] = b""
                    elif p not in content:
                        content[p] = b""
                continue
            if n in ("STRDUP", "STRNDUP"):
                want = op[1].encode("latin-1")
                if n == "STRNDUP":
                    want = want[:op[2]]
                if not rec.ret:
                    fail()
                elif rec.data != want:
                    raise Model("wrong-result", where + " returned other text")
                continue
            if n == "GETCWDN":
                if not rec.ret and len(cwd) + 1 > (op[1] or 512):
                    pass
                elif not rec.ret:
                    fail()
                elif rec.data != cwd:
                    raise Model("wrong-result", where + " returned %r" % rec.data)
                continue
            if n == "SNPRINTF":
                text = ("%d-%s-%5d|" % (op[2], op[3], op[2])).encode("latin-1")
                if rec.data[op[1]:] != b"\xa5" * 16:
                    raise Model("buffer-overrun", where + " wrote beyond its buffer")
                if rec.ret < 0:
                    fail()
                elif rec.ret != len(text) or not rec.data.startswith(text[:op[1] - 1] + b"\0"):
                    raise Model("wrong-result", where + " returned %d with other text (expected %d)" % (rec.ret, len(text)))
                continue
            if n == "MEMSTATE":
                m = S.get(op[1])
                if isinstance(m, MemOut) and m.synced:
                    if rec.data[-1:] != b"\0" or len(rec.data) != rec.ret + 1:
                        raise Model("memstream", where + ": the buffer does not end with a NUL at the reported size %d" % rec.ret)
                    m.arrived(rec.data[:-1], True, "after fflush")
                continue
            if n in ("FREEMEM", "FREELINE", "LINEBUF", "MEMBUF", "CLOCK"):
                continue
            if rec.ret == -9999 and rec.err == 9999:
                continue
            k = stream_of(op)
            m = S.get(k)
            if m is None:
                continue
            if m == "tmp":
                if n == "FPUTS":
                    text = op[2].encode("latin-1")
                    if rec.ret < 0:
                        raise Model("spurious-failure", where + " to a temporary file failed")
                elif n == "FSEEK" and rec.ret != 0:
                    raise Model("spurious-failure", where + " on a temporary file failed")
                elif n == "FREAD" and idx >= 2 and ops[idx - 2][0] == "FPUTS" and ops[idx - 2][1] == k and ops[idx - 1][0] == "FSEEK" and ops[idx - 1][1] == k and op[3] == len(ops[idx - 2][2]):
                    if rec.ret != op[3] or rec.data[:op[3]] != ops[idx - 2][2].encode("latin-1"):
                        raise Model("wrong-result", where + ": a temporary file does not hold what was written")
                elif n == "FCLOSE":
                    if rec.ret != 0:
                        raise Model("spurious-failure", where + " of a temporary file failed")
                    del S[k]
                continue
            if isinstance(m, InModel):
                if n == "FCLOSE":
                    del S[k]
                    opens.discard(k)
                elif n in ("FGETC", "FGETS", "FREAD", "GETLINE") and not m.lost:
                    for e in tr:
                        if e[2] in ("read", "fd_read") and e[3] == m.path and e[7] > 0:
                            m.koff += e[7]
                    if n == "GETLINE" and rec.ret == -1 and mayfail:
                        # memory was out, or the stream ended
                        self.stepper.after_error(m, 0)
                        failed += 1
                    else:
                        self.stepper.step(m, op, rec, False)
                continue
            if n == "FFLUSH":
                m.synced = rec.ret == 0
                if rec.ret != 0:
                    fail()
                continue
            if n == "FCLOSE":
                if rec.ret != 0:
                    fail()
                elif not isinstance(m, MemOut) and content.get(m.path) is not None:
                    content[m.path] += bytes(m.pat.b)
                del S[k]
                opens.discard(k)
                continue
            if bytes_of(op) is not None:
                m.synced = False
                if isinstance(m, MemOut):
                    m.output(op, rec, mayfail)
                    if rec.ret == -1 or n == "FWRITE" and rec.ret < op[3]:
                        failed += 1
                else:
                    m.output(op, rec, 0)
        for p, want in content.items():
            if want is None or any(isinstance(m, OutModel) and m.path == p for m in S.values()):
                continue
            fin = self.final(r, case, p)
            if fin != want:
                raise Model("file-content", "%s holds %s bytes, not the %d accepted" % (p, None if fin is None else len(fin), len(want)))
        ctx.stats.probe("calls_failed_for_memory", failed)
        ctx.stats.probe("again" if again else "not_again")
