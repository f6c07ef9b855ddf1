"""Generated native code under asynchronous interruption (C21)."""
from . import client as C, gencode, gensrc
from .engine import ddmin_list
from .libc import encode
from .toolchain import ToolProp, V, root_status, tool_mounts, wkey

OPTS = [[], [], ["-O1"], ["-O2"], ["--apply-ssa"]]


class C21(ToolProp):
    id = "C21"
    quick_runs = 1500
    thorough_runs = 40000
    real = ["xcc, cpp, cc1, as, ld built from /repo; the programs they make, the bundled C library included, run natively"]
    stub = ["kernel (xsim); the interrupting code is the simulator, which single-steps the program and overwrites the stack below the red zone"]
    assumptions = ["the x86-64 System V ABI: 128 bytes below the stack pointer are left alone by an interruption"]
    rule = ("case = one generated program (or operation script of the library interpreter) compiled by the tree's xcc, run with an interruption at every instruction, or at seeded instructions of a window, that overwrites a "
            "seeded number of bytes below the red zone with junk; compared with the uninterrupted run. Non-trivial: at least one interruption. Distinct by program and interruption pattern.")

    def prepare(self, build):
        build.native()
        build.libc_driver()

    def make_sim(self, name, ctx):
        m = tool_mounts(ctx.build)
        m["/x/drv"] = ctx.build.libc_driver()
        return C.Sim(m, cpu=ctx.cpu)

    def gen(self, rng, ctx, i):
        c = {}
        k = rng.random()
        if k < 0.12:
            c["src"] = gensrc.program(rng, rng.choice([1, 2, 4]))
        elif k < 0.2:
            c["ops"] = self.script(rng)
        else:
            c["src"] = gencode.program(rng, rng.choice([1, 2, 3, 5, 7]))
        if "src" in c:
            c["opt"] = rng.choice(OPTS)
        s = {"seed": rng.randrange(1 << 40), "stepbytes": rng.choice([64, 256, 1024, 4096]), "stepmax": 250000}
        if rng.random() < 0.75:
            s["pstep"] = 1000
        else:
            s["pstep"] = rng.choice([10, 100, 400])
            s["stepfrom"] = rng.choice([0, 2000, 10000])
        c["sim"] = s
        return c

    def script(self, rng):
        from . import libio
        ops = [["FOPEN", 0, "/w/f", "w+"]]
        for _ in range(rng.randrange(2, 12)):
            ops.append(libio.out_op(rng, 0, big=False))
        return ops + [["FCLOSE", 0]]

    def program(self, ctx, case):
        """-> executable bytes (base64) or None"""
        k = ("exe", wkey([case["src"], case["opt"]]))
        if k not in ctx.cache:
            if len(ctx.cache) > 200:
                ctx.cache.clear()
            h = ctx.hash.copy()
            q = {"files": {"/w/p.c": {"b64": C.b64(case["src"])}}, "inline": 1 << 22,
                 "phases": [{"cmds": [C.cmd("/x/xcc", ["/x/xcc"] + case["opt"] + ["-o", "prog", "p.c"])]}]}
            r = ctx.run(q, count=False)
            ctx.hash = h
            e = r["phases"][0]["diff"].get("/w/prog")
            ctx.cache[k] = e["b64"] if root_status(r) == 0 and e else None
        return ctx.cache[k]

    def request(self, ctx, case):
        if "ops" in case:
            fds = {"0": {"src": ""}, "1": {"sink": "out"}, "2": {"sink": "err"}, "10": {"src": C.b64(encode(case["ops"])), "control": True}, "11": {"sink": "res", "control": True}}
            return {"inline": 1 << 20, "phases": [{"cmds": [C.cmd("/x/drv", ["/x/drv"], fds=fds)]}]}
        b = self.program(ctx, case)
        if b is None:
            return None
        return {"files": {"/w/prog": {"b64": b, "mode": 0o755}}, "inline": 1 << 20, "phases": [{"cmds": [C.cmd("/w/prog", ["./prog"])]}]}

    def result(self, r):
        return [r["outcome"], root_status(r), r["sinks"].get("out"), r["sinks"].get("err"), r["sinks"].get("res"), {k: v.get("b64") for k, v in r["phases"][0]["diff"].items()}]

    def execute(self, ctx, case):
        q = self.request(ctx, case)
        if q is None:
            ctx.stats.probe("not_compiled")
            return []
        base = self.result(ctx.run(q, count=False))
        if base[0] != "ok" or base[1] is None or base[1] & 0x7f:
            ctx.stats.probe("base_crash")
            return []
        r = ctx.run(dict(q, **case["sim"]))
        ctx.last = r
        ctx.stats.fault("interruption", r["scribbles"])
        ctx.stats.probe("instructions", r["steps1"])
        ctx.stats.probe("opt_" + "".join(case.get("opt", ["script"])))
        ctx.stats.nontrivial.add(wkey(case))
        got = self.result(r)
        if got != base:
            names = ("outcome", "status", "stdout", "stderr", "results", "files")
            d = [(n, a, b) for n, a, b in zip(names, base, got) if a != b]
            return [V("interrupted-result", "%s: %s uninterrupted, %s when interrupted" % (d[0][0], str(d[0][1])[:200], str(d[0][2])[:200]), opt=case.get("opt"))]
        return []

    def shrink(self, ctx, case, viol):
        s = case["sim"]
        if s["pstep"] < 1000:
            yield dict(case, sim=dict(s, pstep=1000, stepfrom=0))
        for m in (3000, 10000, 30000, 100000):
            if m < s["stepmax"]:
                yield dict(case, sim=dict(s, stepmax=m))
        f = s.get("stepfrom", 0)
        d = (s["stepmax"] - f) // 2
        while d > 0 and s["stepmax"] - f < 60000:
            if f + d < s["stepmax"]:
                yield dict(case, sim=dict(s, stepfrom=f + d))
                yield dict(case, sim=dict(s, stepmax=s["stepmax"] - d))
            d //= 2
        if s["stepbytes"] > 64:
            yield dict(case, sim=dict(s, stepbytes=s["stepbytes"] // 2))
        if "ops" in case:
            for l in ddmin_list(case["ops"]):
                yield dict(case, ops=l)
        else:
            if case["opt"]:
                yield dict(case, opt=[])
            lines = case["src"].split("\n")
            for l in ddmin_list(lines):
                if len(lines) - len(l) < 40:
                    yield dict(case, src="\n".join(l))
