"""Sources compiled by one process (C23): what a compiler kept from earlier sources must not show in later ones.
wcc compiles all its sources in one process; xcc starts processes, but keeps its own state."""
import re

from . import client as C, gencode
from .engine import ddmin_list
from .libc import PREOPENS
from .toolchain import ToolProp, V, root_status, tool_mounts, wkey

NAMES = ["na", "nb", "nc", "nd", "ne", "nf"]

HDR = {
    "once.h": "#pragma once\n#define ONCE_V %d\nstruct Once { char pad[%d]; int v; };\nstatic int once_get(struct Once *p) { return p->v * ONCE_V; }\n",
    "guard.h": "#ifndef GUARD_H\n#define GUARD_H\n#define GUARD_V (sizeof(struct Guard) + %d)\nstruct Guard { long long a; char b[%d]; };\n#endif\n",
    "many.h": "#ifdef MANY\n#undef MANY\n#define MANY 2\n#else\n#define MANY 1\n#endif\n#if %d %% 2 == %d %% 2\n#define PARITY 0\n#else\n#define PARITY 1\n#endif\n",
}

PROBES = [
    # (role, declarations, statements)
    ("macro", "#define {n} ({v} + __LINE__ * 0)\n", "say(\"{n}\", {n});"),
    ("fmacro", "#define {n}(x, ...) ((x) * {v} + (int)sizeof(#x #__VA_ARGS__))\n", "say(\"{n}\", {n}(i + 3, 1, 2));"),
    ("typedef", "typedef {t} {n};\n", "{{ {n} x = ({n})({v} + i); say(\"{n}\", (long long)x * 10 + (long long)sizeof({n})); }}"),
    ("struct", "struct {n} {{ {t} a; char b[{k}]; short c; }};\nstatic struct {n} s_{n} = {{{k}, \"x\", {k}}};\n", "say(\"{n}\", (long long)sizeof(struct {n}) + s_{n}.b[0] * 100 + s_{n}.c);"),
    ("union", "union {n} {{ {t} a; char b[{k}]; }};\n", "{{ union {n} u; u.b[0] = (char)i; say(\"{n}\", (long long)sizeof(u) + u.b[0]); }}"),
    ("enum", "enum {{ {n} = {v} }};\n", "say(\"{n}\", {n});"),
    ("entag", "enum {n} {{ E_{n}_A = {k}, E_{n}_B }};\n", "{{ enum {n} e = E_{n}_B; say(\"{n}\", e); }}"),
    ("var", "static {t} {n} = {k};\n", "{n} += ({t})i; say(\"{n}\", (long long){n} * 10 + (long long)sizeof({n}));"),
    ("arr", "static {t} {n}[{k}] = {{1, 2}};\n", "say(\"{n}\", (long long)sizeof({n}) + (long long){n}[{k} - 1]);"),
    ("func", "static {t} {n}({t} x) {{ return ({t})(x + ({t}){k}); }}\n", "say(\"{n}\", (long long){n}(({t})i));"),
    ("func2", "static int {n}(const char *s, {t} x, int y) {{ return (int)s[0] + (int)x * y; }}\n", "say(\"{n}\", {n}(\"q{v}\", ({t})i, {k}));"),
    ("ext", "extern int g_{n}(int);\n", "say(\"{n}\", g_{n}(i + {k}));"),
    ("tent", "static int {n};\nstatic int {n};\nstatic int {n} = {v};\n", "say(\"{n}\", {n});"),
    ("ptr", "static int f_{n}(int x) {{ return x ^ {v}; }}\nstatic int (*const {n}[])(int) = {{f_{n}, f_{n}}};\n", "say(\"{n}\", {n}[i & 1](i));"),
    ("str", "static const char *{n} = \"s{v}\" \"{k}\";\n", "say({n}, {n}[1]);"),
    ("local", "", "{{ static int {n} = {v}; int {n}2 = {n}++; {{ int {n} = i; say(\"{n}\", {n} + {n}2); }} }}"),
    ("label", "", "{{ int c = 0; {n}: if (++c < {k}) goto {n}; say(\"{n}\", c); }}"),
    ("comp", "typedef struct {{ int q; }} T_{n};\nstatic int {n}(T_{n} x) {{ return x.q + {k}; }}\n", "say(\"{n}\", {n}((T_{n}){{i}}));"),
    ("ctor", "static int {n};\n__attribute__((constructor)) static void c_{n}(void) {{ {n} += {v}; }}\n", "say(\"{n}\", {n});"),
    ("dtor", "static int {n} = {v};\n__attribute__((destructor)) static void d_{n}(void) {{ say(\"d{n}\", {n}); }}\n", "{n} += i;"),
    ("va", "#include <stdarg.h>\nstatic int {n}(int c, ...) {{ va_list ap; int s = 0; va_start(ap, c); while (c-- > 0) s = s * 3 + va_arg(ap, int); va_end(ap); return s; }}\n", "say(\"{n}\", {n}(3, i, {k}, 5));"),
    ("vla", "", "{{ int m = i + {k}; int {n}[m]; {n}[m - 1] = {v}; say(\"{n}\", (long long)sizeof({n}) + {n}[m - 1]); }}"),
    ("sw", "", "{{ int {n} = 0; switch (i + {k}) {{ case 1: {n} = 1; break; case 2: {n} = 5; case 3: {n} += 2; break; case 4: case 5: {n} = {v}; break; case {v}: {n} = 3; break; default: {n} = -1; }} say(\"{n}\", {n}); }}"),
    ("none", "", ""),
    ("none", "", ""),
]
TYPES = ["int", "char", "short", "long", "long long", "unsigned char", "unsigned int", "double", "float"]
ERRS = ["int bad(void) { return undeclared_%d; }\n", "int bad(void) { return 1 }\n", "struct Und%d; static struct Und%d bad;\n", "#error stop %d\n", "int bad(int);\nchar *bad(int x) { return 0; }\n", "void bad(void) { break; }\n", "#include \"missing%d.h\"\n"]
WARNS = ["static int unused_%d(void) { int x = 1; return 0; }\n", "int noret%d(int x) { if (x) return 1; for (;;) { if (x++ == 3) break; } }\n"]


class G:
    def __init__(self, rng, wasm):
        self.r, self.wasm = rng, wasm
        self.ext = set()

    def unit(self, i):
        r = self.r
        probes = [x for x in PROBES if x[0] != "label" or not self.wasm]      # wcc has no goto
        decl, stm = [], []
        for n in NAMES:
            role, d, s = r.choice(probes)
            f = {"n": n, "v": r.randrange(100, 999), "k": r.randrange(3, 9), "t": r.choice(TYPES)}
            if role == "ext":
                self.ext.add(n)
            if role == "none":
                s = ""
                decl.append("#ifdef %s\n#error %s is defined\n#endif\n" % (n, n))
            decl.append(d.format(**f))
            stm.append("  " + s.format(**f) + "\n")
            if role in ("macro", "fmacro") and r.random() < 0.3:
                stm.append("#undef %s\n" % n)
        hs = [h for h in HDR if r.random() < 0.4]
        for h in hs:
            for _ in range(r.choice([1, 2])):
                decl.append("#include \"%s\"\n" % h)
            stm.append({"once.h": "  { struct Once o = {\"\", %d}; say(\"once\", once_get(&o)); }\n" % r.randrange(99), "guard.h": "  say(\"guard\", (long long)GUARD_V);\n", "many.h": "  say(\"many\", MANY * 10 + PARITY);\n"}[h])
        r.shuffle(stm) if r.random() < 0.3 and not any(x.startswith("#") for x in stm) else None
        if r.random() < 0.2:
            decl.append(r.choice(WARNS[:1] if self.wasm else WARNS).replace("%d", str(i)))
        body = ""
        if r.random() < 0.35:
            p = gencode.program(r, r.choice([1, 2, 4]))
            p = re.sub(r"^(?=(int|double|float|ll|char|void|struct S\d) f\d+\()", "static ", p, flags=re.M).replace("int main(int argc, char *argv[])", "static int sub(int argc, char *argv[])")
            p = p.replace("printf(\"%u %d %d\\n\", acc, v0, v1)", "say(\"acc\", acc); say(\"v0\", v0); say(\"v1\", v1)")
            if self.wasm:
                p = re.sub(r"\{ jmp_buf jb; [^\n]*|\{ int k = 0; again: [^\n]*", "", p)
            body, stm = p, stm + ["  { char *av[] = {\"./prog\", 0}; say(\"sub\", sub(1, av)); }\n"]
        return "extern void say(const char *s, long long v);\n" + body + "".join(decl) + "int unit%d(int i) {\n%s  return i;\n}\n" % (i, "".join(stm))

    def program(self):
        r = self.r
        n = r.choice([2, 2, 3, 4, 6])
        units = [self.unit(i) for i in range(n)]
        main = "#include <stdio.h>\nvoid say(const char *s, long long v) { printf(\"%s %lld\\n\", s, v); }\n"
        main += "".join("int g_%s(int x) { return x * %d; }\n" % (e, r.randrange(2, 99)) for e in sorted(self.ext))
        main += "".join("extern int unit%d(int);\n" % i for i in range(n))
        main += "int main(void) {\n%s  return %d;\n}\n" % ("".join("  unit%d(%d);\n" % (i, r.randrange(3)) for i in range(n)), r.randrange(100))
        srcs = [["s%d.c" % i, u] for i, u in enumerate(units)]
        srcs.insert(r.randrange(n + 1), ["main.c", main])
        bad = None
        if r.random() < 0.15:
            bad = r.randrange(len(srcs))
            srcs[bad][1] += r.choice(ERRS).replace("%d", str(bad))
        w = {"src": srcs, "h": {h: t % (r.randrange(1, 50), r.randrange(1, 9)) for h, t in HDR.items()}, "opt": []}
        if r.random() < 0.3:
            w["opt"] = r.choice([["-DOPT=1"], ["-Werror"], ["-I."], ["-Wall"], ["-Dzz=na"]])
        return w


class C23(ToolProp):
    id = "C23"
    wcc = True
    pool = 1 << 30
    quick_runs = 1200
    thorough_runs = 60000
    real = ["xcc, cpp, cc1, as, ld and wcc built from /repo; the programs they make with the bundled C library, run natively or in node's wasm engine"]
    stub = ["kernel (xsim) and WASI host (wsim)"]
    rule = ("case = one seeded history of 3-7 sources given to one compiler process (wcc, sometimes xcc): the same names in changing roles (macro, type, tag, constant, variable, function, label), headers included by several, constructors and destructors, "
            "warnings, sometimes an error, with split reads and writes and a shifted heap. Compared with every source compiled by a process of its own. Non-trivial: all were compiled. Distinct by source texts.")

    def make_sim(self, name, ctx):
        if name == "w":
            return C.WSim({}, {}, cpu=ctx.cpu)
        return C.Sim(tool_mounts(ctx.build, wcc=True), cpu=ctx.cpu)

    def gen(self, rng, ctx, i):
        s = {"seed": rng.randrange(1 << 40)}
        if rng.random() < 0.3:
            s["pshortr"] = s["pshortw"] = rng.choice([200, 900])
        if rng.random() < 0.3:
            s["brkshift"] = rng.choice([16, 4096, 65536])
        t = "n" if rng.random() < 0.15 else "w"
        return {"t": t, "w": G(rng, t == "w").program(), "sim": s, "mode": rng.choice(["prog", "prog", "objs"])}

    def tool(self, ctx, case, args, extra=None, sim=None):
        w = case["w"]
        files = {"/w/" + n: {"b64": C.b64(s)} for n, s in list(w["h"].items()) + w["src"]}
        files.update(extra or {})
        exe = "/x/wcc" if case["t"] == "w" else "/x/xcc"
        r = ctx.run(dict(sim or {}, files=files, inline=1 << 22, phases=[{"cmds": [C.cmd(exe, [exe] + w["opt"] + args)]}]))
        ctx.last = r
        if r["outcome"] != "ok":
            return r["outcome"], "", {}, b""
        out = {k: v["b64"] for k, v in r["phases"][0]["diff"].items() if k.startswith("/w/") and v["op"] != "deleted" and "b64" in v}
        return root_status(r), C.unb64(r["sinks"].get("err", "")), out, C.unb64(r["sinks"].get("out", ""))

    def run(self, ctx, case, b):
        if case["t"] == "w":
            try:
                r = ctx.run({"module": "=", "module64": b, "argv": ["./prog"], "fds": {"0": {"src": ""}, "1": {"sink": "out"}, "2": {"sink": "err"}}, "preopens": PREOPENS[0]}, "w")
            except C.SimDied as e:
                if "CompileError" not in str(e):
                    raise
                return "invalid module", None, 0, b""
        else:
            r = ctx.run({"files": {"/w/prog": {"b64": b, "mode": 0o755}}, "phases": [{"cmds": [C.cmd("/w/prog", ["./prog"])]}]})
        p = [x for x in r["phases"][0]["procs"] if x["root"]][0]
        return r["outcome"], r.get("trap"), p["st"], C.unb64(r["sinks"].get("out", ""))

    def execute(self, ctx, case):
        w = case["w"]
        t = "[%s] " % case["t"]
        names = [n for n, _ in w["src"]]
        alone, objs, diag = [], {}, b""
        for n in names:
            st, err, out, _ = self.tool(ctx, case, ["-c", n])
            alone.append(st)
            diag += err
            objs.update({k: {"b64": v} for k, v in out.items()})
            if st != 0:
                break
        ctx.stats.probe("target_" + case["t"])
        ctx.stats.probe("sources", len(names))
        ctx.stats.nontrivial.add(wkey(w)[:16])
        if case["mode"] == "objs":
            st, err, out, _ = self.tool(ctx, case, ["-c"] + names, sim=case["sim"])
        else:
            st, err, out, _ = self.tool(ctx, case, ["-o", "prog"] + names, sim=case["sim"])
        if alone[-1] != 0:
            ctx.stats.probe("rejected")
            if st == 0 or not isinstance(st, int):
                return [V("status", t + "%s is rejected alone (%s) but the sources together gave %s" % (names[len(alone) - 1], alone[-1], st))]
            if not err.startswith(diag):
                return [V("diagnostics", t + "diagnostics differ: alone %r, together %r" % (diag[-300:], err[-300:]))]
            return []
        if st != 0:
            return [V("status", t + "every source compiles alone, together they gave %s: %r" % (st, err[:300]))]
        if err != diag:
            return [V("diagnostics", t + "diagnostics differ: alone %r, together %r" % (diag[:300], err[:300]))]
        on = ["/w/" + n[:-2] + ".o" for n in names]
        if case["mode"] == "objs":
            if [o for o in on if o not in out]:
                return [V("objects", t + "objects missing: %s" % [o for o in on if o not in out])]
            st, err, o2, _ = self.tool(ctx, case, ["-o", "prog"] + on, {o: {"b64": out[o]} for o in on})
            if st != 0:
                return [V("link", t + "the objects made together do not link: %r" % err[:300])]
            out = o2
        st, err, ref, _ = self.tool(ctx, case, ["-o", "prog"] + on, {o: objs[o] for o in on})
        if st != 0:
            ctx.stats.probe("unlinkable")
            return [V("link", t + "the objects made separately do not link: %r" % err[:300])]
        a, b = self.run(ctx, case, out["/w/prog"]), self.run(ctx, case, ref["/w/prog"])
        if a != b:
            la, lb = a[3].split(b"\n"), b[3].split(b"\n")
            k = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            return [V("behaviour", t + "compiled together: %s line %d %r; separately: %s %r" % (a[:3], k, la[k:k + 1], b[:3], lb[k:k + 1]))]
        if b[0] != "ok" or b[1]:
            ctx.stats.probe("reference_died")
        return []

    def shrink(self, ctx, case, viol):
        w = case["w"]
        if set(case["sim"]) - {"seed"}:
            yield dict(case, sim={"seed": case["sim"]["seed"]})
        if w["opt"]:
            yield dict(case, w=dict(w, opt=[]))
        for l in ddmin_list(w["src"]):
            yield dict(case, w=dict(w, src=l))
        for i, (n, u) in enumerate(w["src"]):
            for l in ddmin_list(u.split("\n")):
                yield dict(case, w=dict(w, src=w["src"][:i] + [[n, "\n".join(l)]] + w["src"][i + 1:]))
