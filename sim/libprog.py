"""Life of compiled programs (C22): generated programs of several sources with constructors, destructors and exit handlers,
compiled and linked by the tree under test, run natively under xsim or as wasm on wsim."""
import re

from . import client as C
from .engine import ddmin_list
from .libc import WERR, PREOPENS
from .toolchain import ToolProp, V, tool_mounts, wkey

HDR = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern FILE *S[4];
void ev(const char *s, int n);
void evs(const char *s, const char *t);
void out(int k, const char *s);
void reg(int j);
void bye(int code);
'''

MAIN = r'''
FILE *S[4];
void evs(const char *s, const char *t) {
  char b[16];
  size_t n = strlen(s), m = strlen(t);
  memcpy(b, s, n);
  for (int i = 0; i < 4; ++i)
    b[n + i] = (char)('a' + (int)(m >> (i * 4) & 15));
  b[n + 4] = ' ';
  write(11, b, n + 5);
  if (m > 0)
    write(11, t, m);
  write(11, "\n", 1);
}
void ev(const char *s, int n) {
  char b[40], *p = b + 39;
  unsigned int u = n < 0 ? 0u - (unsigned int)n : (unsigned int)n;
  do *--p = (char)('0' + u % 10); while ((u /= 10) > 0);
  if (n < 0) *--p = '-';
  size_t l = strlen(s);
  write(11, s, l);
  write(11, " ", 1);
  write(11, p, (size_t)(b + 39 - p));
  write(11, "\n", 1);
}
void out(int k, const char *s) {
  FILE *fp = k == 4 ? stdout : k == 5 ? stderr : S[k];
  static const char *const names[] = {"o0", "o1", "o2", "o3", "o4", "o5"};
  if (fp == NULL) return;
  int r = fputs(s, fp);
  evs(names[k], s);
  if (r < 0) ev("fail", k);
}
void bye(int code) { ev("exit", code); exit(code); }
'''


class G:
    """-> sources; every event is written to descriptor 11, outside the simulated world."""

    def __init__(self, rng, wasm):
        self.r, self.wasm, self.n = rng, wasm, 0
        self.handlers = []
        self.opened = set()

    def token(self):
        r = self.r
        self.n += 1
        t = "<%d%s>" % (self.n, "abcdefgh"[:r.randrange(9)] * r.choice([0, 1, 1, 3, 20]))
        return t + r.choice(["", "", "\\n", "\\nx", "\\n\\n"])

    def body(self, where, depth=0):
        r = self.r
        o = []
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            k = r.randrange(12)
            if k < 5:
                o.append("out(%d, \"%s\");" % (r.randrange(6), self.token()))
            elif k == 5 and len(self.opened) < 4:
                f = len(self.opened)
                self.opened.add(f)
                o.append("S[%d] = fopen(\"/w/s%d\", \"%s\");" % (f, f, r.choice(["w", "w", "wb", "a", "w+"])))
            elif k < 8 and depth < 3 and len(self.handlers) < 60:
                j = len(self.handlers)
                self.handlers.append(None)
                self.handlers[j] = self.body("h", depth + 1)
                o.append("reg(%d);" % j)
            elif k == 8 and where == "main" and r.random() < 0.3:
                n = r.choice([5, 9, 31, 33, 70])
                o.append("for (int i = 0; i < %d; ++i) reg(%d);" % (n, len(self.handlers)))
                self.handlers.append("")
            elif k == 9:
                o.append("evs(\"envn\", \"%s\"); evs(\"env\", getenv(\"%s\") != NULL ? getenv(\"%s\") : \"(none)\");" % ((r.choice(["A", "AB", "LANG", "ZZ", "PATH", "E", "LAN"]),) * 3))
            elif k == 10 and not (self.wasm and where == "d") and r.random() < (0.25 if where in ("main", "h") else 0.08):
                o.append("bye(%d);" % r.choice([0, 1, 7, 42, 255, 256, 300, -1]))
            elif k == 11:
                o.append("if (S[%d] != NULL) { ev(\"flush\", fflush(S[%d])); }" % ((r.randrange(4),) * 2))
        return " ".join(o)

    def unit(self, i):
        r = self.r
        o = []
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            self.n += 1
            o.append("__attribute__((constructor)) %svoid c%d(void) { ev(\"c\", %d); %s }\n" % (r.choice(["static ", "static ", ""]), self.n, self.n, self.body("c")))
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            self.n += 1
            o.append("__attribute__((destructor)) %svoid d%d(void) { ev(\"d\", %d); %s }\n" % (r.choice(["static ", "static ", ""]), self.n, self.n, self.body("d")))
        r.shuffle(o)
        return "".join(o)

    def program(self):
        r = self.r
        units = [self.unit(i) for i in range(r.choice([1, 1, 2, 3, 5, 8, 10, 14]))]
        m = self.body("main") + " " + self.body("main")
        ret = r.choice(["ev(\"exit\", %d); return %d;" % ((r.choice([0, 0, 1, 3, 255, 256, 1000, -1]),) * 2), "bye(%d);" % r.randrange(300)])
        if r.random() < 0.2:
            ret = "ev(\"exit\", 0);"
        main = MAIN + "static void (*const H[])(void);\nvoid reg(int j) { ev(\"reg\", j); ev(\"ret\", atexit(H[j])); }\n"
        for j, b in enumerate(self.handlers):
            main += "static void h%d(void) { ev(\"h\", %d); %s }\n" % (j, j, b)
        main += "static void (*const H[])(void) = {%s};\n" % ", ".join(["h%d" % j for j in range(len(self.handlers))] or ["NULL"])
        # a tentative array of unknown size is not portable: declare with the size
        main = main.replace("static void (*const H[])(void);\n", "extern void (*const H[])(void);\n").replace("static void (*const H[])(void) =", "void (*const H[])(void) =")
        env = "" if self.wasm else "  for (int i = 0; environ[i] != NULL; ++i) evs(\"E\", environ[i]);\n  for (int i = 0; envp[i] != NULL; ++i) if (envp[i] != environ[i]) ev(\"envp\", i);\n"
        ex = "" if self.wasm else "  if (argc > 1 && strcmp(argv[1], \"@x\") == 0) { argv[1] = argv[0]; ev(\"exec\", 0); execvp(\"/w/prog\", argv + 1); ev(\"execfail\", 0); ev(\"exit\", 0); return 0; }\n"
        form = r.choice(["int main(int argc, char *argv[], char *envp[])", "int main(int argc, char **argv, char **envp)"]) if not self.wasm else r.choice(["int main(int argc, char *argv[])", "int main(int argc, char **argv)"])
        main += ("" if self.wasm else "extern char **environ;\n") + "%s {\n  ev(\"main\", argc);\n  for (int i = 0; i < argc; ++i) evs(\"A\", argv[i]);\n  if (argv[argc] != NULL) ev(\"argvend\", 1);\n%s%s  %s\n  %s\n}\n" % (form, env, ex, m, ret)
        k = r.randrange(len(units) + 1)
        units.insert(k, main)
        return [HDR + u for u in units]


ARGS = ["", "a", "-x", "two words", "caf\xe9", "\xff\xfe", "\"q\"", "x" * 300, "a=b", "*", "\n", "\t"]
ENVS = ["A=1", "AB=2", "A=second", "LANG=C", "E=", "=odd", "noequals", "PATH=/usr/bin:/bin", "ZZ=" + "z" * 500, "AB\xe9=3", "LANGUAGE=x", "ABC=5"]


class C22(ToolProp):
    id = "C22"
    wcc = True
    pool = 150
    quick_runs = 6000
    thorough_runs = 300000
    real = ["xcc, cpp, cc1, as, ld and wcc built from /repo; the programs they make with the bundled C library, run natively or in node's wasm engine"]
    stub = ["kernel (xsim) and WASI host (wsim)"]
    assumptions = ["the order of constructors among each other and of destructors among each other is not part of the property"]
    rule = ("case = one generated program of 2-15 sources with constructors, destructors, exit handlers (registered anywhere, also while exiting), streams and exit calls, started with seeded arguments and environment, "
            "under split writes, failing writes of one stream, failing memory requests and refused start-up calls of the WASI host. Non-trivial: the program ran. Distinct by system-call history and program.")

    def make_sim(self, name, ctx):
        if name == "w":
            return C.WSim({}, {}, cpu=ctx.cpu)
        return C.Sim(tool_mounts(ctx.build, wcc=True), cpu=ctx.cpu)

    def workload(self, rng, ctx):
        t = "w" if rng.random() < 0.5 else "n"
        return {"t": t, "src": G(rng, t == "w").program()}

    def gen(self, rng, ctx, i):
        w = self.pick_workload(rng, ctx)
        c = {"w": w, "argv": ["./prog"] + [rng.choice(ARGS) for _ in range(rng.choice([0, 0, 1, 2, 5, 40]))]}
        if w["t"] == "n":
            c["env"] = [rng.choice(ENVS) for _ in range(rng.choice([0, 1, 3, 8]))]
            if rng.random() < 0.1 and not re.search(r"void c\d+\(void\) \{[^\n]*(out|reg|bye|fopen)\(", "".join(w["src"])):
                c["argv"].insert(1, "@x")
        s = {"seed": rng.randrange(1 << 40)}
        k = rng.random()
        if k < 0.35:
            s["pshortw"] = rng.choice([200, 600, 1000])
        elif k < 0.6:
            f = rng.choice(["/w/s0", "/w/s1", "/w/s2", "/w/s3", "<out>", "<err>"])
            s["rules"] = [{"op": "write", "path": f, "kind": "err", "val": rng.choice([28, 5]), "after": rng.choice([0, 0, 1]), "count": rng.choice([-1, -1, 1])}]
            if rng.random() < 0.3:
                s["pshortw"] = 500
        elif k < 0.75:
            if w["t"] == "w":
                s["memadd"] = rng.choice([0, 0, 1])
            else:
                s["rules"] = [{"op": "brk", "kind": "err", "val": 12, "after": rng.choice([0, 1, 2]), "count": -1}]
        elif k < 0.82 and w["t"] == "w":
            s["rules"] = [{"op": rng.choice(["args_sizes_get", "args_get", "fd_prestat_get", "fd_prestat_dir_name"]), "kind": "err", "val": rng.choice([8, 28, 29, 52]), "after": rng.choice([0, 0, 1]), "count": rng.choice([1, -1])}]
        c["sim"] = s
        return c

    def program(self, ctx, w):
        k = ("prog", wkey(w))
        if k not in ctx.cache:
            if len(ctx.cache) > 5000:
                ctx.cache.clear()
            h = ctx.hash.copy()
            names = ["u%d.c" % i for i in range(len(w["src"]))]
            files = {"/w/" + n: {"b64": C.b64(s)} for n, s in zip(names, w["src"])}
            exe = "/x/wcc" if w["t"] == "w" else "/x/xcc"
            r = ctx.run({"files": files, "inline": 1 << 22, "phases": [{"cmds": [C.cmd(exe, [exe, "-o", "prog"] + names)]}]}, count=False)
            ctx.hash = h
            e = r["phases"][0]["diff"].get("/w/prog")
            ok = r["outcome"] == "ok" and all(p["st"] == 0 for p in r["phases"][0]["procs"] if p["root"]) and e
            ctx.cache[k] = (e["b64"], "") if ok else (None, C.unb64(r["sinks"].get("err", "")).decode("latin-1"))
        return ctx.cache[k]

    def execute(self, ctx, case):
        w, t = case["w"], case["w"]["t"]
        b, msg = self.program(ctx, w)
        if b is None:
            return [V("not-compiled", "a valid program was rejected: " + msg[:300], t=t)]
        fds = {"0": {"src": ""}, "1": {"sink": "out"}, "2": {"sink": "err"}, "11": {"sink": "res", "control": True}}
        s = case["sim"]
        if t == "w":
            q = dict(s, module="=", module64=b, argv=case["argv"], fds=fds, preopens=PREOPENS[0], inline=1 << 20)
            q["rules"] = [dict(r, op="fd_write" if r["op"] == "write" else r["op"], val={28: WERR["ENOSPC"], 5: WERR["EIO"]}.get(r["val"], r["val"]) if r["op"] == "write" else r["val"]) for r in s.get("rules", [])]
            r = ctx.run(q, "w")
        else:
            q = dict(s, files={"/w/prog": {"b64": b, "mode": 0o755}}, inline=1 << 20, phases=[{"cmds": [C.cmd("/w/prog", case["argv"], env=case["env"], fds=fds)]}])
            r = ctx.run(q)
        ctx.last = r
        ctx.stats.probe("target_" + t)
        ctx.stats.probe("sources", len(w["src"]))
        ctx.stats.nontrivial.add(r["htrace"] + wkey(w)[:12])
        v = self.judge(ctx, case, r)
        return [V(v[0], "[%s] %s" % (t, v[1]), fired=[f for f in r["fired"] if f["kind"] != "short"][:4])] if v else []

    def judge(self, ctx, case, r):
        t = case["w"]["t"]
        if r["outcome"] != "ok":
            return "died", r["outcome"]
        root = [p for p in r["phases"][0]["procs"] if p["root"]][0]
        if r.get("trap"):
            return "died", "trap: " + r["trap"]
        if root["st"] & 0x7f:
            return "died", "killed by signal %d" % (root["st"] & 0x7f)
        log = C.unb64(r["sinks"].get("res", ""))
        evs, o = [], 0
        while o < len(log):
            m = re.compile(rb"(o\d|A|E|envn|env)([a-p]{4}) ").match(log, o)
            if m:
                n = sum((c - 97) << (4 * i) for i, c in enumerate(m.group(2)))
                evs.append((m.group(1).decode(), log[m.end():m.end() + n]))
                o = m.end() + n + 1
                continue
            e = log.find(b"\n", o)
            if e < 0:
                return "died", "log cut"
            p = log[o:e].split(b" ")
            evs.append((p[0].decode("latin-1"), int(p[1])))
            o = e + 1
        fired = [f for f in r["fired"] if f["kind"] != "short"]
        argfault = any(f.get("sys", "").startswith("args_") for f in fired)
        text = "".join(case["w"]["src"])
        ctors = set(int(x) for x in re.findall(r"void c(\d+)\(", text))
        dtors = set(int(x) for x in re.findall(r"void d(\d+)\(", text))
        argv = case["argv"]
        if "@x" in argv[1:2] and ("execfail", 0) not in evs:
            k = [i for i, e in enumerate(evs) if e[0] == "exec"]
            if not k:
                return "arguments", "the program did not see its first argument"
            evs = evs[k[0] + 1:]
            argv = argv[:1] + argv[2:]
        phase, stack, main_h, seen_c, seen_d, status, late, pend = "ctor", [], 0, [], [], None, None, None
        A, Ev, want = [], [], {}
        for k, v in evs:
            if k == "c":
                if phase != "ctor":
                    return "constructor", "constructor %d ran %s" % (v, "after main began" if phase == "main" else "while exiting")
                seen_c.append(v)
            elif k == "main":
                if phase != "ctor":
                    return "constructor", "main ran in phase " + phase
                if set(seen_c) != ctors:
                    return "constructor", "main began before the constructors %s" % sorted(ctors - set(seen_c))
                phase = "main"
                argc = v
            elif k == "A":
                A.append(v)
            elif k == "E":
                Ev.append(v)
            elif k == "envn":
                pend = v
            elif k == "env":
                e = [x.encode("utf-8")[len(pend) + 1:] for x in case.get("env", []) if x.encode("utf-8").startswith(pend + b"=")]
                if v != (e[0] if e else b"(none)"):
                    return "environment", "getenv(%r) gave %r, the environment is %r" % (pend, v, case.get("env"))
            elif k == "reg":
                pend = v
            elif k == "ret":
                if v == 0:
                    stack.append((pend, phase))
                elif len(stack) < 32:
                    return "registration", "atexit refused with %d functions registered" % len(stack)
            elif k == "exit":
                status = v
                phase = "exit"
            elif k == "h":
                if phase != "exit":
                    return "handler", "exit handler %d ran before exit" % v
                if not stack or stack[-1][0] != v:
                    return "handler", "exit handler %d ran, %s was due" % (v, stack[-1][0] if stack else "none")
                stack.pop()
            elif k == "d":
                if phase != "exit":
                    return "destructor", "destructor %d ran before exit" % v
                m = [h for h in stack if h[1] == "main"]
                if m:
                    return "destructor", "destructor %d ran before the exit handler %d" % (v, m[-1][0])
                seen_d.append(v)
            elif k in ("argvend", "envp"):
                return "arguments", "argv is not ended by NULL or envp differs from environ"
            elif k[0] == "o" and k[1:].isdigit():
                want.setdefault(int(k[1:]), []).append(v)
        if status is None:
            return "died", "the program ended without exit (status %#x)" % root["st"]
        for name, seen, all_ in (("constructor", seen_c, ctors), ("destructor", seen_d, dtors)):
            if len(seen) != len(set(seen)):
                return name, "a %s ran twice: %s" % (name, seen)
        early = "main" not in [e[0] for e in evs]       # exit was called in a constructor: later ones have not run
        if not early and set(seen_d) != dtors:
            return "destructor", "destructors that did not run: %s" % sorted(dtors - set(seen_d))
        if stack:
            return "handler", "exit handlers that did not run: %s" % [h[0] for h in stack]
        if t == "n":
            got = root["st"] >> 8 & 255
            if got != status & 255:
                return "status", "exit status %d, expected %d" % (got, status & 255)
        elif root["code"] & 0xffffffff != status & 0xffffffff:
            return "status", "exit status %d, expected %d" % (root["code"], status)
        if phase != "ctor" and A and not argfault:
            w = [a.encode("latin-1" if t == "w" else "utf-8") for a in argv]
            if A != w or argc != len(w):
                return "arguments", "argc %d, argv %r instead of %r" % (argc, A, w)
        if t == "n" and A:
            w = [a.encode("utf-8") for a in case["env"]]
            if Ev != w:
                return "environment", "environment %r instead of %r" % (Ev, w)
        bad = set(f.get("path") for f in fired) | set(x.get("path") for x in case["sim"].get("rules", []) if x["op"] == "write")
        for k, toks in sorted(want.items()):
            path = "/w/s%d" % k if k < 4 else "<out>" if k == 4 else "<err>"
            if path in bad:
                continue
            if k < 4:
                e = r["phases"][0]["diff"].get(path)
                got = C.unb64(e.get("b64", "")) if e and e["op"] != "deleted" else None
            else:
                got = C.unb64(r["sinks"].get("out" if k == 4 else "err", ""))
            w = b"".join(toks)
            if got != w:
                return "lost-output", "%s holds %r instead of %r" % (path, (got or b"")[-80:], w[-80:])
        ctx.stats.probe("destructors_run", len(seen_d))
        return None

    def shrink(self, ctx, case, viol):
        s = case["sim"]
        for k in list(s):
            if k != "seed":
                yield dict(case, sim={a: b for a, b in s.items() if a != k})
        if len(case["argv"]) > 1:
            yield dict(case, argv=case["argv"][:1])
        for l in ddmin_list(case["w"]["src"]):
            if any("main(int" in x for x in l):
                yield dict(case, w=dict(case["w"], src=l))
        for i, u in enumerate(case["w"]["src"]):
            lines = u.split("\n")
            for l in ddmin_list(lines):
                yield dict(case, w=dict(case["w"], src=case["w"]["src"][:i] + ["\n".join(l)] + case["w"]["src"][i + 1:]))
