"""Toolchain scenarios: the driver, its stages, wcc and the self-hosted tools as simulated process trees."""
import errno as E, hashlib, json, os

from . import client as C, corpus, gencode, genlit, gensrc
from .engine import Prop, rng_for, ddmin_list

X = "/x"
NATIVE = ("xcc", "cc1", "cpp", "as", "ld", "include", "lib")


def tool_mounts(b, gen2=False, wcc=False):
    m = {X + "/" + k: os.path.join(b.t, k) for k in NATIVE}
    if gen2:
        for k in ("xcc", "cc1", "cpp", "as", "ld"):
            m[X + "/gen2" + k] = os.path.join(b.t, "gen2" + k)
    if wcc:
        m[X + "/wcc"] = os.path.join(b.t, "wcc")
    m["/s"] = os.path.join(b.t, "src")
    for d in ("stdio", "stdlib", "string", "unistd", "math", "misc", "_wasm", "crt0"):
        m["/l/" + d] = os.path.join(b.t, "libsrc", d)
    m["/ex"] = os.path.join(b.t, "examples")
    m["/t"] = os.path.join(b.t, "tests")
    return m


SRCFLAGS = ["-I/s/util", "-I/s/cc", "-I/s/cc/frontend", "-I/s/cc/backend", "-I/s/cc/arch/x64", "-I/s/as", "-I/s/as/arch/x64",
            "-I/s/cpp", "-DXCC_TARGET_ARCH=XCC_ARCH_X64", "-DSELF_HOSTING"]
REPO_SRCS = ["/s/util/util.c", "/s/util/table.c", "/s/util/archive.c", "/s/cc/frontend/lexer.c", "/s/cc/frontend/type.c",
             "/s/cpp/macro.c", "/s/cpp/pp_parser.c", "/s/ld/main.c", "/s/xcc/main.c", "/s/as/main.c", "/s/cc/backend/ssa.c",
             "/s/cc/frontend/parser_expr.c", "/s/cc/arch/x64/emit_code.c", "/s/as/arch/x64/asm_code.c"]
LIB_SRCS = ["/l/stdio/fread.c", "/l/stdio/vfprintf.c", "/l/stdlib/malloc.c", "/l/string/memcpy.c", "/l/math/sin.c", "/l/stdlib/qsort.c"]

BAD = [
    ("syntax", "int main(void) {\n  return 0\n}\n"),
    ("undef", "int main(void) { return foo + 1; }\n"),
    ("include", "#include \"nothere.h\"\nint main(void) { return 0; }\n"),
    ("error", "#error stop\nint main(void) { return 0; }\n"),
    ("unterminated", "int main(void) {\n  char *s = \"abc;\n  return 0;\n}\n"),
    ("if", "#if 1\nint main(void) { return 0; }\n"),
    ("link", "int ext(int);\nint main(void) { return ext(3); }\n"),
    ("type", "struct A { int x; };\nint main(void) { struct A a; a.y = 3; return a; }\n"),
]


def exists(ctx, vpath):
    m = {"/s": "src", "/l": "libsrc", "/ex": "examples", "/t": "tests"}
    for k, v in m.items():
        if vpath.startswith(k + "/"):
            return os.path.exists(os.path.join(ctx.build.t, v, vpath[len(k) + 1:]))
    return True


def highbytes(rng):
    """Valid text with bytes beyond ASCII: in comments and strings (as latin-1 and UTF-8)."""
    t = "".join(chr(rng.choice([0xff, 0xfe, 0x80, 0xe9, 0x7f, 0xff])) for _ in range(rng.choice([1, 3, 40])))
    u = "\u00ff\u3042\u20ac".encode("utf-8").decode("latin-1")
    return "/* %s */ // %s\nstatic const char hb[] = \"%s%s\";\nint hbsum(void) { return hb[0] + (int)sizeof(hb); }\n" % (u, t, u, t.replace("\x7f", "x"))


def shadowed(rng):
    """Headers of the same name in several directories of the search path."""
    dirs = ["i%d" % i for i in range(rng.choice([2, 3, 5]))]
    files, body = {}, ""
    for d in dirs:
        files["/w/" + d] = None
    for h in range(rng.choice([1, 2, 4])):
        where = rng.sample(dirs, rng.randrange(1, len(dirs) + 1)) + (["."] if rng.random() < 0.4 else [])
        for i, d in enumerate(sorted(where)):
            t = "#define W%d %d\n" % (h, i + 1)
            if rng.random() < 0.3:
                t = "#pragma once\n" + t
            elif d == sorted(where)[0] and d != "." and len(where) > 1 and rng.random() < 0.5:
                t += "#undef W%d\n#include_next <sh%d.h>\n" % (h, h)
            files["/w/%s/sh%d.h" % (d, h) if d != "." else "/w/sh%d.h" % h] = t
        q = rng.choice(["\"sh%d.h\"", "<sh%d.h>"]) if set(where) != {"."} else "\"sh%d.h\""
        body += "#include %s\n" % (q % h) + "int w%d = W%d;\n" % (h, h)
    files["/w/inc.c"] = body + "int main(void) { return w0; }\n"
    fl = []
    for d in dirs:
        fl += rng.choice([["-I" + d], ["-I", d], ["-isystem", d], ["-idirafter", d]])
    return "inc.c", files, fl, False


def source(rng, ctx, allow_bad=True, size=None, wasm=False):
    """-> (argument, files, extra flags, bad?)"""
    k = rng.random()
    if rng.random() < 0.08:
        return shadowed(rng)
    if rng.random() < 0.2:
        if rng.random() < 0.12 and exists(ctx, "/t/valtest.c"):
            return "/t/valtest.c", {}, [], False
        return "corn.c", {"/w/corn.c": corpus.program(rng, rng.choice([1, 2, 4, 9, 25]), wasm=wasm)}, [], False
    if allow_bad and k < 0.15:
        name, text = rng.choice(BAD)
        pad = gensrc.program(rng, rng.choice([0, 1, 20, 60])).replace("int main(void)", "int main0(void)") if rng.random() < 0.6 else ""
        if name == "if":
            text = pad + text
            pad = ""
        # the error at the start or at the end of the file
        t = text + pad if rng.random() < 0.3 else pad + text
        return "bad.c", {"/w/bad.c": t}, [], True
    if k < 0.35:
        cand = [s for s in REPO_SRCS + LIB_SRCS if exists(ctx, s)]
        s = rng.choice(cand)
        return s, {}, list(SRCFLAGS), False
    if k < 0.45:
        cand = [s for s in ("/ex/hello.c", "/ex/fib.c", "/ex/mandelbrot.c", "/ex/echo.c") if exists(ctx, s)]
        if cand:
            return rng.choice(cand), {}, [], False
    if k < 0.52:
        # several includes and a large table
        n = rng.choice([10, 3000, 9000])
        h = "#pragma once\n" + "".join("#define A%d %d\nextern int e%d;\n" % (i, i, i) for i in range(rng.choice([3, 400])))
        t = "#include \"h1.h\"\n#include <stdlib.h>\n#include \"sub/h2.h\"\nint tbl[] = {%s};\nint main(void) { return tbl[A1] + H2; }\n" % ",".join(str(rng.randrange(1 << 30)) for _ in range(n))
        return "inc.c", {"/w/inc.c": t, "/w/h1.h": h, "/w/sub/h2.h": "#define H2 4\n#include \"../h1.h\"\n", "/w/sub": None}, [], False
    n = size or rng.choice([0, 1, 2, 5, 12, 40, 90])
    t = gensrc.program(rng, n)
    if rng.random() < 0.2:
        t = highbytes(rng) + t
    if rng.random() < 0.15:
        t = t.rstrip("\n") if rng.random() < 0.5 else t.replace("\n", "\r\n")      # no newline at the end; DOS line ends
    return "gen.c", {"/w/gen.c": t}, [], False


def make_ar(members):
    """A System V archive: members = [(name, bytes, [symbols])]."""
    syms = [(s, i) for i, m in enumerate(members) for s in m[2]]
    strtab = b"".join(s.encode() + b"\0" for s, _ in syms)
    size = 4 + 4 * len(syms) + len(strtab)
    pos, offs = 8 + 60 + size + (size & 1), []
    for n, d, _ in members:
        offs.append(pos)
        pos += 60 + len(d) + (len(d) & 1)

    def hdr(n, l):
        return ("%-16s%-12d%-6d%-6d%-8o%-10d`\n" % (n, 0, 0, 0, 0o644, l)).encode()
    o = b"!<arch>\n" + hdr("/", size) + len(syms).to_bytes(4, "big") + b"".join(offs[i].to_bytes(4, "big") for _, i in syms) + strtab + (b"\n" if size & 1 else b"")
    for n, d, _ in members:
        o += hdr(n + "/", len(d)) + d + (b"\n" if len(d) & 1 else b"")
    return o


def prebuilt(rng, ctx, cc):
    """Object files and an archive compiled beforehand (in the simulator, fault-free): -> files, names of objects, archive name."""
    files, mem = {}, []
    for i in range(rng.choice([1, 2, 5])):
        src = "static char pad%d[%d] = {1,2,3};\nint ofn%d(int x) { return x * %d + pad%d[1]; }\nint obss%d[%d];\n" % (i, rng.choice([3, 50, 3000]), i, rng.randrange(100), i, i, rng.choice([1, 100]))
        if i > 0 and rng.random() < 0.5:
            src += "int ofn%d(int);\nint ocall%d(void) { return ofn%d(%d); }\n" % (i - 1, i, i - 1, i)
        ow = {"exe": cc, "argv": [cc, "-c", "-o", "o.o", "o.c"], "files": {"/w/o.c": src}, "outs": [], "stdout": False}
        st, fs, _ = prelude(ctx, ow, json.dumps(ow, sort_keys=True))
        mem.append(("o%d.o" % i, C.unb64(fs.get("/w/o.o") or ""), ["ofn%d" % i, "obss%d" % i] + (["ocall%d" % i] if "ocall" in src else [])))
    objs = []
    if rng.random() < 0.5:
        n, d, _ = mem[0]
        files["/w/" + n] = {"b64": C.b64(d)}
        objs.append(n)
        mem = mem[1:] or mem
    files["/w/libextra.a"] = {"b64": C.b64(make_ar(mem))}
    return files, objs, mem


def library(rng, ctx, cc, files, mem):
    """Arguments that link the archive of prebuilt(): by name, or searched in directories of which several hold one of that name."""
    n = ("wlib" if cc.endswith("wcc") else "lib") + "extra.a"
    if rng.random() < 0.4:
        return ["libextra.a"]
    if rng.random() < 0.3:
        files["/w/" + n] = files["/w/libextra.a"]
        return ["-L.", "-lextra"]
    i = mem[-1][0][1]
    ow = {"exe": cc, "argv": [cc, "-c", "-o", "o.o", "o.c"], "files": {"/w/o.c": "int ofn%s(int x) { return x - 1; }\n" % i}, "outs": [], "stdout": False}
    other = C.unb64(prelude(ctx, ow, json.dumps(ow, sort_keys=True))[1].get("/w/o.o") or "")
    dirs = ["l%d" % j for j in range(rng.choice([2, 3]))]
    hold = rng.sample(dirs, rng.randrange(1, len(dirs) + 1))
    for j, d in enumerate(dirs):
        files["/w/" + d] = None
        if d in hold:
            files["/w/%s/%s" % (d, n)] = files["/w/libextra.a"] if d == min(hold) else {"b64": C.b64(make_ar([("x.o", other, ["ofn" + i])]))}
    del files["/w/libextra.a"]
    return [x for d in dirs for x in rng.choice([["-L" + d], ["-L", d]])] + ["-lextra"]


def enc_files(files):
    out = {}
    for k, v in files.items():
        if v is None:
            out[k] = {"t": "dir"}
        elif isinstance(v, dict):
            out[k] = v
        else:
            out[k] = {"b64": C.b64(v.encode("latin-1") if isinstance(v, str) else v)}
    return out


def workload_xcc(rng, ctx, exe="/x/xcc", allow_bad=True):
    """A driver command."""
    k = rng.random()
    argv = [exe]
    if rng.random() < 0.08:
        # several sources in one command, outputs named after them
        w = {"exe": exe, "files": {}, "outs": [], "stdout": False, "name": "multi", "argv": argv}
        ext = rng.choice(["o", "o", "s", "exe", "i"])
        argv += {"o": ["-c"], "s": ["-S"], "exe": ["-o", "prog"], "i": ["-E"]}[ext]
        n = rng.choice([2, 3, 6])
        bad = rng.randrange(n) if allow_bad and rng.random() < 0.3 else -1
        for j in range(n):
            t = "#include \"shared.h\"\nint fn%d(int x) { return x + SH + %d; }\nchar *s%d = \"%s\";\n" % (j, rng.randrange(1000), j, "y" * rng.choice([1, 200]))
            if j == 0 and ext == "exe":
                t += "int main(void) { return fn0(1); }\n"
            if j == bad:
                t += "int broken(void) { return }\n"
            w["files"]["/w/m%d.c" % j] = t
            argv += ["m%d.c" % j]
            if ext in "os":
                w["outs"].append("/w/m%d.%s" % (j, ext))
        w["files"]["/w/shared.h"] = "#define SH %d\n" % rng.randrange(100)
        if ext == "exe":
            w["outs"] = ["/w/prog"]
        w["stdout"] = ext == "i"
        return w
    if rng.random() < 0.06:
        # objects and an archive made before
        files, objs, mem = prebuilt(rng, ctx, "/x/xcc")
        files["/w/main.c"] = "int ofn%s(int);\nint main(void) { return ofn%s(3); }\n" % (mem[-1][0][1], mem[-1][0][1])
        w = {"exe": exe, "files": files, "outs": ["/w/prog"], "stdout": False, "name": "prebuilt"}
        w["argv"] = [exe, "-o", "prog", "main.c"] + objs + library(rng, ctx, "/x/xcc", files, mem)
        return w
    a, files, fl, bad = source(rng, ctx, allow_bad)
    w = {"exe": exe, "files": files, "outs": [], "stdout": False}
    opt = rng.choice([[], [], [], ["-O1"], ["--apply-ssa"], ["-Wall"], ["-O2"]])
    lib = a.startswith("/s") or a.startswith("/l")
    if k < 0.30 or (lib and k < 0.6):
        w["name"] = "obj"
        argv += ["-c"] + opt + fl
        if rng.random() < 0.8:
            argv += ["-o", "out.o"]
            w["outs"] = ["/w/out.o"]
        else:
            w["outs"] = ["/w/" + os.path.basename(a)[:-2] + ".o"]
        argv += [a]
    elif k < 0.42 or (lib and k < 0.75):
        w["name"] = "asm"
        argv += ["-S"] + opt + fl
        if rng.random() < 0.7:
            argv += ["-o", "out.s"]
            w["outs"] = ["/w/out.s"]
        else:
            argv += ["-o", "-"]
            w["stdout"] = True
        argv += [a]
    elif k < 0.52 or lib:
        w["name"] = "pp"
        argv += ["-E"] + fl
        if rng.random() < 0.6:
            argv += ["-o", "out.i"]
            w["outs"] = ["/w/out.i"]
        else:
            w["stdout"] = True
        argv += [a]
    elif k < 0.62:
        w["name"] = "exe2"
        argv += opt + fl + ["-o", "prog", a]
        w["outs"] = ["/w/prog"]
        files["/w/second.c"] = "int second(int x) { return x * 3; }\nstatic char pad[%d] = \"x\";\nchar *getpad(void) { return pad; }\n" % rng.choice([1, 50, 5000])
        argv += ["second.c"]
        if rng.random() < 0.5:
            files["/w/third.c"] = rng.choice(["int third(void) { return 3; }\n", "int third(void) { return 3 }\n" if allow_bad else "int third(void) { return 4; }\n"])
            argv.insert(-1, "third.c")
    elif k < 0.72:
        w["name"] = "exeasm"
        argv += fl + ["-o", "prog", a]
        w["outs"] = ["/w/prog"]
        files["/w/part.s"] = gensrc.asm_program(rng, rng.choice([2, 20, 600])).replace("main", "partfn") + ("\t.bogus foo\n" if allow_bad and rng.random() < 0.15 else "")
        argv += ["part.s"]
    elif k < 0.78:
        w["name"] = "asmobj"
        files.clear()
        files["/w/part.s"] = gensrc.asm_program(rng, rng.choice([2, 20, 600, 3000])) + ("\tmov %bogus, %eax\n" if allow_bad and rng.random() < 0.2 else "")
        argv += ["-c", "-o", "part.o", "part.s"]
        w["outs"] = ["/w/part.o"]
    elif k < 0.84:
        w["name"] = "stdin"
        files.clear()
        w["stdin"] = gensrc.program(rng, rng.choice([0, 3, 40]))
        if rng.random() < 0.5:
            argv += ["-c", "-o", "out.o", "-x", "c", "-"]
            w["outs"] = ["/w/out.o"]
        else:
            argv += ["-S", "-o", "-", "-x", "c", "-"]
            w["stdout"] = True
    else:
        w["name"] = "exe"
        argv += opt + fl + [a]
        if rng.random() < 0.65:
            argv += ["-o", "prog"]
            w["outs"] = ["/w/prog"]
        else:
            w["outs"] = ["/w/a.out"]
    w["argv"] = argv
    return w


def prelude(ctx, w, key):
    """Runs a fault-free command in the simulator and returns the files it makes (cached)."""
    ck = ("prelude", key)
    if ck not in ctx.cache:
        r = ctx.run(req(w, inline=1 << 22), count=False)
        d = r["phases"][-1]["diff"]
        ctx.cache[ck] = (root_status(r), {k: v.get("b64") for k, v in d.items() if v.get("op") != "deleted"}, r["sinks"]["out"])
    return ctx.cache[ck]


def workload_tool(rng, ctx, tool=None, d="/x/", pre="", allow_bad=True):
    """A stage run on its own: cpp, cc1, as or ld."""
    tool = tool or rng.choice(["cpp", "cc1", "as", "ld", "ld"])
    w = {"outs": [], "stdout": False, "files": {}, "name": tool, "exe": d + pre + tool}
    a, files, fl, bad = source(rng, ctx, allow_bad and tool in ("cpp", "cc1"))
    inc = ["-D__XCC", "-D__LP64__", "-D__x86_64__", "-D__linux__", "-D__STDC__", "-D__SIZEOF_POINTER__=8", "-D__SIZEOF_INT__=4", "-D__SIZEOF_LONG__=8",
           "-D__SIZEOF_LONG_LONG__=8", "-D__SIZEOF_SIZE_T__=8", "-idirafter", "/x/include"]
    if tool == "cpp":
        w["files"] = files
        w["argv"] = [w["exe"]] + inc + fl + ([] if rng.random() < 0.9 else ["-C"]) + [a]
        w["stdout"] = True
        return w
    pw = {"exe": "/x/cpp", "argv": ["/x/cpp"] + inc + fl + [a], "files": files, "outs": [], "stdout": True}
    st, _, out = prelude(ctx, pw, json.dumps(pw, sort_keys=True))
    itext = C.unb64(out)
    if tool == "cc1":
        w["stdout"] = True
        opt = rng.choice([[], [], ["-O1"], ["--apply-ssa"], ["-Wall"]])
        if rng.random() < 0.8:
            w["stdin"] = itext.decode("latin-1")
            w["argv"] = [w["exe"]] + opt + ["-"]
        else:
            w["files"] = {"/w/in.i": {"b64": C.b64(itext)}}
            w["argv"] = [w["exe"]] + opt + ["in.i"]
        return w
    cw = {"exe": "/x/cc1", "argv": ["/x/cc1", "-"], "files": {}, "stdin": itext.decode("latin-1"), "outs": [], "stdout": True}
    st, _, out = prelude(ctx, cw, json.dumps(cw, sort_keys=True))
    stext = C.unb64(out)
    if tool == "as":
        if rng.random() < 0.25:
            stext = gensrc.asm_program(rng, rng.choice([1, 50, 800])).encode() + (b"\tfoo %eax\n" if allow_bad and rng.random() < 0.2 else b"")
        w["outs"] = ["/w/o.o"]
        if rng.random() < 0.5:
            w["stdin"] = stext.decode("latin-1")
            w["argv"] = [w["exe"], "-o", "o.o", "-"]
        else:
            w["files"] = {"/w/in.s": {"b64": C.b64(stext)}}
            w["argv"] = [w["exe"], "-o", "o.o", "in.s"]
        return w
    # ld
    aw = {"exe": "/x/as", "argv": ["/x/as", "-o", "o.o", "-"], "files": {}, "stdin": stext.decode("latin-1"), "outs": ["/w/o.o"], "stdout": False}
    st, fs, _ = prelude(ctx, aw, json.dumps(aw, sort_keys=True))
    w["files"] = {"/w/in.o": {"b64": fs.get("/w/o.o") or ""}}
    w["outs"] = ["/w/prog"]
    w["argv"] = [w["exe"], "-o", "prog", "in.o", "/x/lib/crt0.a", "-L", "/x/lib", "-lc"]
    if rng.random() < 0.3:
        fs, objs, mem = prebuilt(rng, ctx, "/x/xcc")
        if rng.random() < 0.5:
            i = mem[-1][0][1]
            ow = {"exe": "/x/xcc", "argv": ["/x/xcc", "-c", "-o", "o.o", "o.c"], "files": {"/w/o.c": "int ofn%s(int);\nint main(void) { return ofn%s(4); }\n" % (i, i)}, "outs": [], "stdout": False}
            w["files"]["/w/in.o"] = {"b64": prelude(ctx, ow, json.dumps(ow, sort_keys=True))[1].get("/w/o.o") or ""}
        la = library(rng, ctx, "/x/xcc", fs, mem)
        w["files"].update(fs)
        w["argv"][4:4] = objs + la
    if rng.random() < 0.2:
        w["argv"] = [w["exe"], "-Map=/w/prog.map"] + w["argv"][1:]
        w["outs"].append("/w/prog.map")
    return w


def workload_wcc(rng, ctx, allow_bad=True, exe="/x/wcc"):
    k = rng.random()
    w = {"outs": [], "stdout": False, "files": {}, "exe": exe}
    a, files, fl, bad = source(rng, ctx, allow_bad, wasm=True)
    if a.startswith("/l/unistd") or "arch/x64" in a or "/s/" in a and a not in ("/s/util/util.c", "/s/util/table.c", "/s/cpp/macro.c", "/s/cc/frontend/lexer.c", "/s/cc/frontend/type.c", "/s/cc/frontend/parser_expr.c"):
        a, files, fl, bad = "gen.c", {"/w/gen.c": gensrc.program(rng, 5)}, [], False
    fl = [f.replace("XCC_ARCH_X64", "XCC_ARCH_WASM") for f in fl]
    w["files"] = files
    argv = [exe]
    lib = a.startswith("/s") or a.startswith("/l")
    opt = rng.choice([[], [], [], ["-O1"], ["-Wall"]])
    if k < 0.4 or (lib and k < 0.8):
        w["name"] = "wobj"
        argv += ["-c"] + opt + fl + ["-o", "out.o", a]
        w["outs"] = ["/w/out.o"]
    elif k < 0.55 or lib:
        w["name"] = "wpp"
        argv += ["-E"] + fl
        if rng.random() < 0.5:
            argv += ["-o", "out.i"]
            w["outs"] = ["/w/out.i"]
        else:
            w["stdout"] = True
        argv += [a]
    elif k < 0.75:
        w["name"] = "wlink"
        w["files"]["/w/second.c"] = "int second(int x) { return x * 3; }\nstatic char pad[%d] = \"x\";\nchar *getpad(void) { return pad; }\n" % rng.choice([1, 50, 5000])
        ow = {"exe": "/x/wcc", "argv": ["/x/wcc", "-c", "-o", "second.o", "second.c"], "files": {"/w/second.c": w["files"]["/w/second.c"]}, "outs": [], "stdout": False}
        st, fs, _ = prelude(ctx, ow, json.dumps(ow, sort_keys=True))
        w["files"]["/w/second.o"] = {"b64": fs.get("/w/second.o") or ""}
        argv += opt + fl + ["-o", "prog.wasm", a, rng.choice(["second.o", "second.c"])]
        w["outs"] = ["/w/prog.wasm"]
        if rng.random() < 0.4:
            fs, objs, mem = prebuilt(rng, ctx, "/x/wcc")
            if rng.random() < 0.5:
                i = mem[-1][0][1]
                argv[argv.index(a)] = "user.c"
                w["files"]["/w/user.c"] = "int ofn%s(int);\nint main(void) { return ofn%s(4); }\n" % (i, i)
            la = library(rng, ctx, "/x/wcc", fs, mem)
            w["files"].update(fs)
            argv += objs + la
    elif k < 0.83:
        w["name"] = "wmulti"
        w["files"] = {"/w/m%d.c" % j: "int fn%d(int x) { return x + %d; }\n" % (j, rng.randrange(1000)) + ("int broken(void) { return }\n" if allow_bad and rng.random() < 0.08 else "") for j in range(3)}
        argv += ["-c", "m0.c", "m1.c", "m2.c"]
        w["outs"] = ["/w/m0.o", "/w/m1.o", "/w/m2.o"]
    else:
        w["name"] = "wexe"
        argv += opt + fl + [a, "-o", "prog.wasm"]
        w["outs"] = ["/w/prog.wasm"]
    w["argv"] = argv
    return w


# ---------------------------------------------------------------- running
def req(w, sim=None, inline=0, trace=0, stdin_kind="p", out_kind="p", env=None, cwd="/w"):
    q = dict(sim or {})
    files = enc_files(w["files"])
    for k, v in (q.pop("xfiles", None) or {}).items():
        files[k] = v
    q["files"] = files
    q["phases"] = [{"cmds": [C.cmd(w["exe"], w["argv"], (w.get("stdin") or "").encode("latin-1"), env=env or C.ENV, cwd=cwd,
                                  fds=C.std_fds((w.get("stdin") or "").encode("latin-1"), stdin_kind, out_kind))]}]
    if inline:
        q["inline"] = inline
    if trace:
        q["trace"] = 1
    return q


def root_proc(r, phase=0, lin=None):
    for p in r["phases"][phase]["procs"]:
        if p["root"] and (lin is None or p["lin"] == lin):
            return p
    return None


def root_status(r, phase=0, lin=None):
    p = root_proc(r, phase, lin)
    return None if p is None else p["st"]


def out_state(r, w, phase=-1):
    """What the outputs hold: path -> None (as before / absent) or (hash, mode)."""
    d = r["phases"][phase]["diff"]
    o = {}
    for p in w["outs"]:
        e = d.get(p)
        if e is None:
            o[p] = None
        elif e["op"] == "deleted":
            o[p] = "deleted"
        else:
            o[p] = [e.get("h", e["t"]), e["mode"]]
    if w["stdout"]:
        o["<stdout>"] = r["sinks"]["out"] if len(r["sinks"]["out"]) < 100 else hashlib.sha256(r["sinks"]["out"].encode()).hexdigest()
    return o


def wkey(w):
    return hashlib.sha256(json.dumps(w, sort_keys=True).encode()).hexdigest()


def baseline(ctx, w):
    k = ("base", wkey(w))
    b = ctx.cache.get(k)
    if b is None:
        # not part of the case digest: whether it is cached must not matter
        h = ctx.hash.copy()
        r = ctx.run(req(w, trace=1), count=False)
        ctx.hash = h
        b = {"st": root_status(r), "outs": out_state(r, w), "trace": r["trace"], "sinks": r["sinks"], "outcome": r["outcome"], "diff": r["phases"][0]["diff"],
             "steps": r["steps"], "mutated": r["mutated"], "unknown": r["unknown"]}
        if len(ctx.cache) > 5000:
            ctx.cache.clear()
        ctx.cache[k] = b
    return b


ERRS = {
    "read": [E.EIO, E.EINTR, E.EIO, E.EISDIR], "write": [E.ENOSPC, E.EIO, E.EFBIG, E.EDQUOT, E.EINTR], "writev": [E.ENOSPC, E.EIO], "readv": [E.EIO],
    "openat": [E.EMFILE, E.EACCES, E.EIO, E.ENFILE], "open": [E.EMFILE, E.EACCES, E.EIO, E.ENFILE],
    "close": [E.EIO, E.ENOSPC], "lseek": [E.EINVAL, E.EIO], "fstat": [E.EIO], "newfstatat": [E.EIO, E.EACCES],
    "brk": [E.ENOMEM], "mmap": [E.ENOMEM], "mremap": [E.ENOMEM], "clone": [E.EAGAIN, E.ENOMEM], "fork": [E.EAGAIN, E.ENOMEM], "vfork": [E.EAGAIN],
    "execve": [E.ENOENT, E.EACCES, E.ENOMEM, E.E2BIG], "pipe2": [E.EMFILE, E.ENFILE], "pipe": [E.EMFILE, E.ENFILE], "dup": [E.EMFILE], "dup2": [E.EMFILE, E.EIO],
    "wait4": [E.ECHILD, E.EINTR], "getcwd": [E.ENOENT, E.ENOMEM], "chmod": [E.EPERM], "fchmod": [E.EIO], "getrandom": [E.EAGAIN, E.ENOSYS],
    "unlink": [E.EIO, E.EPERM], "unlinkat": [E.EIO], "rename": [E.EIO], "fchmodat": [E.EPERM], "ftruncate": [E.EIO, E.ENOSPC], "pwrite64": [E.EIO, E.ENOSPC], "pread64": [E.EIO],
    "fcntl": [E.EMFILE], "fsync": [E.EIO],
}
# calls made by the C library's start-up code before main: nothing of this repository runs there (host-built tools)
STARTUP = {"arch_prctl", "set_tid_address", "set_robust_list", "rseq", "prlimit64", "mprotect", "readlink", "readlinkat", "getpid", "gettid", "rt_sigaction", "rt_sigprocmask", "exit_group", "clock_gettime", "ioctl"}


def pick_fault(rng, trace, exclude=(), only=None, lins=None, kill=0.0):
    """A fault placed on a call of the fault-free history; each kind of call is equally likely."""
    names = {}
    for t in trace:
        if t[2].startswith("!") or t[2] in STARTUP or t[2] in exclude:
            continue
        if only and t[2] not in only:
            continue
        if lins and t[0] not in lins:
            continue
        names.setdefault((t[2], t[4]), []).append(t)
    if not names:
        return None
    if rng.random() < kill:
        allc = [t for v in names.values() for t in v]
        t = rng.choice(allc)
        return {"p": t[0], "n": t[1], "kind": rng.choice(["kill", "kill", "killafter"]), "val": rng.choice([9, 9, 11, 6, 15])}
    k = rng.choice(sorted(names))
    t = rng.choice(names[k])
    if t[2] in ERRS:
        if t[2] == "close" and rng.random() < 0.6:
            return {"p": t[0], "n": t[1], "kind": "closelost", "val": E.EIO}
        return {"p": t[0], "n": t[1], "kind": "err", "val": rng.choice(ERRS[t[2]])}
    return {"p": t[0], "n": t[1], "kind": "err", "val": E.EIO}


def sched_knobs(rng, shorts=True):
    s = {"seed": rng.randrange(1 << 40)}
    k = rng.random()
    if k < 0.55:
        s["sched"] = "random"
        s["pswitch"] = rng.choice([20, 100, 300, 700, 1000])
    elif k < 0.8:
        s["sched"] = "prio"
        s["pswitch"] = rng.choice([0, 5, 20, 60])
    elif k < 0.9:
        s["sched"] = "last"
    if rng.random() < 0.6:
        s["pipecap"] = rng.choice([4096, 4096, 8192, 16384, 65536, 0])
    if shorts and rng.random() < 0.5:
        s["pshortr"] = rng.choice([0, 50, 300, 900])
        s["pshortw"] = rng.choice([0, 50, 300, 900])
    if rng.random() < 0.5:
        s["killdelay"] = 1
    return s


def shrink_sim(ctx, case, key="sim", execute=None):
    """Generic candidates: explicit schedule and faults, then fewer of them."""
    s = case[key]
    if s.get("sched", "default") not in ("default", "list") or s.get("pshortr") or s.get("pshortw"):
        r = ctx.last
        if r is not None:
            n = dict(s)
            n["sched"] = "list"
            n["choices"] = r["chosen"]
            n.pop("pswitch", None)
            n["pshortr"] = n["pshortw"] = 0
            n["faults"] = [f for f in s.get("faults", [])] + [{"p": f["p"], "n": f["n"], "kind": "short", "val": f["val"]} for f in r["fired"] if f["kind"] == "short"]
            c = dict(case)
            c[key] = n
            yield c
        for drop in ({"sched": "default", "pswitch": 0}, {"pshortr": 0, "pshortw": 0}):
            n = dict(s)
            n.update(drop)
            c = dict(case)
            c[key] = n
            yield c
    for k in ("pipecap", "killdelay", "pscribble", "brkshift", "mmapshift", "disk", "mem", "rand", "fdlimit"):
        if k in s:
            n = dict(s)
            del n[k]
            c = dict(case)
            c[key] = n
            yield c
    for k in ("choices", "faults", "rules"):
        if s.get(k):
            for l in ddmin_list(s[k]):
                n = dict(s)
                n[k] = l
                c = dict(case)
                c[key] = n
                yield c


class ToolProp(Prop):
    gen2 = False
    wcc = False
    pool = 100
    real = ["xcc, cpp, cc1, as, ld built from /repo (host compiler, statically linked), running natively"]

    def prepare(self, build):
        build.native()
        if self.gen2:
            build.gen2()
        if self.wcc:
            build.wcc()

    def make_sim(self, name, ctx):
        return C.Sim(tool_mounts(ctx.build, self.gen2, self.wcc), cpu=ctx.cpu)

    def workload(self, rng, ctx):
        raise NotImplementedError

    def pick_workload(self, rng, ctx):
        seed = int(os.environ.get("VERIF_SEED", "1"))
        k = rng.randrange(self.pool)
        ck = ("wl", k)
        if ck not in ctx.cache:
            h = ctx.hash.copy()
            ctx.cache[ck] = self.workload(rng_for(seed, self.id + "/wl", k), ctx)
            ctx.hash = h
        return ctx.cache[ck]

    def sim_run(self, ctx, w, sim, **kw):
        r = ctx.run(req(w, sim, **kw))
        ctx.last = r
        return r

    def shrink(self, ctx, case, viol):
        ctx.last = getattr(ctx, "last", None)
        # the last response in ctx may belong to another candidate: run the case once more
        try:
            self.execute(ctx, case)
        except C.SimDied:
            return
        yield from shrink_sim(ctx, case)


def V(cls, msg, **kw):
    d = {"cls": cls, "msg": msg}
    d.update(kw)
    return d


def brief(w):
    return {"argv": w["argv"], "name": w.get("name")}


def bad_end(r):
    return r["outcome"] in ("deadlock", "steplimit", "cpuhang", "orphans")


def old_outputs(rng, w, s):
    """Sometimes files of an earlier build, longer or shorter and not executable, stand at the output paths."""
    if rng.random() < 0.25 and w["outs"] and "xfiles" not in s:
        n = rng.choice([0, 1, 200, 8000])
        s["xfiles"] = {p: {"s": "old contents " * n, "mode": rng.choice([0o644, 0o600, 0o755])} for p in w["outs"] if p not in w.get("files", {})}


def differs(o, b, s):
    """Whether the outputs differ from the baseline's; a file that was there before keeps its mode, but an executable is made executable."""
    old = s.get("xfiles") or {}
    for p in set(o) | set(b):
        x, y = o.get(p), b.get(p)
        if p in old and isinstance(x, list) and isinstance(y, list):
            if x[0] != y[0] or (y[1] & 0o111 and not x[1] & 0o111):
                return True
        elif x != y:
            return True
    return False


# ---------------------------------------------------------------- C01
class C01(ToolProp):
    id = "C01"
    quick_runs = 24000
    thorough_runs = 400000
    rule = ("case = one xcc command (random sources, options, outputs) under a seeded schedule, pipe capacity, split reads/writes and 0-3 faults placed on calls of its "
            "fault-free history (stage deaths, failing pipe/process/file/memory calls, full disk). Non-trivial: at least one fault fired or a non-default interleaving. "
            "Distinct by history hash.")

    def workload(self, rng, ctx):
        return workload_xcc(rng, ctx)

    def gen(self, rng, ctx, i):
        w = self.pick_workload(rng, ctx)
        b = baseline(ctx, w)
        s = sched_knobs(rng)
        k = rng.random()
        s["faults"] = []
        if k < 0.15:
            pass
        elif k < 0.25:
            s["disk"] = rng.choice([0, 1, 100, 1000, 5000, 20000])
        elif k < 0.32:
            s["rules"] = [{"op": op, "lin": rng.choice(["0", "0.0", "0.1", "0.2", "0.3"]), "after": rng.choice([1, 2, 3, 5, 8, 13]), "kind": "err", "val": E.ENOMEM} for op in ("brk", "mmap")]
            n = rng.choice([1, 2, 3, 5, 8, 13, 21])
            for x in s["rules"]:
                x["after"] = n
                x["lin"] = s["rules"][0]["lin"]
        elif k < 0.55:
            # faults on the driver's own process handling and in the forked children before exec
            f = pick_fault(rng, b["trace"], only=("clone", "fork", "vfork", "execve", "pipe", "pipe2", "dup", "dup2", "wait4", "close", "openat", "open", "fcntl"),
                           lins=None if rng.random() < 0.5 else ("0",))
            if f:
                s["faults"].append(f)
        else:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                f = pick_fault(rng, b["trace"], kill=0.4)
                if f and not (f["kind"].startswith("kill") and f["p"] == "0"):
                    s["faults"].append(f)
        old_outputs(rng, w, s)
        return {"w": w, "sim": s}

    def execute(self, ctx, case):
        w, s = case["w"], case["sim"]
        b = baseline(ctx, w)
        if b["outcome"] != "ok":
            return [V("baseline-" + b["outcome"], "fault-free run does not finish: %s" % brief(w))]
        r = self.sim_run(ctx, w, s)
        v = []
        if r["fired"] or r["chosen"]:
            ctx.stats.nontrivial.add(r["htrace"])
        if bad_end(r):
            ctx.stats.probe("not_finished")
            return v           # C05's business
        st = root_status(r)
        if st is None or (st & 0x7f):
            ctx.stats.probe("driver_killed")
            return v
        if st == 0:
            ctx.stats.probe("exit0")
            if b["st"] != 0:
                v.append(V("accepted-rejected-input", "exit 0 although the quiet run ends with %#x: %s" % (b["st"], brief(w)), fired=r["fired"][:5]))
            bad = [(p["lin"], p["exe"], p["st"]) for p in r["phases"][0]["procs"] if not p["root"] and p["st"] != 0]
            if bad:
                v.append(V("stage-failure-ignored", "exit 0 although a stage ended with a failing status: %s %s" % (bad, brief(w)), fired=r["fired"][:5]))
            o = out_state(r, w)
            if b["st"] == 0 and differs(o, b["outs"], s):
                v.append(V("damaged-output", "exit 0 with output %s instead of %s: %s" % (o, b["outs"], brief(w)), fired=r["fired"][:5]))
            for f in r["fired"]:
                if f["kind"] == "err" and f["sys"] in ("clone", "fork", "vfork", "execve", "pipe", "pipe2", "dup", "dup2", "wait4") and f["val"] != E.EINTR:
                    v.append(V("failed-call-ignored", "exit 0 although %s failed with %d: %s" % (f["sys"], f["val"], brief(w)), fired=r["fired"][:5]))
                    break
            for p in w["outs"]:
                if os.path.basename(p) in ("prog", "a.out") and o.get(p) and o[p] != "deleted" and not o[p][1] & 0o111:
                    v.append(V("not-executable", "%s has mode %o" % (p, o[p][1])))
        else:
            ctx.stats.probe("exit_fail")
        return v


# ---------------------------------------------------------------- C02 / C03
class C02(ToolProp):
    id = "C02"
    quick_runs = 60000
    thorough_runs = 600000
    rule = ("case = one run of cpp, cc1, as or ld with 1-3 faults on calls of its fault-free history (I/O error, full disk from a byte budget, failing or lossy close, failing seek, "
            "allocation refused once or from some point on) and split reads/writes. Non-trivial: a fault fired. Distinct by history hash.")

    def workload(self, rng, ctx):
        return workload_tool(rng, ctx)

    def gen(self, rng, ctx, i):
        w = self.pick_workload(rng, ctx)
        b = baseline(ctx, w)
        s = {"seed": rng.randrange(1 << 40), "faults": []}
        k = rng.random()
        if k < 0.1:
            s["disk"] = int(2 ** rng.uniform(0, 18))
        elif k < 0.2:
            n = len([t for t in b["trace"] if t[2] in ("brk", "mmap")])
            a = rng.randrange(max(1, n))
            s["rules"] = [{"op": op, "after": a, "kind": "err", "val": E.ENOMEM} for op in ("brk", "mmap", "mremap")]
            if rng.random() < 0.3:
                s["rules"] = s["rules"][:1]
        elif k < 0.3:
            s["rules"] = [{"op": rng.choice(["write", "read", "lseek", "close"]), "after": rng.randrange(0, 8), "count": rng.choice([1, 2, -1]), "kind": "err", "val": rng.choice([E.EIO, E.ENOSPC])}]
        else:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                f = pick_fault(rng, b["trace"])
                if f:
                    s["faults"].append(f)
        if rng.random() < 0.4:
            s["pshortr"] = rng.choice([0, 100, 500])
            s["pshortw"] = rng.choice([0, 100, 500])
        old_outputs(rng, w, s)
        c = {"w": w, "sim": s}
        if rng.random() < 0.3:
            c["out"] = rng.choice(["t", "r"])
        return c

    def execute(self, ctx, case):
        w, s = case["w"], case["sim"]
        b = baseline(ctx, w)
        if b["outcome"] != "ok":
            return [V("baseline-" + b["outcome"], "fault-free run does not finish: %s" % brief(w))]
        r = self.sim_run(ctx, w, s, out_kind=case.get("out", "p"))
        if r["fired"]:
            ctx.stats.nontrivial.add(r["htrace"])
        st = root_status(r)
        if bad_end(r):
            return [V("hang", "%s does not finish: %s" % (brief(w), r["outcome"]), fired=r["fired"][:5])]
        if st != 0:
            ctx.stats.probe("exit_fail" if st & 0x7f == 0 else "died_signal_%d" % (st & 0x7f))
            return []
        ctx.stats.probe("exit0")
        if b["st"] != 0:
            return [V("accepted-rejected-input", "exit 0 although the quiet run ends with %#x: %s" % (b["st"], brief(w)), fired=r["fired"][:5])]
        o = out_state(r, w)
        if differs(o, b["outs"], s):
            return [V("damaged-output", "exit 0 with output %s instead of %s: %s" % (o, b["outs"], brief(w)), fired=r["fired"][:5])]
        return []


class C03(C02):
    id = "C03"
    wcc = True
    quick_runs = 40000
    thorough_runs = 600000
    rule = C02.rule.replace("cpp, cc1, as or ld", "wcc (preprocess, compile, link)")
    real = ["wcc built from /repo (host compiler, statically linked), running natively"]

    def workload(self, rng, ctx):
        return workload_wcc(rng, ctx)


# ---------------------------------------------------------------- C04
def any_command(rng, ctx, allow_bad=True):
    k = rng.random()
    if k < 0.5:
        return workload_xcc(rng, ctx, allow_bad=allow_bad)
    if k < 0.65:
        return workload_tool(rng, ctx, "as", allow_bad=allow_bad)
    if k < 0.8:
        return workload_tool(rng, ctx, "ld")
    return workload_wcc(rng, ctx, allow_bad=allow_bad)


CLEANUP = ("unlink", "unlinkat", "rename", "renameat", "renameat2", "stat", "lstat", "newfstatat")


def cleanup_hit(r):
    """A fault fell on a call that cleaning up needs (an earlier fault can shift the call numbers): nothing is promised then."""
    return any(f.get("sys") in CLEANUP for f in r["fired"] if f["kind"] == "err")


def io_faults(rng, b, kill=0.0, exclude=(), root_kill=False):
    s = {"faults": []}
    k = rng.random()
    if k < 0.12:
        s["disk"] = int(2 ** rng.uniform(0, 17))
    elif k < 0.22:
        lin = rng.choice(["0", "0.0", "0.1", "0.2", "0.3"])
        n = rng.choice([1, 2, 3, 4, 6, 9, 14])
        s["rules"] = [{"op": op, "lin": lin, "after": n, "kind": "err", "val": E.ENOMEM} for op in ("brk", "mmap", "mremap")]
    else:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            f = pick_fault(rng, b["trace"], kill=kill, exclude=exclude)
            if f and (root_kill or not (f["kind"].startswith("kill") and f["p"] == "0")):
                s["faults"].append(f)
    return s


class C04(ToolProp):
    id = "C04"
    wcc = True
    quick_runs = 40000
    thorough_runs = 400000
    real = ToolProp.real + ["wcc"]
    rule = ("case = one xcc/as/ld/wcc command, accepted or rejected, with an output path that is absent, holds an old file or is a device, under a seeded schedule with faults "
            "(not on the clean-up calls themselves). Non-trivial: the command ended by itself with a failing status. Distinct by history hash.")

    def workload(self, rng, ctx):
        return any_command(rng, ctx)

    def gen(self, rng, ctx, i):
        w = self.pick_workload(rng, ctx)
        c = {"w": w, "pre": rng.choice(["none", "none", "old", "old", "dev"]) if w["outs"] else "none"}
        b = baseline(ctx, w)
        s = sched_knobs(rng, shorts=rng.random() < 0.3)
        if b["st"] == 0 or rng.random() < 0.4:
            s.update(io_faults(rng, b, kill=0.35, exclude=CLEANUP + ("wait4", "kill")))
        c["sim"] = s
        return c

    def execute(self, ctx, case):
        w, s = case["w"], dict(case["sim"])
        pre = {}
        if case["pre"] == "old":
            pre = {p: {"s": "old contents of " + p, "mode": 0o644} for p in w["outs"]}
        elif case["pre"] == "dev":
            pre = {p: {"t": "chr", "dev": "n"} for p in w["outs"]}
        if pre:
            s["xfiles"] = pre
        r = self.sim_run(ctx, w, s)
        if bad_end(r):
            return []
        st = root_status(r)
        if st is None or st & 0x7f or st == 0 or cleanup_hit(r):
            return []
        ctx.stats.nontrivial.add(r["htrace"])
        ctx.stats.probe("failed_with_" + case["pre"])
        v = []
        d = r["phases"][-1]["diff"]
        for p in w["outs"]:
            e = d.get(p)
            if e is None:
                continue
            if case["pre"] == "dev":
                v.append(V("device-removed" if e["op"] == "deleted" else "device-replaced", "%s was a device: %s, status %#x, %s" % (p, e, st, brief(w)), fired=r["fired"][:5]))
            elif e["op"] != "deleted":
                g = baseline(ctx, w)["outs"].get(p)
                if w.get("name") in ("multi", "wmulti") and p != w["outs"][-1] and g and g != "deleted" and e.get("h") == g[0]:
                    continue       # several sources: the complete object of an earlier one stays, as with every compiler
                v.append(V("half-made-output", "failed (status %#x) but %s holds %s: %s" % (st, p, e, brief(w)), fired=r["fired"][:5]))
        return v


# ---------------------------------------------------------------- C05
class C05(ToolProp):
    id = "C05"
    quick_runs = 30000
    thorough_runs = 400000
    rule = ("case = one xcc command (inputs from empty to several times the pipe capacity) under a seeded schedule, pipe capacities from 4 KiB, and 0-3 faults: death of a stage at any of its "
            "calls, failing calls of stages and driver (not wait4). Non-trivial: a fault fired or a non-default interleaving. Distinct by history hash.")

    def workload(self, rng, ctx):
        return workload_xcc(rng, ctx)

    def gen(self, rng, ctx, i):
        w = self.pick_workload(rng, ctx)
        b = baseline(ctx, w)
        s = sched_knobs(rng)
        if rng.random() < 0.85:
            s.update(io_faults(rng, b, kill=0.6, exclude=("wait4", "kill")))
        c = {"w": w, "sim": s}
        if w.get("stdin") and rng.random() < 0.7:
            # whoever feeds standard input goes silent: the stage reading it waits, and another stage fails
            lins = sorted({t[0] for t in b["trace"] if t[0] != "0"} - {t[0] for t in b["trace"] if t[2] == "read" and t[4] == "src"})
            if lins:
                c["idle"] = 1
                c["lins"] = lins
                f = pick_fault(rng, b["trace"], kill=0.8, lins=lins, exclude=("wait4", "kill"))
                s["faults"] = [f] if f else []
                s.pop("rules", None)
                s.pop("disk", None)
        return c

    def execute(self, ctx, case):
        w, s = case["w"], case["sim"]
        b = baseline(ctx, w)
        r = self.sim_run(ctx, w, s, stdin_kind="i" if case.get("idle") else "p")
        if r["fired"] or r["chosen"]:
            ctx.stats.nontrivial.add(r["htrace"])
        v = []
        if case.get("idle"):
            ctx.stats.probe("idle_stdin")
            stuck = {x[0] for e in r["events"] if e["ev"] == "deadlock" for x in e["stuck"]}
            if r["outcome"] == "deadlock" and not any(p["lin"] in case["lins"] and p["lin"] not in stuck and p["st"] != 0 for p in r["phases"][0]["procs"]):
                return v       # no stage failed: waiting for the rest of the input is right
        if any(f["kind"] == "err" and f["sys"] in ("wait4", "kill") for f in r["fired"]):
            return v           # the kernel never refuses these for one's own children; an earlier fault shifted the call numbers
        if r["outcome"] in ("deadlock", "steplimit", "cpuhang"):
            ev = [e for e in r["events"] if e["ev"] == "deadlock"]
            v.append(V(r["outcome"], "xcc does not finish: %s %s" % (ev, brief(w)), fired=r["fired"][:5]))
        elif r["outcome"] == "orphans":
            v.append(V("orphans", "processes stuck for ever after xcc exited: %s %s" % ([e for e in r["events"] if e["ev"] == "deadlock"], brief(w)), fired=r["fired"][:5]))
        for e in r["events"]:
            if e["ev"] == "rootexit" and e["alive"] and not (root_status(r) or 0) & 0x7f:
                v.append(V("stage-left-running", "alive after xcc exited: %s %s" % (e["alive"], brief(w)), fired=r["fired"][:5]))
        bud = 60 * b["steps"] + 20000
        if r["steps"] > bud:
            v.append(V("too-many-steps", "%d steps, fault-free run takes %d" % (r["steps"], b["steps"])))
        ctx.stats.probe("fired_%d" % min(3, len([f for f in r["fired"] if f["kind"] != "short"])))
        return v


# ---------------------------------------------------------------- C06
class C06(ToolProp):
    id = "C06"
    wcc = True
    quick_runs = 30000
    thorough_runs = 400000
    real = ToolProp.real + ["wcc"]
    rule = ("case = one xcc or wcc command (as in C01/C03) with bystander files, also under the temporary names the fault-free run used, under a seeded schedule with faults (not on unlink). "
            "Non-trivial: the command used a temporary file, failed, or met a colliding name. Distinct by history hash.")

    def workload(self, rng, ctx):
        return workload_wcc(rng, ctx) if rng.random() < 0.3 else workload_xcc(rng, ctx)

    def gen(self, rng, ctx, i):
        w = self.pick_workload(rng, ctx)
        b = baseline(ctx, w)
        s = sched_knobs(rng, shorts=rng.random() < 0.3)
        c = {"w": w, "sim": s, "by": {}}
        if rng.random() < 0.6:
            s.update(io_faults(rng, b, kill=0.4, exclude=CLEANUP + ("wait4", "kill")))
        k = rng.random()
        tmp = sorted(p for p in b["mutated"] if p not in w["outs"])
        if tmp and k < 0.5:
            s["seed"] = 0          # the same random numbers as the fault-free run: the temporary names collide
            for p in tmp:
                c["by"][p] = "precious"
        if rng.random() < 0.5:
            # files beside the sources and outputs that carry names derived from them
            for p in ["/w/gen.o", "/w/gen.s", "/w/gen.c.o", "/w/part.s.o", "/w/part.o", "/w/out", "/w/prog.o", "/w/a.out.o", "/w/second.o", "/w/bad.s", "/w/out.o.tmp", "/tmp/x", "/tmp/xcc-000000.o"]:
                if p not in w["outs"] and p not in w["files"] and rng.random() < 0.5 and os.path.basename(p) not in w["argv"]:
                    c["by"][p] = "bystander"
        return c

    def execute(self, ctx, case):
        w, s = case["w"], dict(case["sim"])
        s["xfiles"] = {p: {"s": v} for p, v in case["by"].items()}
        r = self.sim_run(ctx, w, s)
        if bad_end(r):
            return []
        st = root_status(r)
        if st is None or st & 0x7f or cleanup_hit(r):
            return []
        tmp = [p for p in r["mutated"] if p not in w["outs"]]
        if tmp or st or case["by"]:
            ctx.stats.nontrivial.add(r["htrace"])
        if tmp:
            ctx.stats.probe("used_temporaries")
        if st:
            ctx.stats.probe("failed_commands")
        v = []
        for p, e in sorted(r["phases"][-1]["diff"].items()):
            if p in w["outs"]:
                continue
            cls = "left-behind" if e["op"] == "new" else "deleted-foreign" if e["op"] == "deleted" else "modified-foreign"
            v.append(V(cls, "%s: %s, status %#x, %s" % (p, e, st, brief(w)), fired=r["fired"][:5]))
        return v

    def shrink(self, ctx, case, viol):
        yield from ToolProp.shrink(self, ctx, case, viol)
        for l in ddmin_list(sorted(case["by"])):
            c = dict(case)
            c["by"] = {p: case["by"][p] for p in l}
            yield c


# ---------------------------------------------------------------- C07
class C07(ToolProp):
    id = "C07"
    wcc = True
    quick_runs = 12000
    thorough_runs = 150000
    pool = 24
    real = ToolProp.real + ["wcc"]
    rule = ("case = 2-5 xcc/wcc commands with distinct outputs running at the same time in one directory on shared sources, under a seeded interleaving of all their processes, with temporary names "
            "that collide between them, optionally one command rejected or hit by a stage death. Non-trivial: at least two commands alive in an interleaving other than one after the other. Distinct by schedule hash.")

    def workload(self, rng, ctx):
        return workload_wcc(rng, ctx) if rng.random() < 0.3 else workload_xcc(rng, ctx)

    def rename(self, w, j):
        """The same command with its own output names."""
        w = json.loads(json.dumps(w))
        m = {}
        for p in w["outs"]:
            m[p] = "/w/o%d_%s" % (j, os.path.basename(p))
        if "-o" in w["argv"]:
            k = w["argv"].index("-o") + 1
            if w["argv"][k] != "-":
                w["argv"][k] = "o%d_%s" % (j, w["argv"][k])
        elif w["outs"]:
            w["argv"] += ["-o", "o%d_%s" % (j, os.path.basename(w["outs"][0]))]
        w["outs"] = [m[p] for p in w["outs"]]
        return w

    def gen(self, rng, ctx, i):
        n = rng.choice([2, 2, 3, 3, 4, 5])
        ws = []
        files = {}
        tries = 0
        while len(ws) < n and tries < 40:
            tries += 1
            w = self.pick_workload(rng, ctx)
            if ws and rng.random() < 0.4:
                w = rng.choice(ws)["orig"]
            # shared inputs must agree
            if any(p in files and files[p] != v for p, v in w["files"].items()):
                continue
            files.update(w["files"])
            ws.append({"orig": w, "w": self.rename(w, len(ws))})
        s = sched_knobs(rng, shorts=rng.random() < 0.3)
        if s.get("sched", "default") == "default":
            s["sched"] = "random"
        s["rand"] = rng.choice(["seed", "collide", "collide"])
        s["maxsteps"] = 400000
        c = {"ws": [x["w"] for x in ws], "sim": s, "victim": -1}
        if rng.random() < 0.3:
            # one command suffers, the others must not notice
            v = rng.randrange(len(ws))
            b = baseline(ctx, c["ws"][v])
            f = pick_fault(rng, b["trace"], kill=0.7, exclude=("wait4", "kill"))
            if f:
                parts = f["p"].split(".")
                parts[0] = str(v)
                f["p"] = ".".join(parts)
                s["faults"] = [f]
                c["victim"] = v
        return c

    def execute(self, ctx, case):
        files = {}
        for w in case["ws"]:
            files.update(w["files"])
        bases = [baseline(ctx, w) for w in case["ws"]]
        q = dict(case["sim"])
        q["files"] = enc_files(files)
        cmds = []
        for j, w in enumerate(case["ws"]):
            fds = {"0": {"src": C.b64((w.get("stdin") or "").encode("latin-1"))}, "1": {"sink": "out%d" % j}, "2": {"sink": "err%d" % j}}
            c = C.cmd(w["exe"], w["argv"], fds=fds)
            c["pgid"] = 500 + (0 if case["sim"]["seed"] % 2 else j)     # one job or one process group each
            cmds.append(c)
        q["phases"] = [{"cmds": cmds}]
        r = ctx.run(q)
        ctx.last = r
        ctx.stats.nontrivial.add(r["hsched"])
        ctx.stats.probe("commands_%d" % len(cmds))
        v = []
        if bad_end(r):
            if case["victim"] < 0:
                v.append(V("hang", "concurrent commands do not finish: %s %s" % (r["outcome"], [brief(w) for w in case["ws"]])))
            return v
        d = r["phases"][0]["diff"]
        allouts = set(p for w in case["ws"] for p in w["outs"])
        for j, (w, b) in enumerate(zip(case["ws"], bases)):
            if j == case["victim"]:
                continue
            st = root_status(r, 0, str(j))
            if st != b["st"]:
                v.append(V("status-differs", "command %d %s ends with %#x, alone with %#x; stderr %r" % (j, brief(w), st, b["st"], C.unb64(r["sinks"]["err%d" % j])[-300:])))
                continue
            o = {}
            for p in w["outs"]:
                e = d.get(p)
                o[p] = None if e is None else "deleted" if e["op"] == "deleted" else [e.get("h", e["t"]), e["mode"]]
            bo = dict((k, x) for k, x in b["outs"].items() if k != "<stdout>")
            if o != bo:
                v.append(V("output-differs", "command %d %s: %s, alone %s" % (j, brief(w), o, bo)))
            if r["sinks"]["out%d" % j] != b["sinks"]["out"]:
                v.append(V("stdout-differs", "command %d %s" % (j, brief(w))))
        if case["victim"] < 0:
            for p in sorted(d):
                if p not in allouts:
                    v.append(V("left-behind", "%s: %s after %s" % (p, d[p], [brief(w) for w in case["ws"]])))
        return v

    def shrink(self, ctx, case, viol):
        yield from ToolProp.shrink(self, ctx, case, viol)


# ---------------------------------------------------------------- C08
class C08(ToolProp):
    id = "C08"
    wcc = True
    quick_runs = 25000
    thorough_runs = 300000
    real = ToolProp.real + ["wcc"]
    rule = ("case = one cpp/cc1/as/ld/xcc/wcc command, accepted or rejected, in a perturbed world: heap and stack placement, stale heap bytes (malloc perturbation), stale stack bytes (scribbled below the "
            "red zone at calls), split reads and writes, pipe capacity, schedule, pids, clock, randomness, environment, terminal or file as streams, output path; compared with the unperturbed run. "
            "Non-trivial: any perturbation besides the seed. Distinct by history hash.")

    def workload(self, rng, ctx):
        k = rng.random()
        if k < 0.4:
            return workload_xcc(rng, ctx)
        if k < 0.7:
            return workload_tool(rng, ctx)
        return workload_wcc(rng, ctx)

    def gen(self, rng, ctx, i):
        w = self.pick_workload(rng, ctx)
        s = sched_knobs(rng)
        s["killdelay"] = 0
        s["vpid"] = rng.choice([2, 1000, 30000, 4000000])
        s["clock"] = rng.choice([0, 1, 1700000000, 4102444800])
        s["clockstep"] = rng.choice([0, 1, 1000, 10 ** 9])
        if rng.random() < 0.5:
            s["brkshift"] = 4096 * rng.randrange(0, 5000)
            s["mmapshift"] = 4096 * rng.randrange(0, 5000)
        if rng.random() < 0.5:
            s["pscribble"] = rng.choice([100, 1000])
            s["scribble"] = rng.choice([512, 8192, 40000])
        env = list(C.ENV)
        if rng.random() < 0.6:
            t = []
            if rng.random() < 0.8:
                t.append("glibc.malloc.perturb=%d" % rng.randrange(1, 255))
            if rng.random() < 0.3:
                t.append("glibc.malloc.mmap_threshold=%d" % rng.choice([1024, 40000, 1 << 24]))
            if rng.random() < 0.3:
                t.append("glibc.malloc.tcache_count=%d" % rng.choice([0, 1, 100]))
            if rng.random() < 0.3:
                t.append("glibc.malloc.top_pad=%d" % rng.choice([0, 4096, 1 << 22]))
            if t:
                env.append("GLIBC_TUNABLES=" + ":".join(t))
        if rng.random() < 0.6:
            env.append("PAD=" + "x" * rng.randrange(0, 5000))
        for k, vs in (("TZ", ["UTC", "Asia/Tokyo", ""]), ("TMPDIR", ["/nonexistent", "/w"]), ("LANG", ["ja_JP.UTF-8", "C"]), ("HOME", ["/"]), ("PWD", ["/elsewhere"]), ("COLUMNS", ["3"]),
                      ("CPATH", ["/nowhere"]), ("C_INCLUDE_PATH", ["/nowhere"]), ("SOURCE_DATE_EPOCH", ["1"]), ("DEBUG", ["1"]), ("USER", ["u", "v"])):
            if rng.random() < 0.3:
                env.append("%s=%s" % (k, rng.choice(vs)))
        if rng.random() < 0.05:
            env = []
        c = {"w": w, "sim": s, "env": env, "ink": rng.choice("pppr"), "outk": rng.choice("ppptr")}
        if w["outs"] and "-o" in w["argv"] and rng.random() < 0.4:
            c["outpath"] = rng.choice(["/tmp/some/dir", "/w/d", "/tmp"])
        return c

    def execute(self, ctx, case):
        w, s = case["w"], dict(case["sim"])
        b = baseline(ctx, w)
        w2 = w
        op = case.get("outpath")
        if op:
            w2 = json.loads(json.dumps(w))
            k = w2["argv"].index("-o") + 1
            name = w2["argv"][k]
            if name != "-":
                w2["argv"][k] = op + "/" + os.path.basename(name)
                w2["outs"] = [op + "/" + os.path.basename(p) if os.path.basename(p) == os.path.basename(name) else p for p in w2["outs"]]
                s["xfiles"] = {}
                d = op
                while d not in ("/", "/tmp", "/w"):
                    s["xfiles"][d] = {"t": "dir"}
                    d = os.path.dirname(d)
        r = self.sim_run(ctx, w2, s, env=case["env"] or ["A=b"], stdin_kind=case["ink"], out_kind=case["outk"])
        ctx.stats.nontrivial.add(r["htrace"])
        if bad_end(r):
            return [V("hang", "%s: %s" % (brief(w), r["outcome"]))] if b["outcome"] == "ok" else []
        v = []
        st = root_status(r)
        if st != b["st"]:
            v.append(V("status-differs", "%s: %#x instead of %#x, stderr %r" % (brief(w), st, b["st"], C.unb64(r["sinks"]["err"])[-300:])))
            return v
        o = list(out_state(r, w2).values())
        bo = list(b["outs"].values())
        if o != bo and st == 0:
            v.append(V("output-differs", "%s: %s instead of %s" % (brief(w), o, bo)))
        if st == 0 or not w["argv"][0].endswith("xcc"):     # a failing driver stops its other stages at a moment that depends on timing
            e, be = C.unb64(r["sinks"]["err"]), C.unb64(b["sinks"]["err"])
            if w2 is not w:
                for p1, p2 in zip(w2["outs"], w["outs"]):
                    e = e.replace(p1.encode(), p2.encode())
            if w["argv"][0].endswith("xcc"):
                e, be = sorted(e.splitlines()), sorted(be.splitlines())
            if e != be:
                v.append(V("diagnostics-differ", "%s: %r instead of %r" % (brief(w), e[-400:], be[-400:])))
        return v

    def shrink(self, ctx, case, viol):
        yield from ToolProp.shrink(self, ctx, case, viol)
        for l in ddmin_list(case["env"]):
            c = dict(case)
            c["env"] = l
            yield c


# ---------------------------------------------------------------- C09
def wasm_boundaries(data):
    """Offsets at which a wasm object ends between two sections."""
    if data[:4] != b"\0asm":
        return set()
    o, out = 8, set()
    while o < len(data):
        out.add(o)
        p, n, sh = o + 1, 0, 0
        while p < len(data):
            n |= (data[p] & 0x7f) << sh
            sh += 7
            p += 1
            if not data[p - 1] & 0x80:
                break
        o = p + n
    return out


class C09(ToolProp):
    id = "C09"
    wcc = True
    quick_runs = 30000
    thorough_runs = 300000
    real = ToolProp.real + ["wcc"]
    rule = ("case = either a command whose whole process tree is killed at a seeded step (then optionally its output torn to a prefix) and run again, or a link (ld, xcc, wcc) with an object or archive of "
            "which only a prefix (or a prefix followed by zero bytes) reached the disk. Non-trivial: the crash fell inside the run, or the torn file is shorter than the original. Distinct by history hash.")

    def workload(self, rng, ctx):
        return any_command(rng, ctx, allow_bad=False)

    def link_workload(self, rng, ctx):
        """A link command whose inputs are ordinary files that can be torn."""
        seed = int(os.environ.get("VERIF_SEED", "1"))
        k = rng.randrange(12)
        ck = ("lw", k)
        if ck not in ctx.cache:
            h = ctx.hash.copy()
            r2 = rng_for(seed, "C09/lw", k)
            wasm = k % 3 == 0
            cc = "/x/wcc" if wasm else "/x/xcc"
            files = {}
            srcs = {"m.c": gensrc.program(r2, r2.choice([0, 2, 10])), "n.c": "int second(int x) { return x * 3; }\nint big[%d] = {1,2,3};\nconst char *msg = \"hello\";\n" % r2.choice([3, 3000])}
            for n, t in srcs.items():
                w = {"exe": cc, "argv": [cc, "-c", "-o", n[:-2] + ".o", n], "files": {"/w/" + n: t}, "outs": [], "stdout": False}
                st, fs, _ = prelude(ctx, w, json.dumps(w, sort_keys=True))
                files["/w/" + n[:-2] + ".o"] = {"b64": fs["/w/" + n[:-2] + ".o"]}
            lib = "/w/lib"
            ln = ("wlibc.a", "wcrt0.a") if wasm else ("libc.a", "crt0.a")
            for l in ln:
                with open(os.path.join(ctx.build.t, "lib", l), "rb") as f:
                    files["/w/" + l] = {"b64": C.b64(f.read())}
            if wasm:
                w = {"exe": "/x/wcc", "argv": ["/x/wcc", "-nostdlib", "-o", "prog", "m.o", "n.o", "wcrt0.a", "wlibc.a"]}
            elif r2.random() < 0.5:
                w = {"exe": "/x/ld", "argv": ["/x/ld", "-o", "prog", "m.o", "n.o", "crt0.a", "libc.a"]}
            else:
                w = {"exe": "/x/xcc", "argv": ["/x/xcc", "-nostdlib", "-o", "prog", "m.o", "n.o", "crt0.a", "libc.a"]}
            w.update({"files": files, "outs": ["/w/prog"], "stdout": False, "name": "link"})
            ctx.cache[ck] = w
            ctx.hash = h
        return ctx.cache[ck]

    def gen(self, rng, ctx, i):
        if rng.random() < 0.5:
            w = self.link_workload(rng, ctx)
            p = rng.choice(sorted(w["files"]))
            size = len(C.unb64(w["files"][p]["b64"]))
            k = rng.random()
            n = rng.randrange(0, min(size, 200)) if k < 0.25 else max(0, size - 1 - rng.randrange(0, min(size, 300))) if k < 0.5 else rng.randrange(0, size) if size else 0
            wasm = w["exe"].endswith("wcc")
            while wasm and n in wasm_boundaries(C.unb64(w["files"][p]["b64"])):
                n += 1         # a wasm object cut between two sections is a well-formed wasm object
            return {"kind": "torn", "w": w, "file": p, "len": min(n, size), "zero": int(not wasm and rng.random() < 0.25), "sim": {"seed": rng.randrange(1 << 30)}}
        w = self.pick_workload(rng, ctx)
        b = baseline(ctx, w)
        s = sched_knobs(rng, shorts=rng.random() < 0.5)
        k = rng.random()
        if k < 0.6:
            s["crash"] = rng.randrange(1, b["steps"] + 2)
        else:
            f = pick_fault(rng, b["trace"], only=("write", "close", "openat", "unlink", "clone", "execve", "lseek", "exit_group"))
            if f:
                f["kind"], f["val"] = "crash", 9
                s["faults"] = [f]
            else:
                s["crash"] = rng.randrange(1, b["steps"] + 2)
        c = {"kind": "crash", "w": w, "sim": s}
        if rng.random() < 0.4 and w["outs"]:
            c["trunc"] = {p: int(2 ** rng.uniform(0, 14)) - 1 for p in w["outs"]}
        return c

    def execute(self, ctx, case):
        w = case["w"]
        b = baseline(ctx, w)
        if case["kind"] == "torn":
            data = C.unb64(w["files"][case["file"]]["b64"])
            t = data[:case["len"]]
            if case["zero"]:
                t += b"\0" * (len(data) - len(t))
            w2 = dict(w)
            w2["files"] = dict(w["files"])
            w2["files"][case["file"]] = {"b64": C.b64(t)}
            r = self.sim_run(ctx, w2, case["sim"])
            ctx.stats.fault("torn_file")
            ctx.stats.nontrivial.add("%s/%d/%d/%s" % (case["file"], case["len"], case["zero"], wkey(w)))
            st = root_status(r)
            if bad_end(r):
                return [V("torn-hang", "%s with %s torn to %d bytes: %s" % (brief(w), case["file"], case["len"], r["outcome"]))]
            if st == 0:
                ctx.stats.probe("torn_but_linked")
                if out_state(r, w) != b["outs"]:
                    return [V("torn-links-differently", "%s with %s torn to %d of %d bytes%s: exit 0 with another program" % (brief(w), case["file"], case["len"], len(data), " (zero filled)" if case["zero"] else ""))]
            else:
                ctx.stats.probe("torn_refused")
            return []
        q = req(w, case["sim"])
        ph = dict(q["phases"][0])
        if "trunc" in case:
            ph["trunc"] = case["trunc"]
        q["phases"].append(ph)
        q["maxsteps"] = 2000000
        r = ctx.run(q)
        ctx.last = r
        if r["phases"][0]["crashed"]:
            ctx.stats.nontrivial.add(r["htrace"])
            ctx.stats.probe("crashed_inside")
        if bad_end(r):
            return [V("hang", "%s: %s" % (brief(w), r["outcome"]))]
        st = root_status(r, 1)
        if st != b["st"]:
            return [V("rerun-status", "%s after a crash ends with %#x instead of %#x" % (brief(w), st, b["st"]))]
        d = r["phases"][1]["diff"]
        o = {}
        for p in w["outs"]:
            e = d.get(p)
            o[p] = None if e is None else "deleted" if e["op"] == "deleted" else [e.get("h", e["t"]), e["mode"]]
        bo = dict((k, x) for k, x in b["outs"].items() if k != "<stdout>")
        if o != bo:
            return [V("rerun-output", "%s after a crash writes %s instead of %s" % (brief(w), o, bo))]
        return []


# ---------------------------------------------------------------- C20
class C20(ToolProp):
    id = "C20"
    gen2 = True
    quick_runs = 8000
    thorough_runs = 300000
    pool = 36
    real = ["gen2xcc, gen2cpp, gen2cc1, gen2as, gen2ld: compiled by xcc itself and linked with the bundled libc, running natively", "the host-built tools as the reference"]
    rule = ("case = one command of the self-hosted toolchain (driver or single stage) under a seeded schedule, pipe capacity, split reads/writes and, in half of the cases, 1-3 faults on calls of its fault-free "
            "history; the reference is the fault-free run of the host-built tool. Non-trivial: a fault fired or reads/writes were split or a non-default interleaving. Distinct by history hash.")

    def workload(self, rng, ctx):
        if rng.random() < 0.5:
            return workload_xcc(rng, ctx)
        return workload_tool(rng, ctx)

    def fresh(self, rng, ctx):
        """A source of its own for one case, through one stage or the driver."""
        k = rng.random()
        t = genlit.source(rng, rng.choice([1, 3, 8, 20])) if k < 0.5 else corpus.program(rng, rng.choice([1, 3, 8, 20])) if k < 0.75 else gencode.program(rng, rng.choice([2, 5]), exact=True) if k < 0.9 else gensrc.program(rng, rng.choice([1, 5, 12]))
        t = t.encode("utf-8").decode("latin-1")
        opt = rng.choice([[], [], ["-O1"], ["-O2"], ["-Wall"], ["-DX=3"], ["-I."]])
        kind = rng.choice(["-c", "-c", "-S", "-S", "-E"])
        w = {"exe": "/x/xcc", "files": {"/w/f.c": t}, "outs": ["/w/out"], "stdout": False, "name": "fresh" + kind}
        w["argv"] = ["/x/xcc", kind] + opt + ["-o", "out", "f.c"]
        return w

    def to_gen2(self, w):
        w = json.loads(json.dumps(w))
        n = os.path.basename(w["exe"])
        w["exe"] = X + "/gen2" + n
        w["argv"][0] = w["exe"]
        return w

    def gen(self, rng, ctx, i):
        if rng.random() < 0.3:
            s = sched_knobs(rng) if rng.random() < 0.3 else {"seed": rng.randrange(1 << 40)}
            s["maxsteps"] = 2000000
            return {"w": self.fresh(rng, ctx), "sim": s, "fresh": 1}
        w = self.pick_workload(rng, ctx)
        g = self.to_gen2(w)
        b = baseline(ctx, g)
        s = sched_knobs(rng)
        if rng.random() < 0.5:
            s.update(io_faults(rng, b, kill=0.2, exclude=("wait4", "kill") if rng.random() < 0.8 else ()))
        if rng.random() < 0.3:
            s["brkshift"] = 4096 * rng.randrange(0, 3000)
        s["maxsteps"] = 2000000        # every few bytes are a call there when writes are split
        return {"w": w, "sim": s}

    def execute(self, ctx, case):
        w, s = case["w"], case["sim"]
        ref = baseline(ctx, w)
        if case.get("fresh"):
            ctx.cache.pop(("base", wkey(w)), None)
            if ref["outcome"] != "ok" or ref["st"] & 0x7f:
                ctx.stats.probe("reference_died")
                return []
        g = self.to_gen2(w)
        r = self.sim_run(ctx, g, s)
        if r["fired"] or r["chosen"]:
            ctx.stats.nontrivial.add(r["htrace"])
        real_faults = [f for f in r["fired"] if f["kind"] != "short"]
        if bad_end(r):
            if any(f["kind"] == "err" and f["sys"] in ("wait4", "kill") for f in real_faults):
                return []
            return [V("hang", "%s: %s %s" % (brief(g), r["outcome"], [e for e in r["events"] if e["ev"] == "deadlock"]), fired=r["fired"][:5])]
        st = root_status(r)
        if real_faults:
            if st != 0:
                ctx.stats.probe("fault_reported")
                return []
            ctx.stats.probe("fault_survived")
            if ref["st"] != 0:
                return [V("accepted-rejected-input", "%s exit 0, the host-built tool rejects the input" % brief(g), fired=r["fired"][:5])]
            if out_state(r, g) != ref["outs"]:
                return [V("damaged-output", "%s: exit 0 with %s instead of %s" % (brief(g), out_state(r, g), ref["outs"]), fired=r["fired"][:5])]
            return []
        ctx.stats.probe("no_fault")
        if (st == 0) != (ref["st"] == 0) or (st & 0x7f) or (ref["st"] & 0x7f == 0 and st != ref["st"]):
            return [V("status-differs", "%s: %#x, host-built %#x; stderr %r" % (brief(g), st, ref["st"], C.unb64(r["sinks"]["err"])[-300:]), fired=r["fired"][:5])]
        if st == 0 and out_state(r, g) != ref["outs"]:
            return [V("output-differs", "%s: %s, host-built %s" % (brief(g), out_state(r, g), ref["outs"]), fired=r["fired"][:5])]
        return []
