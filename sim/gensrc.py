"""Seeded generator of C programs (valid for xcc and wcc, deterministic output, no undefined behaviour)."""


class G:
    def __init__(self, rng, wasm=False):
        self.r = rng
        self.fn = []
        self.out = []

    def e(self, vars_, d=0):
        r = self.r
        k = r.randrange(10)
        if d > 3 or k < 3:
            return r.choice(vars_) if vars_ and r.random() < 0.7 else str(r.randrange(-100, 1000))
        a, b = self.e(vars_, d + 1), self.e(vars_, d + 1)
        op = r.choice(["+", "-", "*", "&", "|", "^", "==", "<", ">", "<=", "!=", "&&", "||", "/", "%", "<<", ">>", "?"])
        if op in ("/", "%"):
            return "((%s) %s (((%s) & 15) + 1))" % (a, op, b)
        if op in ("<<", ">>"):
            return "(((%s) & 0xffff) %s ((%s) & 7))" % (a, op, b)
        if op == "?":
            return "((%s) ? (%s) : (%s))" % (self.e(vars_, d + 1), a, b)
        if op in ("*", "+", "-"):
            return "(int)((unsigned)(%s) %s (unsigned)(%s))" % (a, op, b)
        return "((%s) %s (%s))" % (a, op, b)

    def func(self, i):
        r = self.r
        name = "f%d" % i
        np = r.choice([0, 1, 2, 3, 5, 7, 9])
        ps = ["p%d" % k for k in range(np)]
        body = []
        vs = list(ps)
        nl = r.randrange(1, 8)
        for k in range(nl):
            body.append("  int v%d = %s;" % (k, self.e(vs)))
            vs.append("v%d" % k)
        for _ in range(r.randrange(1, 7)):
            k = r.randrange(13)
            lv = "v%d" % r.randrange(nl)
            if k == 0:
                body.append("  for (int i = 0; i < %d; ++i) { %s += i ^ (%s); }" % (r.randrange(1, 9), lv, self.e(vs)))
            elif k == 1:
                cases = r.sample(range(0, 12), r.randrange(2, 7))
                s = "  switch ((%s) & 15) {\n" % self.e(vs)
                for c in cases:
                    s += "  case %d: %s = %s; %s\n" % (c, lv, self.e(vs), r.choice(["break;", ""]))
                s += "  default: %s ^= 3; break;\n  }" % lv
                body.append(s)
            elif k == 2:
                body.append("  if (%s) { %s = %s; } else { %s -= 1; }" % (self.e(vs), lv, self.e(vs), lv))
            elif k == 3 and self.fn:
                nm, n = r.choice(self.fn)
                body.append("  %s ^= %s(%s);" % (lv, nm, ", ".join(self.e(vs, 2) for _ in range(n))))
            elif k == 4:
                body.append("  { char buf[%d]; for (int i = 0; i < (int)sizeof(buf); ++i) buf[i] = (char)(i * %d + (%s)); int s = 0; for (int i = 0; i < (int)sizeof(buf); ++i) s += buf[i]; %s += s; }" % (r.choice([3, 16, 40, 200]), r.randrange(1, 9), lv, lv))
            elif k == 5:
                body.append("  { double d = %s; d = d * %d.5 + %d.25; %s = (int)(d - (double)(long)(d / 1000.0) * 1000.0); }" % (lv + " % 1000", r.randrange(1, 9), r.randrange(1, 50), lv))
            elif k == 6:
                body.append("  { struct S s = { %s, { 1, 2, 3, %s }, %d }; struct S t = s; t.a[%s & 3] += 5; %s += t.a[0] + t.a[1] + t.a[2] + t.a[3] + t.c + sums(t); }" % (lv, lv, r.randrange(100), lv, lv))
            elif k == 7:
                body.append("  %s += tab%d[(%s) & 7];" % (lv, r.randrange(3), self.e(vs)))
            elif k == 8:
                body.append("  { int n = ((%s) & 7) + 1; int vla[n]; for (int i = 0; i < n; ++i) vla[i] = i * n; %s += vla[n - 1]; }" % (lv, lv))
            elif k == 9:
                body.append("  %s += vsum(%d, %s);" % (lv, r.randrange(1, 4), ", ".join(self.e(vs, 2) for _ in range(4))))
            elif k == 10:
                body.append("  { const char *p = str%d; while (*p) %s = %s * 3 + *p++; }" % (r.randrange(3), lv, "(int)((unsigned)" + lv + ")" if False else "((" + lv + ") & 0xffff)"))
            elif k == 11:
                body.append("  { long q = %s; q = (q << 20) ^ (q >> 3); unsigned char uc = (unsigned char)q; short sh = (short)(q >> 8); %s ^= uc + sh; }" % (lv, lv))
            else:
                body.append("  { int j = 0; do { if (j == (%s & 3)) { ++j; continue; } if (j > 6) break; %s += j; ++j; } while (j < 9); }" % (lv, lv))
        ret = self.e(vs)
        self.fn.append((name, np))
        return "%sint %s(%s) {\n%s\n  return %s;\n}\n" % (r.choice(["static ", ""]) if i else "", name, ", ".join("int " + p for p in ps) or "void", "\n".join(body), ret)

    def program(self, nfun, headers=True):
        r = self.r
        o = []
        o.append("#include <stdio.h>\n#include <stdarg.h>\n#include <string.h>\n")
        o.append("#define M(x) ((x) + %d)\n#if defined(M) && %d > 3\n#define K %d\n#else\n#define K 7\n#endif\n" % (r.randrange(9), r.randrange(9), r.randrange(99)))
        o.append("struct S { int x; int a[4]; int c; };\n")
        for k in range(3):
            o.append("static int tab%d[8] = { %s };\n" % (k, ", ".join(str(r.randrange(-500, 500)) for _ in range(8))))
            o.append("static const char *str%d = \"%s\";\n" % (k, "".join(r.choice("abcdefgh XYZ0123") for _ in range(r.randrange(0, 60)))))
        o.append("int gbss%d[%d];\nlong glob = K;\n" % (r.randrange(9), r.choice([1, 10, 1000])))
        o.append("static int sums(struct S s) { return s.x + s.a[2]; }\n")
        o.append("static int vsum(int n, ...) { va_list ap; va_start(ap, n); int s = 0; for (int i = 0; i < n; ++i) s += va_arg(ap, int) & 0xfffff; va_end(ap); return s; }\n")
        for i in range(nfun):
            o.append(self.func(i))
        o.append("int main(void) {\n  int s = M(K);\n  (void)glob; (void)sums; (void)vsum; (void)tab0; (void)tab1; (void)tab2; (void)str0; (void)str1; (void)str2;\n")
        for nm, n in self.fn[-40:]:
            o.append("  s ^= %s(%s);\n" % (nm, ", ".join(str(r.randrange(-50, 50)) for _ in range(n))))
        o.append("  printf(\"%d %s\\n\", s, str0);\n  return s & 63;\n}\n")
        return "".join(o)


def program(rng, nfun):
    return G(rng).program(nfun)


def asm_program(rng, n):
    """An assembly source (x86-64, as accepted by the bundled assembler) with n labels."""
    o = ["\t.text\n\t.globl main\nmain:\n"]
    for i in range(n):
        o.append("\tmov $%d, %%eax\n\tadd $%d, %%eax\nL%d:\n" % (rng.randrange(1000), rng.randrange(100), i))
    o.append("\tret\n\t.data\n")
    for i in range(n // 4):
        o.append("d%d:\t.long %d\n\t.quad L%d\n\t.ascii \"x%d\\0\"\n" % (i, rng.randrange(1 << 30), rng.randrange(n), i))
    return "".join(o)
