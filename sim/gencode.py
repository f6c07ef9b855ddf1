"""Seeded generator of C programs for C21: short running, every construct that moves the stack pointer or keeps values on the stack; no undefined behaviour, output depends on nothing but the text."""

PRE = r'''#include <alloca.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned int u;
typedef long long ll;
struct S1 { char c; };
struct S2 { int a; short b; };
struct S3 { long a, b; };
struct S4 { int a[7]; double d; };
struct S5 { char t[40]; int n; };
struct BF { int a : 5; unsigned b : 11; int c : 3; unsigned d : 20; };
static u acc = 12345u;
static void mix(u x) { acc = (acc ^ x) * 16777619u + (acc >> 7); }
static void mixd(double d) { if (d > 1e9 || d < -1e9) { mix(d > 0 ? 77u : 78u); return; } mix((u)(ll)d); mix((u)(ll)(d * 16.0)); }
'''


class P:
    def __init__(self, rng, exact=False):
        self.r = rng
        self.exact = exact      # constant expressions exact in a double
        self.n = 0
        self.fns = []           # (name, [param types], return type)

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def ie(self, vs, d=0):
        """An int expression over the int variables vs; unsigned arithmetic, no traps."""
        r = self.r
        k = r.randrange(12)
        if d > 3 or k < 3 or not vs:
            return r.choice(vs) if vs and r.random() < 0.75 else "%d" % r.randrange(0, 2000)
        a, b = self.ie(vs, d + 1), self.ie(vs, d + 1)
        if k < 6:
            return "(int)((u)(%s) %s (u)(%s))" % (a, r.choice("+-*&|^"), b)
        if k == 6:
            return "(int)((u)(%s) %s ((u)(%s) %% 30u + 1u))" % (a, r.choice("/%"), b)
        if k == 7:
            return "(int)((u)(%s) %s ((%s) & 15))" % (a, r.choice(["<<", ">>"]), b)
        if k == 8:
            return "((%s) %s (%s))" % (a, r.choice(["<", "<=", "==", "!=", ">", "&&", "||"]), b)
        if k == 9:
            return "((%s) ? (%s) : (%s))" % (self.ie(vs, d + 2), a, b)
        if k == 10:
            return "(int)((ll)(%s) * %dLL %% 100003)" % (a, r.randrange(1, 99999))
        c = [f for f in self.fns if f[2] == "int" and all(p == "int" for p in f[1])]
        if c and d < 3:
            f = r.choice(c[-6:])
            return "%s(%s)" % (f[0], ", ".join(self.ie(vs, max(d + 1, 3)) for _ in f[1]))
        return a

    def de(self, vs, ds, d=0):
        r = self.r
        k = r.randrange(6)
        if d > 2 or k < 2:
            return r.choice(ds) if ds and r.random() < 0.7 else "%d.%s" % (r.randrange(-20, 20), r.choice(["0", "5", "25", "125"]))
        if k == 2:
            return "(double)((%s) %% 997)" % self.ie(vs, 2)
        a, b = self.de(vs, ds, d + 1), self.de(vs, ds, d + 1)
        if k == 3 and not self.exact:
            return "((%s) / ((%s) * (%s) + 1.0))" % (a, b, b)
        return "((%s) %s (%s) * 0.5)" % (a, r.choice("+-"), b)

    def arg(self, t, vs, ds):
        r = self.r
        if t == "int":
            return self.ie(vs, 2)
        if t in ("char", "short"):
            return "(%s)(%s)" % (t, self.ie(vs, 2))
        if t in ("ll", "long"):
            return "(%s)(%s) * %d" % (t, self.ie(vs, 2), r.randrange(1, 9999))
        if t in ("double", "float"):
            return "(%s)(%s)" % (t, self.de(vs, ds, 1))
        if t == "struct S1":
            return "(struct S1){(char)(%s)}" % self.ie(vs, 3)
        if t == "struct S2":
            return "(struct S2){%s, (short)(%s)}" % (self.ie(vs, 3), self.ie(vs, 3))
        if t == "struct S3":
            return "(struct S3){%s, %s}" % (self.ie(vs, 3), self.ie(vs, 3))
        if t == "struct S4":
            return "(struct S4){{%s}, %s}" % (", ".join(self.ie(vs, 3) for _ in range(7)), self.de(vs, ds, 2))
        if t == "struct S5":
            return "(struct S5){\"%s\", %s}" % ("".join(r.choice("abcXYZ 019") for _ in range(r.randrange(39))), self.ie(vs, 3))
        raise KeyError(t)

    def use(self, t, v):
        if t in ("double", "float"):
            return "mixd(%s);" % v
        if t == "struct S1":
            return "mix((u)%s.c);" % v
        if t == "struct S2":
            return "mix((u)%s.a); mix((u)%s.b);" % (v, v)
        if t == "struct S3":
            return "mix((u)%s.a); mix((u)%s.b);" % (v, v)
        if t == "struct S4":
            return "for (int i = 0; i < 7; ++i) mix((u)%s.a[i]); mixd(%s.d);" % (v, v)
        if t == "struct S5":
            return "for (int i = 0; i < 40; ++i) mix((u)%s.t[i]); mix((u)%s.n);" % (v, v)
        return "mix((u)%s);" % v

    TYPES = ["int"] * 6 + ["char", "short", "ll", "long", "double", "double", "float", "struct S1", "struct S2", "struct S3", "struct S4", "struct S5"]

    def stmts(self, vs, ds, n, depth=0):
        r = self.r
        o = []
        ind = "  " * (depth + 1)
        for _ in range(n):
            k = r.randrange(22)
            v = r.choice(vs)
            if k == 0:
                o.append("for (int i = 0; i < %d; ++i) { %s = (int)((u)%s + (u)i * (u)(%s)); }" % (r.randrange(1, 6), v, v, self.ie(vs, 2)))
            elif k == 1 and depth < 2:
                o.append("if (%s) {\n%s%s} else {\n%s%s}" % (self.ie(vs, 1), self.stmts(vs, ds, 2, depth + 1), ind, self.stmts(vs, ds, 1, depth + 1), ind))
            elif k == 2:
                o.append("switch ((u)(%s) %% 9u) { %s default: %s = %s; }" % (self.ie(vs), " ".join("case %d: %s = %s; %s" % (c, r.choice(vs), self.ie(vs, 1), r.choice(["break;", ""])) for c in r.sample(range(9), r.randrange(2, 8))), v, self.ie(vs, 2)))
            elif k == 3:
                n2 = r.choice([1, 8, 13, 64, 130, 300])
                o.append("{ unsigned char *a = alloca((u)(%s) %% %du + 1u); int n = (int)((u)(%s) %% 7u) + 1; if (n > 1) n = 1; for (int i = 0; i < n; ++i) a[i] = (unsigned char)(i + %s); %s ^= a[n - 1]; }" % (self.ie(vs, 3), n2, self.ie(vs, 3), v, v))
            elif k == 4:
                o.append("{ int n = (int)((u)(%s) %% 20u) + 1; int vla[n]; for (int i = 0; i < n; ++i) vla[i] = i * %s %% 1000; mix((u)vla[n - 1]); { int m = n * 2; char vb[m]; memset(vb, %d, (size_t)m); mix((u)vb[m - 1]); } %s ^= vla[n / 2]; }" % (self.ie(vs, 3), "n", r.randrange(99), v))
            elif k == 5:
                o.append("for (int i = 0; i < 3; ++i) { int n = i * %d + 1; char vb[n]; vb[0] = (char)i; vb[n - 1] = (char)(i + 1); mix((u)vb[0] + (u)vb[n - 1]); }" % r.choice([3, 17, 90]))
            elif k in (6, 7, 8) and self.fns:
                f = r.choice(self.fns[-8:])
                call = "%s(%s)" % (f[0], ", ".join(self.arg(p, vs, ds) for p in f[1]))
                if f[2].startswith("struct"):
                    o.append("{ %s q = %s; %s }" % (f[2], call, self.use(f[2], "q")))
                elif f[2] == "void":
                    o.append(call + ";")
                else:
                    o.append(self.use(f[2], call))
            elif k == 9:
                o.append("{ char b[100]; int l = snprintf(b, sizeof(b), \"%%d|%%x|%%s|%%5.2f|%%c\", %s, (u)(%s), \"%s\", %s, 'a' + (int)((u)%s %% 26u)); for (int i = 0; i < l && i < 99; ++i) mix((u)b[i]); }" % (self.ie(vs, 2), self.ie(vs, 2), r.choice(["", "x", "string"]), self.de(vs, ds, 2), v))
            elif k == 10:
                ts = [r.choice(["i", "d", "l"]) for _ in range(r.randrange(1, 14))]
                a = [{"i": self.ie(vs, 3), "d": self.de(vs, ds, 2), "l": "(ll)(%s)" % self.ie(vs, 3)}[t] for t in ts]
                o.append("%s ^= vmix(\"%s\", %s);" % (v, "".join(ts), ", ".join(a)))
            elif k == 11:
                o.append("{ jmp_buf jb; volatile int c = 0; int e = setjmp(jb); mix((u)e); if (++c < %d) jump(jb, c); }" % r.randrange(1, 4))
            elif k == 12:
                o.append("{ int a[%d]; for (int i = 0; i < (int)(sizeof(a) / sizeof(*a)); ++i) a[i] = (int)(((u)i * 7919u + (u)%s) %% 100u); qsort(a, sizeof(a) / sizeof(*a), sizeof(*a), cmp); for (int i = 0; i < (int)(sizeof(a) / sizeof(*a)); ++i) mix((u)a[i]); }" % (r.choice([2, 5, 9]), v))
            elif k == 13:
                t = r.choice(["struct S2", "struct S3", "struct S4", "struct S5"])
                o.append("{ %s x = %s, y; y = x; %s p = &y; %s }" % (t, self.arg(t, vs, ds), t + " *", self.use(t, "(*p)")))
            elif k == 14:
                o.append("{ struct BF f = {0}; f.a = (%s) & 7; f.b = (u)(%s) & 2047u; f.c ^= 1; f.d += (u)%s & 1023u; mix((u)f.a + f.b + (u)f.c + f.d); }" % (self.ie(vs, 3), self.ie(vs, 3), v))
            elif k == 15:
                dv = r.choice(ds) if ds else None
                if dv:
                    o.append("%s = %s;" % (dv, self.de(vs, ds)))
                else:
                    o.append("mixd(%s);" % self.de(vs, ds))
            elif k == 16:
                o.append("{ char *p = malloc((u)(%s) %% 200u + 8u); if (p != NULL) { strcpy(p, \"%s\"); mix((u)strlen(p)); p = realloc(p, 300); if (p != NULL) mix((u)p[0]); free(p); } }" % (self.ie(vs, 3), r.choice(["", "a", "abcdefg"])))
            elif k == 17:
                o.append("{ int (*fp)(int, int) = (%s) & 1 ? add2 : sub2; %s = fp(%s, fp(%s, %s)); }" % (self.ie(vs, 2), v, self.ie(vs, 2), self.ie(vs, 2), self.ie(vs, 2)))
            elif k == 18:
                o.append("{ int k = 0; again: mix((u)k); if (++k < %d) goto again; }" % r.randrange(1, 5) if depth == 0 and "again" not in "".join(o) and not self.goto else "mix((u)%s);" % v)
                if depth == 0:
                    self.goto = True
            elif k == 19:
                o.append("mix((u)strtol(\"%d\", NULL, %d)); mixd(strtod(\"%d.%d\", NULL));" % (r.randrange(9999), r.choice([10, 16]), r.randrange(99), r.randrange(99)))
            elif k == 20:
                o.append("%s = rec(%d, %s);" % (v, r.randrange(1, 6), self.ie(vs, 2)))
            else:
                o.append("%s = %s;" % (v, self.ie(vs)))
        return "".join(ind + x + "\n" for x in o)

    def func(self):
        r = self.r
        nm = self.name("f")
        if r.random() < 0.4:
            pt = ["int"] * r.choice([0, 1, 2, 4, 6, 7, 9])
            rt = "int"
        else:
            pt = [r.choice(self.TYPES) for _ in range(r.choice([1, 3, 5, 8, 12]))]
            rt = r.choice(["int", "double", "float", "ll", "char", "void", "struct S1", "struct S2", "struct S3", "struct S4", "struct S5"])
        ps = ["p%d" % i for i in range(len(pt))]
        vs = [p for p, t in zip(ps, pt) if t == "int"]
        ds = [p for p, t in zip(ps, pt) if t == "double"]
        o = []
        self.goto = False
        for i in range(r.randrange(1, 6)):
            o.append("  int v%d = %s;\n" % (i, self.ie(vs)))
            vs.append("v%d" % i)
        if r.random() < 0.5:
            o.append("  double d0 = %s;\n" % self.de(vs, ds))
            ds.append("d0")
        for p, t in zip(ps, pt):
            o.append("  " + self.use(t, p) + "\n")
        o.append(self.stmts(vs, ds, r.choice([0, 1, 2, 4])))
        if rt != "void":
            o.append("  return %s;\n" % self.arg(rt, vs, ds))
        self.fns.append((nm, pt, rt))
        return "%s%s %s(%s) {\n%s}\n" % (r.choice(["static ", "", "static inline "]), rt, nm, ", ".join("%s %s" % x for x in zip(pt, ps)) or "void", "".join(o))

    def program(self, nf):
        o = [PRE,
             "static int add2(int a, int b) { return (int)((u)a + (u)b); }\nstatic int sub2(int a, int b) { return (int)((u)a - (u)b); }\n",
             "static int cmp(const void *a, const void *b) { return *(const int*)a - *(const int*)b; }\n",
             "static void jump(jmp_buf jb, int v) { char pad[50]; memset(pad, v, sizeof(pad)); mix((u)pad[49]); longjmp(jb, v + 1); }\n",
             "static int rec(int n, int x) { char pad[%d]; int y = (int)((u)x * 3u + (u)n); pad[0] = (char)x; pad[sizeof(pad) - 1] = (char)y; if (n > 0) y ^= rec(n - 1, y); return (int)((u)y + (u)pad[0] + (u)pad[sizeof(pad) - 1]); }\n" % self.r.choice([1, 7, 16, 100, 250]),
             "static int vmix(const char *t, ...) { va_list ap, aq; u s = 1; va_start(ap, t); va_copy(aq, ap); for (const char *p = t; *p != '\\0'; ++p) { switch (*p) { case 'i': s = s * 31u + (u)va_arg(ap, int); break; case 'l': s = s * 37u + (u)va_arg(ap, ll); break; default: mixd(va_arg(ap, double)); break; } } va_end(ap); if (*t == 'i') s ^= (u)va_arg(aq, int); va_end(aq); return (int)s; }\n"]
        for _ in range(nf):
            o.append(self.func())
        self.goto = False
        o.append("int main(int argc, char *argv[]) {\n  int v0 = argc, v1 = 7;\n  double d0 = 1.5;\n  mix((u)argv[0][0]);\n")
        for f in self.fns[-6:]:
            call = "%s(%s)" % (f[0], ", ".join(self.arg(p, ["v0", "v1"], ["d0"]) for p in f[1]))
            o.append("  { %s q = %s; %s }\n" % (f[2], call, self.use(f[2], "q")) if f[2].startswith("struct") else "  %s;\n" % call if f[2] == "void" else "  %s\n" % self.use(f[2], call))
        o.append(self.stmts(["v0", "v1"], ["d0"], self.r.choice([1, 4, 8])))
        o.append("  printf(\"%u %d %d\\n\", acc, v0, v1);\n  mixd(d0);\n  return (int)(acc % 64u);\n}\n")
        return "".join(o)


def program(rng, nf, exact=False):
    return P(rng, exact).program(nf)
