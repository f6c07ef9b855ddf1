"""Seeded C sources that walk the corners of the compiler's own use of its library (C19, C20): literals, escapes, macros, initialisers, declarations, diagnostics.
They are compiled, not run: only the output of two builds of one compiler is compared."""
import math


class L:
    def __init__(self, rng):
        self.r = rng
        self.n = 0

    def nm(self, p="x"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def digits(self, n, s="0123456789"):
        return "".join(self.r.choice(s) for _ in range(n))

    def fl(self):
        """A floating literal: exact ones, arbitrary ones, and ones next to the midpoint of two doubles."""
        r = self.r
        k = r.randrange(4)
        if k == 0:
            return self.fl_exact()
        if k == 1:
            t = "%s.%s" % (self.digits(r.choice([1, 3, 10, 20])), self.digits(r.choice([1, 3, 10, 30])))
            t += r.choice(["", "", "e%d" % r.randrange(-30, 30), "E-%d" % r.randrange(300, 340), "e+%d" % r.randrange(250, 309)])
        elif k == 2:
            # m * 2^e with 54 bits or more, and a hair beside it
            e = r.randrange(-70, 12)
            m = (r.randrange(1 << 52, 1 << 53) << 12) + r.choice([0x800, 0x800, 0x7ff, 0x801, r.randrange(1 << 12)])
            d = max(0, 12 - e)
            v = m * (1 << (e - 12) if e >= 12 else 1) * 10 ** d // (1 << d if e < 12 else 1) if d <= 30 else m * 5 ** d
            t = str(v).rjust(d + 1, "0")
            t = t[:-d] + "." + t[-d:] if d else t + "."
            t += r.choice(["", "", "1", "00000000000000000001"])
        else:
            t = r.choice(["0.1", "0.2", "0.3", "1e-7", "3.14159265358979", "2.718281828459045", "1e23", "8.41e21", "9007199254740993.0", "4.9406564584124654e-324", "2.4703282292062327e-324", "2.4703282292062328e-324",
                          "2.2250738585072011e-308", "1.7976931348623158e308", "1.00000000000000011102230246251565405", "0.500000000000000166533453693773481063544750213623046875", "1e-400", "0.1e1", "123456789012345678901234567890.0"])
        return t + r.choice(["", "", "", "f" if len(t) < 12 and "e" not in t.lower() else "", "L"])

    def fx(self, d=0):
        """A constant expression of floating and integer operands that does not divide by zero or overflow a conversion."""
        r = self.r
        k = r.randrange(10)
        if d > 3 or k < 3:
            return r.choice([self.fl_small(), self.fl_small(), "(double)%s" % self.it(), "(float)%s" % self.fl_small(), str(r.randrange(1000))]) if d else self.fl_small()
        if k < 8:
            return "(%s %s %s)" % (self.fx(d + 1), r.choice("+-*"), self.fx(d + 1))
        if k == 8:
            return "(%s / %s)" % (self.fx(d + 1), r.choice(["3.0", "7", "0.1", "1e3", "-10.0f"]))
        return r.choice(["- %s", "+ %s", "(1 ? %s : 2.0)", "(double)%s", "(float)%s", "(%s)"]) % self.fx(d + 1)

    def near(self):
        """A sum whose exact value lies close to the midpoint of two doubles."""
        r = self.r
        a = r.choice([1, -1]) * r.uniform(0.001, 1000)
        b = math.ulp(a) * r.choice([0.5, 1.5, 2.5]) * (1 + r.choice([0, 1, -1]) * 2.0 ** -r.randrange(12, 40))
        return "%.17g %s %.17g%s" % (a, r.choice("+-"), b, r.choice(["", "", "L"]))

    def fl_small(self):
        r = self.r
        return "%s.%s%s" % (r.randrange(1000), self.digits(r.choice([1, 2, 5, 17])), r.choice(["", "", "f", "L", "e-3", "e5"]))

    def fl_exact(self):
        """A floating literal that a double holds exactly."""
        r = self.r
        k = r.randrange(9)
        b = r.choice([1, 4, 10, 20, 40])
        if k < 3:
            n = r.choice([0, 1, 2, 3, 5, 9])
            m = r.randrange(1 << min(b, 52))
            t = str(m * 5 ** n).rjust(n + 1, "0")
            t = (t[:-n] + "." + t[-n:]) if n else t + "."
            if t.startswith("0.") and r.random() < 0.5:
                t = t[1:]
            if r.random() < 0.3 and "." in t:
                t += "0" * r.choice([1, 5, 30])
        elif k == 3:
            t = "%d%s%s%d" % (r.randrange(1, 1000), r.choice(["", ".0", ".5", "."]), r.choice(["e", "E", "e+", "E+"]), r.choice([1, 2, 5, 9]))
        elif k == 4:
            n = r.randrange(1, 8)
            t = "%de-%d" % (r.randrange(1, 1 << 20) * 5 ** n, n)
        elif k == 5:
            t = r.choice(["0.0", "1.0", "0.5", "1e10", "0e0", "1E3", "123456789.0", "4294967296.0", "9007199254740992.0", "1e22", "0.0009765625", ".5e1", "5.e1", "0e-5", "18446744073709551616.0", "1.7976931348623157081e308",
                          "1.1754943508222875079687365372222456778186655567720875215087517062784172594547271728515625e-38"])
            if t.endswith("e308"):
                t = "1797693134862315708145274237317043567980705675258449965989174768031572607800285387605895586327668781715404589535143824642343213268894641827684675467035375169860499105765512820762454900903893289440758685084551339423045832369032229481658085593321233477404797926204144723168738177180919299881250404026184124858368.0"
                return t
        else:
            t = "%d.%s" % (r.randrange(1000), r.choice(["0", "5", "25", "125", "0625"]))
        return t + r.choice(["", "", "", "f" if b <= 10 and len(t) < 8 else "", "L"])

    def it(self):
        r = self.r
        k = r.randrange(9)
        s = r.choice(["", "", "", "u", "U", "l", "L", "ul", "UL", "ll", "LL", "ull", "ULL"])
        if k == 0:
            return "0x%x%s" % (r.randrange(1 << r.choice([4, 8, 16, 31, 32, 33, 63])), s)
        if k == 1:
            return "0%o%s" % (r.randrange(1 << r.choice([3, 8, 16, 31])), s)
        if k == 2:
            return "0X%X%s" % (r.randrange(1 << r.choice([4, 8, 16, 31, 32])), s)
        if k == 3:
            return r.choice(["0", "1", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "0x7fffffff", "0x80000000", "0xffffffff", "0xffffffffffffffff", "0x8000000000000000", "00", "017"]) + r.choice(["", "L", "ULL"])
        if k == 4:
            return self.ch()
        return "%d%s" % (r.randrange(1 << r.choice([3, 8, 20, 31])), s)

    def esc(self):
        r = self.r
        return r.choice(["\\n", "\\t", "\\r", "\\0", "\\\\", "\\\"", "\\'", "\\a", "\\b", "\\f", "\\v", "\\x41", "\\x7f", "\\xff", "\\101", "\\12", "\\377", "\\1", "\\x0", "a", "b", "Z", " ", "%", "%d", "?", "/", "~", "é", "日"])

    def ch(self):
        r = self.r
        return "'%s'" % r.choice([c for c in ("\\n", "\\t", "\\0", "\\\\", "\\'", "\\\"", "\\x41", "\\101", "\\377", "\\xff", "a", "Z", "0", " ", "%", "\"", "~")])

    def st(self, wide=False):
        r = self.r
        parts = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            parts.append(("L" if wide else "") + '"' + "".join(self.esc() for _ in range(r.choice([0, 1, 3, 10, 40, 200]))) + '"')
        return r.choice([" ", "\n"]).join(parts)

    def ce(self, d=0):
        """constant integer expression"""
        r = self.r
        if d > 2 or r.random() < 0.35:
            return self.it()
        a, b = self.ce(d + 1), self.ce(d + 1)
        k = r.randrange(9)
        if k < 4:
            return "(%s %s %s)" % (a, r.choice(["+", "-", "*", "&", "|", "^"]), b)
        if k == 4:
            return "(%s %s %d)" % (a, r.choice(["<<", ">>"]), r.randrange(8))
        if k == 5:
            return "(%s %s ((%s & 7) + 1))" % (a, r.choice(["/", "%"]), b)
        if k == 6:
            return "(%s %s %s ? %s : %s)" % (a, r.choice(["<", "<=", "==", "!=", ">", "&&", "||"]), b, self.it(), self.it())
        if k == 7:
            return "(%s%s)" % (r.choice(["-", "~", "!", "+"]), a)
        return r.choice(["(int)sizeof(%s)" % r.choice(["int", "long", "char*", "struct A", "double[3]", "\"abc\""]), "(unsigned char)(%s)" % a, "(short)(%s)" % a, "(long long)(%s)" % a])

    def item(self):
        r = self.r
        k = r.randrange(36)
        x = self.nm()
        if k == 0:
            return "double %s = %s;\n" % (x, self.fl())
        if k == 1:
            return "float %s[] = {%s};\n" % (x, ", ".join(("-" if r.random() < 0.3 else "") + self.fl() for _ in range(r.randrange(1, 8))))
        if k == 2:
            return "%s %s = %s;\n" % (r.choice(["int", "long", "long long", "unsigned long long", "char", "short", "unsigned", "_Bool" if False else "int"]), x, self.ce())
        if k == 3:
            return "const char *%s = %s;\n" % (x, self.st())
        if k == 4:
            return "char %s[%s] = %s;\n" % (x, r.choice(["", "", "600"]), self.st())
        if k == 5:
            return "static const struct A %s[] = {{%s, %s}, {.b = %s}, [4] = {%s}};\nconst struct A *p%s = &%s[2];\n" % (x, self.it(), self.fl(), self.fl(), self.it(), x, x)
        if k == 6:
            return "enum { %s };\n" % ", ".join(self.nm("E") + r.choice(["", " = %d" % r.randrange(-9, 999)]) for _ in range(r.randrange(1, 12)))
        if k == 7:
            return "struct B%s { %s };\nint %s = (int)sizeof(struct B%s);\n" % (x, " ".join("%s m%d%s;" % (t, i, r.choice(["", "", "[%d]" % r.randrange(1, 9)])) for i, t in enumerate(r.choice(["char", "short", "int", "long", "double", "float", "char*", "struct A"]) for _ in range(r.randrange(1, 8)))), x, x)
        if k == 8:
            return "struct F%s { %s };\nint %s(struct F%s *p) { p->f0 = %d; return p->f0 + (int)sizeof(*p); }\n" % (x, " ".join("%s f%d : %d;" % (r.choice(["int", "unsigned"]), i, r.randrange(2, 31)) for i in range(r.randrange(1, 7))), x, x, r.randrange(2))
        if k == 9:
            return "#define %s(a, b) a ## b + sizeof(#a) + %s\nint i%s = %s(1, 2);\n" % (x, self.it(), x, x)
        if k == 10:
            return "#define %s(a, ...) { a, __VA_ARGS__ }\nint v%s[] = %s(%s);\n" % (x, x, x, ", ".join(self.it() for _ in range(r.randrange(2, 20))))
        if k == 11:
            return "#if %s\nint %s = 1;\n#elif defined(%s) || %s\nint %s = 2;\n#else\nint %s = 3;\n#endif\n" % (r.choice(["1", "0", "%d > %d" % (r.randrange(9), r.randrange(9)), "defined(__XCC)", "!defined(ZZ) && %d" % r.randrange(3), "(%d + %d) * 2 == %d" % (r.randrange(5), r.randrange(5), r.randrange(20)), "'a' == %d" % r.choice([97, 98])]), x, x, r.choice(["0", "1", "-1 < 0", "0x10 == 16"]), x, x)
        if k == 12:
            return "int %s(int x) { switch (x) { %s default: return %s; } }\n" % (x, " ".join("case %d: return %s;" % (c, self.ce(2)) for c in sorted(r.sample(range(-50, r.choice([100, 5000])), r.choice([2, 5, 20])))), self.it())
        if k == 13:
            return "int %s(%s) { return %s; }\n" % (x, ", ".join("int a%d" % i for i in range(8)), " ".join("a%d %s" % (i, r.choice("+-*&|^") if i < 7 else "") for i in range(8)))
        if k == 14:
            return "double %s(double x) { return x * %s + (x > %s ? %s : -%s) / (x - %s); }\n" % (x, self.fl(), self.fl(), self.fl(), self.fl(), self.fl())
        if k == 15:
            return "int %s(const char *s) { return s[%d] == %s || *s++ == %s; }\n" % (x, r.randrange(9), self.ch(), self.ch())
        if k == 16:
            return "/* %s */ // %s \\\n continued\nint %s;\n" % (self.st().replace("*/", ""), self.st().replace("\n", " ").rstrip("\\"), x)
        if k == 17:
            return "#line %d \"%s.c\"\nint l%s = __LINE__; const char *f%s = __FILE__;\n" % (r.randrange(1, 99999), self.nm("file"), x, x)
        if k == 18:
            d = r.choice([1, 3, 10, 40])
            return "int %s(int x) { return %sx%s; }\n" % (x, "(" * d, " + 1)" * d)
        if k == 19:
            n = r.choice([10, 60, 200])
            return "int %s = 3;\n" % (x + "_" + "abcdefghij" * (n // 10))
        if k == 20:
            return "int (*%s(int a))(double, char*);\nstatic int (*t%s[])(int) = {0, 0};\nint u%s(void) { return (int)sizeof(t%s); }\n" % (x, x, x, x)
        if k == 21:
            return "void %s(void) { static int c = %s; static const char *s[] = {%s}; c += s[0][0]; }\n" % (x, self.it(), ", ".join(self.st() for _ in range(r.randrange(1, 4))))
        if k == 22:
            return "union U%s { int i; float f; char c[%d]; } %s = {%s};\n" % (x, r.randrange(1, 20), x, self.it())
        if k == 23:
            return "int %s[%d][%d] = {{%s}, {%s}};\n" % (x, r.randrange(2, 5), r.randrange(3, 6), ", ".join(self.it() for _ in range(3)), self.it())
        if k == 24:
            return "#define OBJ%s %s\n#undef OBJ%s\n#define OBJ%s OBJ%s + 1\nint %s = sizeof(\"OBJ%s\");\n" % (x, self.it(), x, x, x, x, x)
        if k == 26:
            ts = [(t, n) for t, n in (("int", 32), ("unsigned", 32), ("long long", 64), ("unsigned long long", 64), ("short", 16), ("unsigned char", 8))]
            fs = [(i, t, r.randrange(1, n + 1)) for i, (t, n) in enumerate(r.choice(ts) for _ in range(r.randrange(1, 6)))]
            v = "%s %s" % ("struct W" + x, x)
            return "struct W%s { %s };\n%s = {%s};\nlong long %s_(struct W%s *p) { p->b0 = %s; %s; return p->b0%s; }\n" % (
                x, " ".join("%s b%d : %d;" % (t, i, w) for i, t, w in fs), v, ", ".join(self.it() for _ in fs), x, x, self.it(), r.choice(["++p->b0", "p->b0 += %s" % self.it(), "p->b0 <<= 1", "p->b0 = -p->b0"]), "".join(" + p->b%d" % i for i, _, _ in fs[1:]))
        if k == 27:
            return "double %s = __builtin_nan(\"%s\");\n" % (x, r.choice(["", "0", "1", "0x%x" % r.randrange(1 << r.choice([4, 20, 31, 33, 51, 52, 60])), "%d" % r.randrange(1 << r.choice([4, 32, 50])), "077"]))
        if k == 28:
            t = r.choice(["long long", "unsigned long long", "int", "unsigned", "unsigned char", "short", "signed char", "double", "float", "_Bool"])
            u = r.choice(["long long", "unsigned long long", "double", "int", "float"])
            if t in ("double", "float") or u in ("double", "float"):
                # conversions between integers and floating numbers: in range and exact
                c = "(%s)%s" % (t, r.choice([str(r.randrange(100)), "3.75", "0.0", "100.5", "(7 + %d)" % r.randrange(20)]))
                return "%s %s = %s;\n%s %s_(%s a) { return a * %d + %s; }\n" % (u, x, c, u, x, t, r.randrange(1 << 20), c)
            c = r.choice(["(%s)%s" % (t, self.it()), "(%s)(%s)" % (t, self.ce())])
            return "%s %s = %s;\n%s %s_(%s a) { return a * %s + %s; }\n" % (u, x, c, u, x, t, self.it(), c)
        if k == 29:
            t = r.choice(["long long", "unsigned long long", "int", "unsigned"])
            n = r.choice([2, 4, 12])
            b = r.choice([0, -5, 1 << 31, 1 << 32, -(1 << 31), (1 << 63) - 60]) if "long" in t else r.choice([0, -5, (1 << 31) - 80])
            return "int %s(%s x) { switch (x) { %s } return -1; }\n" % (x, t, " ".join("case %d%s: return %d;" % (c, "LL" if "long" in t else "", r.randrange(99)) for c in sorted(r.sample(range(max(b, 0) if "unsigned" in t else b, (max(b, 0) if "unsigned" in t else b) + 50), n))))
        if k == 30:
            return "%s %s = %s;\n" % (r.choice(["double", "float", "long double"]), x, self.fx()) + "int %s_[] = {%s, sizeof(%s)};\n" % (x, ", ".join("%s %s %s" % (self.fx(2), r.choice(["<", ">", "==", "!=", "<=", ">="]), self.fx(2)) for _ in range(3)), self.fx())
        if k == 31:
            return "%s %s(%s a, %s b) { return a * %s %s b / %s + (b > %s); }\n" % (r.choice(["double", "float", "int"]), x, r.choice(["double", "float", "int"]), r.choice(["double", "float", "long long"]), self.fx(), r.choice("+-"), self.fl_small(), self.fx())
        if k == 32:
            t = r.choice(["int", "long long", "unsigned", "short", "unsigned long long", "long"])
            return "%s %s[] = {%s};\n" % (t, x, ", ".join("(%s)%s" % (t, r.choice(["%s", "(%s + 1)", "(%s * 2.5)"]) % ("%d.%s" % (r.randrange(3000), self.digits(5)))) for _ in range(4)))
        if k == 34:
            return "double %s[] = {%s};\n" % (x, ", ".join(self.near() for _ in range(r.randrange(1, 12))))
        if k == 35:
            return "double %s(double x) { return (x < %s ? %s : x) + (%s * %s) + %s / %s; }\n" % (x, self.near(), self.near(), self.fl_small(), self.fl_small(), self.fl_small(), self.fl_small().replace("0.0", "0.7"))
        if k == 33:
            return "double %s[] = {%s};\n" % (x, ", ".join(r.choice(["1.0 / 0.0", "-1.0 / 0.0", "0.0 / 0.0", "-0.0", "0.0 * -1", "1e308 * 10", "__builtin_inf()", "-__builtin_inf()", "%s / %s" % (self.fl_small(), self.fl_small()), "1 / 3.0", "-(0.0 / 0.0)"]) for _ in range(3)))
        return "typedef %s T%s;\nT%s *%s(T%s a, T%s *b) { *b = a; return b + %d; }\n" % (r.choice(["int", "unsigned char", "struct A", "long", "float", "char*"]), x, x, x, x, x, r.randrange(9))

    def bad(self):
        r = self.r
        return r.choice(["int e = ;\n", "int f( { }\n", "char c = 'ab;\n", "char *s = \"abc\n", "#if (1\n#endif\n", "#error %s\n" % self.st().replace("\n", " "), "struct A2 { int x }; \n", "int g(void) { return u%d; }\n" % r.randrange(99),
                         "#include \"no%d.h\"\n" % r.randrange(9), "int a[-1];\n", "#else\n", "int h(int x) { x(); }\n", "/* open\n", "int z = 0x;\n", "double q = 1e;\n", "int big = 99999999999999999999999;\n", "@\n"])

    def source(self, n):
        r = self.r
        o = ["struct A { int a; double b; };\n"]
        for _ in range(n):
            o.append(self.item())
        if r.random() < 0.12:
            o.insert(r.randrange(1, len(o) + 1), self.bad())
        s = "".join(o)
        if r.random() < 0.1:
            s = s.replace("\n", "\r\n")
        if r.random() < 0.1:
            s = s.rstrip("\n")
        return s


def source(rng, n):
    return L(rng).source(n)
