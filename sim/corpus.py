"""Corner-case C fragments: `@` is replaced by a number, so that any subset (with repetitions) makes one source file. Each defines `int c@(int x)`."""

HEAD = ["#include <stddef.h>\n#include <stdint.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdarg.h>\n#include <stdbool.h>\n"]

F = [
    # static locals, nested scopes with the same names
    "int c@(int x) { static int n = 3; static const char *t[] = {\"a@\", \"b\", \"a@\"}; { static int n = 5; n += x; x = n; } n += x; return n + t[x & 1][0]; }\n",
    # designated and partial initialisers
    "struct D@ { int a, b[4]; struct { char c; short d; } e; union { int i; char q[8]; } u; const char *s; };\nstatic struct D@ d@ = { .b = { [2] = 7, 8 }, .e.d = -3, .u.q = \"xy\", .s = \"str@\" };\nstruct D@ dd@[] = { [1] = { 1, { 2 } }, { .a = 9 } };\nint c@(int x) { struct D@ l = { .a = x, .b[1] = 4 }; return l.b[1] + d@.b[3] + dd@[2].a + d@.u.q[1] + (int)sizeof(dd@); }\n",
    # character arrays larger and exactly as large as the string
    "char s@[20] = \"abc\"; static char t@[3] = \"xyz\"; const char u@[] = \"pq\\0r\\xff\\377\\n\\t\\\"\\\\\";\nint c@(int x) { char l[12] = \"loc\"; char m[] = {'a', 'b', 0}; return s@[x & 15] + t@[x % 3 & 1] + u@[3] + l[11] + m[1]; }\n",
    # bit-fields
    "struct B@ { unsigned a : 3; int b : 7; unsigned : 0; unsigned char c : 2; long long d : 33; };\nstatic struct B@ b@ = { 5, -9, 3, 123456789 };\nint c@(int x) { struct B@ t = b@; t.a += (unsigned)x; t.b ^= x; t.d -= x; return (int)t.a + t.b + (int)t.c + (int)(t.d & 0xff); }\n",
    # addresses as initialisers
    "static int arr@[5] = {1, 2, 3}; int *p@ = &arr@[2]; int **q@ = &p@; static char *e@ = (char*)arr@ + 5; int c@(int x); int (*fp@[])(int) = { c@, NULL, &c@ };\nint c@(int x) { return x > 0 ? fp@[0](x - 100000) : *p@ + **q@ + (int)(e@ - (char*)arr@); }\n",
    # big and sparse switches
    "int c@(int x) { switch (x) { case 0: return 1; case 1: case 2: x += 4; break; case 3: x *= 2; case 4: return x; case 100: return 7; case 1000000: return 8; case -5: return 9; case 0x7fffffff: return 10; default: break; } switch ((char)x) { case 'a': return 3; case -1: return 4; } return x; }\n",
    "int c@(int x) { switch (x & 31) { " + " ".join("case %d: x = x * %d + 1; %s" % (i, i + 2, "break;" if i % 3 else "") for i in range(24)) + " } return x & 0xffff; }\n",
    # variadic
    "static long v@(int n, ...) { va_list ap; va_start(ap, n); long s = 0; for (int i = 0; i < n; ++i) { s += va_arg(ap, int); s += (long)va_arg(ap, double); s ^= *va_arg(ap, const char*); } va_end(ap); return s; }\nint c@(int x) { return (int)v@(2, x & 255, 1.5, \"k\", 3, (double)(x & 7), \"lm\"); }\n",
    # goto, labels, nested loops
    "int c@(int x) { int i, j = 0; x &= 15; for (i = 0; i < x; ++i) { while (j < 10) { if (j == i) { ++j; continue; } if (j > 7) goto out; j += 2; } } out: if (i < 3) { ++i; goto out; } do { --i; } while (i > 0 && i != 2); return i * 10 + j; }\n",
    # compound literals, comma, conditional with structs
    "struct P@ { int x, y; };\nstatic int ps@(struct P@ p) { return p.x * 3 - p.y; }\nstatic struct P@ mk@(int a) { struct P@ r = { a, a + 1 }; return r; }\nint c@(int x) { struct P@ a = (struct P@){ x, 2 }, *pp = &(struct P@){ 5, x }; a = x > 3 ? mk@(x) : *pp; return ps@(a) + ps@((struct P@){ .y = 4 }) + mk@(7).y + (x++, x & 3); }\n",
    # 64-bit arithmetic and shifts
    "int c@(int x) { unsigned long long u = 0xfedcba9876543210ULL; long long s = -0x7fffffffffffffffLL - 1; u = (u >> (x & 63)) ^ (u << (x & 7)); s >>= x & 31; unsigned int w = 0xffffffffU; return (int)(u ^ (unsigned long long)s) ^ (int)(w >> (x & 31)) ^ (int)(u % 1000003) ^ (int)(u / 7); }\n",
    # narrow types
    "signed char sc@ = -128; unsigned char uc@ = 255; short sh@ = -32768; unsigned short us@ = 65535;\nint c@(int x) { signed char a = (signed char)(sc@ + x); unsigned char b = (unsigned char)(uc@ * x); short d = (short)(sh@ - x); unsigned short e = (unsigned short)(us@ << (x & 3)); a += b; b -= d; d ^= e; e >>= 1; return a + b + d + e + (a < b) + (d < e) + (uc@ == (unsigned char)-1); }\n",
    # floating point
    "double dg@ = 1.25, da@[3] = { 0.5, -2 }; float fg@ = 3.5f;\nint c@(int x) { double d = x; float f = (float)(x & 1023) / 4; d = d * dg@ + da@[x & 1] - f; if (d > 100 && f <= fg@) d = -d; unsigned u = (unsigned)(x & 0xffff); d += u; return (int)(d - (double)(long long)(d / 4096) * 4096) + (f != fg@) + (d == d) + !f; }\n",
    # unions and pointer arithmetic
    "union U@ { int i; unsigned char b[4]; struct { short lo, hi; } h; };\nint c@(int x) { union U@ u; u.i = x; const unsigned char *p = u.b, *e = p + sizeof(u.b); int s = 0; while (p != e) s = s * 7 + *p++; int a[3][4] = {{1, 2}, {3}}; int (*q)[4] = a; q[2][3] = s; return (int)(&a[2][3] - &a[0][0]) + u.h.hi + a[2][3] % 91 + (int)(e - u.b); }\n",
    # recursion, static functions declared before
    "static int od@(int n);\nstatic int ev@(int n) { return n == 0 ? 1 : od@(n - 1); }\nstatic int od@(int n) { return n == 0 ? 0 : ev@(n - 1); }\nint c@(int x) { return ev@(x & 31) * 2 + od@(x & 7); }\n",
    # inline functions
    "static inline int sq@(int a) { return a * a % 1009; }\ninline int in@(int a) { if (a > 5) return a - 5; return sq@(a); }\nextern int in@(int a);\nint c@(int x) { return in@(x & 15) + sq@(sq@(x & 255)); }\n",
    # enums, typedefs, const, volatile
    "enum E@ { A@ = 3, B@, C@ = -7, D@ }; typedef enum E@ en@; typedef struct L@ L@; struct L@ { L@ *next; en@ e; };\nstatic const int k@ = 42; volatile int vo@ = 4;\nint c@(int x) { L@ a = { NULL, B@ }, b = { &a, D@ }; vo@ += x & 1; return b.next->e + b.e + k@ + vo@ * 0 + (int)sizeof(en@); }\n",
    # VLA and alloca-like stack use
    "int c@(int x) { int n = (x & 15) + 1; int v[n], w[n][2]; for (int i = 0; i < n; ++i) { v[i] = i * i; w[i][0] = v[i]; w[i][1] = -i; } return v[n - 1] + w[n - 1][0] + w[n / 2][1] + (int)(sizeof(v) / sizeof(*v)); }\n",
    # many arguments, mixed types, struct by value
    "struct G@ { char c[24]; double d; };\nstatic double m@(int a, double b, char c, float d, long e, struct G@ g, short f, double h, unsigned char i, int j, int k, int l, double m, double n, double o, double p, double q, double r) { return a + b + c + d + e + g.c[3] + g.d + f + h + i + j + k + l + m + n + o + p + q + r; }\nint c@(int x) { struct G@ g = { \"abcdef\", 2.5 }; x &= 255; return (int)m@(x, 1.5, 'c', 2.5f, 77, g, -3, x, 200, 1, 2, 3, .5, 1, 2, 3, 4, 5); }\n",
    # struct return, large and small
    "struct R1@ { char a; }; struct R2@ { int a; double b; }; struct R3@ { long a[5]; };\nstruct R1@ r1@(int x) { struct R1@ r = { (char)x }; return r; }\nstruct R2@ r2@(int x) { return (struct R2@){ x, x * .5 }; }\nstruct R3@ r3@(int x) { struct R3@ r; for (int i = 0; i < 5; ++i) r.a[i] = x + i; return r; }\nint c@(int x) { x &= 1023; return r1@(x).a + r2@(x).a + (int)r2@(x).b + (int)r3@(x).a[4]; }\n",
    # short-circuit and assignment operators
    "int c@(int x) { int a = 1, b = 2, *p = &a; if (x && ++a || (b += 3)) *p <<= 2; a |= b; b &= ~a; a ^= !b ? -1 : +1; x %= 7; x -= a-- - --b; p = x ? &b : p; (*p)++; return a * 100 + b * 10 + (x < 0) + !!x; }\n",
    # tentative and external definitions
    "int tent@; int tent@; extern int tent@; int tent@ = 6; static int un@[4];\nint c@(int x) { un@[x & 3] += tent@; return un@[x & 3]; }\n",
    # sizeof, offsetof, alignment
    "struct Z@ { char a; double b; char c; int d[3]; char e; };\nint c@(int x) { char buf[sizeof(struct Z@) * 2]; return (int)(sizeof(struct Z@) + offsetof(struct Z@, d) * 3 + sizeof(buf) + sizeof(x ? 1 : 2L) + sizeof \"four\" + sizeof(int[3])); }\n",
    # preprocessor
    "#define CAT@(a, b) a ## b\n#define STR@(x) #x\n#define XS@(x) STR@(x)\n#define VA@(f, ...) f(__VA_ARGS__)\n#define TWO@(a, b) ((a) + \\\n   (b))\n#define EMPTY@\n#if defined(CAT@) && !defined(NOPE@) && (1 + 2 * 3 == 7 || 0)\n# define OK@ 1\n#elif 1\n# define OK@ 2\n#else\n# error no\n#endif\n#ifdef OK@\n#undef EMPTY@\n#define EMPTY@ 5\n#endif\nint c@(int x) { int CAT@(va, r) = EMPTY@; return VA@(TWO@, var, x & 7) + OK@ + (int)sizeof(XS@(TWO@(1, 2) \"q\")) + __LINE__ + (int)sizeof(__FILE__); }\n",
    "static int REC@(int a) { return a; }\n#define REC@(x) (REC@2(x) + 1)\n#define REC@2(x) REC@((x) * 2)\n#define ID@(x) x\n#define F@(a, b, c) a b c\nint c@(int x) { /* comment \" ' */ return ID@(x) + REC@(x & 7) & F@(ID@(3), |, 8) // tail ' \\\n more\n  ; }\n",
    "#line 500 \"line@.c\"\nint c@(int x) { return __LINE__ + x % 3; }\n",
    # wide and odd characters
    "int c@(int x) { return 'a' + '\\n' + '\\0' + '\\x41' + '\\101' + '\"' + '\\'' + \"adj\" \"acent\" \" strings@\"[x & 7]; }\n",
    "#include <wchar.h>\nstatic wchar_t w@[] = L\"wide \\x41z\"; int c@(int x) { return (int)(w@[x & 3] + L'x' + sizeof(w@) / sizeof(*w@)); }\n",
    # function pointers and callbacks
    "typedef int (*cb@)(int, void*);\nstatic int each@(cb@ f, void *p, int n) { int s = 0; while (n-- > 0) s += f(n, p); return s; }\nstatic int add@(int a, void *p) { *(int*)p += a; return *(int*)p; }\nstatic int (*sel@(int k))(int, void*) { return k ? add@ : (cb@)0; }\nint c@(int x) { int acc = x & 7; return each@(sel@(1), &acc, 4) + acc + (sel@(0) == NULL); }\n",
    # unused statics, unreachable code
    "static int unused@(int a) { return a * 2; }\nstatic const char *lone@ = \"nobody\";\nint c@(int x) { if (0) { x = unused@(x); lone@ = \"dead\"; } while (0) x = 3; if (1) return x & 31; return lone@[0]; }\n",
    # large frame, large arrays and constants
    "static int big@[2000] = { [1999] = 5 }; int bss@[5000];\nint c@(int x) { char frame[5000]; memset(frame, x & 63, sizeof(frame)); bss@[x & 4095] = frame[4999]; return bss@[x & 4095] + big@[1999] + frame[x & 4095]; }\n",
    # generic selection, static assertion, noreturn, alignas-free
    "int c@(int x) { return _Generic(x, int: 1, double: 2, default: 3) + _Generic((char*)0, char*: 10, default: 20); }\n",
    # constructors
    "static int init@; __attribute__((constructor)) static void ctor@(void) { init@ = 17; }\nint c@(int x) { return init@ + (x & 1); }\n",
    # weak symbols
    "__attribute__((weak)) int wk@(int a) { return a + 3; }\nint c@(int x) { return wk@(x & 15); }\n",
    # old-style corner: nested ternaries, negative division
    "int c@(int x) { x = x % 1000 - 500; int d = (x & 3) + 1; return x / d + x % d + (x < 0 ? x < -100 ? 1 : 2 : x > 100 ? 3 : 4) + (-x >> 1) + ~x; }\n",
    # setjmp
    "#include <setjmp.h>\nstatic jmp_buf jb@; static void thr@(int v) { if (v > 2) longjmp(jb@, v); }\nint c@(int x) { volatile int n = x & 7; int r = setjmp(jb@); if (r == 0) { thr@(n); return 100; } return r * 3 + n; }\n",
    # statement with string tables
    "static const struct { const char *k; int v; } tb@[] = { {\"one\", 1}, {\"two\", 2}, {\"three@\", 3}, {NULL, 0} };\nint c@(int x) { int s = 0; for (int i = 0; tb@[i].k != NULL; ++i) if (strcmp(tb@[i].k, x & 1 ? \"two\" : \"one\") == 0) s += tb@[i].v; return s; }\n",
]


def program(rng, n, main=True, wasm=True):
    o, ids = list(HEAD), []
    ok = [i for i in range(len(F)) if not wasm or "goto" not in F[i]]      # wcc has no goto
    fs = [rng.choice(ok) for _ in range(n)] if rng.random() < 0.7 else rng.sample(ok, min(n, len(ok)))
    for i, f in enumerate(fs):
        o.append(F[f].replace("@", "%d_" % i if rng.random() < 0.5 else "_%dx%s" % (i, "y" * rng.choice([0, 1, 30]))))
        t = o[-1]
        k = t.rindex("int c")
        ids.append(t[k + 4:t.index("(", k)])
    if main:
        o.append("int main(int argc, char *argv[]) {\n  unsigned s = (unsigned)argc;\n  (void)argv;\n%s  printf(\"%%u\\n\", s);\n  return (int)(s & 63);\n}\n"
                 % "".join("  s = s * 31 + (unsigned)%s(%d);\n" % (i, rng.choice([0, 1, 2, 3, 5, 8, 100, -1, -77, 12345, 2147483647])) for i in ids))
    return "".join(o)


def all_program():
    """Every fragment once (used by the tools to try the corpus)."""
    return "".join(HEAD) + "".join(f.replace("@", "_%d" % i) for i, f in enumerate(F)) + "int main(void) { return 0; }\n"
