"""The C programs: each has a name, an entry function with scalar arguments, and text.  Families return lists of Prog."""
import itertools, random


class Prog:
    def __init__(self, name, args, ret, text, lim=None, arch=None):
        self.name, self.args, self.ret, self.text, self.lim, self.arch = name, args, ret, text, lim or {}, arch


T = {"c": "char", "C": "unsigned char", "s": "short", "S": "unsigned short", "i": "int", "I": "unsigned int", "l": "long", "L": "unsigned long"}
RANK = "cCsSiIlL"
OPS = {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%", "and": "&", "or": "|", "xor": "^", "shl": "<<", "shr": ">>"}
REL = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
LOG = {"land": "&&", "lor": "||"}


def usual(a, b):
    a, b = (x if x in "iIlL" else "i" for x in (a, b))
    return max(a, b, key=RANK.index)


def shifted(a):
    return a if a in "iIlL" else "i"


def nonneg(op, t):
    """right shift of a negative number is the implementation's choice: not tested"""
    return {0: (0, {"c": 127, "s": 32767, "i": 2147483647, "l": 2 ** 63 - 1}[t])} if op == "shr" and t in "csil" else None


def binary():
    r = []
    pairs = [(a, a) for a in RANK] + [("i", x) for x in RANK if x != "i"] + [(x, "i") for x in RANK if x != "i"] + [("I", "l"), ("l", "L"), ("L", "l"), ("I", "L"), ("C", "c"), ("s", "S")]
    for a, b in pairs:
        for n, op in list(OPS.items()) + list(REL.items()) + list(LOG.items()):
            t = shifted(a) if n in ("shl", "shr") else usual(a, b) if n in OPS else "i"
            r.append(Prog("b_%s_%s%s" % (n, a, b), [a, b], t, "%s b_%s_%s%s (%s a, %s b) { return a %s b; }" % (T[t], n, a, b, T[a], T[b], op), lim=nonneg(n, a)))
    return r


def unary():
    r = []
    for a in RANK:
        p = a if a in "iIlL" else "i"
        for n, op in (("neg", "-"), ("not", "~"), ("lnot", "!"), ("plus", "+"), ("notnot", "!!")):
            t = "i" if n in ("lnot", "notnot") else p
            r.append(Prog("u_%s_%s" % (n, a), [a], t, "%s u_%s_%s (%s a) { return %s a; }" % (T[t], n, a, T[a], op)))
        for b in RANK:
            r.append(Prog("cast_%s_%s" % (a, b), [a], "l", "long cast_%s_%s (%s a) { return (%s) a; }" % (a, b, T[a], T[b])))
            r.append(Prog("conv_%s_%s" % (a, b), [a], "l", "long conv_%s_%s (%s a) { %s x; x = a; return x; }" % (a, b, T[a], T[b])))
    return r


def branches():
    r = []
    for a, b in [(x, x) for x in RANK] + [("i", "I"), ("I", "i"), ("c", "i"), ("C", "i"), ("L", "i"), ("i", "l")]:
        for n, op in list(REL.items()) + list(LOG.items()):
            r.append(Prog("if_%s_%s%s" % (n, a, b), [a, b], "i", "int if_%s_%s%s (%s a, %s b) { if (a %s b) return 7; return 3; }" % (n, a, b, T[a], T[b], op)))
            r.append(Prog("cond_%s_%s%s" % (n, a, b), [a, b], "i", "int cond_%s_%s%s (%s a, %s b) { return a %s b ? 7 : 3; }" % (n, a, b, T[a], T[b], op)))
        r.append(Prog("if_not_%s%s" % (a, b), [a, b], "i", "int if_not_%s%s (%s a, %s b) { if (!a) return 7; if (b) return 9; return 3; }" % (a, b, T[a], T[b])))
    return r


FAMILIES = dict(binary=binary, unary=unary, branches=branches)


def places():
    """compound assignment, increment and decrement on every kind of lvalue and type"""
    r = []
    pl = {"loc": ("", "%s x = a;", "x"), "glo": ("%s g_%s;", "g_%s = a;", "g_%s"), "arr": ("", "%s x[3]; x[0] = 1; x[1] = a; x[2] = 1;", "x[1]"),
          "garr": ("%s g_%s[3];", "g_%s[1] = a;", "g_%s[1]"), "fld": ("", "struct s_%s { char c; %s f; char d; }; struct s_%s x; x.c = 1; x.f = a; x.d = 1;", "x.f"),
          "ptr": ("", "%s x = a; %s *p = &x;", "*p"), "pfld": ("", "struct s_%s { char c; %s f; char d; }; struct s_%s y; struct s_%s *x = &y; x->f = a;", "x->f"), "par": ("", "", "a")}
    for k in pl:
        for t in RANK:
            n = "%s_%s" % (k, t)
            C = T[t]

            def inst(op):
                name = "%s_%s" % (op, n)
                if k == "loc":
                    return name, "", "%s x = a;" % C, "x", ""
                if k == "glo":
                    return name, "%s g_%s;\n" % (C, name), "g_%s = a;" % name, "g_%s" % name, ""
                if k == "arr":
                    return name, "", "%s x[3]; x[0] = 1; x[1] = a; x[2] = 1;" % C, "x[1]", " + (x[0] - 1) + (x[2] - 1)"
                if k == "garr":
                    return name, "%s g_%s[3];\n" % (C, name), "g_%s[0] = 1; g_%s[1] = a; g_%s[2] = 1;" % (name, name, name), "g_%s[1]" % name, " + (g_%s[0] - 1) + (g_%s[2] - 1)" % (name, name)
                if k == "fld":
                    return name, "struct s_%s { %s c; %s f; %s d; };\n" % (name, C, C, C), "struct s_%s x; x.c = 1; x.f = a; x.d = 1;" % name, "x.f", " + (x.c - 1) + (x.d - 1)"
                if k == "ptr":
                    return name, "", "%s x; %s *p; x = a; p = &x;" % (C, C), "*p", " + (x - *p)"
                if k == "pfld":
                    return name, "struct s_%s { %s c; %s f; %s d; };\n" % (name, C, C, C), "struct s_%s y; struct s_%s *x = &y; y.c = 1; y.f = a; y.d = 1;" % (name, name), "x->f", " + (y.c - 1) + (y.d - 1)"
                return name, "", "", "a", ""
            for o, op in OPS.items():
                if k not in ("loc", "glo", "par") and o in ("mul", "mod", "or", "xor", "shl"):
                    continue
                name, pre, setup, lv, chk = inst("as" + o)
                r.append(Prog(name, [t, t], "l", "%slong %s (%s a, %s b) { %s %s %s= b; return %s%s; }" % (pre, name, C, C, setup, lv, op, lv, chk), lim=nonneg(o, t)))
            for o, e in (("preinc", "++%s"), ("predec", "--%s"), ("postinc", "%s++"), ("postdec", "%s--")):
                name, pre, setup, lv, chk = inst(o)
                e = e % ("(" + lv + ")" if k in ("ptr",) else lv)
                r.append(Prog(name, [t], "l", "%slong %s (%s a) { long r; %s r = %s; return r * 3 + %s%s; }" % (pre, name, C, setup, e, lv, chk), lim={0: (-1000, 1000)} if t == "l" else {0: (0, 1000)} if t == "L" else None))
            if k != "par":
                name, pre, setup, lv, chk = inst("set")
                r.append(Prog(name, ["l"], "l", "%slong %s (long b) { %s a = 1; %s %s = b; return %s%s; }" % (pre, name, C, setup, lv, lv, chk)))
                name, pre, setup, lv, chk = inst("val")
                r.append(Prog(name, ["l"], "l", "%slong %s (long b) { %s a = 1; long r; %s r = (%s = b); return r%s; }" % (pre, name, C, setup, lv, chk)))
    return r


CONST = ["0", "1", "2", "7", "8", "127", "128", "129", "255", "256", "-1", "-2", "-128", "-129", "32767", "-32768", "65535", "65536", "0x7fffffff", "-0x7fffffff", "'a'", "1000000", "-1000000"]
BIG = ["0x80000000", "0xffffffff", "0x100000000L", "0x7fffffffffffffffL", "-0x80000000L", "-0x100000001L", "0xfffffffe"]


def constants():
    r = []
    for t in "iIlLcS":
        for j, c in enumerate(CONST + (BIG if t in "lL" else [])):
            big = "x86_64" if c in BIG else None
            for n, op in (("add", "+"), ("sub", "-"), ("mul", "*"), ("and", "&"), ("or", "|"), ("xor", "^")):
                if n == "mul" and j % 3:
                    continue
                nm = "k_%s_%s%d" % (n, t, j)
                u = usual(t, "l" if c in BIG else "i")
                r.append(Prog(nm, [t], u, "%s %s (%s a) { return a %s (%s); }" % (T[u], nm, T[t], op, c), arch=big))
            nm = "k_rsub_%s%d" % (t, j)
            r.append(Prog(nm, [t], u, "%s %s (%s a) { return (%s) - a; }" % (T[u], nm, T[t], c), arch=big))
            for n, op in REL.items():
                nm = "k_%s_%s%d" % (n, t, j)
                r.append(Prog(nm, [t], "i", "int %s (%s a) { if (a %s (%s)) return 1; return 0; }" % (nm, T[t], op, c), arch=big))
            if c not in ("0",) and (t in "lL" or c not in BIG) and t in "iIl" and j in (1, 2, 3, 5, 10, 11, 15):
                for n, op in (("div", "/"), ("mod", "%")):
                    nm = "k_%s_%s%d" % (n, t, j)
                    r.append(Prog(nm, [t], u, "%s %s (%s a) { return a %s (%s); }" % (T[u], nm, T[t], op, c), arch=big))
        for s in (0, 1, 4, 7, 8, 15, 16, 31, 32, 63):
            if s > 31 and t not in "lL":
                continue
            u = shifted(t)
            for n, op in (("shl", "<<"), ("shr", ">>")):
                nm = "k_%s_%s_%d" % (n, t, s)
                r.append(Prog(nm, [t], u, "%s %s (%s a) { return a %s %d; }" % (T[u], nm, T[t], op, s), lim=nonneg(n, t), arch="x86_64" if s > 31 else None))
    for j, c in enumerate(CONST + BIG):
        r.append(Prog("k_ret_%d" % j, [], "l", "long k_ret_%d (void) { return %s; }" % (j, c), arch="x86_64" if c in BIG else None))
    return r


CONTROL = r'''
i ii |int NAME (int a, int b) { int r = 0; while (a < b) { r = r + a; a++; } return r; }|0:-2:5 1:-2:5
i ii |int NAME (int a, int b) { int r = 0; int i; for (i = a; i < b; i++) { if (i == 2) continue; if (i == 4) break; r += i * 3; } return r; }|0:-2:5 1:-2:6
i ii |int NAME (int a, int b) { int r = 0; do { r += 2; a--; } while (a > b); return r; }|0:-2:5 1:-2:5
i ii |int NAME (int a, int b) { int i, j, r = 0; for (i = 0; i < a; i++) for (j = 0; j < b; j++) { if (j > i) break; r = r * 2 + j; } return r; }|0:0:4 1:0:4
i i |int NAME (int a) { switch (a) { case 0: return 5; case 1: return 6; case 7: return 9; default: return -1; } }|
i i |int NAME (int a) { int r = 0; switch (a) { case 1: r += 1; case 2: r += 2; break; case 3: { r += 4; } default: r += 8; case -5: r += 16; } return r; }|
i i |int NAME (int a) { int r = 0; switch (a) { case 'a': case 'b': r = 1; break; case 'c': r = 2; break; } return r; }|
i i |int NAME (int a) { int r = 1; switch (a) { default: r = 2; break; case 10: r = 3; break; case 20: r = 4; } return r; }|
i ii |int NAME (int a, int b) { int r = 0; switch (a) { case 1: switch (b) { case 1: r = 1; break; case 2: r = 2; break; default: r = 3; } r += 10; break; case 2: r = 20; break; default: while (b > 0) { b--; if (b == 2) break; r++; } } return r; }|1:-1:5
i i |int NAME (int a) { int r = 0; while (1) { switch (a) { case 3: r = r + 100; break; case 0: return r; default: r = r + 1; } a = a - 1; } }|0:0:5
i ii |int NAME (int a, int b) { int r = 0; again: r++; if (a > b) { a--; goto again; } if (r > 3) goto end; r += 100; end: return r; }|0:-2:5 1:-2:5
i iii |int NAME (int a, int b, int c) { if (a > 0) if (b > 0) return 1; else return 2; else if (c) return 3; return 4; }|
i iii |int NAME (int a, int b, int c) { return a ? b ? 1 : 2 : c ? 3 : 4; }|
i iii |int NAME (int a, int b, int c) { return (a > b && b > c) || (a == c && !(b < a)); }|
i iii |int NAME (int a, int b, int c) { int r = 0; if (a && (b || c)) r += 1; if (a || (b && c)) r += 2; if (!(a && b) || c) r += 4; if (!a || !b) r += 8; return r; }|
i iii |int NAME (int a, int b, int c) { int n = 0; if (a > 0 && ++n && b > 0 && ++n) n += 10; if (c > 0 || ++n) n += 20; return n; }|
i ii |int NAME (int a, int b) { int r; for (r = 0, a++; a < b; a++, b--) r += 3; return r * 2 + a; }|0:-3:4 1:-3:4
i ii |int NAME (int a, int b) { int x, y, z; x = y = z = a; x += y -= z ^= b; return x * 4 + y * 2 + z; }|0:0:1000 1:0:1000
i i |int NAME_f (int n) { if (n < 2) return 1; return n * NAME_f (n - 1); } int NAME (int a) { return NAME_f (a); }|0:-1:6
i i |int NAME_f (int n) { if (n < 2) return n; return NAME_f (n - 1) + NAME_f (n - 2); } int NAME (int a) { return NAME_f (a); }|0:-1:6
i i |int NAME_g (int n); int NAME_f (int n) { if (n == 0) return 1; return NAME_g (n - 1); } int NAME_g (int n) { if (n == 0) return 0; return NAME_f (n - 1); } int NAME (int a) { return NAME_f (a); }|0:0:6
i ii |int NAME_f (int a, int b, int c, int d, int e, int f, int g) { return a + 2 * b - 3 * c + 4 * d - 5 * e + 6 * f - 7 * g; } int NAME (int a, int b) { return NAME_f (a, b, a + b, a - b, 5, b, a); }|0:-1000:1000 1:-1000:1000
i ii |int NAME_f (int a, int b) { return a - b; } int NAME (int a, int b) { return NAME_f (NAME_f (a, b), NAME_f (b, NAME_f (a, 1))) + NAME_f (a, b) * NAME_f (2, b); }|0:-1000:1000 1:-1000:1000
i ii |int NAME_f (int a, int b) { return a - b; } int NAME (int a, int b) { int (*f) (int, int); f = NAME_f; return f (a, b) + (*f) (b, 1); }|0:-1000:1000 1:-1000:1000
i ii |int NAME_f (int a, int b) { return a - b; } int NAME_g (int a, int b) { return a + b; } int NAME (int a, int b) { int (*f) (int, int); f = &NAME_f; if (b & 1) f = NAME_g; return f (a, b); }|0:-1000:1000 1:-1000:1000
i ii |int NAME_f (int a) { return a + 1; } struct NAME_s { int x; int (*fn) (int); }; int NAME (int a, int b) { struct NAME_s s; s.x = a; s.fn = NAME_f; int (*g) (int); g = s.fn; return g (b) + s.x; }|0:-1000:1000 1:-1000:1000
i ii |int NAME_f (int (*f) (int), int a) { return f (a) * 2; } int NAME_g (int a) { return a - 3; } int NAME (int a, int b) { return NAME_f (NAME_g, a) + NAME_f (&NAME_g, b); }|0:-1000:1000 1:-1000:1000
i i |int NAME_n; int NAME_f (void) { NAME_n++; return NAME_n; } int NAME (int a) { int r; NAME_n = a; r = NAME_f () + NAME_f (); return r * 10 + NAME_n; }|0:-1000:1000
i i |int NAME_f (void) { static int n = 3; n += 2; return n; } int NAME (int a) { int i, r = 0; for (i = 0; i < a; i++) r = r * 10 + NAME_f (); return r; }|0:0:3
v i |int NAME_g; void NAME_f (int a) { if (a > 3) return; NAME_g = a; } int NAME (int a) { NAME_g = 50; NAME_f (a); return NAME_g; }|
i iiii |int NAME (int a, int b, int c, int d) { return ((a + b) * (c - d)) - ((a - c) * (b + d)) + ((a ^ b) | (c & d)); }|0:-100:100 1:-100:100 2:-100:100 3:-100:100
i iiii |int NAME (int a, int b, int c, int d) { return a - (b - (c - (d - (a - (b - (c - (d - 1))))))); }|0:-1000:1000 1:-1000:1000 2:-1000:1000 3:-1000:1000
i iiii |int NAME (int a, int b, int c, int d) { return (a < b) + (b < c) * 2 + (c < d) * 4 + (d < a) * 8 + (a == c) * 16 - !(b != d) * 32; }|
i iii |int NAME (int a, int b, int c) { return (a & 7) / ((b & 3) + 1) * (c & 15) % 11; }|
i iii |int NAME (int a, int b, int c) { return (a & 255) << (b & 3) >> (c & 3) | 1; }|
i ii |int NAME (int a, int b) { int n = 0; while (a && b) { if (a & 1) n += b & 1; a >>= 1; b >>= 1; } return n; }|0:0:15 1:0:15
i i |int NAME (int a) { int i, r = 0; for (i = 0; ; i++) { if (i >= a) break; r += i; } for (; i > 0;) i--; return r + i; }|0:-1:5
i i |int NAME (int a) { { int a = 3; { int a = 4; } } return a; }|
i ii |int NAME (int a, int b) { int r = 0; if (a = b) r = 1; if ((a = b - 1) > 3) r += 2; return r * 100 + a; }|0:-1000:1000 1:-1000:1000
i i |int NAME (int a) { if (a > 5) { ; } else { return 1; } ; return 2; }|
l ll |long NAME (long a, long b) { long *p = &a; long **q = &p; **q = b; return a; }|
l ci |long NAME_f (char c, int i) { return c * 1000 + i; } long NAME (char c, int i) { return NAME_f (c, i); }|1:-100:100
l i |long NAME_f (char c) { return c; } long NAME (int i) { return NAME_f (i); }|
l i |long NAME_f (unsigned char c) { return c; } long NAME (int i) { return NAME_f (i); }|
l i |long NAME_f (short c) { return c; } long NAME (int i) { return NAME_f (i); }|
l l |long NAME_f (int c) { return c; } long NAME (long i) { return NAME_f (i); }|
l l |int NAME_f (long c) { return c; } long NAME (long i) { return NAME_f (i); }|
l l |char NAME_f (long c) { return c; } long NAME (long i) { return NAME_f (i); }|
l l |unsigned char NAME_f (long c) { return c; } long NAME (long i) { return NAME_f (i); }|
l l |unsigned short NAME_f (long c) { return c; } long NAME (long i) { return NAME_f (i); }|
l l |unsigned NAME_f (long c) { return c; } long NAME (long i) { return NAME_f (i); }|
l I |long NAME_f (long c) { return c; } long NAME (unsigned i) { return NAME_f (i); }|
l I |long NAME_f (long c) { return c; } long NAME (unsigned i) { return NAME_f (i + 1); }|
l II |long NAME (unsigned a, unsigned b) { long r = a - b; return r; }|
i II |int NAME (unsigned a, unsigned b) { return a - b > 5; }|
i II |int NAME (unsigned a, unsigned b) { if (a + b < a) return 1; return 0; }|
l II |long NAME (unsigned a, unsigned b) { return (a + b) / 2; }|
l II |long NAME (unsigned a, unsigned b) { return (a * b) >> 3; }|
l I |long NAME (unsigned a) { return ~a; }|
l I |long NAME (unsigned a) { return -a; }|
l i |long NAME (int a) { long r = a >> 1; return r; }|0:0:2147483647
i i |int NAME (int a) { return a / 2 == a >> 1; }|0:0:2147483647
i i |int NAME (int a) { return (a >> 3) < 0; }|0:0:2147483647
l c |long NAME (char c) { return c >> 1; }|0:0:127
i ci |int NAME (char c, int i) { char s[4]; s[0] = c; s[1] = i; s[2] = 0; return s[0] == c && s[1] == (char) i; }|
i i |int NAME (int a) { int r = 0; switch (a) { case 1: r += 1; case 2: r += 2; case 3: r += 4; case 4: r += 8; break; case 5: r += 16; } return r; }|
i i |int NAME (int a) { int r = 0; switch (a) { case 1: r += 1; default: r += 2; case 3: r += 4; } return r; }|
i i |int NAME (int a) { int r = 0; switch (a) { default: case 2: r += 2; case 3: r += 4; break; case 9: r = 1; } return r; }|
i i |int NAME (int a) { int r = 0; switch (a) { case 7: default: r += 2; r += 9; case 3: r += 4; r += 5; } return r; }|
i i |int NAME (int a) { int r = 0; switch (a) { case 7: r = 1; r += 2; break; case 8: { int x = a; r = x; } break; case 9: if (a) r = 5; else r = 6; break; default: r = 9; } return r; }|
i ii |int NAME (int a, int b) { int r = 0; switch (a) { case 1: if (b) break; r += 1; case 2: r += b ? 3 : 4; break; case 3: r = b == 5; } return r; }|
i ii |int NAME (int a, int b) { return b + (a ^ (b ? a : 3)) - (a ? (b ? 1 : a) : b); }|0:-1000:1000 1:-1000:1000
i iii |int NAME (int a, int b, int c) { return a + (b + (c + (a < b ? b < c ? 1 : 2 : 3))); }|0:-1000:1000 1:-1000:1000 2:-1000:1000
i iii |int NAME (int a, int b, int c) { return ((a ? b : c) ? 1 : 2) + (a && (b || c)) * 4 + ((a || b) && c) * 8; }|
i ii |int NAME (int a, int b) { int x = (a = b + 1) + (b = 3); return x * 2 + a + b; }|0:-1000:1000 1:-1000:1000
i i |int NAME (int a) { char x[4]; char *p; int r = 0; x[0] = a; x[1] = 1; x[2] = 0; p = x; if (*p) r = r + 1; if (p[2]) r = r + 2; if (p[a != 0]) r = r + 4; while (*p) { p++; r = r + 8; } return r + (a + (a + (*x ? 16 : 32))); }|0:-128:127
i i |int NAME (int a) { char c; if ((c = a)) return c; return 1000; }|
i ii |int NAME (int a, int b) { int i, j, r = 0; for (i = 0; i < a; i++) { for (j = 0; j < b; j++) { if (j == 1) continue; r += 10; } if (i == 1) continue; r++; } return r; }|0:0:4 1:0:4
i ii |int NAME (int a, int b) { int r = 0; while (a > 0) { int j = b; a--; while (j > 0) { j--; if (j == 2) continue; if (j == 0) break; r += 10; } if (a == 1) continue; r++; } return r; }|0:0:4 1:0:4
i ii |int NAME (int a, int b) { int r = 0; do { int j = b; do { j--; if (j == 1) continue; r += 10; if (r > 70) break; } while (j > 0); if (a == 2) continue; r++; } while (--a > 0); return r; }|0:0:4 1:0:4
i ii |int NAME (int a, int b) { int i, j, r = 0; for (i = 0; i < a; i++) { j = b; while (j) { j--; if (j == 1) continue; for (;;) { if (r % 3 == 0) break; r++; } do { r += 5; if (r > 50) break; } while (r < 20); } if (i == 0) continue; r += 7; } return r; }|0:0:3 1:0:4
i ii |int NAME (int a, int b) { int i, r = 0; for (i = 0; i < a; i++) { switch (b) { case 1: r += 1; continue; case 2: r += 2; break; case 3: if (i == 1) continue; default: r += 4; } r += 100; } return r; }|0:0:4
i ii |int NAME (int a, int b) { int r = 0; while (a > 0) { a--; switch (a) { case 2: continue; case 1: while (b > 0) { b--; if (b == 1) continue; r += 3; } break; } r += 10; } return r; }|0:0:5 1:-1:5
i ii |int NAME (int a, int b) { int i, j, r = 0; for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { if (i == a && j == b) goto out; r++; } out: return r; }|
i ii |int NAME (int a, int b) { int r = 0; if (a) { l1: r++; if (r < b) goto l1; } else { l2: r += 2; if (r < b) goto l2; } if (r > 4) goto l3; r += 100; l3: ; return r; }|1:-3:6
i ii |int NAME (int a, int b) { int i = 0, r = 0; for (;;) { if (i++ > a) break; if (i & 1) { if (b == i) break; else continue; } r += i; } return r * 10 + i; }|0:-1:6
i ii |int NAME (int a, int b) { int i, j, k, r = 0; for (i = 0; i < a; i++) for (j = i; j < a; j++) { for (k = j; k < a; k++) { if (k == b) break; r++; } if (j == b) continue; r += 10; } return r; }|0:0:4 1:-1:4
i ii |int NAME_f (int a) { while (1) { while (1) { if (a > 5) return a; a++; if (a == 3) break; } a += 2; } } int NAME (int a, int b) { return NAME_f (a) * 2 + NAME_f (b); }|0:-2:7 1:-2:7
i ii |int NAME (int a, int b) { switch (a) { case 1: { switch (b) { case 1: break; case 2: return 22; default: goto d; } return 11; } case 2: for (;;) { if (b > 3) break; b++; } return b; d: default: return 9; } }|1:-2:6
i ii |int NAME (int a, int b) { int r = 0; switch (a + b) { case 3: r = 1; } switch (a - b) { case 1: r += 2; break; default: r += 4; break; case -1: r += 8; break; } return r; }|0:-1000:1000 1:-1000:1000
i l |int NAME (long a) { switch (a) { case 0: return 1; case -1: return 2; } return 3; }|
i c |int NAME (char a) { switch (a) { case 'a': return 1; case -1: return 2; case 127: return 3; case -128: return 4; } return 5; }|
i C |int NAME (unsigned char a) { switch (a) { case 'a': return 1; case 255: return 2; case 128: return 4; } return 5; }|
i i |enum NAME_e { P_NAME = -2, Q_NAME, R_NAME = 300 }; int NAME (int a) { switch (a) { case P_NAME: return 1; case Q_NAME: return 2; case R_NAME: return 3; } return 5; }|
i ii |int NAME_f (int n, int m) { if (n == 0) return m; if (m == 0) return NAME_f (n - 1, 1); return NAME_f (n - 1, NAME_f (n, m - 1)); } int NAME (int a, int b) { return NAME_f (a, b); }|0:0:1 1:0:3
i iii |int NAME_f (int a, int b) { int t[3]; t[0] = a; t[1] = b; t[2] = 0; if (a > 0) t[2] = NAME_f (a - 1, b + 1); return t[0] * 3 + t[1] * 5 + t[2]; } int NAME (int a, int b, int c) { int x = c; int y = NAME_f (a, b); return x - y; }|0:-1:3 1:-1000:1000 2:-1000:1000
l l |long NAME (long a) { switch (a) { case 0x7fffffff: return 1; case 128: return 2; case -129: return 3; case 70000: return 4; } return 5; }|
'''
DATA = r'''
i i |int NAME_a[5] = { 3, -1, 4, 1, 5 }; int NAME (int a) { return NAME_a[a]; }|0:0:4
i i |char NAME_a[5] = { 3, -1, 'x', 1, 255 }; int NAME (int a) { return NAME_a[a]; }|0:0:4
i i |short NAME_a[5] = { 3, -1, 4000, 1, 5 }; int NAME (int a) { return NAME_a[a]; }|0:0:4
l i |long NAME_a[5] = { 3, -1, 0x123456789L, 1, 5 }; long NAME (int a) { return NAME_a[a]; }|0:0:4
i i |unsigned char NAME_a[5] = { 3, 200, 4, 1, 255 }; int NAME (int a) { return NAME_a[a]; }|0:0:4
i i |unsigned short NAME_a[4] = { 3, 65535, 40000, 1 }; int NAME (int a) { return NAME_a[a]; }|0:0:3
i i |int NAME_a[6] = { 1, 2 }; int NAME (int a) { return NAME_a[a]; }|0:0:5
i i |char NAME_a[] = "hello\n\t\\\"\x41\102"; int NAME (int a) { return NAME_a[a] + sizeof (NAME_a) * 1000; }|0:0:11
i i |char *NAME_a = "hello"; int NAME (int a) { return NAME_a[a]; }|0:0:5
i i |char *NAME_a[] = { "one", "two", "three" }; int NAME (int a) { char *p = NAME_a[a]; return p[0] * 256 + p[2] + sizeof (NAME_a) / sizeof (char *); }|0:0:2
i i |int NAME (int a) { char *s = "abc" "def"; return s[a]; }|0:0:6
i i |int NAME (int a) { char s[8] = "wor"; return s[a]; }|0:0:3
i i |int NAME (int a) { char *p = "xyz"; int n = 0; while (*p) { n = n * 2 + *p++; } return n + a; }|0:0:3
i i |int NAME (int a) { int x[4] = { 9, 8, 7, 6 }; return x[a]; }|0:0:3
i i |int NAME_x = 7; int NAME_y = -3; int *NAME_p = &NAME_x; int NAME (int a) { *NAME_p = a; return NAME_x * 2 + NAME_y; }|0:-1000:1000
i i |struct NAME_s { char c; int i; short s; }; struct NAME_s NAME_g = { 'q', 77, -5 }; int NAME (int a) { return NAME_g.c * 3 + NAME_g.i * 5 + NAME_g.s * 7 + a; }|0:-1000:1000
i i |struct NAME_s { int a; int b; }; struct NAME_s NAME_g[3] = { { 1, 2 }, { 3, 4 }, { 5, 6 } }; int NAME (int a) { return NAME_g[a].a * 10 + NAME_g[a].b; }|0:0:2
i i |struct NAME_s { char *n; int v; }; struct NAME_s NAME_g[] = { { "ab", 1 }, { "cd", 2 } }; int NAME (int a) { return NAME_g[a].n[1] * 10 + NAME_g[a].v; }|0:0:1
i i |struct NAME_p { int x; int y; }; struct NAME_s { int a; struct NAME_p p; int b; }; int NAME (int a) { struct NAME_s s; s.a = 1; s.p.x = a; s.p.y = 3; s.b = 4; struct NAME_s *q = &s; q->p.y += 2; return s.a + s.p.x * 2 + q->p.y * 3 + q->b * 5; }|0:-1000:1000
i ii |struct NAME_s { int a; char b; int c; }; int NAME (int a, int b) { struct NAME_s s; struct NAME_s t; s.a = a; s.b = b; s.c = 9; t = s; s.a = 0; s.c = 1; return t.a * 3 + t.b * 5 + t.c; }|0:-1000:1000 1:-100:100
i ii |struct NAME_s { int a; struct NAME_s *n; }; int NAME (int a, int b) { struct NAME_s x; struct NAME_s y; struct NAME_s z; x.a = a; x.n = &y; y.a = b; y.n = &z; z.a = 3; z.n = 0; struct NAME_s *p = &x; int r = 0; while (p) { r = r * 2 + p->a; p = p->n; } return r + x.n->n->a; }|0:-1000:1000 1:-1000:1000
i ii |union NAME_u { int i; char c[4]; }; int NAME (int a, int b) { union NAME_u u; u.i = a; u.c[1] = b; return u.i; }|1:-100:100
i i |enum NAME_e { A_NAME, B_NAME = 5, C_NAME }; int NAME (int a) { enum NAME_e e = C_NAME; return e * 10 + B_NAME + A_NAME + (a == C_NAME); }|
i ii |int NAME_m[3][4]; int NAME (int a, int b) { int i, j; for (i = 0; i < 3; i++) for (j = 0; j < 4; j++) NAME_m[i][j] = i * 10 + j; return NAME_m[a][b]; }|0:0:2 1:0:3
i ii |int NAME (int a, int b) { int m[2][3]; int i, j; for (i = 0; i < 2; i++) for (j = 0; j < 3; j++) m[i][j] = i * 10 + j; return m[a][b]; }|0:0:1 1:0:2
i i |int NAME (int a) { int x[5]; int *p = x; int *q; int i; for (i = 0; i < 5; i++) x[i] = i * i; q = p + a; return *q + (q - p) * 100 + (q > p) * 1000 + (q == p) * 2000 + *(x + a); }|0:0:4
i i |int NAME (int a) { short x[5]; short *p = x; int i; for (i = 0; i < 5; i++) *p++ = i * 7; p = &x[4]; p -= a; return *p + p[-0] + (p - x); }|0:0:4
i i |struct NAME_s { int a; char b; int c; }; int NAME (int a) { struct NAME_s x[3]; struct NAME_s *p = x; int i; for (i = 0; i < 3; i++) { p->a = i; p->b = i + 10; p->c = i + 20; p++; } p = x + a; return p->a + p->b * 100 + x[a].c * 10000 + (p - x); }|0:0:2
i i |int NAME (int a) { char b[10]; int i; for (i = 0; i < 10; i++) b[i] = 0; b[a]++; b[a] += 3; ++b[a]; b[a]--; i = 0; return b[a] * 100 + b[(a + 1) % 10]; }|0:0:9
i i |int NAME_i; int NAME (int a) { int x[4]; int i = 0; x[0] = x[1] = x[2] = x[3] = 0; x[i++] = a; x[i++] = a + 1; x[i] = i; return x[0] + x[1] * 3 + x[2] * 5 + i; }|0:-1000:1000
i i |int NAME (int a) { return sizeof (char) + sizeof (short) * 10 + sizeof (int) * 100 + sizeof (a) * 1000; }|
i i |struct NAME_s { int a[3]; char c[4]; }; int NAME (int a) { struct NAME_s s; s.a[2] = a; s.c[3] = 5; return sizeof (struct NAME_s) + sizeof (s) + s.a[2] + s.c[3]; }|0:-1000:1000
i ii |typedef unsigned char NAME_t; typedef struct NAME_s { NAME_t x; NAME_t y; } NAME_st; int NAME (int a, int b) { NAME_st s; NAME_st *p = &s; p->x = a; p->y = b; return s.x * 256 + s.y; }|
i i |int NAME_g = 3 * 4 + 1; int NAME_h = sizeof (int) * 2; int NAME_k = -1; int NAME_n = 'A'; int NAME (int a) { return NAME_g + NAME_h * 100 + NAME_k * 10000 + NAME_n + a; }|0:-1000:1000
i ii |int NAME_f (char *s, int c) { int n = 0; while (*s && *s != c) { s++; n++; } return n; } int NAME (int a, int b) { char s[5]; s[0] = a; s[1] = 'b'; s[2] = 'c'; s[3] = 0; return NAME_f (s, b); }|0:1:127 1:1:127
i ii |void NAME_f (int *a, int *b) { int t = *a; *a = *b; *b = t; } int NAME (int a, int b) { NAME_f (&a, &b); return a * 3 + b; }|0:-1000:1000 1:-1000:1000
i ii |void NAME_f (char *d, char const *s, int n) { while (n--) *d++ = *s++; } int NAME (int a, int b) { char x[4]; char y[4]; x[0] = a; x[1] = b; x[2] = 7; NAME_f (y, x, 3); return y[0] + y[1] * 2 + y[2]; }|
i i |int NAME (int a) { char c = a; unsigned char u = a; short s = a; unsigned short v = a; return c + u * 3 + s * 5 + v * 7; }|
i i |int NAME_b[2]; int NAME (int a) { int *p = NAME_b; p[0] = a; p[1] = 5; int *q = &p[1]; return q[-1] + *q + *(q - 1); }|0:-1000:1000
i i |struct NAME_s { unsigned char a; unsigned short b; unsigned int c; }; int NAME (int a) { struct NAME_s s; s.a = a; s.b = a; s.c = a; return s.a + s.b * 2 + (s.c == (unsigned) a); }|
i ii |char NAME_b[4]; int NAME (int a, int b) { char *p = NAME_b; *p = a; *(p + 1) = b; p[2] = *p ^ p[1]; return NAME_b[2]; }|
i ii |int NAME (int a, int b) { int x = 5; int *p = &x; *p += a; (*p)++; *p = *p * b; return x; }|0:-1000:1000 1:-1000:1000
i i |int NAME_f (int n, char **v) { return v[n][1]; } int NAME (int a) { char *v[3]; v[0] = "ab"; v[1] = "cd"; v[2] = "ef"; return NAME_f (a, v); }|0:0:2
i i |struct NAME_s { struct NAME_s *next; char name[4]; int v; }; struct NAME_s NAME_b = { 0, "bb", 2 }; struct NAME_s NAME_a = { &NAME_b, "aa", 1 }; int NAME (int a) { return NAME_a.next->v * 100 + NAME_a.next->name[1] + NAME_a.v * a; }|0:-1000:1000
i i |struct NAME_s { int a; int b; int c; }; struct NAME_s NAME_g = { 5 }; struct NAME_s NAME_h = { 6, 7 }; int NAME_n = 99; int NAME (int a) { return NAME_g.a + NAME_g.b * 3 + NAME_g.c * 5 + NAME_h.a * 7 + NAME_h.b * 11 + NAME_h.c * 13 + NAME_n * 17 + a; }|0:-1000:1000
i i |struct NAME_s { int a; char b; short c; }; struct NAME_s NAME_g[3] = { { 1 }, { 2, 3 }, { 4, 5, 6 } }; int NAME_n = 99; int NAME (int a) { return NAME_g[a].a + NAME_g[a].b * 3 + NAME_g[a].c * 5 + NAME_n; }|0:0:2
i i |struct NAME_s { int a; int b; int c; int d; int e; }; struct NAME_s NAME_g[4]; int NAME (int a) { struct NAME_s *p = NAME_g; int i; for (i = 0; i < 4; i++) { NAME_g[i].a = i; NAME_g[i].e = i * 10; } p = p + a; p->b = 5; p++; p--; return p->a + p->e + p->b + NAME_g[a].b * 100 + (p - NAME_g) * 1000; }|0:0:3
i i |int NAME (int a) { struct NAME_s { char x[5]; } t[4]; struct NAME_s *p = t; int i; for (i = 0; i < 20; i++) p->x[i] = i; p += a; return p->x[0] + t[a].x[4] * 100 + sizeof (struct NAME_s) * 10000 + (p - t) * 3; }|0:0:3
i i |struct NAME_s { int v[3]; }; struct NAME_s NAME_g[5]; int NAME (int a) { struct NAME_s *p; struct NAME_s *q; int i, j; for (i = 0; i < 5; i++) for (j = 0; j < 3; j++) NAME_g[i].v[j] = i * 100 + j; p = NAME_g + a; q = p + 1; q--; return NAME_g[a].v[2] + p->v[0] * 2 + q->v[1] * 3 + (p - NAME_g) * 1000 + (&NAME_g[a] == p) * 7 + sizeof (NAME_g) * 11; }|0:0:4
i i |struct NAME_s { int v[5]; }; struct NAME_s NAME_g[5]; int NAME (int a) { struct NAME_s *p; struct NAME_s *q; int i, j; for (i = 0; i < 5; i++) for (j = 0; j < 5; j++) NAME_g[i].v[j] = i * 100 + j; p = NAME_g + a; q = p + 1; q--; return NAME_g[a].v[4] + p->v[0] * 2 + q->v[1] * 3 + (p - NAME_g) * 1000 + (&NAME_g[a] == p) * 7 + sizeof (NAME_g) * 11; }|0:0:4
i i |struct NAME_s { int v[6]; }; struct NAME_s NAME_g[5]; int NAME (int a) { struct NAME_s *p; struct NAME_s *q; int i, j; for (i = 0; i < 5; i++) for (j = 0; j < 6; j++) NAME_g[i].v[j] = i * 100 + j; p = NAME_g + a; q = p + 1; q--; return NAME_g[a].v[5] + p->v[0] * 2 + q->v[1] * 3 + (p - NAME_g) * 1000 + (&NAME_g[a] == p) * 7 + sizeof (NAME_g) * 11; }|0:0:4
i i |struct NAME_s { int v[7]; }; struct NAME_s NAME_g[5]; int NAME (int a) { struct NAME_s *p; struct NAME_s *q; int i, j; for (i = 0; i < 5; i++) for (j = 0; j < 7; j++) NAME_g[i].v[j] = i * 100 + j; p = NAME_g + a; q = p + 1; q--; return NAME_g[a].v[6] + p->v[0] * 2 + q->v[1] * 3 + (p - NAME_g) * 1000 + (&NAME_g[a] == p) * 7 + sizeof (NAME_g) * 11; }|0:0:4
i i |struct NAME_s { int v[9]; }; struct NAME_s NAME_g[5]; int NAME (int a) { struct NAME_s *p; struct NAME_s *q; int i, j; for (i = 0; i < 5; i++) for (j = 0; j < 9; j++) NAME_g[i].v[j] = i * 100 + j; p = NAME_g + a; q = p + 1; q--; return NAME_g[a].v[8] + p->v[0] * 2 + q->v[1] * 3 + (p - NAME_g) * 1000 + (&NAME_g[a] == p) * 7 + sizeof (NAME_g) * 11; }|0:0:4
i i |struct NAME_s { int v[10]; }; struct NAME_s NAME_g[5]; int NAME (int a) { struct NAME_s *p; struct NAME_s *q; int i, j; for (i = 0; i < 5; i++) for (j = 0; j < 10; j++) NAME_g[i].v[j] = i * 100 + j; p = NAME_g + a; q = p + 1; q--; return NAME_g[a].v[9] + p->v[0] * 2 + q->v[1] * 3 + (p - NAME_g) * 1000 + (&NAME_g[a] == p) * 7 + sizeof (NAME_g) * 11; }|0:0:4
i i |struct NAME_s { int v[11]; }; struct NAME_s NAME_g[5]; int NAME (int a) { struct NAME_s *p; struct NAME_s *q; int i, j; for (i = 0; i < 5; i++) for (j = 0; j < 11; j++) NAME_g[i].v[j] = i * 100 + j; p = NAME_g + a; q = p + 1; q--; return NAME_g[a].v[10] + p->v[0] * 2 + q->v[1] * 3 + (p - NAME_g) * 1000 + (&NAME_g[a] == p) * 7 + sizeof (NAME_g) * 11; }|0:0:4
i i |struct NAME_s { int v[12]; }; struct NAME_s NAME_g[5]; int NAME (int a) { struct NAME_s *p; struct NAME_s *q; int i, j; for (i = 0; i < 5; i++) for (j = 0; j < 12; j++) NAME_g[i].v[j] = i * 100 + j; p = NAME_g + a; q = p + 1; q--; return NAME_g[a].v[11] + p->v[0] * 2 + q->v[1] * 3 + (p - NAME_g) * 1000 + (&NAME_g[a] == p) * 7 + sizeof (NAME_g) * 11; }|0:0:4
i i |struct NAME_s { int v[20]; }; struct NAME_s NAME_g[5]; int NAME (int a) { struct NAME_s *p; struct NAME_s *q; int i, j; for (i = 0; i < 5; i++) for (j = 0; j < 20; j++) NAME_g[i].v[j] = i * 100 + j; p = NAME_g + a; q = p + 1; q--; return NAME_g[a].v[19] + p->v[0] * 2 + q->v[1] * 3 + (p - NAME_g) * 1000 + (&NAME_g[a] == p) * 7 + sizeof (NAME_g) * 11; }|0:0:4
i i |struct NAME_s { int v[24]; }; struct NAME_s NAME_g[5]; int NAME (int a) { struct NAME_s *p; struct NAME_s *q; int i, j; for (i = 0; i < 5; i++) for (j = 0; j < 24; j++) NAME_g[i].v[j] = i * 100 + j; p = NAME_g + a; q = p + 1; q--; return NAME_g[a].v[23] + p->v[0] * 2 + q->v[1] * 3 + (p - NAME_g) * 1000 + (&NAME_g[a] == p) * 7 + sizeof (NAME_g) * 11; }|0:0:4
i i |long NAME_g[3] = { 1, 2 }; short NAME_h[4] = { -1 }; char NAME_k[6] = "ab"; int NAME_n = 9; int NAME (int a) { return NAME_g[a] + NAME_h[a] * 3 + NAME_k[a] * 5 + NAME_k[a + 3] * 7 + NAME_h[3] * 11 + NAME_n; }|0:0:2
i i |char NAME_a[3] = { 1, 2, 3 }; char NAME_b = 4; short NAME_c = 5; char NAME_d = 6; int NAME_e = 7; long NAME_f = 8; char NAME_h[2] = { 9, 10 }; int NAME (int a) { return NAME_a[a] + NAME_b * 11 + NAME_c * 101 + NAME_d * 1009 + NAME_e * 10007 + NAME_f * 3 + NAME_h[1] * 5; }|0:0:2
i ii |union NAME_u { char c; short s; int i; long l; }; struct NAME_s { int k; union NAME_u u; int e; }; int NAME (int a, int b) { struct NAME_s s; s.k = 3; s.e = 4; s.u.l = 0; s.u.s = a; s.u.c = b; return s.u.i + s.k * 7 + s.e * 11 + sizeof (union NAME_u); }|1:-100:100
i ii |struct NAME_s { int k; union { int i; char c[4]; }; int e; }; int NAME (int a, int b) { struct NAME_s s; s.k = 3; s.e = 4; s.i = a; s.c[2] = b; return s.i / 2 + s.k * 7 + s.e * 11; }|1:-100:100
i i |union NAME_u { int i; char c; }; union NAME_u NAME_g = { 300 }; union NAME_u NAME_h[2] = { { 1 }, { 2 } }; int NAME (int a) { return NAME_g.i + NAME_g.c * 1000 + NAME_h[a].i * 7; }|0:0:1
i i |enum { X_NAME = -3, Y_NAME, Z_NAME = 10, W_NAME }; int NAME_g[11]; int NAME (int a) { return X_NAME + Y_NAME * 10 + Z_NAME * 100 + W_NAME * 1000 + sizeof (NAME_g) + a; }|0:-100:100
i i |int NAME_f (int *p, int *q) { return p - q; } int NAME (int a) { int x[5]; return NAME_f (x + 2, x + a) * 10 + NAME_f (x, x + a); }|0:0:4
i ii |struct NAME_s { int m[3]; char n[3]; }; int NAME (int a, int b) { struct NAME_s t[2]; int i, k; for (i = 0; i < 2; i++) { for (k = 0; k < 3; k++) t[i].m[k] = i * 100 + k; t[i].n[2] = i; } return t[a].m[b] + t[b].m[a + 1] * 3 + t[b].n[2] * 7; }|0:0:1 1:0:1
i ii |struct NAME_p { char x; short y; }; struct NAME_s { char c; struct NAME_p p[3]; int z; }; struct NAME_s NAME_g; int NAME (int a, int b) { struct NAME_s *q = &NAME_g; struct NAME_p *r; q->c = 1; q->z = 2; q->p[a].x = 5; q->p[a].y = b; r = &q->p[a]; r->x++; return q->c + q->z * 3 + NAME_g.p[a].x * 7 + NAME_g.p[a].y + (r - q->p) * 11; }|0:0:2 1:-100:100
i i |int NAME_f (void) { static int t[3] = { 4, 5, 6 }; static char c; c++; t[c & 1] += 10; return t[0] * 3 + t[1] + c * 1000; } int NAME (int a) { int r = NAME_f (); r += NAME_f (); return r + a; }|0:-100:100
i i |char *NAME_t[] = { "zero", "", "two", 0 }; int NAME (int a) { int n = 0; char **p = NAME_t; while (*p) { n += **p; p++; } return n + (p - NAME_t) * 1000 + (NAME_t[a] == 0) * 7 + (NAME_t[1][0] == 0); }|0:0:3
i i |char NAME_s[] = "a\0b"; char NAME_z = 'z'; int NAME (int a) { return NAME_s[a] + NAME_z * 1000; }|0:0:3
i i |struct NAME_s { char *n; int (*f) (int); int v; }; int NAME_f (int x) { return x + 1; } struct NAME_s NAME_g = { "nm", NAME_f, 3 }; int NAME (int a) { int (*p) (int) = NAME_g.f; return p (a) + NAME_g.n[1] + NAME_g.v * 1000; }|0:-100:100
i i |struct NAME_s { char a; long b; char c; int d; char e[3]; short f; }; int NAME (int a) { struct NAME_s s; s.a = 1; s.b = a; s.c = 3; s.d = 4; s.e[0] = 7; s.e[2] = 5; s.f = 6; s.e[1] = 8; return s.a + s.b * 3 + s.c * 5 + s.d * 7 + s.e[2] * 11 + s.f * 13 + s.e[0] * 17 + s.e[1] * 19; }|0:-100:100
i ii |struct NAME_s { char k; int v[2]; }; int NAME (int a, int b) { struct NAME_s x[2]; struct NAME_s *p = x; struct NAME_s *q = &x[1]; x[0].v[0] = 1; x[0].v[1] = 2; x[1].v[0] = 3; x[1].v[1] = 4; x[a].v[b] = 9; return x[0].v[0] + p->v[1] * 10 + q->v[0] * 100 + (p + 1)->v[1] * 1000 + (q - p) * 7 + (p - q); }|0:0:1 1:0:1
i i |int NAME (int a) { long x[3]; long *p = x; char *q; x[0] = x[1] = x[2] = -1; q = (char *) (p + 1); *q = a; return x[1] + x[0] + x[2] + (q - (char *) x) * 1000; }|
i ii |struct NAME_s { int k; int v[2]; struct NAME_s *n; }; int NAME (int a, int b) { struct NAME_s x[2]; struct NAME_s *p = x; struct NAME_s **pp = &p; x[0].n = &x[1]; x[1].n = x; x[0].k = a; x[1].k = b; x[0].v[1] = 3; x[1].v[1] = 5; return (*pp)->k + (p + 1)->k * 3 + p->n->k * 5 + p->n->n->v[1] * 7 + (&x[1])->v[1] * 11 + (*p).k + (**pp).v[1]; }|0:-1000:1000 1:-1000:1000
i ii |struct NAME_s { int k; int v; }; struct NAME_s NAME_g[3]; struct NAME_s *NAME_f (int i) { return &NAME_g[i]; } int NAME (int a, int b) { NAME_g[0].k = 5; NAME_g[1].k = 6; NAME_g[2].k = 7; NAME_f (a)->v = b; (NAME_f (a) + 1)->v = b + 1; return NAME_f (a)->v + (NAME_f (a) + 1)->k * 3 + NAME_g[a + 1].v * 5 + (NAME_g + a)->k * 7; }|0:0:1 1:-1000:1000
i ii |struct NAME_s { char k; short v; }; int NAME (int a, int b) { struct NAME_s x[3]; struct NAME_s *p = x + 2; int i; for (i = 0; i < 3; i++) { x[i].k = i; (x + i)->v = b + i; } return (p - a)->v + (p - 1)->k * 3 + (p - a + 1)->k * 5 ; }|0:1:2 1:-1000:1000
i ii |struct NAME_s { int k; char c[4]; }; int NAME (int a, int b) { struct NAME_s x; void *v = &x; char *q = (char *) &x; ((struct NAME_s *) v)->k = a; ((struct NAME_s *) q)->c[1] = b; return x.k + x.c[1] * 3 + ((struct NAME_s *) v)->c[1]; }|0:-1000:1000 1:-100:100
i ii |struct NAME_s { int k; struct NAME_s *n; }; int NAME (int a, int b) { struct NAME_s x; struct NAME_s y; struct NAME_s *p = &x; x.n = &y; y.n = 0; x.k = 1; y.k = 2; p->n->k += a; p->k++; p->n->k--; ++p->k; p = p->n ? p->n : p; p->k *= b; return x.k * 100 + y.k; }|0:-100:100 1:-100:100
i ii |struct NAME_s { int k; char *s; }; int NAME (int a, int b) { struct NAME_s x; struct NAME_s *p = &x; char t[4]; t[0] = 1; t[1] = 2; t[2] = 3; t[3] = 4; p->s = t; *p->s = b; p->s++; *p->s = 7; return p->s[a] + *p->s * 10 + *(p->s - 1) * 100 + t[0] * 3 + p->s[-1]; }|0:0:2 1:-100:100
i ii |struct NAME_s { int k; char *s; }; int NAME (int a, int b) { struct NAME_s x; struct NAME_s *p = &x; char t[4]; char c; t[0] = 1; t[1] = 2; t[2] = 3; t[3] = 4; p->s = t; c = *p->s++; *p->s++ = b; return c + *p->s * 10 + t[1] * 3 + (p->s - t) * 1000; }|0:0:2 1:-100:100
i ii |int NAME (int a, int b) { int x[4]; int *p = x; x[0] = 1; x[1] = 2; x[2] = 3; x[3] = 4; *p++ = a; *++p = b; *p-- += 5; return x[0] + x[1] * 10 + x[2] * 100 + x[3] + (p - x) * 10000 + *(x + 2) * 3 + *(2 + x); }|0:-1000:1000 1:-1000:1000
i ii |int NAME (int a, int b) { int *v[2]; int **q = v; int x; int y; x = a; y = b; v[0] = &x; v[1] = &y; *v[0] += 2; **q += 3; q++; **q *= 2; (**q)++; return x * 7 + y + *v[1] + (q - v) * 100 + **(q - 1); }|0:-1000:1000 1:-1000:1000
i ii |void NAME_f (int *p, int **q) { *p = *p + 1; *q = p; } int NAME (int a, int b) { int x = a; int y[3]; int *r = 0; y[0] = 1; y[1] = b; y[2] = 4; NAME_f (&x, &r); NAME_f (&y[1], &r); NAME_f (y + 2, &r); *r += 10; return x + y[1] * 3 + y[2] * 5 + (r - y) * 7; }|0:-1000:1000 1:-1000:1000
i ii |struct NAME_i { int x; int y; }; struct NAME_s { int k; struct NAME_i i; struct NAME_i *p; }; int NAME (int a, int b) { struct NAME_s s; struct NAME_s *q = &s; struct NAME_i j; j.x = a; j.y = 3; s.k = 1; s.p = &j; q->i.x = b; q->i.y = 4; q->p->y += 2; (&q->i)->y++; s.p = &s.i; return j.x + j.y * 10 + s.i.x * 3 + q->p->y * 100 + q->p->x; }|0:-1000:1000 1:-1000:1000
i ii |struct NAME_s { int x; char c; }; int NAME (int a, int b) { struct NAME_s s; struct NAME_s t; struct NAME_s *p = &t; s.x = a; s.c = b; t = s; s.x = 0; s = *p; p->x++; *p = s; return t.x + t.c * 3 + s.x; }|0:-1000:1000 1:-100:100
i iii |int NAME (int a, int b, int c) { char x[4]; char *p = x; x[0] = a; x[1] = b; x[2] = c; x[3] = 0; while (*p) { if (*p == 3) return p - x; p++; } return x - p; }|0:-1:4 1:-1:4 2:-1:4
i ii |int NAME (int a, int b) { long x[4]; long *p = x + a; long *q = x + b; return (p < q) + (p == q) * 2 + (p > q) * 4 + (p != q) * 8 + (p - q) * 16 + (p <= q) * 3 + (p >= q) * 5; }|0:0:3 1:0:3
i ii |int NAME (int a, int b) { short x[6]; short *p; int n = 0; for (p = x; p < x + 6; p++) *p = p - x; for (p = x + 5; p >= x + a; p--) n += *p; return n + x[b]; }|0:0:5 1:0:5
i ii |int NAME (int a, int b) { int x[4]; x[2] = a; return *(2 + x); }|
i ii |int NAME (int a, int b) { int x[4]; int *p = x + 1; x[0] = x[1] = x[2] = a; *p-- += 5; return x[1] * 3 + x[0] + (p - x) * 10000; }|0:-1000:1000
i ii |int NAME (int a, int b) { int x[4]; int *p = x; x[0] = x[1] = x[2] = b; *++p = a; return x[1] * 3 + x[0] + (p - x) * 10000; }|0:-1000:1000 1:-1000:1000
i ii |int NAME (int a, int b) { long x[4]; long *p = x + a; long *q = x + b; return (p < q) + (p == q) * 2 ; }|0:0:3 1:0:3
i ii |int NAME (int a, int b) { long x[4]; long *p = x + a; long *q = x + b; return (p > q) * 4 + (p != q) * 8; }|0:0:3 1:0:3
i ii |int NAME (int a, int b) { long x[4]; long *p = x + a; long *q = x + b; return (p - q) * 16; }|0:0:3 1:0:3
i ii |int NAME (int a, int b) { long x[4]; long *p = x + a; long *q = x + b; return (p <= q) * 3 + (p >= q) * 5; }|0:0:3 1:0:3
i ii |struct NAME_s { int x; char c; }; int NAME (int a, int b) { struct NAME_s s; struct NAME_s t;  s.x = a; s.c = b; t = s; return t.x + t.c * 3 + s.x; }|0:-1000:1000 1:-100:100
i ii |struct NAME_s { int x; char c; }; int NAME (int a, int b) { struct NAME_s s; struct NAME_s t; struct NAME_s *p = &t; t.x = a; t.c = b; s.x = 0; s = *p; return t.x + t.c * 3 + s.x + s.c; }|0:-1000:1000 1:-100:100
i ii |struct NAME_s { int x; char c; }; int NAME (int a, int b) { struct NAME_s s; struct NAME_s t; struct NAME_s *p = &t; t.x = a; t.c = b; s.x = 0; s.c = 9; *p = s; return t.x + t.c * 3 + s.x + s.c; }|0:-1000:1000 1:-100:100
i ii |struct NAME_s { char v[1]; }; int NAME (int a, int b) { struct NAME_s x[3]; struct NAME_s *p = &x[2]; int i; for (i = 0; i < 1; i++) { x[0].v[i] = a + i; x[1].v[i] = 50 + i; x[2].v[i] = 70 + i; } x[1] = x[0]; *p = x[1]; return x[0].v[b] + x[1].v[b] * 3 + x[2].v[b] * 5; }|0:0:100 1:0:0
i ii |struct NAME_s { char v[2]; }; int NAME (int a, int b) { struct NAME_s x[3]; struct NAME_s *p = &x[1]; int i; for (i = 0; i < 2; i++) { x[0].v[i] = a + i; x[1].v[i] = 50 + i; x[2].v[i] = 70 + i; } *p = x[0]; return x[0].v[b] + x[1].v[b] * 3 + x[2].v[b] * 5; }|0:0:100 1:0:1
i ii |struct NAME_s { char v[3]; }; int NAME (int a, int b) { struct NAME_s x[3]; struct NAME_s *p = &x[1]; int i; for (i = 0; i < 3; i++) { x[0].v[i] = a + i; x[1].v[i] = 50 + i; x[2].v[i] = 70 + i; } *p = x[0]; return x[0].v[b] + x[1].v[b] * 3 + x[2].v[b] * 5; }|0:0:100 1:0:2
i ii |struct NAME_s { char v[4]; }; int NAME (int a, int b) { struct NAME_s x[3]; struct NAME_s *p = &x[1]; int i; for (i = 0; i < 4; i++) { x[0].v[i] = a + i; x[1].v[i] = 50 + i; x[2].v[i] = 70 + i; } *p = x[0]; return x[0].v[b] + x[1].v[b] * 3 + x[2].v[b] * 5; }|0:0:100 1:0:3
i ii |struct NAME_s { char v[5]; }; int NAME (int a, int b) { struct NAME_s x[3]; struct NAME_s *p = &x[0]; int i; for (i = 0; i < 5; i++) { x[0].v[i] = a + i; x[1].v[i] = 50 + i; x[2].v[i] = 70 + i; } x[1] = *p; return x[0].v[b] + x[1].v[b] * 3 + x[2].v[b] * 5; }|0:0:100 1:0:4
i ii |struct NAME_s { char v[6]; }; int NAME (int a, int b) { struct NAME_s x[3]; struct NAME_s *p = &x[0]; int i; for (i = 0; i < 6; i++) { x[0].v[i] = a + i; x[1].v[i] = 50 + i; x[2].v[i] = 70 + i; } x[1] = *p; return x[0].v[b] + x[1].v[b] * 3 + x[2].v[b] * 5; }|0:0:100 1:0:5
i ii |struct NAME_s { char v[7]; }; int NAME (int a, int b) { struct NAME_s x[3]; struct NAME_s *p = &x[0]; int i; for (i = 0; i < 7; i++) { x[0].v[i] = a + i; x[1].v[i] = 50 + i; x[2].v[i] = 70 + i; } x[1] = *p; return x[0].v[b] + x[1].v[b] * 3 + x[2].v[b] * 5; }|0:0:100 1:0:6
i ii |struct NAME_s { char v[8]; }; int NAME (int a, int b) { struct NAME_s x[3]; struct NAME_s y; int i; for (i = 0; i < 8; i++) { x[0].v[i] = a + i; x[1].v[i] = 50 + i; x[2].v[i] = 70 + i; } y = x[0]; x[1] = y; return x[0].v[b] + x[1].v[b] * 3 + x[2].v[b] * 5; }|0:0:100 1:0:7
i ii |struct NAME_s { char v[13]; }; int NAME (int a, int b) { struct NAME_s x[3]; struct NAME_s y; int i; for (i = 0; i < 13; i++) { x[0].v[i] = a + i; x[1].v[i] = 50 + i; x[2].v[i] = 70 + i; } y = x[0]; x[1] = y; return x[0].v[b] + x[1].v[b] * 3 + x[2].v[b] * 5; }|0:0:100 1:0:12
i ii |struct NAME_s { char v[16]; }; struct NAME_t { int k; struct NAME_s s; char e; }; struct NAME_s NAME_g; int NAME (int a, int b) { struct NAME_t x[2]; struct NAME_t *p = &x[1]; int i; for (i = 0; i < 16; i++) { x[0].s.v[i] = a + i; x[1].s.v[i] = 50 + i; } x[1].k = 3; p->e = 4; NAME_g = x[0].s; p->s = NAME_g; return x[0].s.v[b] + x[1].s.v[b] * 3 + p->k * 7 + x[1].e * 11; }|0:0:100 1:0:15
i ii |union NAME_u { int i; char c[4]; }; int NAME (int a, int b) { union NAME_u x; union NAME_u y; x.i = a; y = x; x.i = 0; return y.i + x.i + y.c[b]; }|1:0:3
i i |int NAME (int a) { unsigned x = 1; return (x << a) + (1 << a); }|0:0:20
'''


def listed(pre, text):
    r = []
    for n, line in enumerate(l for l in text.strip().splitlines() if l):
        sig, body = line.split("|", 1)
        body, lim = body.rsplit("|", 1)
        ret, args = sig.split()
        nm = "%s%d" % (pre, n)
        d = {}
        for x in lim.split():
            i, lo, hi = x.split(":")
            d[int(i)] = (int(lo), int(hi))
        r.append(Prog(nm, list(args), "i" if ret == "v" else ret, re_name(body, nm), lim=d))
    return r


def re_name(body, nm):
    return body.replace("NAME", nm)


def control():
    return listed("ctl", CONTROL)


def data():
    return listed("dat", DATA)


def trees(n=120, seed=7):
    """expressions of many operators over four ints: register allocation, spilling and evaluation of nested subexpressions"""
    rnd = random.Random(seed)

    def gen(d):
        if d == 0 or rnd.random() < 0.12:
            return rnd.choice(["a", "b", "c", "d", "a", "b", "c", "d", str(rnd.randrange(1, 100))])
        k = rnd.random()
        if k < 0.62:
            return "(%s %s %s)" % (gen(d - 1), rnd.choice(["+", "-", "&", "|", "^", "+", "-"]), gen(d - 1))
        if k < 0.72:
            return "(%s %s %s)" % (gen(d - 1), rnd.choice(["<", "<=", ">", ">=", "==", "!="]), gen(d - 1))
        if k < 0.80:
            return "(%s%s)" % (rnd.choice(["-", "~", "!"]), gen(d - 1))
        if k < 0.88:
            return "(%s ? %s : %s)" % (gen(d - 1), gen(d - 1), gen(d - 1))
        if k < 0.94:
            return "NAME_f (%s, %s)" % (gen(d - 1), gen(d - 1))
        return "((%s & 7) * %d)" % (gen(d - 1), rnd.randrange(2, 9))
    r = []
    for i in range(n):
        nm = "tree%d" % i
        lim = {k: (-1000, 1000) for k in range(4)}
        r.append(Prog(nm, ["i"] * 4, "i", re_name("int NAME_f (int x, int y) { return x - y; }\nint NAME (int a, int b, int c, int d) { return %s; }" % gen(3 + i % 3), nm), lim=lim))
    return r


def mixed(n=80, seed=11, arch=None):
    """expressions over operands of different types, whose values are converted and assigned to narrower and wider variables"""
    rnd = random.Random(seed)
    V = dict(a="c", b="s", c="i", d="l", e="C", f="S", g="L")

    def gen(d):
        if d == 0 or rnd.random() < 0.1:
            return rnd.choice(list(V) + [str(rnd.randrange(0, 300))])
        k = rnd.random()
        if k < 0.5:
            return "(%s %s %s)" % (gen(d - 1), rnd.choice(["+", "-", "&", "|", "^"]), gen(d - 1))
        if k < 0.64:
            return "(%s %s %s)" % (gen(d - 1), rnd.choice(["<", "<=", ">", ">=", "==", "!=", "&&", "||"]), gen(d - 1))
        if k < 0.72:
            return "(%s%s)" % (rnd.choice(["-", "~", "!"]), gen(d - 1))
        if k < 0.80:
            return "(%s ? %s : %s)" % (gen(d - 1), gen(d - 1), gen(d - 1))
        if k < 0.90:
            return "((%s) %s)" % (rnd.choice([T[t] for t in "cCsSilL"]), gen(d - 1))
        if k < 0.95:
            return "((%s & 63) << %d)" % (gen(d - 1), rnd.randrange(1, 5))
        return "NAME_f (%s, %s)" % (gen(d - 1), gen(d - 1))
    r = []
    for i in range(n):
        nm = "mix%d" % i
        t = rnd.choice("cCsSil")
        lim = {k: ((-100, 100) if v in "csil" else (0, 200)) for k, v in enumerate(V.values())}
        body = "long NAME_f (short x, long y) { return x - y; }\nlong NAME (%s) { %s x; long y; x = %s; y = x; x = y + %s; return y - x; }" % (
            ", ".join("%s %s" % (T[t_], v) for v, t_ in V.items()), T[t], gen(2 + i % 2), gen(2))
        r.append(Prog(nm, list(V.values()), "l", re_name(body, nm), lim=lim, arch=arch))
    return r


def statements(n=80, seed=5):
    """bodies of nested statements over locals, globals, arrays, structures and pointers; every value is kept small, so nothing overflows"""
    rnd = random.Random(seed)
    INT = ["x", "y", "NAME_g", "t[1]", "s.i", "u->i", "(*q)"]
    NARROW = ["s.c", "s.s", "u->c", "u->s", "k", "NAME_h", "v[1]", "w[2]"]

    def lv():
        k = rnd.random()
        if k < 0.5:
            return rnd.choice(INT)
        if k < 0.8:
            return rnd.choice(NARROW)
        return "t[%s & 3]" % rnd.choice(["x", "y", "i", "a"]) if k < 0.9 else "v[%s & 3]" % rnd.choice(["x", "y", "i", "a"])

    def rv(d=2):
        if d == 0 or rnd.random() < 0.25:
            return rnd.choice(["a", "b", "i", "x", "y", str(rnd.randrange(0, 130)), lv(), lv()])
        k = rnd.random()
        if k < 0.7:
            return "(%s %s %s)" % (rv(d - 1), rnd.choice(["+", "-", "&", "|", "^", "+", "-"]), rv(d - 1))
        if k < 0.8:
            return "(%s)" % cond(d - 1)
        if k < 0.9:
            return "(%s ? %s : %s)" % (cond(d - 1), rv(d - 1), rv(d - 1))
        return "(%s%s)" % (rnd.choice(["-", "~", "!"]), rv(d - 1))

    def cond(d=1):
        k = rnd.random()
        if k < 0.7:
            return "%s %s %s" % (rv(d), rnd.choice(["<", "<=", ">", ">=", "==", "!="]), rv(max(d - 1, 0)))
        if k < 0.85:
            return "%s %s %s" % (cond(0), rnd.choice(["&&", "||"]), cond(0))
        return rnd.choice(["%s", "!%s"]) % rnd.choice(["x", "y", "s.c", "v[2]", "*q", "u->s"])

    def assign():
        k = rnd.random()
        if k < 0.55:
            return "%s = (%s) & 1023;" % (rnd.choice(INT), rv())
        if k < 0.70:
            return "%s = %s;" % (rnd.choice(NARROW), rv())
        if k < 0.80:
            return "%s %s= %s;" % (rnd.choice(NARROW), rnd.choice("+-&|^"), rv(1))
        if k < 0.90:
            return "%s;" % (rnd.choice(["%s++", "%s--", "++%s", "--%s"]) % lv())
        if k < 0.94:
            return "%s = NAME_f (%s, %s) & 511;" % (rnd.choice(INT), rv(1), rnd.choice(["&x", "&y", "t + 2", "&s.i", "q"]))
        return rnd.choice(["q = &x;", "q = &y;", "q = t + 2;", "u = &s;", "u = &NAME_z;", "*q = (%s) & 511;" % rv(), "x = (y = (%s) & 255);" % rv(1), "x = (s.c = %s);" % rv(1), "y = k++;", "x = --s.s;"])

    def block(d, loop, n_=None):
        return "{ %s }" % " ".join(stmt(d, loop) for _ in range(n_ or rnd.randrange(1, 4)))

    def stmt(d, loop):
        k = rnd.random()
        if d == 0 or k < 0.45:
            return assign()
        if k < 0.62:
            return "if (%s) %s%s" % (cond(), block(d - 1, loop), " else " + block(d - 1, loop) if rnd.random() < 0.6 else "")
        if k < 0.74 and not loop:
            f = rnd.choice(["for (i = 0; i < %d; i++) %s", "i = %d; while (i--) %s", "i = %d; do %s while (--i > 0);"])
            return f % (rnd.randrange(2, 4), block(d - 1, 1, 2))
        if k < 0.80 and loop == 1:
            return "if (%s) %s;" % (cond(0), rnd.choice(["break", "continue"])) if rnd.random() < 0.7 else assign()
        if k < 0.95:
            cs = rnd.sample(range(4), 3)
            out = []
            for c in cs:
                out.append("case %d: %s%s" % (c, stmt(d - 1, loop and 2), " break;" if rnd.random() < 0.65 else ""))
            if rnd.random() < 0.7:
                out.insert(rnd.randrange(len(out) + 1), "default: %s%s" % (assign(), " break;" if rnd.random() < 0.7 else ""))
            return "switch (%s) { %s }" % (rnd.choice(["x & 3", "a", "s.c & 3", "y & 3", "k & 3"]), " ".join(out))
        return block(d - 1, loop)
    r = []
    for j in range(n):
        nm = "stm%d" % j
        body = "struct NAME_s { char c; int i; short s; }; struct NAME_s NAME_z = { 3, 5, 7 }; int NAME_g = 9; char NAME_h = -2;\n" \
            "int NAME_f (int x, int *p) { *p = (*p + 1) & 255; NAME_g = (NAME_g + x) & 127; return (x & 63) - *p; }\n" \
            "int NAME (int a, int b) { int i = 0; int x = a; int y = b; char k = 1; int t[4]; char v[4]; short w[4]; struct NAME_s s; struct NAME_s *u = &NAME_z; int *q = &x; " \
            "NAME_g = 9; NAME_h = -2; NAME_z.c = 3; NAME_z.i = 5; NAME_z.s = 7; for (i = 0; i < 4; i++) { t[i] = i * 3; v[i] = i - 2; w[i] = i * 300; } s.c = 1; s.i = 2; s.s = -3; %s " \
            "return x + y * 3 + i + k + t[0] + t[1] * 2 + t[2] * 3 + t[3] * 5 + v[0] + v[1] * 7 + v[2] * 11 + v[3] + w[2] + s.c * 13 + s.i + s.s + NAME_z.c + NAME_z.i * 2 + NAME_z.s + NAME_g + NAME_h; }" % " ".join(stmt(3, False) for _ in range(4))
        r.append(Prog(nm, ["i", "i"], "i", re_name(body, nm), lim={0: (-20, 20), 1: (-200, 200)}))
    return r


FAMILIES.update(places=places, constants=constants, control=control, data=data, trees=trees, mixed=mixed, statements=statements)
