"""MesCC's output as C: compile with the compiler in /repo, expand with M1, disassemble, and write each instruction as a C statement
over registers and a flat memory.  The C is then executed symbolically next to the same source compiled by clang."""
import os, re, subprocess, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
ARCH = {"x86_64": dict(m="64", mach="amd64", m1="x86_64-mes/x86_64.M1", w=64, elf=(["as", "--64"]), triple="x86_64"),
        "x86": dict(m="32", mach="x86", m1="x86-mes/x86.M1", w=32, elf=(["as", "--32"]), triple="i386")}
CODE = 0x10000000
MEMSIZE = 0x20000


class Bad(Exception):
    pass


def driver(d):
    """scripts/mescc.scm as configure makes it, with the tree's own modules and no compiled files"""
    s = open(REPO + "/scripts/mescc.scm.in").read()
    for k, v in dict(prefix="", VERSION="0.24", mes_cpu="x86_64", mes_kernel="linux", GUILE="guile", GUILE_EFFECTIVE_VERSION="3.0", guile_site_dir="/", guile_site_ccache_dir="/").items():
        s = s.replace("@%s@" % k, v)
    p = d + "/mescc.scm"
    open(p, "w").write(s)
    return p


def mescc(d, src, out, arch, extra=(), timeout=600):
    env = dict(os.environ, GUILE_AUTO_COMPILE="0", GUILE_LOAD_PATH="%s/module:%s/mes" % (REPO, REPO), GUILE_LOAD_COMPILED_PATH="", includedir=REPO + "/include",
               libdir=REPO + "/lib", MES_PREFIX=REPO, LANG="C", LC_ALL="C", HOME=d, XDG_CACHE_HOME=d)
    try:
        r = subprocess.run(["guile", "--no-auto-compile", "-e", "main", "-s", driver(d), "-m", ARCH[arch]["m"], "-S", "-o", out] + list(extra) + [src],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Bad("mescc: not done after %d s" % timeout)
    if r.returncode or not os.path.exists(out):
        raise Bad("mescc: " + r.stdout[-2000:])
    return r.stdout


def expand(d, m1, arch):
    h = m1 + ".hex2"
    r = subprocess.run(["M1", "--architecture", ARCH[arch]["mach"], "--little-endian", "-f", "%s/lib/%s" % (REPO, ARCH[arch]["m1"]), "-f", m1, "-o", h],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Bad("M1: " + r.stdout[-2000:])
    return open(h).read()


def items(hex2):
    """[('label', name) | ('bytes', b) | ('ref', size, kind, label) | ('align',)]"""
    out = []
    for line in hex2.splitlines():
        line = re.sub(r"[#;].*", "", line)
        for t in line.split():
            if t[0] == ":":
                out.append(("label", t[1:]))
            elif t[0] == "<":
                out.append(("align",))
            elif t[0] in "!@%&~$":
                if ">" in t:
                    raise Bad("hex2 token " + t)
                size = {"!": 1, "@": 2, "%": 4, "&": 4, "~": 3, "$": 2}[t[0]]
                out.append(("ref", size, "abs" if t[0] in "&$" else "rel", t[1:]))
            elif re.fullmatch(r"[0-9A-Fa-f]+", t) and len(t) % 2 == 0:
                out.append(("bytes", bytes.fromhex(t)))
            else:
                raise Bad("hex2 token " + t)
    return out


class Image:
    def __init__(self, its):
        self.lab, self.dup = {}, set()
        self.its = its
        pc = CODE
        data = None
        for it in its:
            if it[0] == "label":
                if it[1] in ("ELF_data", "HEX2_data"):
                    if data is None:
                        pc = (pc + 4095) & ~4095
                        data = pc
                    continue
                self.dup |= {it[1]} & set(self.lab)
                self.lab[it[1]] = pc
            elif it[0] == "bytes":
                pc += len(it[1])
            elif it[0] == "ref":
                pc += it[1]
            elif it[0] == "align":
                pc = (pc + 3) & ~3
        if data is None:
            raise Bad("no data marker")
        self.data, self.end = data, pc
        code, dat = bytearray(), bytearray()
        cur, base = code, CODE
        for it in its:
            at = base + len(cur)
            if it[0] == "label":
                if it[1] in ("ELF_data", "HEX2_data"):
                    cur, base = dat, data
            elif it[0] == "bytes":
                cur += it[1]
            elif it[0] == "align":
                while len(cur) & 3:
                    cur.append(0x90 if cur is code else 0)
            else:
                _, size, kind, l = it
                if l not in self.lab:
                    raise Bad("undefined label " + l)
                v = self.lab[l] - (at + size if kind == "rel" else 0)
                if not -(1 << (8 * size - 1)) <= v < 1 << (8 * size - (kind == "rel")):
                    raise Bad("label %s out of reach" % l)
                cur += (v & ((1 << (8 * size)) - 1)).to_bytes(size, "little")
        self.code, self.dat = bytes(code), bytes(dat)
        self.name = {}
        for l, a in self.lab.items():
            self.name.setdefault(a, []).append(l)


def disassemble(d, img, arch):
    """address -> (mnemonic, operands, next address)"""
    s = d + "/img.s"
    with open(s, "w") as f:
        f.write(".text\n")
        for i in range(0, len(img.code), 32):
            f.write(".byte " + ",".join("0x%x" % b for b in img.code[i:i + 32]) + "\n")
    o = d + "/img.o"
    subprocess.run(ARCH[arch]["elf"] + [s, "-o", o], check=True)
    r = subprocess.run(["llvm-objdump", "-d", "--x86-asm-syntax=intel", "--adjust-vma=0x%x" % CODE, o], stdout=subprocess.PIPE, text=True, check=True)
    ins = []
    for line in r.stdout.splitlines():
        m = re.match(r"\s*([0-9a-f]+):((?: [0-9a-f]{2})+)\s*\t(.*)$", line)
        if m:
            t = m.group(3).split("<")[0].split("#")[0].strip()
            p = t.split(None, 1)
            ins.append((int(m.group(1), 16), p[0], p[1].strip() if len(p) > 1 else "", len(m.group(2).split())))
    return {a: (mn, ops, a + n) for a, mn, ops, n in ins}


R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
REGS = {}
for i, r in enumerate(R64):
    REGS[r] = (r, 64, 0)
    if i < 8:
        b = r[1:]
        REGS["e" + b] = (r, 32, 0)
        REGS[b] = (r, 16, 0)
        REGS[b + "l" if b[1] in "spi" and b[0] in "sdb" and b != "bx" else b[0] + "l"] = (r, 8, 0)
    else:
        REGS[r + "d"] = (r, 32, 0)
        REGS[r + "w"] = (r, 16, 0)
        REGS[r + "b"] = (r, 8, 0)
for b in "acdb":
    REGS[b + "h"] = ("r%sx" % b, 8, 8)
CC = {"e": "zf", "ne": "!zf", "b": "cf", "ae": "!cf", "be": "(cf | zf)", "a": "!(cf | zf)", "l": "(sf != of)", "ge": "(sf == of)", "le": "(zf | (sf != of))",
      "g": "!(zf | (sf != of))", "s": "sf", "ns": "!sf", "o": "of", "no": "!of"}
SZ = {"byte": 8, "word": 16, "dword": 32, "qword": 64}


class Lift:
    def __init__(self, d, img, arch):
        self.img, self.arch, self.W = img, arch, ARCH[arch]["w"]
        self.ins = disassemble(d, img, arch)
        self.top = img.data + MEMSIZE

    def reg(self, r):
        b, w, sh = REGS[r]
        if w == 64:
            return b
        if sh:
            return "((%s >> 8) & 0xff)" % b
        return "((u%d) %s)" % (w, b)

    def operand(self, o):
        o = o.strip()
        if o in REGS:
            return ("r", o, REGS[o][1])
        m = re.fullmatch(r"(?:(byte|word|dword|qword) ptr )?(?:ds:)?\[(.*)\]", o) or re.fullmatch(r"(byte|word|dword|qword) ptr (?:ds:)?(.*)", o)
        if m:
            return ("m", self.addr(m.group(2)), SZ.get(m.group(1), 0))
        m = re.fullmatch(r"-?(0x[0-9a-f]+|\d+)", o)
        if m:
            return ("i", int(o, 0), 0)
        raise Bad("operand " + o)

    def addr(self, t):
        t = t.strip("[]")
        e, out = t.replace("- ", "+ -").split("+"), []
        for x in e:
            x = x.strip().replace(" ", "")
            if x in REGS:
                out.append(self.reg(x))
            elif "*" in x:
                a, b = x.split("*")
                out.append("%s * %s" % ((self.reg(a), b) if a in REGS else (self.reg(b), a)))
            else:
                out.append("(u64) (i64) %d" % (lambda v: v - (1 << 64) if v >= 1 << 63 else v)(int(x, 0)))
        s = " + ".join(out)
        return "(u32) (%s)" % s if self.W == 32 else s

    def get(self, o, w, signed=False):
        k = o[0]
        if k == "r":
            return self.reg(o[1])
        if k == "m":
            return "LD%d (%s)" % (w, o[1])
        return "((u%d) %dLL)" % (w, o[1] if o[1] < 1 << 63 else o[1] - (1 << 64))

    def put(self, o, w, e):
        if o[0] == "m":
            return "ST%d (%s, %s);" % (w, o[1], e)
        b, rw, sh = REGS[o[1]]
        if rw == 64:
            return "%s = %s;" % (b, e)
        if rw == 32:
            return "%s = (u32) (%s);" % (b, e)
        m = 0xff if rw == 8 else 0xffff
        if sh:
            return "%s = (%s & ~0xff00ULL) | (((u64) (%s) & 0xff) << 8);" % (b, b, e)
        return "%s = (%s & ~0x%xULL) | ((u64) (%s) & 0x%x);" % (b, b, m, e, m)

    def flags(self, w, kind):
        """x, y: operands; z: result"""
        s = "zf = (u%d) z == 0; sf = (i%d) z < 0; " % (w, w)
        if kind == "add":
            s += "cf = (u%d) z < (u%d) x; of = (i%d) ((z ^ x) & (z ^ y)) < 0;" % (w, w, w)
        elif kind == "sub":
            s += "cf = (u%d) x < (u%d) y; of = (i%d) ((x ^ y) & (x ^ z)) < 0;" % (w, w, w)
        else:
            s += "cf = 0; of = 0;"
        return s

    def one(self, a, name):
        mn, ops, nxt = self.ins[a]
        O = [self.operand(x) for x in ops.split(",")] if ops and mn not in ("call", "jmp") and not (mn[0] == "j") else []
        W = self.W
        w = max([o[2] for o in O] or [0])
        if mn in ("mov", "movabs"):
            w = O[0][2] or O[1][2]
            return self.put(O[0], w, self.get(O[1], w))
        if mn in ("movzx", "movsx", "movsxd"):
            sw = O[1][2]
            c = "(u%d) (%s%d) " % (O[0][2], "u" if mn == "movzx" else "i", sw)
            return self.put(O[0], O[0][2], c + self.get(O[1], sw))
        if mn == "lea":
            return self.put(O[0], O[0][2], O[1][1])
        if mn in ("add", "sub", "cmp", "and", "or", "xor", "test", "neg", "inc", "dec"):
            w = O[0][2] or O[1][2]
            if mn == "neg":
                x, y, op = "0", self.get(O[0], w), "sub"
            elif mn in ("inc", "dec"):
                x, y, op = self.get(O[0], w), "1", "add" if mn == "inc" else "sub"
            else:
                x, y, op = self.get(O[0], w), self.get(O[1], w), {"cmp": "sub", "test": "and"}.get(mn, mn)
            c = {"add": "+", "sub": "-", "and": "&", "or": "|", "xor": "^"}[op]
            s = "{ u%d x = %s, y = %s, z = x %s y; " % (w, x, y, c)
            save = "u8 c0 = cf; " if mn in ("inc", "dec") else ""
            s += save + self.flags(w, op) + (" cf = c0;" if save else "")
            if mn not in ("cmp", "test"):
                s += " " + self.put(O[0], w, "z")
            return s + " }"
        if mn == "not":
            return self.put(O[0], O[0][2], "~" + self.get(O[0], O[0][2]))
        if mn in ("shl", "shr", "sar"):
            w = O[0][2]
            n = self.get(O[1], 8) if len(O) > 1 else "1"
            c = "(u%d) x << n" % w if mn == "shl" else "(u%d) x >> n" % w if mn == "shr" else "(u%d) ((i%d) x >> n)" % (w, w)
            # flags after a shift are left alone: no generated code reads them (checked below)
            return "{ u%d x = %s; u8 n = (%s) & %d; %s zf = sf = cf = of = undef (); }" % (w, self.get(O[0], w), n, 63 if w == 64 else 31, self.put(O[0], w, "n < %d ? %s : %s" % (w, c, "0" if mn != "sar" else "(u%d) ((i%d) x < 0 ? -1 : 0)" % (w, w))))
        if mn == "mul" or (mn == "imul" and len(O) == 1):
            w = O[0][2]
            hi = "undef ()"  # the upper half is not used by generated code
            if w == 64:
                return "{ rax = rax * %s; rdx = undef (); zf = sf = cf = of = undef (); }" % self.get(O[0], w)
            if w == 32:
                return "{ u64 p = (u64) (u32) rax * (u64) (u32) %s; rax = (u32) p; rdx = (u32) (p >> 32); zf = sf = cf = of = undef (); }" % self.get(O[0], w)
            raise Bad("mul %d" % w)
        if mn == "imul":
            w = O[0][2]
            x, y = (self.get(O[0], w), self.get(O[1], w)) if len(O) == 2 else (self.get(O[1], w), self.get(O[2], w))
            return "{ u%d p = (u%d) (%s) * (u%d) (%s); %s zf = sf = cf = of = undef (); }" % (w, w, x, w, y, self.put(O[0], w, "p"))
        if mn in ("div", "idiv"):
            w = O[0][2]
            return "{ u%d y = %s; %s (y); zf = sf = cf = of = undef (); }" % (w, self.get(O[0], w), mn + str(w))
        if mn == "cqo":
            return "rdx = (i64) rax < 0 ? ~0ULL : 0;"
        if mn == "cdq":
            return "rdx = (u32) ((i32) rax < 0 ? -1 : 0);"
        if mn == "push":
            n = W // 8
            v = self.get(O[0], W)
            if O[0][0] == "i" and W == 64:
                v = "((u64) (i64) %dLL)" % O[0][1] if O[0][1] < 1 << 63 else v
            return "{ u%d v = %s; rsp -= %d; ST%d (rsp, v); }" % (W, v, n, W)
        if mn == "pop":
            return "{ u%d v = LD%d (rsp); rsp += %d; %s }" % (W, W, W // 8, self.put(O[0], W, "v"))
        if mn == "xchg":
            w = O[0][2] or O[1][2]
            return "{ u%d x = %s, y = %s; %s %s }" % (w, self.get(O[0], w), self.get(O[1], w), self.put(O[0], w, "y"), self.put(O[1], w, "x"))
        if mn.startswith("set") and mn[3:] in CC:
            return self.put(O[0], 8, "(u8) (%s)" % CC[mn[3:]])
        if mn == "lahf":
            return "rax = (rax & ~0xff00ULL) | ((u64) ((u64) (sf ? 0x80 : 0) | (zf ? 0x40 : 0) | 2 | (cf ? 1 : 0)) << 8);"
        if mn == "sahf":
            return "{ u8 h = (u8) (rax >> 8); sf = h >> 7; zf = (h >> 6) & 1; cf = h & 1; }"
        if mn == "nop":
            return ";"
        if mn in ("cbw", "cwde", "cdqe"):
            raise Bad(mn)
        if mn == "call":
            n = W // 8
            ra = "rsp -= %d; ST%d (rsp, 0x%x);" % (n, W, nxt)
            m = re.fullmatch(r"0x[0-9a-f]+", ops)
            if m:
                t = int(ops, 16)
                if t not in self.entries:
                    raise Bad("call into 0x%x" % t)
                return "{ %s m_%s (); after (0x%x); }" % (ra, self.entries[t], nxt)
            o = self.operand(ops)
            return "{ u64 t = %s; %s go (t); after (0x%x); }" % (self.get(o, W), ra, nxt)
        if mn == "ret":
            return "{ ret_at = LD%d (rsp); rsp += %d; return; }" % (W, W // 8)
        if mn == "jmp" or (mn[0] == "j" and mn[1:] in CC):
            if not re.fullmatch(r"0x[0-9a-f]+", ops):
                raise Bad("%s %s" % (mn, ops))
            t = int(ops, 16)
            self.targets.add(t)
            return ("goto L%x;" % t) if mn == "jmp" else "if (%s) goto L%x;" % (CC[mn[1:]], t)
        if mn == "leave":
            return "{ rsp = rbp; u%d v = LD%d (rsp); rsp += %d; %s }" % (W, W, W // 8, "rbp = v;")
        raise Bad("instruction %s %s" % (mn, ops))

    def run(self, functions):
        """C text; FUNCTIONS: the labels that are functions"""
        img = self.img
        self.entries = {img.lab[f]: f for f in functions if f in img.lab}
        starts = sorted(self.entries)
        body, bad = [], {}
        for i, s in enumerate(starts):
            f = self.entries[s]
            self.targets = set()
            seen, todo, code = set(), [s], {}
            try:
                while todo:
                    a = todo.pop()
                    while a not in seen:
                        if a not in self.ins:
                            raise Bad("jump into the middle of an instruction: 0x%x in %s" % (a, f))
                        seen.add(a)
                        before = set(self.targets)
                        code[a] = self.one(a, f)
                        todo += list(self.targets - before)
                        if self.ins[a][0] in ("ret", "jmp"):
                            break
                        a = self.ins[a][2]
                        if a in self.entries:
                            raise Bad("%s runs into %s" % (f, self.entries[a]))
                text = "static void m_%s (void)\n{\n" % f
                prev = None
                for a in sorted(seen):
                    if prev is not None and prev != a and prev in seen:
                        pass
                    lab = "L%x: " % a if a in self.targets else ""
                    text += "  %s%s\n" % (lab, code[a])
                    prev = self.ins[a][2]
                body.append(text + "}\n")
            except Bad as e:
                bad[f] = str(e)
                body.append("static void m_%s (void) { unsupported (\"%s\"); }\n" % (f, str(e).replace('"', "'")))
        h = "".join("static void m_%s (void);\n" % f for f in self.entries.values())
        sw = "static void go (u64 t)\n{\n  switch (t)\n    {\n" + "".join("    case 0x%x: m_%s (); return;\n" % (a, f) for a, f in sorted(self.entries.items())) + "    }\n  bad_call ();\n}\n"
        dat = "#ifdef SX_NATIVE\nstatic unsigned char const code[] = {" + ",".join(str(b) for b in img.code) + "};\n#endif\nstatic unsigned char const image[] = {" + ",".join(str(b) for b in img.dat or b"\0") + "};\n"
        pre = "#define CODE 0x%xULL\n" % CODE + "#define LO 0x%xULL\n#define MEMSIZE 0x%x\n#define WORD %d\n" % (img.data, MEMSIZE, self.W // 8)
        return pre + dat, h + sw + "".join(body), bad


def harness(progs, pre, lifted, arch, img):
    """C text of the harness: one case per group of programs"""
    T = {"c": "char", "C": "unsigned char", "s": "short", "S": "unsigned short", "i": "int", "I": "unsigned int", "l": "long", "L": "unsigned long"}
    NB = {"c": 8, "C": 8, "s": 16, "S": 16, "i": 32, "I": 32, "l": 64, "L": 64}
    if ARCH[arch]["w"] == 32:
        T.update(l="int", L="unsigned int")
        NB.update(l=32, L=32)
    o = [pre, '#include "rt.h"\n', lifted]
    for p in progs:
        o.append("extern %s %s (%s);\n" % (T[p.ret], p.name, ", ".join(T[a] for a in p.args) or "void"))
        o.append("static void t_%s (void)\n{\n  u64 a[8];\n" % p.name)
        for i, a in enumerate(p.args):
            lo, hi = p.lim.get(i, (None, None))
            if lo is not None and a in "lL" and ARCH[arch]["w"] == 32:
                lo, hi = max(lo, -(1 << 31)), min(hi, (1 << 31) - 1)
            if lo is None:
                o.append("  %s x%d = (%s) sx_%s;\n" % (T[a], i, T[a], "u64 (\"x%d\")" % i if NB[a] == 64 else "int (0, 0x%xL, \"x%d\")" % ((1 << NB[a]) - 1, i)))
            else:
                o.append("  %s x%d = (%s) sx_int (%dL, %dL, \"x%d\");\n" % (T[a], i, T[a], lo, hi, i))
            o.append("  a[%d] = (u64) (i64) x%d;\n" % (i, i))
        o.append("  %s want = %s (%s);\n" % (T[p.ret], p.name, ", ".join("x%d" % i for i in range(len(p.args)))))
        o.append("  %s got = (%s) machine_call (m_%s, 0x%x, a, %d);\n" % (T[p.ret], T[p.ret], p.name, img.lab[p.name], len(p.args)))
        o.append("  sx_assert (got == want, \"%s\");\n}\n" % p.name)
    o.append("static struct { char const *name; void (*run) (void); } const prog[] = {\n" + "".join("  { \"%s\", t_%s },\n" % (p.name, p.name) for p in progs) + "};\n")
    n = min(len(progs), 64)
    o.append("""int sx_main (void)
{
  long g = sx_case (%d);
  long k = g + %d * sx_choice ((%d - g + %d) / %d);
  for (long i = 0; i < sizeof image; i++) MEM[i] = image[i];
  now = prog[k].name;
  prog[k].run ();
  sx_cover ("program");
  sx_done ();
  return 0;
}
""" % (n, n, len(progs), n - 1, n))
    return "".join(o)


REF = "-std=gnu89 -fsanitize=signed-integer-overflow,shift,integer-divide-by-zero -fsanitize-trap=all".split()


def build(d, progs, arch, timeout=150):
    """compile PROGS with MesCC into directory D: (harness file, reference file, what could not be lifted)"""
    os.makedirs(d, exist_ok=True)
    src = "".join(p.text + "\n" for p in progs)
    open(d + "/p.c", "w").write(src + "int main () { return 0; }\n")
    mescc(d, d + "/p.c", d + "/p.M1", arch, timeout=timeout)
    img = Image(items(expand(d, d + "/p.M1", arch)))
    fn = [l for l, a in img.lab.items() if a < img.data and not l.startswith("_")]
    pre, lifted, bad = Lift(d, img, arch).run(fn)
    open(d + "/h.c", "w").write(harness(progs, pre, lifted, arch, img))
    open(d + "/ref.c", "w").write(("#define long int\n" if ARCH[arch]["w"] == 32 else "") + src)
    return d + "/h.c", d + "/ref.c", bad
