"""The checks, one function per property."""
import vf, glob, os

PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


def D(**kw):
    return ["-D%s=%s" % kv for kv in kw.items()]


def libc(c, name, harness, **kw):
    return c.run_symx(name, harness, vf.lib_sources(), "libc", **kw)


def mes(c, name, harness, **kw):
    kw.setdefault("wraps", ["mes_builtins", "error"])
    return c.run_symx(name, harness, vf.mes_sources() + vf.lib_sources(), "mes", **kw)


@prop("L01")
def L01(c, deep):
    n, m = (40, 12) if deep else (24, 8)
    libc(c, "mem", "libc_mem.c", defs=D(N=n, M=m), bound="lengths 0..%d plus 17 sizes up to 4097; overlap offsets 0..%d; searched/compared blocks up to %d bytes; all byte values" % (n, m, m),
         expect=["memcpy", "memmove", "memset", "memcmp", "memchr-found", "memchr-none", "memmem-found", "memmem-none", "bcopy", "bcmp", "bzero"], replay_ok=8)


@prop("L02")
def L02(c, deep):
    m, s = (7, 4) if deep else (5, 3)
    libc(c, "str", "libc_str.c", defs=D(M=m, S=s), bound="strings up to %d bytes (12 for strlen/strcpy, 6 for strstr), needles and sets up to %d, every byte value, every 64-bit character argument" % (m, s),
         expect=["strlen", "strcmp", "strncmp", "strncmp-array", "strcpy", "strncpy", "strcat", "strncat", "strchr-found", "strchr-none", "strrchr-found", "strrchr-none", "strstr-found", "strstr-none", "strspn", "strcspn", "strpbrk-found", "strpbrk-none", "strdup", "strlwr", "strupr"], replay_ok=19)


@prop("L03")
def L03(c, deep):
    libc(c, "ctype", "libc_ctype.c", bound="every int value, every base 2..36", expect=["ctype"], replay_ok=2)


@prop("L04")
def L04(c, deep):
    n = 4 if deep else 3
    libc(c, "num", "libc_num.c", defs=D(N=n), bound="strings of any bytes up to %d long in bases 0,2,7,8,10,16,19,36; prefixed forms [space][sign]0[x] followed by any two bytes; every decimal numeral up to 18 digits and 19-digit ones below 9e18, both signs, and the type limits; hexadecimal numerals up to 16 digits with three free digits" % n,
         expect=["strtol-number", "strtol-none", "prefix", "atoi", "long", "hex", "abtol"], replay_ok=8)


@prop("L05")
def L05(c, deep):
    libc(c, "itoa", "libc_itoa.c", defs=D(SYM=5 if deep else 2), bound="64-bit values in bases 2, 3, 7, 8, 10, 16, 36 given by their numeral: every numeral of every length in bases up to 10, and in bases 16 and 36 any %d consecutive digits free, the longest numerals with leading digits below the maximum's; neighbours of 2^31, 2^32, 2^63, 2^64; both signs; int-sized functions over int" % (5 if deep else 2),
         expect=["ntoab", "ltoab", "ltoa", "itoa"], replay_ok=9)


@prop("L08")
def L08(c, deep):
    n = 6 if deep else 5
    libc(c, "sort", "libc_sort.c", defs=D(N=n), bound="arrays of up to %d one-byte elements, %d two-byte records ordered by their first byte, 2 elements of 9 bytes; every content" % (n, n - 1),
         expect=["bytes", "records", "reverse", "wide"], replay_ok=4)


@prop("L09")
def L09(c, deep):
    n = 4 if deep else 3
    libc(c, "malloc", "libc_malloc.c", defs=D(OPS=n), opts=["--max-insn", "400000000"], bound="every history of up to %d malloc/calloc/realloc/free calls with sizes 0,1,16,29 from aligned and unaligned starting breaks; refusals at a 200-byte limit for every request up to 400; every 64-bit size from 2000; every overflowing calloc product with a factor up to 9" % n,
         expect=["history", "granted", "refused", "huge"], replay_ok=8)


@prop("L10")
def L10(c, deep):
    n = 4 if deep else 3
    libc(c, "env", "libc_env.c", defs=D(OPS=n), bound="initial environments of up to 3 entries (duplicate names included), every history of %d setenv/unsetenv calls (one fewer when it starts with 2 or 3 entries), 3 names with a common prefix, values of up to one byte of any content; any three names of one or two characters with one call" % n,
         expect=["add", "replace", "keep", "unset", "duplicate", "names"], replay_ok=4)


@prop("L06")
def L06(c, deep):
    libc(c, "printf", "libc_printf.c", defs=D(NV=3 if deep else 2), bound="one conversion d,i,u,o,x,X,c,s,%%n,%%%% with every combination of the flags - and 0, no width, widths 1,4,6 or * of 0,3,5,-5, no precision, precisions '.',0,2,5 or * of 0,2,4,-1 and length none,l,ll; values given by a numeral of up to %d free digits and the limits of 32 and 64 bits; strings of up to 6 bytes, unterminated ones up to the precision; buffers of every size up to the text's; formats of up to three conversions with text between" % (3 if deep else 2),
         expect=["conversion", "buffer", "sprintf", "stream", "truncated", "n", "percent", "several"], replay_ok=8)


@prop("L12")
def L12(c, deep):
    o = 3 if deep else 2
    libc(c, "input", "libc_input.c", defs=D(OPS=o, SIZE=5 if deep else 4), timeout=840 if not deep else 3000, bound="files and pipes of up to %d bytes of any content read by every history of %d calls of fgetc, getc, ungetc, fread, fgets, read, feof, fseek, ftell and close/reopen/dup2, with 5 sizes of the read buffer, short reads and failing reads at any point" % (5 if deep else 4, o),
         expect=["fgetc", "ungetc", "fread", "fread-error", "fgets", "fgets-error", "read", "feof", "ftell", "seek", "seek-refused", "reopen", "dup2"], replay_ok=7)


@prop("L13")
def L13(c, deep):
    o = 3 if deep else 2
    libc(c, "output", "libc_output.c", defs=D(OPS=o), timeout=840 if not deep else 3000, bound="15 modes of fopen on existing and missing files; every history of %d calls of fputc, putc, fputs, fwrite, write, fseek, ftell, fgetc, fread and read with up to 4 bytes of any content; short, refused and failing writes; the standard streams through puts, putchar, oputs, eputs, oputc, eputc" % o,
         expect=["fputc", "fputs", "fwrite", "write", "seek", "ftell", "fgetc", "fread", "missing", "refused", "standard", "standard-error"], replay_ok=6)


@prop("L14")
def L14(c, deep):
    libc(c, "sys", "libc_sys.c", bound="56 wrappers with every value of their arguments and every result of the kernel; two kernel calls at most for those that combine several",
         expect=["error", "result", "signal", "stat", "remove", "time", "clock", "alarm", "raise", "isatty", "brk", "lseek", "sleep"], replay_ok=20)


@prop("L18")
def L18(c, deep):
    n = 4 if deep else 3
    libc(c, "dir", "libc_dir.c", defs=D(N=n), bound="directories of up to %d entries with names of up to 2 bytes, deleted ones among them, delivered by the kernel in blocks of every size; refusals of every step" % n,
         expect=["refused", "entry", "all", "failure"], replay_ok=3)


@prop("I01")
def I01(c, deep):
    mes(c, "graph", "mes_gc.c", defs=['-DARENA="100000"', '-DMSTACK="1000"', "-DDEEP=%d" % int(deep)], expect=["graph", "kept", "error"], replay_ok=5,
        bound="graphs of 3 objects of 15 kinds, pairs and vectors with any links among them (cycles included), from 7 roots, over 5 collections with changes between; strings of 0 to 17 bytes; every number and byte; live lists of 20 to 12000 cells against a reserve of 11000")
    c.run_symx("moments", "scm_gc.c", vf.mes_sources() + vf.lib_sources(), "mes", wraps=["mes_builtins", "gc_check"], opts=["--max-insn", "4000000000"],
               defs=['-DSCRIPT="sx:gc.scm"', "-DDEEP=%d" % int(deep)], expect=["ok"], replay_ok=4,
               bound="22 programs (closures, recursion, vectors, strings, records, tables, continuations, catch, macros, ports, evaluation, fluids) with one collection at any of the first %d steps, or at every 3rd or 7th step; every 64-bit value and character in the data" % (100 if deep else 60))


@prop("I03")
def I03(c, deep):
    n = 4 if deep else 3
    mes(c, "read", "mes_rw.c", defs=D(PART=1, NB=n), expect=["ok", "error"], replay_ok=6,
        bound="every text of %d bytes read from a file or a string port; every token of up to %d identifier characters (leading ones from a reduced set); binary, octal, decimal and hexadecimal numerals of up to 4 free digits and 11 numerals at the limits of 32 and 64 bits; every layout (blanks, line, block and datum comments) at every gap of five structures; all nestings of two quotation marks; all named, octal and hexadecimal characters with each kind of following text; every string escape followed by any byte; 15 incomplete texts" % (n, n))


@prop("I04")
def I04(c, deep):
    mes(c, "write", "mes_rw.c", defs=D(PART=0), expect=["ok"], replay_ok=4,
        bound="integers -115..115 and 14 boundary values up to 64 bits; every character 0..255; every string of up to 2 bytes; 21 symbol shapes; all trees of lists, dotted pairs and vectors to depth 2 over 6 kinds of atoms; lists of up to 12 elements and 9 nestings; write and display, to the current port and to a given one; every written text read back from a file and from a string port")


@prop("I05")
def I05(c, deep):
    mes(c, "num", "mes_num.c", defs=D(DEEP=int(deep)), expect=["ok", "error"], replay_ok=4,
        bound="every 64-bit value of every operand; up to 3 operands for variadic operations (%d for quotient); shift counts -70..70; characters 0..255" % (3 if deep else 2))


@prop("I06")
def I06(c, deep):
    n = 4 if deep else 3
    mes(c, "list", "mes_list.c", defs=D(LEN=n), expect=["ok", "error"], replay_ok=6,
        bound="lists of up to %d elements (length to %d) of 9 kinds with every number, character and string byte; trees with two levels of pairs and vectors for equal?; association lists of two entries" % (n, n + 2))


@prop("I07")
def I07(c, deep):
    n = 5 if deep else 3
    mes(c, "string", "mes_str.c", defs=D(PART=0, N=n), expect=["ok", "error"], replay_ok=6,
        bound="strings of up to %d bytes of any content, appends of up to 3 strings of up to 2 bytes, every 64-bit index, strings around a configured limit of 40 bytes" % n)


@prop("I08")
def I08(c, deep):
    n = 4 if deep else 3
    mes(c, "vector", "mes_vec.c", defs=D(N=n), expect=["ok", "error"], replay_ok=6,
        bound="vectors and structs of up to %d elements of 9 kinds with any number, character or string byte; histories of two stores; every 64-bit index" % n)


@prop("I10")
def I10(c, deep):
    mes(c, "symbol", "mes_str.c", defs=D(PART=1, N=4 if deep else 3), expect=["ok"], replay_ok=6,
        bound="two names of up to %d bytes, the first two from sets with hash collisions and bytes above 127, the others free; every one-byte name; hash tables of 1 to 3 buckets with 3 stores over 3 keys and every value" % (4 if deep else 3))


def scm(c, name, script, deep, **kw):
    """A Scheme program of harness/scm on the whole interpreter with its library."""
    kw.setdefault("opts", ["--max-insn", "1000000000"])
    return c.run_symx(name, "scm_run.c", vf.mes_sources() + vf.lib_sources(), "mes", wraps=["mes_builtins"],
                      defs=['-DSCRIPT="sx:%s.scm"' % script, "-DDEEP=%d" % int(deep)], **kw)


@prop("I11")
def I11(c, deep):
    mes(c, "eval", "mes_eval.c", defs=D(NCASE=17, D=2) + (["-DWIDE"] if deep else []), expect=["ok", "error"], replay_ok=6,
        bound="every program of a grammar (constants, variables, quotation, if, begin, set!, lambda with fixed, rest and only rest arguments, calls, definitions, primitives) to depth 2%s over symbolic integers, at top level, through core:eval, as the value of a redefinition and as the body of a procedure defined at top level" % (", all alternatives at both levels" if deep else ", reduced alternatives at the second level"))


@prop("I12")
def I12(c, deep):
    scm(c, "callcc", "callcc", deep, expect=["ok"], replay_ok=5, bound="escapes, generators, re-entry up to 4 times, exits from nested map, apply, call-with-values and catch, multiple values up to 4, every 64-bit value passed")


@prop("I13")
def I13(c, deep):
    scm(c, "tail", "tail", deep, expect=["ok"], replay_ok=5, bound="each tail position in loops of up to 40 rounds with the evaluation stack compared between rounds; every 64-bit value carried")


@prop("I14")
def I14(c, deep):
    scm(c, "macros", "macros", deep, expect=["ok"], replay_ok=5, bound="macro uses of every rule shape of the tests with every 64-bit value as operands, nesting to depth 3")


@prop("S01")
def S01(c, deep):
    scm(c, "lists", "lists", deep, expect=["ok", "error"], replay_ok=6, bound="lists of up to %d elements with any numbers, or with elements 0..2 in every arrangement; two to four lists for the n-ary forms" % (4 if deep else 3))


@prop("S02")
def S02(c, deep):
    scm(c, "strings", "strings", deep, expect=["ok"], replay_ok=6, bound="strings of up to %d bytes of any content (searches also all strings of up to 5 letters of two), every pair of indices, every character" % (5 if deep else 3))


@prop("S03")
def S03(c, deep):
    scm(c, "forms", "forms", deep, expect=["ok"], replay_ok=6, bound="uses of every derived form with up to 4 clauses or bindings, every 64-bit value in tests and keys, loops of up to 5 rounds")


@prop("S04")
def S04(c, deep):
    scm(c, "numbers", "numbers", deep, expect=["ok"], replay_ok=6, bound="every 64-bit operand for order, sign, parity, extremes and powers up to 4; division of -40..40 by 10 divisors and of every 64-bit value by 2, -2 and 16; numerals of up to %d free digits and 16-digit ones with two free digits in bases 2, 3, 8, 10, 16; every string of up to 2 bytes; every character" % (5 if deep else 4))


@prop("S05")
def S05(c, deep):
    scm(c, "catch", "catch", deep, expect=["ok"], replay_ok=6, bound="catch nesting to depth 3, every key among three, throws from procedures, handlers, map and apply, errors of the interpreter and of the library; every 64-bit value passed")


@prop("S06")
def S06(c, deep):
    scm(c, "print", "print", deep, expect=["ok"], replay_ok=6, bound="integers -120..120 and six limits, every character, every string of up to %d bytes, control characters inside a string, pairs, lists and vectors of up to 3 of 11 atoms, nestings to depth 2 and one of depth 8; output to a string, a file, standard output and error" % (2 if deep else 1))


@prop("S07")
def S07(c, deep):
    scm(c, "data", "data", deep, expect=["ok", "error"], replay_ok=6, bound="records of 2 and 3 fields, vectors and lists of up to %d elements of any 64-bit value, hash tables of 1, 2 and 5 buckets and association lists with histories of %d stores over 5 keys" % (4 if deep else 3, 4 if deep else 3))


@prop("S08")
def S08(c, deep):
    scm(c, "options", "options", deep, expect=["ok", "error"], replay_ok=6, bound="command lines of up to 2 words of 21, 3 words of %d; optional and keyword argument lists of up to 4 arguments of any value; 9 shapes of matched data" % (12 if deep else 7))


@prop("S09")
def S09(c, deep):
    scm(c, "sio", "sio", deep, expect=["ok"], replay_ok=6, bound="strings, files and lines of up to %d bytes of any content, two string ports read in three interleavings, file names of up to 4 characters" % (4 if deep else 3))


def mescc(c, fam, progs, only=None, **kw):
    """A family of C programs compiled by MesCC for both architectures, each against the same text compiled by clang."""
    for arch in ("x86_64", "x86"):
        ps = [p for p in progs if not p.arch or p.arch == arch]
        kw["chunk"] = max(20, min(256, -(-len(ps) // vf.JOBS)))
        c.run_mescc("%s-%s" % (fam, arch), arch, ps, **kw)


def corpus():
    import sys
    sys.path.insert(0, vf.VERIF + "/mescc")
    import corpus
    return corpus


@prop("M01")
def M01(c, deep):
    C = corpus()
    mescc(c, "operators", C.binary() + C.unary(), bound="every operator over every pair of 20 pairs of integer types and every conversion between 8 types, every operand value (division by zero, overflow of signed types and oversized shifts excluded)")


@prop("M02")
def M02(c, deep):
    C = corpus()
    mescc(c, "branches", C.branches(), bound="every comparison and logical operator over 14 pairs of integer types as the test of if and ?:, every operand value")


@prop("M03")
def M03(c, deep):
    C = corpus()
    mescc(c, "places", C.places(), bound="every assignment operator, increment and decrement on locals, parameters, globals, array elements, fields and pointers of 8 types, every value")


@prop("M04")
def M04(c, deep):
    C = corpus()
    mescc(c, "control", C.control(), bound="%d functions with loops, switch, goto, break and continue, calls and recursion, their arguments in the ranges given by the corpus" % len(C.control()))
    for seed in ([5, 6, 8, 9] if deep else [5]):
        n = 120 if deep else 64
        mescc(c, "statements%d" % seed, C.statements(n, seed), bound="%d generated bodies of nested statements (seed %d), two arguments in -20..20 and -200..200" % (n, seed))


@prop("M05")
def M05(c, deep):
    C = corpus()
    mescc(c, "constants", C.constants(), bound="every operator with constant operands at the limits of 8, 16, 32 and 64 bits, every value of the other operand")


@prop("M06")
def M06(c, deep):
    C = corpus()
    mescc(c, "data", C.data(), bound="%d programs over initialised globals, arrays, strings, structures, unions, enumerations, pointers and sizeof" % len(C.data()))


@prop("M07")
def M07(c, deep):
    C = corpus()
    n, m = (300, 300) if deep else (48, 64)
    mescc(c, "trees", C.trees(n), bound="%d generated expressions of 8 to 60 operators over four ints in -1000..1000" % n)
    mescc(c, "mixed", C.mixed(m), bound="%d generated expressions over operands of seven integer types with values in -100..100 or 0..200" % m)
