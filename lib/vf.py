"""Framework: builds the engine and the code under test, runs symbolic-execution jobs,
replays counterexamples natively, applies the known-findings file and writes evidence."""
import sys, os, json, subprocess, hashlib, time, glob, shutil, tempfile, fnmatch, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
NCPU = os.cpu_count() or 4
JOBS = int(os.environ.get("VERIF_JOBS", NCPU))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ engine
def engine(name="symx"):
    """Path of the engine binary, building it when there is none for these sources."""
    srcs = sorted(glob.glob(VERIF + "/engine/*.cpp") + glob.glob(VERIF + "/engine/*.h"))
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(s, "rb").read())
    bdir = VERIF + "/build"
    os.makedirs(bdir, exist_ok=True)
    out = "%s/%s-%s" % (bdir, name, h.hexdigest()[:16])
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        cmd = ["clang++", "-O2", "-std=c++17", "-fno-rtti", "-w", "-I", "/usr/include/llvm-18", "-I", "/usr/lib/llvm-18/include",
               "-I", Z3DIR + "/include", "%s/engine/%s.cpp" % (VERIF, name), "-o", tmp, "-L", "/usr/lib/llvm-18/lib",
               "-lLLVM-18", "-L", Z3DIR + "/lib", "-lz3", "-Wl,-rpath," + Z3DIR + "/lib"]
        r = sh(cmd)
        if r.returncode:
            log(r.stdout)
            raise SystemExit("engine build failed")
        os.rename(tmp, out)
    return out


# ------------------------------------------------------------------ code under test
WFLAGS = ["-Wno-int-conversion", "-Wno-implicit-function-declaration", "-Wno-implicit-int", "-Wno-incompatible-pointer-types", "-w"]

LIBDIRS = ["string", "stdlib", "stdio", "posix", "linux", "ctype", "mes", "dirent", "math", "linux/x86_64-mes-gcc", "x86_64-mes-gcc", "stub"]
# in order of preference: a function defined in an earlier directory wins over lib/stub


def lib_sources():
    r = []
    for d in LIBDIRS:
        for f in sorted(glob.glob("%s/lib/%s/*.c" % (REPO, d))):
            b = os.path.basename(f)
            if b.startswith("crt") or b in ("div.c", "mini-write.c"):  # div.c: ARM only; ntoab.c has the other definition; mini-write.c: libc-mini only
                continue
            r.append(f)
    return r


def mes_sources():
    return [f for f in sorted(glob.glob(REPO + "/src/*.c")) if os.path.basename(f) not in ("m2.c",)]


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-", dir=os.environ.get("TMPDIR", "/tmp"))
        self.incdir = self.dir + "/inc"
        os.makedirs(self.incdir + "/mes")
        cfg = REPO + "/include/mes/config.h"
        if not os.path.exists(cfg):
            with open(self.incdir + "/mes/config.h", "w") as f:
                f.write('#undef SYSTEM_LIBC\n#define MES_VERSION "0.24"\n')
        self.cflags = ["-D", "HAVE_CONFIG_H=1", "-I", REPO + "/include", "-I", REPO + "/include/linux/x86_64", "-I", REPO + "/lib", "-I", REPO,
                       "-I", self.incdir, "-nostdinc", "-fno-builtin", "-ffreestanding", "-fno-stack-protector"] + WFLAGS
        self.bc = {}
        self.nat = {}
        self.errors = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _out(self, sub, src, ext):
        d = self.dir + "/" + sub
        os.makedirs(d, exist_ok=True)
        return d + "/" + os.path.relpath(src, REPO).replace("/", "_").replace("..", "") + ext

    def compile_bc(self, srcs, extra=()):
        def one(s):
            o = self._out("bc", s, ".bc")
            r = sh(["clang", "-g1", "-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c"] + self.cflags + list(extra) + [s, "-o", o])
            return (s, o if r.returncode == 0 else None, r.stdout)
        out = []
        with ThreadPoolExecutor(JOBS) as ex:
            for s, o, msg in ex.map(one, [s for s in srcs]):
                if o is None:
                    self.errors.append((s, msg))
                else:
                    out.append(o)
        return out

    def compile_harness_bc(self, src, defs, tag):
        o = "%s/h-%s.bc" % (self.dir, tag)
        r = sh(["clang", "-g1", "-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c", "-I", VERIF + "/harness"] + self.cflags + list(defs) + [src, "-o", o])
        if r.returncode:
            log(r.stdout)
            raise SystemExit("harness does not compile: " + src)
        return o

    # native objects for replay: gcc with AddressSanitizer, symbols prefixed to coexist with glibc
    def native(self, srcs, hsrc, defs, tag, wraps=()):
        d = self.dir + "/nat"
        os.makedirs(d, exist_ok=True)
        # 16 bytes of nops at each function entry: wrapped functions get a jump there at start-up (rt.c),
        # so that calls from their own source file are caught as well
        nf = ["-g", "-O0", "-fsanitize=address", "-fno-common", "-fno-pic", "-no-pie", "-fcf-protection=none", "-fpatchable-function-entry=16"]
        asan_opts = ["--param", "asan-stack=1"]

        def one(s):
            o = d + "/" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
            if not os.path.exists(o):
                r = sh(["gcc"] + nf + self.cflags + ["-c", s, "-o", o])
                if r.returncode:
                    return None
            return o
        with ThreadPoolExecutor(JOBS) as ex:
            objs = [o for o in ex.map(one, srcs) if o]
        ho = "%s/h-%s.o" % (d, tag)
        r = sh(["gcc"] + nf + ["-DSX_NATIVE=1", "-I", VERIF + "/harness"] + self.cflags + list(defs) + ["-c", hsrc, "-o", ho])
        if r.returncode:
            log(r.stdout)
            return None
        # archive so that harness definitions take precedence and only what is needed is linked
        ar = "%s/lib-%s.a" % (d, hashlib.md5("".join(objs).encode()).hexdigest()[:8])
        if not os.path.exists(ar):
            # earlier directories win over later ones (lib/stub), as in the library build
            seen, keep = set(), []
            for line in sh(["nm", "-A", "-g", "--defined-only"] + objs).stdout.splitlines():
                o, rest = line.rsplit(":", 1)
                keep.append((o, rest.split()[-1]))
            syms = {}
            for o, n in keep:
                syms.setdefault(o, []).append(n)
            use = []
            for o in objs:
                ns = [n for n in syms.get(o, []) if not n.startswith("__odr_asan")]
                if ns and all(n in seen for n in ns):
                    continue
                seen.update(ns)
                use.append(o)
            sh(["ar", "rcs", ar] + use)
        comb = "%s/comb-%s.o" % (d, tag)
        r = sh(["ld", "-r", "-z", "muldefs"] + ["-o", comb, ho] + [ar])
        if r.returncode:
            log(r.stdout)
            return None
        und = sh(["nm", comb]).stdout
        names = set()
        for line in und.splitlines():
            names.add(line.split()[-1])
        redef = []
        for n in names:
            if n.startswith("__asan") or n.startswith("sx_") or n.startswith("__odr_asan") or n.startswith("__ubsan"):
                redef += ["--redefine-sym", "mes_%s=%s" % (n, n)]
        pre = "%s/pre-%s.o" % (d, tag)
        r = sh(["objcopy", "--prefix-symbols=mes_", comb, pre])
        rf = pre + ".redef"
        with open(rf, "w") as f:
            for i in range(1, len(redef), 2):
                f.write(redef[i].replace("=", " ") + "\n")
            for n in names:
                if n in ("_GLOBAL_OFFSET_TABLE_",):
                    f.write("mes_%s %s\n" % (n, n))
        # section names get no prefix with --prefix-symbols
        r = sh(["objcopy", "--redefine-syms=" + rf, pre])
        if r.returncode:
            log(r.stdout)
        pt = "%s/patch-%s.c" % (d, tag)
        with open(pt, "w") as f:
            for x in wraps:
                f.write("extern char mes_%s[], mes___wrap_%s[];\n" % (x, x))
            f.write("char *sx_patches[] = { %s 0 };\n" % " ".join("mes_%s, mes___wrap_%s," % (x, x) for x in wraps))
        rt = d + "/rt.o"
        if not os.path.exists(rt):
            r = sh(["gcc", "-g", "-O1", "-fsanitize=address", "-no-pie", "-fno-pic", "-c", VERIF + "/harness/rt.c", "-o", rt])
            if r.returncode:
                log(r.stdout)
                return None
        exe = "%s/replay-%s" % (d, tag)
        r = sh(["gcc", "-fsanitize=address", "-no-pie", "-Wl,--unresolved-symbols=ignore-all", "-z", "noexecstack"] + ["-Wl,--defsym=mes___real_%s=mes_%s+16" % (x, x) for x in wraps] + [rt, pt, pre, "-o", exe])
        if r.returncode:
            log(r.stdout)
            return None
        return exe


# ------------------------------------------------------------------ checks
class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.work = Work()
        self.jobs = []          # results
        self.violations = []
        self.known = []
        self.functions = set()
        self.tot = dict(paths=0, forks=0, insns=0, asserts=0, asserts_sym=0, queries=0, sat=0, unsat=0, unknown=0, tables=0, solver_s=0.0, pruned=0)
        self.incomplete = {}
        self.traces = 0
        self.trace_mismatch = []
        self.samples = []
        self.bounds = []
        self.assumptions = []
        self.unconfirmed = []
        self.missing_covers = []
        self.findings = load_findings(prop)
        self._srccache = {}

    def bcset(self, srcs, key, extra=()):
        if key not in self._srccache:
            self._srccache[key] = self.work.compile_bc(srcs, extra)
        return self._srccache[key]

    def run_mescc(self, name, arch, progs, chunk=256, opts=(), bound="", replay_ok=2, timeout=840):
        """PROGS compiled by MesCC for ARCH, lifted, against the same text compiled by clang: equal results for all arguments"""
        import mcc
        parts = [progs[i:i + chunk] for i in range(0, len(progs), chunk)]
        t = time.time()

        rejected = []

        def rest(ps, d):
            """the programs of PS that compile"""
            try:
                mcc.build(d, ps, arch, max(20, len(ps) // 2))
                return ps
            except mcc.Bad as e:
                if len(ps) == 1:
                    rejected.append((ps[0], str(e)))
                    return []
            return rest(ps[:len(ps) // 2], d) + rest(ps[len(ps) // 2:], d)

        def one(k):
            d = "%s/%s-%d" % (self.work.dir, name, k)
            try:
                return mcc.build(d, parts[k], arch)
            except mcc.Bad as e:
                ok = rest(parts[k], d)
                try:
                    return mcc.build(d, ok, arch, 300) if ok else str(e)
                except mcc.Bad as e:
                    return str(e)
        with ThreadPoolExecutor(JOBS) as ex:
            built = list(ex.map(one, range(len(parts))))
        for p, e in rejected:
            self.add_violation(name, p.name, "MesCC does not compile a valid program", p.text, [], e[-600:])
        log("  %-28s %d programs compiled by MesCC and lifted in %.1fs" % (name, len(progs), time.time() - t))
        for k, b in enumerate(built):
            if isinstance(b, str):
                self.incomplete["%s: %s" % (name, b[-300:])] = 1
                log("   ", b[-600:])
                continue
            h, ref, bad = b
            for f, why in bad.items():
                self.incomplete["%s: %s not lifted: %s" % (name, f, why)] = 1
            self.run_symx(name, h, [ref], "%s-%d" % (name, k), defs=["-I", VERIF + "/mescc"], opts=opts, expect=["program"], replay_ok=replay_ok, timeout=timeout, extra=mcc.REF, tag="%s_%d" % (name, k))
        if bound:
            self.bounds.append("%s: %s" % (name, bound))

    def run_symx(self, name, harness, srcs, key, defs=(), entry="sx_main", opts=(), expect=(), wraps=(), bound="", replay_ok=3, timeout=840, jobs=None, validate=True, extra=(), tag=None):
        """Run one harness; returns list of case results."""
        if self.tier == "quick":
            left = 800 - (time.time() - self.t0)
            if self.violations and left < 560:
                log("  %-28s skipped: a violation is reported and the time is used up" % name)
                return []
            timeout = max(30, min(timeout, left))
        exe = engine()
        w = self.work
        hsrc = harness if harness.startswith("/") else "%s/harness/%s" % (VERIF, harness)
        tag = re.sub(r"[^A-Za-z0-9_]", "_", tag or name)
        t = time.time()
        hb = w.compile_harness_bc(hsrc, defs, tag)
        bcs = self.bcset(srcs, key, extra)
        out = "%s/res-%s.jsonl" % (w.dir, tag)
        cmd = [exe, "--entry", entry, "--out", out, "--jobs", str(jobs or JOBS)] + list(opts) + [hb] + bcs
        env = dict(os.environ)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env)
            if r.stderr.strip():
                log(r.stderr.strip()[:2000])
        except subprocess.TimeoutExpired:
            self.incomplete["engine timeout in " + name] = 1
        res = []
        if os.path.exists(out):
            for line in open(out):
                try:
                    res.append(json.loads(line))
                except ValueError:
                    self.incomplete["garbled result"] = 1
        if not res:
            self.incomplete["no result from " + name] = 1
        covers = {}
        nat = None
        for c in res:
            for k in self.tot:
                self.tot[k] += c.get(k, 0)
            self.functions.update(c["functions"])
            for k, v in c["covers"].items():
                covers[k] = covers.get(k, 0) + v
            for k, v in c["incomplete"].items():
                kk = "%s[case %s]: %s" % (name, c["case"], k)
                self.incomplete[kk] = self.incomplete.get(kk, 0) + v
        miss = [e for e in expect if e not in covers]
        self.missing_covers += ["%s: %s" % (name, m) for m in miss]
        viol = [(c, v) for c in res for v in c["violations"]]
        wit = [(c, x) for c in res for x in c["witnesses"]]
        if bound:
            self.bounds.append("%s: %s" % (name, bound))
        if viol or (validate and replay_ok and wit):
            nat = w.native(srcs, hsrc, defs, tag, wraps)
            if nat is None:
                log("native replay program did not build for", name)
        seen = {}
        for c, v in viol:
            n = seen.get(v["id"], 0)
            if n >= 4:
                continue
            if seen.get(("ok", v["id"])):
                continue
            seen[v["id"]] = n + 1
            ok, txt = self.replay(nat, v["inputs"])
            if ok:
                seen[("ok", v["id"])] = 1
                self.report(name, v, txt, tag, hsrc, defs)
            else:
                self.unconfirmed.append(dict(job=name, id=v["id"], msg=v["msg"], where=v["where"], inputs=v["inputs"][:200], replay=txt[-400:]))
        if validate and nat:
            bad_ids = set(v["id"] for c, v in viol)
            # one witness per case, spread out
            pick = wit if len(wit) <= replay_ok else [wit[i * len(wit) // replay_ok] for i in range(replay_ok)]
            for c, x in pick:
                ok, txt = self.replay(nat, x)
                if not ok:
                    self.traces += 1
                else:
                    self.trace_mismatch.append(dict(job=name, inputs=x[:100], out=txt[-600:]))
        for c, x in wit[:2]:
            if len(self.samples) < 12:
                self.samples.append(dict(job=name, case=c["case"], path_inputs=x[:40]))
        log("  %-28s cases=%d paths=%d queries=%d solver=%.1fs wall=%.1fs viol=%d%s" % (
            name, len(res), sum(c["paths"] for c in res), sum(c["queries"] for c in res), sum(c["solver_s"] for c in res), time.time() - t, len(viol),
            " INCOMPLETE" if any(c["incomplete"] for c in res) or not res else ""))
        if miss:
            log("    not reached:", ", ".join(miss))
        return res

    def replay(self, exe, inputs, timeout=20):
        """True if the native run fails (assertion, crash, sanitizer report or hang)."""
        if exe is None:
            return False, "no native build"
        f = "%s/in-%d.txt" % (self.work.dir, len(os.listdir(self.work.dir)))
        with open(f, "w") as o:
            o.write("\n".join(str(x) for x in inputs) + "\n")
        env = {"SX_INPUT": f, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_segv=1", "PATH": "/usr/bin:/bin"}
        try:
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=self.work.dir, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return True, "native run hangs (%d s)" % timeout
        txt = r.stdout.decode("utf-8", "replace")
        return r.returncode != 0, "rc=%d %s" % (r.returncode, txt[-1500:])

    def report(self, job, v, txt, tag, hsrc, defs, extra=None):
        k = self.match_finding(job, v)
        if k:
            if k not in self.known:
                self.known.append(k)
            return
        rd = VERIF + "/build/replays"
        os.makedirs(rd, exist_ok=True)
        rp = "%s/%s-%s-%d.json" % (rd, self.prop, re.sub(r"[^A-Za-z0-9_.-]", "_", v["id"])[:60], len(self.violations))
        with open(rp, "w") as f:
            json.dump(dict(property=self.prop, job=job, id=v["id"], kind=v["kind"], msg=v["msg"], where=v["where"], inputs=v["inputs"], harness=hsrc, defs=list(defs), native=txt), f, indent=1)
        self.violations.append((job, v, rp))
        log("  counterexample %s: %s (%s)\n    at %s\n    native replay: %s" % (job, v["id"], v["msg"], v["where"], txt.strip()[-300:]))

    def match_finding(self, job, v):
        for f in self.findings:
            if any(fnmatch.fnmatchcase("%s/%s" % (job, v["id"]), m) for m in f["match"].split(",")):
                return f["text"]
        return None

    def add_violation(self, job, id, msg, where, inputs, native):
        self.report(job, dict(id=id, kind="assert", msg=msg, where=where, inputs=inputs), native, job, "", ())

    def finish(self, technique=""):
        wall = time.time() - self.t0
        t = self.tot
        cov = {
            "states": int(t["paths"]),
            "transitions": int(t["forks"] + t["queries"]),
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or [{"note": "no path completed"}],
            "paths_completed": int(t["paths"]),
            "symbolic_instructions": int(t["insns"]),
            "assertions_checked": int(t["asserts"]),
            "assertions_decided_by_query": int(t["asserts_sym"]),
            "queries": int(t["queries"]), "queries_sat": int(t["sat"]), "queries_unsat": int(t["unsat"]), "queries_unknown": int(t["unknown"]), "one_symbol_formulas_decided_by_truth_table": int(t["tables"]),
            "solver_seconds": round(t["solver_s"], 2),
            "functions_encoded": sorted(self.functions),
            "bounds": self.bounds,
            "incomplete": self.incomplete,
            "not_reached": self.missing_covers,
            "unconfirmed_counterexamples": self.unconfirmed[:10],
            "trace_mismatches": self.trace_mismatch[:5],
            "compile_errors": [e[0] for e in self.work.errors],
            "known_findings": self.known,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": self.level,
              "coverage": cov, "wall_s": round(wall, 2), "assumptions": self.assumptions,
              "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.prop), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for s, m in self.work.errors:
            log("  does not compile:", s, m.strip()[:300])
        if self.incomplete:
            log("  incomplete:", json.dumps(self.incomplete)[:1500])
        if self.unconfirmed:
            log("  unconfirmed counterexamples (not reported):", json.dumps(self.unconfirmed[:3])[:2500])
        if self.trace_mismatch:
            log("  trace mismatches:", json.dumps(self.trace_mismatch[:2])[:1500])
        for k in self.known:
            log("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        self.work.close()
        log("%s %s: %d paths, %d queries (%d unknown), solver %.1fs, %d traces replayed natively, wall %.1fs" % (
            self.prop, self.tier, t["paths"], t["queries"], t["unknown"], t["solver_s"], self.traces, wall))
        if self.violations:
            for job, v, rp in self.violations[:20]:
                log("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0


def load_findings(prop):
    r = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                r.append(dict(match=m.group(2), text=m.group(3)))
    return r
