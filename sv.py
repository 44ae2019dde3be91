#!/usr/bin/env python3
"""Driver: builds the symbolic executable for a property from /repo's working tree, explores it, replays candidates
natively, writes evidence. Usage: sv.py check PROPERTY [--tier quick|thorough] [--only harness...]"""
import sys, os, json, hashlib, subprocess, glob, time, re, shutil, concurrent.futures as cf, tempfile
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("SV_REPO", "/repo"); B = os.environ.get("SV_BUILD", os.path.join(V, ".build"))
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CXX = "/usr/bin/clang++-18"; GXX = "/usr/bin/g++"
sys.path.insert(0, V)
POOL = cf.ThreadPoolExecutor(10)
def h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b"\0")
    return m.hexdigest()[:20]
def rd(p):
    with open(p, "rb") as f: return f.read()
class BuildError(Exception): pass
def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    if r.returncode != 0: raise BuildError(" ".join(cmd)[:400] + "\n" + r.stdout.decode(errors="replace")[-3000:])
    return r.stdout.decode(errors="replace")
def cached(key, ext, make):
    os.makedirs(B, exist_ok=True); out = os.path.join(B, key + ext)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid() + ext; make(tmp); os.replace(tmp, out)
    else: os.utime(out)
    return out
def headers_hash(dirs):
    fs = sorted(f for d in dirs for f in glob.glob(d + "/**/*.h*", recursive=True)); return h(*[x for f in fs for x in (f, rd(f))])
SYMF = ["-std=c++14", "-Wno-c++11-narrowing", "-O1", "-fPIC", "-fno-vectorize", "-fno-slp-vectorize", "-w", "-D_GLIBCXX_ASSERTIONS", "-DSV_SYMBOLIC", "-ffp-contract=off", "-fno-math-errno", "-fopenmp", "-I" + V + "/engine/ompinc"]
NATF = ["-std=c++14", "-O2", "-fPIC", "-fopenmp", "-w", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address", "-fno-omit-frame-pointer"]
LIBM = set("exp exp2 expm1 log log10 log2 log1p pow sqrt cbrt sin cos tan asin acos atan atan2 sinh cosh tanh fabs floor ceil trunc round rint nearbyint fmod fmin fmax hypot copysign fma tgamma lgamma erf erfc lround llround lrint llrint ldexp frexp modf remainder nextafter".split())
LIBM |= {x + "f" for x in LIBM}
class Build:
    """One property's executable. incs: include dirs in /repo; srcs: source files needed; pool: files that may be linked in."""
    def __init__(self, name, harness, srcs, pool, incs, pre, defs=(), mem=False, whole=False, libs=()):
        self.whole, self.libs = whole, list(libs); self.name, self.harness, self.srcs, self.pool, self.incs, self.pre, self.defs = name, harness, srcs, pool, incs, pre, list(defs)
        self.mem = mem; self.symf = SYMF + (["-DSV_MEM=1"] if mem else [])
        self.hh = headers_hash(incs + [V + "/engine", V + "/harness"]); self.I = ["-I" + i for i in incs] + ["-I" + V + "/engine", "-I" + V + "/harness"]
        self.t_build = 0
    def plugin(self):
        src = V + "/engine/SymPass.cpp"
        return cached("pass-" + h(rd(src)), ".so", lambda o: run([CXX, "-O0", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-fPIC", "-shared", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", o]))
    def rt(self):
        return cached("rt-" + h(rd(V + "/engine/rt.cpp"), rd(V + "/engine/sv.h")), ".o", lambda o: run([CXX, "-std=c++17", "-O2", "-g1", "-w", "-I" + Z3 + "/include", "-I" + V + "/engine", "-c", V + "/engine/rt.cpp", "-o", o]))
    def ort(self):
        return cached("omp-" + h(rd(V + "/engine/omp.cpp"), rd(V + "/engine/sv.h")), ".o", lambda o: run([CXX, "-std=c++17", "-O2", "-w", "-I" + V + "/engine", "-c", V + "/engine/omp.cpp", "-o", o]))
    def pch(self, kind):
        pre = self.pre; txt = "".join('#include "%s"\n' % p if not p.startswith("<") else "#include %s\n" % p for p in pre) + '#include "sv.h"\n' + ('#include "svsort.h"\n' if kind == "sym" else "")
        key = kind + "pch-" + h(txt, self.hh, self.I, self.defs, self.symf if kind == "sym" else NATF)
        hdr = os.path.join(B, key + ".h"); os.makedirs(B, exist_ok=True)
        if not os.path.exists(hdr):
            with open(hdr + ".%d" % os.getpid(), "w") as f: f.write(txt)
            os.replace(hdr + ".%d" % os.getpid(), hdr)
        if kind == "sym": return cached(key, ".pch", lambda o: run([CXX] + self.symf + self.defs + self.I + ["-x", "c++-header", "-fpch-instantiate-templates", hdr, "-o", o]))
        cached(key, ".h.gch", lambda o: run([GXX] + NATF + self.defs + self.I + ["-x", "c++-header", hdr, "-o", o])); return hdr
    def symobj(self, src, pch, plug):
        key = "sym-" + h(src, rd(src), self.hh, self.symf, self.I, self.defs, os.path.basename(pch or "-"), os.path.basename(plug), REPO)
        return cached(key, ".o", lambda o: run([CXX] + self.symf + self.defs + self.I + (["-include-pch", pch] if pch else []) + ["-fpass-plugin=" + plug, "-c", src, "-o", o], env=dict(os.environ, **({"SV_MEM": "1"} if self.mem else {}))))
    def natobj(self, src, pch):
        key = "nat-" + h(src, rd(src), self.hh, NATF, self.I, self.defs, os.path.basename(pch), REPO)
        return cached(key, ".o", lambda o: run([GXX] + NATF + self.defs + self.I + ["-include", pch, "-c", src, "-o", o]))
    def undefined(self, objs):
        und, de = set(), set()
        for o in objs:
            for l in subprocess.run(["nm", o], stdout=subprocess.PIPE).stdout.decode().splitlines():
                p = l.split()
                if len(p) == 2 and p[0] == "U": und.add(p[1])
                elif len(p) == 3: de.add(p[2])
        return und - de
    def link_set(self, compile_one):
        srcs = list(self.srcs); harness = [V + "/harness/" + x for x in self.harness]
        objs = list(POOL.map(compile_one, harness + srcs))
        if self.pool and (self.whole or any("gridpp" in s and s.startswith("_Z") for s in self.undefined(objs))):
            rest = [p for p in self.pool if p not in srcs]
            ro = list(POOL.map(compile_one, rest)); return objs, ro
        return objs, []
    def exe(self):
        t0 = time.time(); f = [POOL.submit(self.plugin), POOL.submit(self.rt), POOL.submit(self.pch, "sym"), POOL.submit(self.ort)]; plug, rt, pch, ort = [x.result() for x in f]
        objs, rest = self.link_set(lambda s: self.symobj(s, pch, plug))
        lap = self.symobj(V + "/engine/lapack.cpp", None, plug) if any("wrapper2_" in x for x in self.undefined(objs + rest)) else None
        if lap: objs.append(lap)
        bad = set()
        for o in objs + rest:
            for l in subprocess.run(["nm", "-u", o], stdout=subprocess.PIPE).stdout.decode().splitlines():
                if l.split()[-1] in LIBM: bad.add(l.split()[-1])
        self.bad_libm = sorted(bad)
        def mk(o):
            args = list(objs); tmp = []
            if rest:
                ar = o + ".a"; run(["ar", "rcs", ar] + rest); args.append(ar); tmp.append(ar)
            run([CXX, rt, ort] + args + ["-o", o, "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-lm"] + ["-Wl,--wrap=" + x for x in ("_ZNSo9_M_insertIdEERSoT_", "_ZNSi10_M_extractIfEERSiRT_", "_ZNSi10_M_extractIdEERSiRT_")] + self.libs)
            for t in tmp: os.remove(t)
        e = cached("exe-" + self.name + "-" + h(rt, ort, *objs, *rest), ".exe", mk); self.t_build = time.time() - t0; return e
    def native(self):
        pch = self.pch("nat"); nr = cached("nrt-" + h(rd(V + "/engine/nrt.cpp"), rd(V + "/engine/sv.h"), NATF), ".o", lambda o: run([GXX] + NATF + ["-I" + V + "/engine", "-c", V + "/engine/nrt.cpp", "-o", o]))
        objs, rest = self.link_set(lambda s: self.natobj(s, pch))
        def mk(o):
            args = list(objs); tmp = []
            if rest:
                ar = o + ".a"; run(["ar", "rcs", ar] + rest); args.append(ar); tmp.append(ar)
            run([GXX, nr] + args + ["-fopenmp", "-fsanitize=address", "-o", o, "-lm"] + self.libs + (["-larmadillo"] if any("wrapper2_" in x for x in self.undefined(objs + rest)) else []))
            for t in tmp: os.remove(t)
        return cached("nat-" + self.name + "-" + h(nr, *objs, *rest), ".exe", mk)

def prune():
    """keep the build cache small"""
    try:
        fs = sorted((os.path.getmtime(os.path.join(B, f)), os.path.join(B, f)) for f in os.listdir(B)); tot = sum(os.path.getsize(f) for _, f in fs)
        for t, f in fs:
            if tot < 6e9: break
            if time.time() - t > 3600: tot -= os.path.getsize(f); os.remove(f)
    except OSError: pass

def write_replay(path, harness, label, inputs, prop, tier):
    with open(path, "w") as f:
        f.write("# property %s, failed assertion: %s\nharness %s\ntier %d\n" % (prop, label, harness, tier))
        for n, t, v in inputs: f.write("%s %s\n" % (n, v))

def check(prop, tier, only=(), budget=None):
    import specs
    t0 = time.time(); sp = specs.SPECS[prop]; b = Build(prop, sp["harness"], sp["srcs"](REPO), sp["pool"](REPO), sp["incs"](REPO), sp["pre"], sp.get("defs", ()), sp.get("mem", False), sp.get("whole", False), sp.get("libs", ()))
    exe = b.exe(); prune()
    T = 1 if tier == "thorough" else 0
    budget = budget or sp.get("budget", (150, 700))[T]
    out = tempfile.mkdtemp(prefix="sv-"); oj = out + "/o.jsonl"
    env = dict(os.environ); env["OMP_NUM_THREADS"] = "1"
    p = subprocess.run([exe, "--budget", str(budget), "--out", oj, "--tier", str(T)] + list(only), env=env, preexec_fn=os.setsid, stderr=None if os.environ.get("SV_DEBUG") else subprocess.DEVNULL)
    cand, wits, stats = [], [], []
    for l in open(oj, errors="replace"):
        try: d = json.loads(l)
        except ValueError: continue
        {"candidate": cand, "witness": wits, "stat": stats}[d["type"]].append(d)
    # translation validation: re-run sampled path witnesses concretely through the instrumented code
    val = {"run": 0, "held": 0, "diverged": []}
    def conc(d, exe_=None):
        rp = tempfile.mktemp(prefix="w", dir=out); write_replay(rp, d["harness"], d["label"], d["inputs"], prop, T)
        try: r = subprocess.run([exe, "--tier", str(T), "--replay", rp], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, env=env); return r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired: return 99, "timeout"
    for d, (rc, o) in zip(wits, POOL.map(conc, wits)):
        val["run"] += 1
        if rc == 0 : val["held"] += 1
        else: val["diverged"].append([d["harness"], o.strip()[-100:], d["inputs"]])
    # native replay of candidates
    viol, unrep = [], []; known = json.load(open(V + "/known_findings.json")); kf = []
    if cand or val["diverged"]:
        for hn, o, ins in val["diverged"]:  # a concrete witness that fails an assertion is itself a counterexample candidate
            if "CHECK-FAILED" in o: cand.append(dict(harness=hn, label=o.split("CHECK-FAILED")[1].strip(), inputs=ins, type="candidate"))
        nat = None if sp.get("mem") else b.native(); rd_ = V + "/evidence/replay"; os.makedirs(rd_, exist_ok=True)
        for f in glob.glob(rd_ + "/%s-*" % prop): os.remove(f)
        seen = {}
        def rep(i_d):
            i, d = i_d; rp = "%s/%s-%d.txt" % (rd_, prop, i); write_replay(rp, d["harness"], d["label"], d["inputs"], prop, T)
            for threads in ("1", "2"):
                e2 = dict(env); e2["OMP_NUM_THREADS"] = threads; e2["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=0"
                try: r = subprocess.run([nat, rp] if nat else [exe, "--tier", str(T), "--replay", rp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=e2); o = r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace")
                except subprocess.TimeoutExpired: o = "CHECK-FAILED timeout"; r = None
                bad = "CHECK-FAILED" in o or (r is not None and r.returncode not in (0, 10))
                if bad: break
            return rp, d, bad, o
        for rp, d, bad, o in POOL.map(rep, list(enumerate(cand))):
            if not bad: unrep.append(dict(harness=d["harness"], label=d["label"], inputs=d["inputs"])); os.remove(rp); continue
            m = re.findall(r"CHECK-FAILED (.*)", o); lab = m[0] if m else d["label"]
            with open(rp, "a") as f: f.write("# observed: %s\n# run: %s %s\n" % (lab, "<native build of the harness>", rp))
            k = [e for e in known if e.get("status") == "known" and e["property"] == prop and e["harness"] == d["harness"] and e["label"] == lab]
            if k: kf.append((k[0], rp))
            else: viol.append((d["harness"], lab, rp, d["inputs"]))
    shutil.rmtree(out, ignore_errors=True)
    tot = lambda k: sum(s[k] for s in stats)
    vac = [s["harness"] for s in stats if s["checks"] == 0]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(states=max(tot("paths"), 0), transitions=tot("forks"), traces_validated_against_impl=val["held"],
            samples=[dict(harness=w["harness"], inputs=w["inputs"]) for w in wits[:6]] or [dict(harness=s["harness"]) for s in stats[:3]],
            rule="states = completed symbolic paths (each covers all values satisfying its path condition); transitions = symbolic branch points where both outcomes were feasible; traces_validated = sampled path witnesses re-executed concretely through the real code without assertion failure",
            functions_encoded=sp["functions"], sources=[os.path.relpath(s, REPO) for s in b.srcs],
            assertions_checked=tot("checks"), assertions_discharged=tot("discharged"), assertions_constant=tot("trivial"), assertions_unknown=tot("unknown"), counterexamples_unconfirmed=len(unrep), unconfirmed=unrep[:5],
            queries=tot("queries"), queries_sat=tot("sat"), queries_unsat=tot("unsat"), queries_unknown=tot("q_unknown"), solver_s=round(tot("solver_s"), 2), solver="z3 5.3.2 (smt core, qfnra-nlsat fallback; QF_FP for IEEE harnesses)",
            truncated_paths=tot("truncated"), exhaustive=(tot("truncated") == 0 and tot("unknown") == 0 and tot("q_unknown") == 0 and not unrep), vacuous_harnesses=vac,
            harnesses=[dict(name=s["harness"], bounds=s["bounds"], theory=s["theory"], paths=s["paths"], checks=s["checks"], discharged=s["discharged"], constant=s["trivial"], queries=s["queries"], unknown=s["unknown"], truncated=s["truncated"], stopped_outside_claim=s["stopped"], solver_s=s["solver_s"], assertions=s["labels"]) for s in stats],
            build_s=round(b.t_build, 1), unhooked_libm=b.bad_libm, witnesses=val["run"], witness_divergences=len([1 for d in val["diverged"]])),
        assumptions=sp["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(V + "/evidence", exist_ok=True)
    if not only:
        with open(V + "/evidence/%s.json" % prop, "w") as f: json.dump(ev, f, indent=1)
    for s in stats:
        print("%s %-32s paths=%d checks=%d discharged=%d(const %d) viol=%d unknown=%d queries=%d forks=%d trunc=%d stopped=%d merged=%d solver=%.1fs rc=%d" % (prop, s["harness"], s["paths"], s["checks"], s["discharged"], s["trivial"], s["violated"], s["unknown"], s["queries"], s["forks"], s["truncated"], s["stopped"], s["merged"], s["solver_s"], s["rc"]))
    if vac: print("note: harnesses that reached no assertion: %s" % vac)
    if b.bad_libm: print("note: libm functions not intercepted: %s" % b.bad_libm)
    if val["diverged"]: print("note: witness divergences: %s" % val["diverged"][:3])
    if unrep: print("note: %d counterexamples not confirmed natively, e.g. %s" % (len(unrep), json.dumps(unrep[0])[:600]))
    for e in known:
        if e.get("status") == "known" and e["property"] == prop: print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    print("%s: %d paths, %d queries, solver %.1fs, build %.1fs, wall %.1fs, exhaustive=%s" % (prop, tot("paths"), tot("queries"), tot("solver_s"), b.t_build, time.time() - t0, ev["coverage"]["exhaustive"]))
    shown = set()
    for hn, lab, rp, ins in viol:
        if (hn, lab) in shown: continue
        shown.add((hn, lab)); print("failed: harness %s, assertion '%s', inputs %s" % (hn, lab, " ".join("%s=%s" % (a, c) for a, _, c in ins)[:700]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    sys.stdout.flush()
    return 1 if viol else 0

def main():
    a = sys.argv[1:]
    if a and a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick"); only = []; prop = a[1]; budget = None; i = 2
        while i < len(a):
            if a[i] == "--tier": tier = a[i + 1]; i += 2
            elif a[i] == "--budget": budget = float(a[i + 1]); i += 2
            else: only.append(a[i]); i += 1
        try: sys.exit(check(prop, tier, only, budget))
        except BuildError as e: print("build error: %s" % e); sys.exit(2)
    if a and a[0] == "setup":
        import specs
        try: b = Build("setup", [], [], [], specs.inc(REPO), ["gridpp.h"]); [x.result() for x in [POOL.submit(b.plugin), POOL.submit(b.rt), POOL.submit(b.ort), POOL.submit(b.pch, "sym")]]
        except BuildError as e: print("setup: %s (every check builds what it needs itself)" % e)
        sys.exit(0)
    print(__doc__); sys.exit(2)
if __name__ == "__main__": main()
