#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] [options]  - decide one property (see DESIGN.md)
   run.py --setup                               - build the engine
   run.py --replay FILE                         - rebuild the native harness and replay a counterexample
"""
import atexit, sys, os, json, glob, hashlib, subprocess, time, shutil, tempfile, re, argparse, signal, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GEODIFF_REPO", "/repo")
B = os.environ.get("GS_BUILD", V + "/.build")
SRC = REPO + "/geodiff/src"
sys.path.insert(0, V)
GSYM = B + "/engine/gsym"
LL = "-18"
PG = "/usr/include/postgresql"
DEFS = "-DSQLITE_CORE -DSQLITE_ENABLE_SESSION -DSQLITE_ENABLE_PREUPDATE_HOOK -DGEODIFF_STATIC -DHAVE_POSTGRES".split()
JOBS = int(os.environ.get("GS_JOBS", "8"))

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode("utf8", "replace")

def setup():
    os.makedirs(B + "/engine", exist_ok=True)
    rc, out = sh(["make", "-C", V + "/engine", "-j4", "OUT=" + B + "/engine"])
    if rc: print(out); sys.exit(2)

def hashfiles(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

def repo_sources():
    fs = glob.glob(SRC + "/*.cpp") + glob.glob(SRC + "/drivers/*.cpp") + glob.glob(SRC + "/3rdparty/*.cpp") + glob.glob(SRC + "/3rdparty/*.c") + glob.glob(SRC+"/*.c")
    return sorted(f for f in fs if os.path.basename(f) != "geodiffinfo.cpp")

def repo_key():
    fs = sorted(glob.glob(SRC + "/**/*", recursive=True)); fs = [f for f in fs if os.path.isfile(f)]
    return hashfiles(fs)

def config_dir():
    d = B + "/config"; os.makedirs(d, exist_ok=True)
    t = d + "/geodiff_config.hpp"
    src = REPO + "/geodiff/cmake_templates/geodiff_config.hpp.in"
    s = open(src).read() if os.path.exists(src) else ""
    for k, v in (("CMAKE_PROJECT_VERSION", "0.8.6"), ("GEODIFF_VERSION_MAJOR", "0"), ("GEODIFF_VERSION_MINOR", "8"), ("GEODIFF_VERSION_PATCH", "6")): s = s.replace("@%s@" % k, v).replace("${%s}" % k, v)
    s = re.sub(r"#cmakedefine\s+(\w+)", r"#define \1", s); s = re.sub(r"@\w+@", "0", s); s = re.sub(r"\$\{\w+\}", "0", s)
    if not os.path.exists(t) or open(t).read() != s: open(t, "w").write(s)
    return d

def incs(): return ["-I" + SRC, "-I" + SRC + "/3rdparty", "-I" + SRC + "/drivers", "-I" + config_dir(), "-isystem", PG, "-I" + V + "/model/include_common", "-I" + V + "/model", "-I" + V + "/harness"]
GPP = "/usr/include/c++/13"
SYMF = ["-std=c++11", "-O1", "-fno-pic", "-fno-pie", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-DGS_SYMBOLIC", "-nostdinc++", "-I" + V + "/model/include", "-isystem", GPP, "-isystem", "/usr/include/x86_64-linux-gnu/c++/13"]
NATF = ["-std=c++11", "-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-w", "-DGS_NATIVE"]

class Builder:
    """Compiles /repo's current sources plus harness and models, for the engine (bitcode) and for replay (native, ASan)."""
    def __init__(self, job):
        self.job = job
        self.key = repo_key()
        mfiles = sorted(f for p in ("model/**/*", "harness/*.h", "harness/*.inc") for f in glob.glob(V + "/" + p, recursive=True) if os.path.isfile(f))
        self.mkey = hashfiles(mfiles)
        self.defs = DEFS + ["-D" + d for d in job.get("defs", [])]
        self.skip = set(job.get("replace", []))
        self.srcs = [SRC + "/" + f for f in job["only"]] if "only" in job else [f for f in repo_sources() if os.path.relpath(f, SRC) not in self.skip]
    def compile(self, src, out, flags, cc="clang++"):
        if os.path.exists(out): return None
        tmp = out + ".%d.tmp" % os.getpid()
        fl = flags
        if src.endswith(".c"): fl = [f for f in flags if f != "-std=c++11" and f!="-nostdinc++"]; cc = "clang"
        rc, o = sh([cc] + fl + ["-c", src, "-o", tmp])
        if rc: return "%s:\n%s" % (src, o)
        os.rename(tmp, out); return None
    def objs(self, native):
        jobs = []; outs = []
        d = B + "/" + ("nat" if native else "bc"); os.makedirs(d, exist_ok=True)
        ext = ".o" if native else ".bc"
        base = (NATF if native else SYMF + ["-emit-llvm"]) + self.defs + incs()
        fk = hashlib.sha256(" ".join(base).encode()).hexdigest()[:8]
        def add(src, key, fl):
            o = "%s/%s-%s%s" % (d, os.path.basename(src).replace(".", "_"), hashlib.sha256((src + key + fk + " ".join(fl)).encode()).hexdigest()[:20], ext)
            outs.append(o); jobs.append((src, o, base + fl))
        wrapinc = [a for h in self.job.get("wrap", []) for a in ("-include", V + "/model/" + h)]
        for s in self.srcs: add(s, self.key + self.mkey, wrapinc + (self.job["only"].get(os.path.relpath(s, SRC)) if "only" in self.job else []))
        hs = V + "/harness/" + self.job["harness"]
        add(hs, self.key + self.mkey + hashfiles([hs]), [])
        for m in self.job.get("models_nat" if native else "models_sym", []) + self.job.get("models", []): add(V + "/model/" + m, self.mkey, [] if native else ["-fno-builtin", "-D__NO_INLINE__"])
        if native: add(V + "/model/gs_native.cpp", self.mkey, [])
        else:
            for m in ("rt.cpp", "fs.cpp"): add(V + "/model/" + m, self.mkey, ["-fno-builtin", "-D__NO_INLINE__"])
        with ThreadPoolExecutor(JOBS) as ex: errs = [e for e in ex.map(lambda j: self.compile(*j), jobs) if e]
        if errs: raise RuntimeError("compile error\n" + "\n".join(errs))
        return outs
    def bitcode(self, entries):
        o = self.objs(False); k = hashlib.sha256(("|".join(o + entries)).encode()).hexdigest()[:16]
        out = B + "/bc/link-" + k + ".bc"
        if not os.path.exists(out):
            t = out + ".%d.l.bc" % os.getpid(); t2 = out + ".%d.o.bc" % os.getpid()
            rc, s = sh(["llvm-link" + LL, "-o", t] + o)
            if rc: raise RuntimeError("llvm-link: " + s)
            api = ",".join(entries + ["gs_throw_bad_alloc", "main"] + list(self.job.get("redirect", {}).values()))
            rc, s = sh(["opt" + LL, "-passes=internalize,globaldce", "-internalize-public-api-list=" + api, t, "-o", t2])
            os.remove(t)
            if rc: raise RuntimeError("opt: " + s)
            os.rename(t2, out)
        return out
    def native(self, entries):
        o = self.objs(True)
        ent = B + "/nat/entries-%s.cpp" % hashlib.sha256(",".join(entries).encode()).hexdigest()[:12]
        if not os.path.exists(ent):
            s = "".join('extern "C" void %s();\n' % e for e in entries)
            s += "struct E{const char*n; void(*f)();}; extern \"C\" { E gs_entries[]={%s{0,0}}; }\n" % "".join('{"%s",%s},' % (e, e) for e in entries)
            open(ent + ".tmp", "w").write(s); os.rename(ent + ".tmp", ent)
        exe = B + "/nat/exe-" + hashlib.sha256(("|".join(o + entries)).encode()).hexdigest()[:16]
        if not os.path.exists(exe):
            t = exe + ".%d.tmp" % os.getpid()
            libs = [] if self.job.get("fake_sqlite_native") else ["/usr/lib/x86_64-linux-gnu/libsqlite3.so.0" if not os.path.exists("/usr/lib/x86_64-linux-gnu/libsqlite3.so") else "-lsqlite3"]
            if not self.job.get("fake_pq"): libs.append("-lpq")
            rc, s = sh(["clang++"] + NATF + [ent] + o + ["-Wl,--allow-shlib-undefined", "-o", t] + libs + ["-lpthread", "-ldl"])
            if rc: raise RuntimeError("native link: " + s)
            os.rename(t, exe)
        return exe

def write_values(path, vals, params):
    with open(path, "w") as f:
        for k, v in params.items(): f.write("P %s %d\n" % (k, v))
        for x in vals:
            if x[1] == "hex": f.write("B %s %s\n" % (x[0].replace(" ", "_"), x[2] or "-"))
            else: f.write("S %s %s %s\n" % (x[0].replace(" ", "_"), x[1], x[2]))

PUB = {}; publock = threading.Lock()
def pub(exe):
    """A copy of the replay program that an unprivileged user can run (copied by another process, so that no descriptor open for writing leaks)."""
    with publock:
        if exe not in PUB:
            d = tempfile.mkdtemp(prefix="gsexe."); os.chmod(d, 0o755); atexit.register(shutil.rmtree, d, True)
            sh(["cp", exe, d + "/exe"]); os.chmod(d + "/exe", 0o755); PUB[exe] = d + "/exe"
        return PUB[exe]
def native_run(exe, entry, vals, params, timeout=30):
    """Replays one assignment on the real build, as an unprivileged user in a private scratch directory."""
    d = tempfile.mkdtemp(prefix="gsrep.")
    try:
        os.chmod(d, 0o755); os.mkdir(d + "/s"); os.mkdir(d + "/s/tmp")
        write_values(d + "/values", vals, params); os.chmod(d + "/values", 0o644)
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "GS_SCRATCH": d + "/s", "TMPDIR": d + "/s/tmp/", "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:exitcode=77:max_allocation_size_mb=2000:detect_stack_use_after_return=0", "HOME": d + "/s"}
        kw = {}
        if os.getuid() == 0:
            for p in ("/s", "/s/tmp"): os.chown(d + p, 65534, 65534)
            kw = dict(user=65534, group=65534, extra_groups=[])
        t0 = time.time()
        try:
            p = subprocess.Popen([pub(exe), entry, d + "/values"], cwd=d + "/s", env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
        except (PermissionError, OSError):
            p = subprocess.Popen([pub(exe), entry, d + "/values"], cwd=d + "/s", env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try: out, _ = p.communicate(timeout=timeout); rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate(); rc = "timeout"
        out = out.decode("utf8", "replace")
    finally: shutil.rmtree(d, ignore_errors=True)
    logs = [l[4:].split(" ", 1) for l in out.split("\n") if l.startswith("LOG ")]
    fails = [l[10:] for l in out.split("\n") if l.startswith("CHECKFAIL ")]
    return {"rc": rc, "out": out, "logs": logs, "fails": fails, "desync": any(l.startswith("DESYNC") for l in out.split("\n"))}

def confirmed(v, r):
    """Does the native run show the violation the solver predicted?"""
    if r["desync"]: return False
    if v["kind"] == "check": return v["label"] in r["fails"] or r["rc"] not in (0, "timeout", 42, 43)
    if v["kind"] == "hang": return r["rc"] == "timeout"
    if r["rc"] not in (0, 42, 43, "timeout"): return True
    return any(not re.match(r"C\d\d", l) for l in r["fails"])  # a wrong memory access that shows as a wrong result

def merge(prefix):
    m = {"entries": {}, "functions": {}, "solver": {}, "instructions": 0, "crashed": 0}
    for f in sorted(glob.glob(prefix + ".*.json")):
        try: j = json.load(open(f))
        except Exception: m["crashed"] += 1; continue
        if "crashed" in j:
            m["crashed"] += 1
            for e, n in j["pending"].items(): m["entries"].setdefault(e, newent())["incomplete"]["engine worker ended"] = n
            continue
        for e, x in j["entries"].items():
            d = m["entries"].setdefault(e, newent())
            for k in ("paths", "partial", "forks", "checks"): d[k] += x[k]
            for k in ("covers", "labels", "incomplete"):
                for a, b in x[k].items(): d[k][a] = d[k].get(a, 0) + b
            for v in x["violations"]:
                if not any(v["kind"] == w["kind"] and v["label"] == w["label"] and (v["kind"] == "check" or v["where"] == w["where"]) for w in d["violations"]): d["violations"].append(v)
                else: d["alts"].append(v)
            d["samples"] += x["samples"]
        for k, n in j["functions"].items(): m["functions"][k] = m["functions"].get(k, 0) + n
        for k, n in j["solver"].items(): m["solver"][k] = m["solver"].get(k, 0) + n
        m["instructions"] += j["instructions"]
    return m
def newent(): return {"paths": 0, "partial": 0, "forks": 0, "checks": 0, "covers": {}, "labels": {}, "incomplete": {}, "violations": [], "alts": [], "samples": []}

def run_job(job, tier, verbose=False, only=None, pins=None, tlimit=None, prop=None):
    entries = [e for e in job["entries"] if not only or e in only]
    if not entries: return None
    params = dict(job.get("params", {})); params.update(job.get(tier + "_params", {}))
    bld = Builder(job); res = {}
    bc = bld.bitcode(job["entries"])
    nat = {}
    def bn():
        try: nat["exe"] = bld.native(job["entries"])
        except Exception as e: nat["err"] = str(e)
    th = threading.Thread(target=bn); th.start()
    tmp = tempfile.mkdtemp(prefix="gsym.")
    try:
        tl = tlimit or job.get(tier + "_time", 60 if tier == "quick" else 600)
        cmd = [GSYM, bc, "--entries", ",".join(entries), "--time", str(tl), "--out", tmp + "/o", "--jobs", str(JOBS), "--repo", SRC, "--samples", str(job.get("samples", 3)), "--solver-timeout", str(job.get("solver_timeout", 20000))]
        for k, v in params.items(): cmd += ["--param", "%s=%d" % (k, v)]
        for k, v in (pins or {}).items(): cmd += ["--pin", "%s=%d" % (k, v)]
        if "max_instr" in job: cmd += ["--max-instr", str(job["max_instr"])]
        if prop: cmd += ["--prop", prop]
        if "conc" in job: cmd += ["--conc", str(job["conc"])]
        for k, v in job.get("redirect", {}).items(): cmd += ["--redirect", "%s=%s" % (k, v)]
        if verbose: cmd += ["-v"]
        t0 = time.time()
        p = subprocess.run(cmd, stdout=None if verbose else subprocess.DEVNULL, stderr=None if verbose else subprocess.PIPE)
        m = merge(tmp + "/o"); m["wall"] = time.time() - t0; m["rc"] = p.returncode
        if p.returncode and not m["entries"]: raise RuntimeError("engine failed: %s" % ((p.stderr or b"").decode("utf8", "replace")[-2000:]))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    th.join()
    if "err" in nat: raise RuntimeError(nat["err"])
    m["exe"] = nat["exe"]; m["params"] = params; m["job"] = job["name"]; m["entries_run"] = entries
    return m

def load_findings():
    p = V + "/known_findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []
def known(prop, entry, v):
    for k in load_findings():
        if k.get("status") == "fixed" or prop not in k["property"].split(","): continue
        if "entry" in k and not re.fullmatch(k["entry"], entry): continue
        if k.get("kind", "check") != v["kind"] or not re.fullmatch(k["label"], v["label"]): continue
        if "where" in k and not re.search(k["where"], v["where"]): continue
        return k
    return None

def check(prop, tier, a):
    import checks
    jobs = checks.CHECKS[prop]["jobs"]; level = checks.CHECKS[prop].get("level", "model_checking")
    t0 = time.time(); viols = []; unconf = []; kf = []; mism = []; entries = {}; funcs = {}; solver = {}; instr = 0; samples = []; validated = 0; vac = []; crashed = 0; bounds = {}
    os.makedirs(V + "/evidence", exist_ok=True); os.makedirs(B + "/replays", exist_ok=True)
    pool = ThreadPoolExecutor(JOBS)
    for jn in jobs:
        job = checks.JOBS[jn]; job["name"] = jn
        tierjob = dict(job)
        m = run_job(tierjob, tier, a.verbose, a.entry, a.pins, a.time, prop)
        if m is None: continue
        bounds[jn] = m["params"]; crashed += m["crashed"]
        for k, n in m["functions"].items():
            k = k.replace(REPO + "/", "").replace(SRC + "/", ""); funcs[k] = funcs.get(k, 0) + n
        for k, n in m["solver"].items(): solver[k] = solver.get(k, 0) + n
        instr += m["instructions"]
        for e in m["entries_run"]:
            x = m["entries"].get(e, newent())
            todo = []
            for v in x["violations"]:
                tag = re.match(r"(C\d\d(?:,C\d\d)*) ", v["label"])
                if v["kind"] == "check" and tag and prop not in tag.group(1).split(","): continue
                todo.append(v)
            def rep(v):
                best = None
                for w in [v] + [z for z in x["alts"] if z["kind"] == v["kind"] and z["label"] == v["label"]][:6]:
                    r = native_run(m["exe"], e, w["values"], m["params"])
                    if best is None: best = (w, r)
                    if confirmed(w, r): return w, r, True
                return best[0], best[1], False
            for v, (w, r, ok) in zip(todo, pool.map(rep, todo)):
                rec = {"property": prop, "job": jn, "entry": e, "kind": w["kind"], "label": w["label"], "where": w["where"], "stack": w["stack"], "values": w["values"], "params": m["params"], "native": r["out"][-3000:], "rc": r["rc"]}
                if not ok: unconf.append(rec); continue
                k = known(prop, e, w)
                if k: kf.append((k, rec)); continue
                p = "%s/replays/%s-%s-%s.json" % (B, prop, e, hashlib.sha256((w["kind"] + w["label"] + w["where"]).encode()).hexdigest()[:8])
                json.dump(rec, open(p, "w"), indent=1); rec["path"] = p; viols.append(rec)
            # validate sampled paths against the real build
            ss = x["samples"][:job.get("validate", 12)]
            def val(s): return native_run(m["exe"], e, s["values"], m["params"])
            for s, r in zip(ss, pool.map(val, ss)):
                want = [[n.replace(" ", "_"), v] for n, v in s["logs"]]; got = r["logs"]
                if r["rc"] == 0 and got == want: validated += 1
                else: mism.append({"entry": e, "values": s["values"], "want": want, "got": got, "rc": r["rc"], "out": r["out"][-1500:]})
            for s in ss[:1]: samples.append({"entry": e, "input": s["values"][:12], "observed": s["logs"][:6]})
            need = set(job.get("covers", {}).get(e, []))
            miss = sorted(need - set(x["covers"])) 
            if miss or (not x["covers"] and not x["checks"]): vac.append({"entry": e, "missing": miss or ["any check or cover"]})
            entries[e] = {k: x[k] for k in ("paths", "partial", "forks", "checks", "covers", "labels", "incomplete")}
    for k in {id(k): k for k, _ in kf}.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    exhaustive = not crashed and all(not e["incomplete"] for e in entries.values())
    wall = time.time() - t0
    npaths = sum(e["paths"] for e in entries.values()); nform = sum(e["forks"] for e in entries.values())
    from checks import CHECKS
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
      "coverage": {"states": npaths + sum(e["partial"] for e in entries.values()), "transitions": instr, "traces_validated_against_impl": validated,
        "samples": samples[:8] or [{"note": "no sample"}], "exhaustive": exhaustive,
        "explanation": "states: symbolic paths ended; transitions: IR instructions executed symbolically over /repo's code, harness and models; every check label was decided by the solver for all values on each path. exhaustive is false when some path left the model, hit a limit or the solver did not answer (see entries.*.incomplete).",
        "assertions_decided": sum(e["checks"] for e in entries.values()), "forks": nform, "bounds": bounds, "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs), "solver": solver, "entries": entries,
        "vacuous": vac, "unconfirmed": [{k: u[k] for k in ("entry", "kind", "label", "where", "values", "rc")} for u in unconf], "model_mismatches": len(mism), "model_mismatch_samples": mism[:3], "known_findings": [r["entry"] + ": " + r["label"] for _, r in kf]},
      "assumptions": CHECKS[prop].get("assumptions", []) + checks.COMMON_ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(viols)}
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: %d paths, %d assertions, %d solver queries (%.1fs in z3), %d/%d samples validated, %s, %.1fs" % (prop, tier, npaths, ev["coverage"]["assertions_decided"], solver.get("queries", 0), solver.get("z3time", 0), validated, validated + len(mism), "complete within bounds" if exhaustive else "incomplete: " + "; ".join(sorted({"%s x%d" % (k, n) for e in entries.values() for k, n in e["incomplete"].items()}))[:600], wall))
    for x in vac: print("  note: %s did not reach %s" % (x["entry"], ", ".join(x["missing"])))
    for u in unconf: print("  note: not reproduced on the real build (no alarm): %s %s %s @ %s rc=%s" % (u["entry"], u["kind"], u["label"], u["where"], u["rc"]))
    if a.debug:
        for u in unconf: print(json.dumps(u, indent=1))
        for u in mism: print("MISMATCH", json.dumps(u))
    elif mism: print("  note: %d sampled paths differ from the native run" % len(mism))
    for r in viols:
        print("  %s %s: %s at %s" % (r["entry"], r["kind"], r["label"], r["where"]))
        if a.debug: print("   values", r["values"], "\n   stack", r["stack"])
    for r in viols: print("VIOLATION property=%s replay=%s" % (prop, r["path"]))
    return 1 if viols else 0

def check_py(prop, tier, a):
    """Properties of the Python binding: py/*.py executes the real Python code symbolically."""
    import checks
    c = checks.CHECKS[prop]; t0 = time.time(); tl = a.time or (120 if tier == "quick" else 600)
    os.makedirs(V + "/evidence", exist_ok=True); os.makedirs(B + "/replays", exist_ok=True)
    p = subprocess.run(["python3-vt", "%s/py/%s.py" % (V, c["py"]), REPO, str(tl)], capture_output=True, text=True, timeout=850)
    if p.returncode: raise RuntimeError(p.stderr[-3000:])
    m = json.loads(p.stdout[p.stdout.index("{"):]); viols = []; kf = []
    for v in m["violations"]:
        k = known(prop, v["entry"], {"kind": "check", "label": v["label"], "where": ""})
        if k: kf.append((k, v)); continue
        f = "%s/replays/%s-%s-%s.json" % (B, prop, v["entry"], hashlib.sha256(v["label"].encode()).hexdigest()[:8])
        json.dump(dict(v, property=prop, py=c["py"]), open(f, "w"), indent=1); v["path"] = f; viols.append(v)
    for k in {id(k): k for k, _ in kf}.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": c.get("level", "model_checking"),
      "coverage": {"states": m["paths"], "transitions": m["queries"], "traces_validated_against_impl": m["validated"], "samples": m["samples"] or [{"note": "no sample"}], "exhaustive": not m["incomplete"],
        "explanation": "states: symbolic paths through the binding; transitions: solver queries; every result of the C library is an arbitrary C int and every text argument an arbitrary text without NUL. Each path was also run with real ctypes against a C library returning its values.",
        "assertions_decided": m["checks"], "bounds": {"unbounded": "all values; no loops in the code"}, "functions_encoded": m["functions"], "functions_encoded_count": len(m["functions"]), "solver": {"queries": m["queries"], "z3time": m["z3time"]}, "entries": m["entries"], "incomplete": m["incomplete"], "unconfirmed": m["unconfirmed"], "model_mismatches": len(m["mismatch"]), "model_mismatch_samples": m["mismatch"][:3]},
      "assumptions": c.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viols)}
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: %d paths, %d assertions, %d solver queries (%.1fs in z3), %d/%d samples validated, %s, %.1fs" % (prop, tier, m["paths"], m["checks"], m["queries"], m["z3time"], m["validated"], m["validated"] + len(m["mismatch"]), "complete" if not m["incomplete"] else "incomplete: %s" % m["incomplete"], wall))
    for u in m["unconfirmed"]: print("  note: not reproduced with real ctypes (no alarm): %s %s" % (u["entry"], u["label"]))
    if m["mismatch"]: print("  note: %d paths differ from the run with real ctypes" % len(m["mismatch"]))
    for r in viols: print("  %s: %s (%s)" % (r["entry"], r["label"], "; ".join(r["native"])))
    for r in viols: print("VIOLATION property=%s replay=%s" % (prop, r["path"]))
    return 1 if viols else 0

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop", nargs="?"); ap.add_argument("tier", nargs="?", default="quick"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--replay"); ap.add_argument("-v", dest="verbose", action="store_true"); ap.add_argument("-d", dest="debug", action="store_true"); ap.add_argument("--entry", action="append"); ap.add_argument("--pin", action="append", default=[]); ap.add_argument("--time", type=float)
    a = ap.parse_args(); a.pins = {p.split("=")[0]: int(p.split("=")[1]) for p in a.pin}
    setup()
    if a.setup: return 0
    if a.replay:
        import checks
        r = json.load(open(a.replay))
        if "py" in r: return subprocess.call(["python3-vt", "%s/py/%s.py" % (V, r["py"]), "replay", a.replay, REPO])
        job = checks.JOBS[r["job"]]; exe = Builder(job).native(job["entries"])
        x = native_run(exe, r["entry"], r["values"], r["params"]); print(x["out"]); print("exit", x["rc"], "reproduced" if confirmed(r, x) else "not reproduced"); return 1 if confirmed(r, x) else 0
    if a.prop == "raw":  # raw JOB: run a job's entries without a property
        pass
    import checks
    if "py" in checks.CHECKS[a.prop]: return check_py(a.prop, a.tier, a)
    return check(a.prop, a.tier, a)
if __name__ == "__main__": sys.exit(main())
