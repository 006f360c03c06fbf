#!/usr/bin/env python3-vt
"""C36: symbolic execution of the Python binding (pygeodiff/main.py, geodifflib.py) with Z3.

The real Python code runs in CPython; the C library below it is replaced by a stand-in whose results are symbolic
(every C int, every version text) and whose arguments are symbolic texts. Every branch on a symbolic value asks Z3
which sides are possible and all of them are explored. Each ended path is also run with real ctypes against a small
C library that returns the path's concrete values; only violations seen there too are reported."""
import ctypes, gc, importlib, itertools, json, os, re, shutil, subprocess, sys, tempfile, time, traceback
import z3

class Unsupported(BaseException): pass
class Violation(BaseException): pass

class Ctx:
    def __init__(s): s.solver = z3.Solver(); s.solver.set("timeout", 20000); s.queries = 0; s.z3time = 0.0
    def start(s, prefix): s.prefix = prefix; s.taken = []; s.cons = []; s.pending = []
    def sat(s, *extra):
        s.solver.push()
        for c in s.cons + list(extra): s.solver.add(c)
        t = time.time(); r = s.solver.check(); s.z3time += time.time() - t; s.queries += 1
        m = s.solver.model() if r == z3.sat else None
        s.solver.pop()
        if r == z3.unknown: raise Unsupported("solver unknown")
        return m
    def decide(s, e):
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        i = len(s.taken)
        if i < len(s.prefix): v = s.prefix[i]
        else:
            t = s.sat(e) is not None; f = s.sat(z3.Not(e)) is not None
            if t and f: s.pending.append(s.taken + [False]); v = True
            else: v = t
        s.taken.append(v); s.cons.append(e if v else z3.Not(e)); return v
C = Ctx()

class SymBool:
    def __init__(s, e): s.e = e
    def __bool__(s): return C.decide(s.e)
    def __eq__(s, o): return SymBool(s.e == (o.e if isinstance(o, SymBool) else bool(o)))
    def __ne__(s, o): return SymBool(s.e != (o.e if isinstance(o, SymBool) else bool(o)))
    def __hash__(s): return hash(bool(s))
    def __index__(s): return int(bool(s))
    __int__ = __index__
    def __repr__(s): return repr(bool(s))

def iv(x):
    if isinstance(x, SymInt): return x.e
    if isinstance(x, SymBool): return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int)): return z3.IntVal(int(x))
    return None
class SymInt:
    """An arbitrary C int."""
    def __init__(s, e): s.e = e
    def _c(s, o, f):
        x = iv(o)
        return NotImplemented if x is None else SymBool(f(s.e, x))
    def __eq__(s, o): x = iv(o); return SymBool(s.e == x) if x is not None else False
    def __ne__(s, o): x = iv(o); return SymBool(s.e != x) if x is not None else True
    def __lt__(s, o): return s._c(o, lambda a, b: a < b)
    def __le__(s, o): return s._c(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._c(o, lambda a, b: a > b)
    def __ge__(s, o): return s._c(o, lambda a, b: a >= b)
    def _a(s, o, f):
        x = iv(o)
        return NotImplemented if x is None else SymInt(f(s.e, x))
    def __add__(s, o): return s._a(o, lambda a, b: a + b)
    def __radd__(s, o): return s._a(o, lambda a, b: b + a)
    def __sub__(s, o): return s._a(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._a(o, lambda a, b: b - a)
    def __neg__(s): return SymInt(-s.e)
    def __abs__(s): return SymInt(z3.If(s.e < 0, -s.e, s.e))
    def __bool__(s): return C.decide(s.e != 0)
    def __index__(s):  # a use as a concrete number: small values one by one, any other one stands for itself only in texts
        for k in range(-4, 17):
            if C.decide(s.e == k): return k
        raise Unsupported("symbolic integer used as a concrete number")
    __int__ = __index__
    def __hash__(s):
        for k in range(-4, 17):
            if C.decide(s.e == k): return hash(k)
        return 123456789  # not the hash of a key in use
    def __str__(s): return "<rc>"
    __repr__ = __str__
    def __format__(s, f): return "<rc>"

def sv(x):
    if isinstance(x, SymStr): return x.e
    if isinstance(x, str): return z3.StringVal(x)
    return None
class SymStr(str):
    """An arbitrary text."""
    def __new__(cls, e): o = str.__new__(cls, "?"); o.e = e; return o
    def encode(s, encoding="utf-8", errors="strict"): return SymBytes(s.e, encoding.lower().replace("_", "-"), errors)
    def __eq__(s, o): x = sv(o); return SymBool(s.e == x) if x is not None else False
    def __ne__(s, o): x = sv(o); return SymBool(s.e != x) if x is not None else True
    def __hash__(s): raise Unsupported("hash of a symbolic text")
    def __len__(s): raise Unsupported("length of a symbolic text") 
    def __bool__(s): return C.decide(z3.Length(s.e) > 0)
    def startswith(s, p, *a):
        if a or sv(p) is None: raise Unsupported("startswith")
        return SymBool(z3.PrefixOf(sv(p), s.e))
    def endswith(s, p, *a):
        if a or sv(p) is None: raise Unsupported("endswith")
        return SymBool(z3.SuffixOf(sv(p), s.e))
    def __contains__(s, p): return bool(SymBool(z3.Contains(s.e, sv(p))))
    def __add__(s, o): return SymStr(z3.Concat(s.e, sv(o)))
    def __radd__(s, o): return SymStr(z3.Concat(sv(o), s.e))
    def __str__(s): return s
    def __format__(s, f): return "<text>"
    def __repr__(s): return "<text>"
    def __fspath__(s): return s
def _no(name):
    def f(s, *a, **k): raise Unsupported("str." + name)
    return f
for n in "__getitem__ __iter__ __mod__ __mul__ __lt__ __gt__ __le__ __ge__ capitalize casefold center count expandtabs find format index isalnum isalpha isascii isdecimal isdigit isidentifier islower isnumeric isprintable isspace istitle isupper join ljust lower lstrip partition removeprefix removesuffix replace rfind rindex rjust rpartition rsplit rstrip split splitlines strip swapcase title translate upper zfill".split(): setattr(SymStr, n, _no(n))
class SymBytes(bytes):
    """Bytes of an arbitrary text in an encoding."""
    def __new__(cls, e, enc, err="strict"): o = bytes.__new__(cls, b"?"); o.e = e; o.enc = {"utf8": "utf-8"}.get(enc, enc); o.err = err; return o
    def decode(s, encoding="utf-8", errors="strict"):
        if {"utf8": "utf-8"}.get(encoding.lower(), encoding.lower()) != s.enc: raise Unsupported("decoding as " + encoding)
        return SymStr(s.e)
    def __eq__(s, o): return SymBool(s.e == o.e) if isinstance(o, SymBytes) and o.enc == s.enc else SymBool(s.e == z3.StringVal(bytes(o).decode())) if isinstance(o, bytes) else False
    def __ne__(s, o): r = s.__eq__(o); return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else True
    def __hash__(s): raise Unsupported("hash of symbolic bytes")
    def __bool__(s): return C.decide(z3.Length(s.e) > 0)
for n in "__getitem__ __iter__ __len__ __contains__ __mod__ __mul__ __add__ __lt__ __gt__ count find index join lower partition replace rfind rsplit rstrip split strip startswith endswith hex lstrip upper title translate".split():
    def _nb(n): 
        def f(s, *a, **k): raise Unsupported("bytes." + n)
        return f
    setattr(SymBytes, n, _nb(n))

# ---- the C side
def header(repo):
    t = re.sub(r"/\*.*?\*/", "", open(repo + "/geodiff/src/geodiff.h").read(), flags=re.S); t = re.sub(r"//[^\n]*", "", t); r = {}
    for m in re.finditer(r"GEODIFF_EXPORT\s+((?:const\s+)?\w+)\s*(\*?)\s*(GEODIFF_\w+)\s*\(([^)]*)\)\s*;", t):
        ps = [p.strip() for p in m.group(4).split(",") if p.strip() and p.strip() != "void"]
        r[m.group(3)] = {"ret": "text" if m.group(2) else m.group(1), "params": ["text" if re.match(r"const\s+char\s*\*", p) else "callback" if "Callback" in p else "int" for p in ps]}
    return r

class FakeFunc:
    def __init__(s, lib, name): s.lib = lib; s.name = name; s.argtypes = None; s.restype = ctypes.c_int; s.errcheck = None
    def __call__(s, *args):
        d = s.lib.decl[s.name]
        if s.argtypes is not None and len(args) < len(s.argtypes): raise TypeError("this function takes at least %d arguments (%d given)" % (len(s.argtypes), len(args)))
        if len(args) != len(d["params"]): raise Violation("%s takes %d arguments, the binding passes %d" % (s.name, len(d["params"]), len(args)))
        for i, (p, a) in enumerate(zip(d["params"], args)):
            at = s.argtypes[i] if s.argtypes is not None and i < len(s.argtypes) else None
            if p == "text" and (not isinstance(a, bytes) or at not in (None, ctypes.c_char_p, ctypes.c_void_p)): raise Violation("argument %d of %s is not passed as a text" % (i + 1, s.name))
            if p == "int" and (not isinstance(a, (int, SymInt)) or at not in (None, ctypes.c_int, ctypes.c_uint)): raise Violation("argument %d of %s is not passed as an int" % (i + 1, s.name))
        s.lib.calls.append((s.name, args))
        if d["ret"] == "void": return None
        if d["ret"] == "text":
            if s.restype is not ctypes.c_char_p: raise Violation("the result of %s is not read as a text" % s.name)
            return SymBytes(s.lib.version, "utf-8")
        e = s.lib.rc; rt = s.restype
        if rt in (ctypes.c_int, ctypes.c_int32) or rt is int: return SymInt(e)
        if rt is ctypes.c_bool: return SymBool(e % 256 != 0)
        if rt is ctypes.c_uint: return SymInt(z3.If(e < 0, e + 2**32, e))
        for n, bits, signed in ((ctypes.c_byte, 8, 1), (ctypes.c_ubyte, 8, 0), (ctypes.c_short, 16, 1), (ctypes.c_ushort, 16, 0)):
            if rt is n: m = e % 2**bits; return SymInt(z3.If(m >= 2**(bits - 1), m - 2**bits, m) if signed else m)
        if rt is None: return None
        raise Unsupported("result type %s" % rt)
class FakeLib:
    def __init__(s, name): s.__dict__.update(name=name, calls=[], decl=DECL, rc=z3.Int("rc"), version=z3.String("version"), funcs={}); LIBS.append(s)
    def __getattr__(s, n):
        if n not in s.decl: raise AttributeError(n)
        if n not in s.funcs: s.funcs[n] = FakeFunc(s, n)
        return s.funcs[n]
    def __getitem__(s, n): return FakeFunc(s, n)
class FakeCallback:
    def __init__(s, ret, params, f): s.ret = ret; s.params = params; s.f = f
def fakeCFUNCTYPE(ret, *params, **k):
    class T(FakeCallback):
        def __init__(s, f): FakeCallback.__init__(s, ret, params, f)
    return T
DECL = {}; LIBS = []

# ---- what each method means: the C function, its arguments in order, and the reading of its result
SPEC = {"create_changeset": ("GEODIFF_createChangeset", 3, "rc"), "invert_changeset": ("GEODIFF_invertChangeset", 2, "rc"), "create_rebased_changeset": ("GEODIFF_createRebasedChangeset", 5, "rc"),
  "rebase": ("GEODIFF_rebase", 4, "rc"), "apply_changeset": ("GEODIFF_applyChangeset", 2, "rc"), "list_changes": ("GEODIFF_listChanges", 2, "rc"), "list_changes_summary": ("GEODIFF_listChangesSummary", 2, "rc"),
  "has_changes": ("GEODIFF_hasChanges", 1, "bool"), "changes_count": ("GEODIFF_changesCount", 1, "count")}
def rcRange(e): return z3.And(e >= -2**31, e <= 2**31 - 1)
def expected(kind, rc, mod):
    """(condition, wanted exception or None) for a result; exact classes"""
    if kind == "rc": return [(rc == 0, None), (rc == 1, mod.GeoDiffLibError), (rc == 2, mod.GeoDiffLibConflictError), (rc == 3, mod.GeoDiffLibUnsupportedChangeError), (z3.Or(rc < 0, rc > 3), Exception)]
    return [(rc >= 0, None), (rc < 0, mod.GeoDiffLibError)]

def must(e, what):
    m = C.sat(z3.Not(e)) if not isinstance(e, bool) else (None if e else C.sat())
    STAT["checks"] += 1
    if m is not None: bad(what, m)
def bad(what, m=None):
    m = m or C.sat(); STAT["found"].append((what, values(m)))
def values(m):
    def i(n): v = m.eval(z3.Int(n), True); return v.as_long()
    def t(n): v = m.eval(z3.String(n), True); return re.sub(r"\\u\{([0-9a-f]+)\}", lambda m: chr(int(m.group(1), 16)), v.as_string()) if z3.is_string_value(v) else ""
    return {"rc": i("rc"), "level": i("level"), "version": t("version"), "args": [t("arg%d" % k) for k in range(5)]}

def path(scenario, mod, main):
    lib0 = len(LIBS); C.cons.append(rcRange(z3.Int("rc"))); C.cons.append(rcRange(z3.Int("level")))
    kind, meth = scenario; err = None; res = None
    for k in range(5): C.cons.append(z3.Not(z3.Contains(z3.String("arg%d" % k), z3.StringVal("\0"))))
    own = z3.String("version") == z3.StringVal(mod.__version__)
    if kind != "construct": C.cons.append(own)
    try: g = main.GeoDiff("fake-library")
    except Exception as e:
        if kind == "construct": must(z3.Not(own), "the constructor refuses the library's own version"); must(type(e) is mod.GeoDiffLibVersionError, "a version mismatch raises %s" % type(e).__name__); return "refused"
        bad("the constructor raises %s" % type(e).__name__); return "raised"
    lib = LIBS[-1]
    if kind == "construct":
        must(own, "a library of another version is accepted"); names = [c[0] for c in lib.calls]
        must(names.count("GEODIFF_init") == 1, "the library is not initialized once"); must(len(LIBS) == lib0 + 1 and lib.name == "fake-library", "the given library is not the one loaded"); return "accepted"
    del lib.calls[:]
    if kind == "version":
        r = g.version(); must(isinstance(r, SymStr) and z3.simplify(r.e == lib.version) is not None and (r.e == lib.version), "version() is not the library's version"); return "version"
    if kind == "level":
        g.set_maximum_logger_level(SymInt(z3.Int("level"))); c = [x for x in lib.calls if x[0] == "GEODIFF_setMaximumLoggerLevel"]
        if len(c) != 1: bad("the logger level is not passed on"); return "level"
        a = c[0][1][0]; must(iv(a) == z3.Int("level"), "another logger level is passed on"); return "level"
    if kind == "callback":
        got = []
        def cb(level, msg): got.append((level, msg))
        g.set_logger_callback(cb); c = [x for x in lib.calls if x[0] == "GEODIFF_setLoggerCallback"]
        if len(c) != 1 or not isinstance(c[0][1][0], FakeCallback): bad("the callback is not passed on"); return "callback"
        w = c[0][1][0]; must(w.ret is None and tuple(w.params) == (ctypes.c_int, ctypes.c_char_p), "the callback has another signature")
        import weakref
        ref = weakref.ref(w); del c, w; del lib.calls[:]; gc.collect(); must(ref() is not None, "the callback is released while the library may call it")
        if ref() is None: return "callback"
        msg = SymBytes(z3.String("arg0"), "utf-8"); ref().f(SymInt(z3.Int("level")), msg)
        ok = len(got) == 1
        must(ok, "the callback is not called once per message")
        if ok: l, t = got[0]; must(iv(l) == z3.Int("level") if iv(l) is not None else False, "the callback gets another level"); must(t.e == z3.String("arg0") if hasattr(t, "e") else False, "the callback gets another message")
        return "callback"
    cname, n, rk = SPEC[meth]; args = [z3.String("arg%d" % k) for k in range(n)]; target = g if kind == "method" else g.clib
    try: res = getattr(target, meth)(*[SymStr(a) for a in args])
    except Exception as e: err = e
    cs = [c for c in lib.calls if c[0] == cname]
    if len(lib.calls) != 1 or len(cs) != 1: bad("%s calls %s instead of %s once (%s)" % (meth, [c[0] for c in lib.calls], cname, err)); return "other call"
    for k, (a, w) in enumerate(zip(cs[0][1], args)): must(isinstance(a, SymBytes) and a.enc == "utf-8" and a.err == "strict" and (a.e == w), "%s passes something else as argument %d of %s" % (meth, k + 1, cname))
    rc = lib.rc
    for cond, want in expected(rk, rc, mod):
        if want is None:
            if err is not None: must(z3.Not(cond), "%s raises %s on success" % (meth, type(err).__name__))
        elif err is None: must(z3.Not(cond), "%s does not report a failure" % meth)
        elif want is not Exception and type(err) is not want: must(z3.Not(cond), "%s raises %s instead of %s" % (meth, type(err).__name__, want.__name__))
    if err is None:
        if rk == "rc": must(res is None, "%s returns a value" % meth)
        elif rk == "count": must(iv(res) == rc if iv(res) is not None else False, "%s returns another number" % meth)
        else:  # the library answers 0 or 1
            b = res.e if isinstance(res, SymBool) else z3.BoolVal(res) if isinstance(res, bool) else res.e != 0 if isinstance(res, SymInt) else None
            must(z3.Implies(z3.Or(rc == 0, rc == 1), b == (rc == 1)) if b is not None else False, "%s returns another answer" % meth)
    return type(err).__name__ if err else "returned"

# ---- the same scenario with real ctypes and a library that returns the given values
CSRC = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define L(...) do { FILE *f = fopen(getenv("GS_LOG"), "a"); fprintf(f, __VA_ARGS__); fclose(f); } while (0)
static void text(const char *s) { FILE *f = fopen(getenv("GS_LOG"), "a"); if (!s) fprintf(f, " null"); else { fprintf(f, " t"); for (; *s; s++) fprintf(f, "%02x", (unsigned char)*s); } fclose(f); }
'''
def clib(decl, d):
    s = CSRC
    for n, x in decl.items():
        ps = ["const char *" if p == "text" else "void *" if p == "callback" else "int" for p in x["params"]]; r = {"text": "const char *", "void": "void"}.get(x["ret"], "int")
        s += "%s %s(%s) { L(\"%s\");" % (r, n, ", ".join("%s a%d" % (p, i) for i, p in enumerate(ps)) or "void", n)
        for i, p in enumerate(x["params"]): s += " text(a%d);" % i if p == "text" else " L(\" %%d\", a%d);" % i if p == "int" else " L(\" cb\"); if (getenv(\"GS_CALL\")) { ((void (*)(int, const char *))a%d)(atoi(getenv(\"GS_LEVEL\")), getenv(\"GS_MSG\")); }" % i
        s += ' L("\\n");' + ("" if r == "void" else ' return getenv("GS_VERSION");' if r.startswith("const") else ' return atoi(getenv("GS_RC"));') + " }\n"
    open(d + "/fake.c", "w").write(s); subprocess.check_call(["gcc", "-shared", "-fPIC", "-w", "-o", d + "/libfake.so", d + "/fake.c"])
NATIVE = r'''
import sys, json, os
sys.dont_write_bytecode = True
q = json.load(open(sys.argv[1])); sys.path.insert(0, q["repo"])
import pygeodiff, pygeodiff.geodifflib as mod
out = {}
try:
    g = pygeodiff.GeoDiff(q["lib"]); out["constructed"] = True
    n = sum(1 for _ in open(os.environ["GS_LOG"]))
    if q["kind"] == "version": out["result"] = g.version()
    elif q["kind"] == "level": g.set_maximum_logger_level(q["level"])
    elif q["kind"] == "callback":
        got = []; g.set_logger_callback(lambda l, m: got.append((l, m.decode()))); out["got"] = got
    elif q["kind"] in ("method", "clib"): out["result"] = getattr(g if q["kind"] == "method" else g.clib, q["method"])(*q["args"])
except Exception as e: out["error"] = type(e).__name__
out["log"] = [l.rstrip("\n") for l in open(os.environ["GS_LOG"])] if os.path.exists(os.environ["GS_LOG"]) else []
out["own"] = mod.__version__
print("RESULT " + json.dumps(out))
'''
def native(repo, d, sc, v):
    """runs a path's values for real; returns (list of problems, outcome)"""
    if not os.path.exists(d + "/libfake.so"): clib(DECL, d); open(d + "/native.py", "w").write(NATIVE)
    kind, meth = sc; n = SPEC[meth][1] if meth else 0; log = d + "/log"
    if os.path.exists(log): os.remove(log)
    q = dict(repo=repo, lib=d + "/libfake.so", kind=kind, method=meth, args=v["args"][:n], level=v["level"]); json.dump(q, open(d + "/q.json", "w"))
    env = dict(os.environ, GS_LOG=log, GS_RC=str(v["rc"]), GS_VERSION=v["version"], GS_LEVEL=str(v["level"]), GS_MSG=v["args"][0], PYTHONDONTWRITEBYTECODE="1")
    if kind == "callback": env["GS_CALL"] = "1"
    p = subprocess.run([sys.executable, d + "/native.py", d + "/q.json"], env=env, capture_output=True, text=True, timeout=60)
    m = re.search(r"^RESULT (.*)$", p.stdout, re.M)
    if not m: return ["the binding ended: " + (p.stderr or p.stdout)[-300:]], "crash"
    o = json.loads(m.group(1)); err = o.get("error"); bad = []; lines = [l for l in o["log"]]
    if kind == "construct":
        same = v["version"] == o["own"]
        if same != bool(o.get("constructed")) or (not same and err != "GeoDiffLibVersionError"): bad.append("version %r: %s" % (v["version"], err))
        if same and lines.count("GEODIFF_init") != 1: bad.append("not initialized once")
        return bad, "accepted" if o.get("constructed") else "refused"
    if not o.get("constructed"): return ["constructor: %s" % err], "raised"
    names = [l.split(" ")[0] for l in lines]; hx = lambda s: "t" + s.encode().hex()
    if kind == "version":
        if o.get("result") != v["version"]: bad.append("version() is %r" % o.get("result"))
        return bad, "version"
    if kind == "level":
        if "GEODIFF_setMaximumLoggerLevel %d" % v["level"] not in lines: bad.append("level not passed")
        return bad, "level"
    if kind == "callback":
        if o.get("got") != [[v["level"], v["args"][0]]]: bad.append("callback got %r" % o.get("got"))
        return bad, "callback"
    cname, n, rk = SPEC[meth]; mine = [l for l in lines if l.split(" ")[0] not in ("GEODIFF_init", "GEODIFF_version")]; want = " ".join([cname] + [hx(a) for a in v["args"][:n]])
    if mine != [want]: bad.append("calls %r instead of %r" % (mine, want))
    rc = v["rc"]; we = ({0: None, 1: "GeoDiffLibError", 2: "GeoDiffLibConflictError", 3: "GeoDiffLibUnsupportedChangeError"}.get(rc, "") if rk == "rc" else "GeoDiffLibError" if rc < 0 else None)
    if err != we and not (we == "" and err): bad.append("result %d raises %s instead of %s" % (rc, err, we or "an error"))
    elif err is None:
        r = o.get("result")
        if rk == "rc" and r is not None or rk == "count" and (r != rc or isinstance(r, bool)) or rk == "bool" and rc in (0, 1) and bool(r) != (rc == 1): bad.append("result %d is returned as %r" % (rc, r))
    return bad, err or "returned"

def scenarios():
    return [("construct", None), ("version", None), ("level", None), ("callback", None)] + [(k, m) for k in ("method", "clib") for m in SPEC]

def load(repo):
    sys.dont_write_bytecode = True; sys.path.insert(0, repo)
    for n in [n for n in sys.modules if n.split(".")[0] == "pygeodiff"]: del sys.modules[n]
    main = importlib.import_module("pygeodiff.main"); mod = importlib.import_module("pygeodiff.geodifflib")
    return main, mod

STAT = {"checks": 0, "found": []}
def run(repo, limit):
    DECL.update(header(repo)); t0 = time.time(); d = tempfile.mkdtemp(prefix="gsbind."); out = {"paths": 0, "entries": {}, "incomplete": {}, "violations": [], "unconfirmed": [], "samples": [], "validated": 0, "mismatch": [], "functions": set()}
    real = (ctypes.CDLL, ctypes.CFUNCTYPE)
    ctypes.CDLL = lambda name=None, *a, **k: FakeLib(name); ctypes.CFUNCTYPE = fakeCFUNCTYPE
    todo = []
    def prof(fr, ev, arg):
        if ev == "call" and "/pygeodiff/" in fr.f_code.co_filename: out["functions"].add("pygeodiff/%s:%d %s" % (os.path.basename(fr.f_code.co_filename), fr.f_code.co_firstlineno, fr.f_code.co_name))
    try:
        main, mod = load(repo)
        if not all(hasattr(main.GeoDiff, m) for m in SPEC): out["incomplete"]["methods missing"] = 1
        for sc in scenarios():
            if sc[1] and not hasattr(main.GeoDiff, sc[1]): continue
            if sc[0] == "clib" and not hasattr(mod.GeoDiffLib, sc[1]): continue
            work = [[]]; name = ".".join(x for x in sc if x); ent = out["entries"][name] = {"paths": 0, "checks": 0, "outcomes": {}}
            while work:
                if time.time() - t0 > limit: out["incomplete"]["time limit"] = 1; break
                C.start(work.pop()); STAT["found"] = []; c0 = STAT["checks"]; oc = None; sys.setprofile(prof)
                try: oc = path(sc, mod, main)
                except Unsupported as u: out["incomplete"][str(u)] = out["incomplete"].get(str(u), 0) + 1
                except Violation as u: bad(str(u))
                finally: sys.setprofile(None)
                work += C.pending; ent["checks"] += STAT["checks"] - c0
                if oc or STAT["found"]:
                    ent["paths"] += 1; out["paths"] += 1; ent["outcomes"][oc or "violation"] = ent["outcomes"].get(oc or "violation", 0) + 1
                if STAT["found"]: todo += [(sc, name, w, v) for w, v in STAT["found"]]
                elif oc: todo.append((sc, name, None, values(C.sat())))
    finally: ctypes.CDLL, ctypes.CFUNCTYPE = real
    try:
        for sc, name, w, v in todo:
            b, o = native(repo, d, sc, v)
            if w is None:
                if b: out["mismatch"].append({"entry": name, "values": v, "native": b})
                else:
                    out["validated"] += 1
                    if len(out["samples"]) < 8: out["samples"].append({"entry": name, "input": v, "observed": o})
            elif b and any(x["entry"] == name and x["label"] == w for x in out["violations"]): pass
            elif b: out["violations"].append({"entry": name, "scenario": sc, "label": w, "values": v, "native": b})
            else: out["unconfirmed"].append({"entry": name, "label": w, "values": v})
    finally: shutil.rmtree(d, ignore_errors=True)
    out["functions"] = sorted(out["functions"]); out["checks"] = STAT["checks"]; out["queries"] = C.queries; out["z3time"] = round(C.z3time, 3); return out

if __name__ == "__main__":
    if sys.argv[1] == "replay":
        r = json.load(open(sys.argv[2])); DECL.update(header(sys.argv[3])); d = tempfile.mkdtemp(prefix="gsbind.")
        try: b, o = native(sys.argv[3], d, tuple(r["scenario"]), r["values"])
        finally: shutil.rmtree(d, ignore_errors=True)
        print(o, "; ".join(b)); print("reproduced" if b else "not reproduced"); sys.exit(1 if b else 0)
    json.dump(run(sys.argv[1], float(sys.argv[2])), sys.stdout)
