"""Runs the contracts' operations on the real code (compiled from /repo) and compares with the mathematical specification.

Used (1) to replay counterexamples of failed obligations, (2) to search a failing input for a refuted obligation and (3) as a
small conformance run that guards the verifier against vacuity.  It never discharges an obligation."""
import json
import math
import os
import pickle
import random
import struct
import subprocess
import sys
import numpy as np
from . import contracts as C
from . import numeric
from . import terms as T
from .specs import OPS

HERE = os.path.dirname(os.path.abspath(__file__))
CXX = {"assert": ["g++", "-O1", "-ftrivial-auto-var-init=pattern"], "ndebug": ["g++", "-O2", "-DNDEBUG"],
       "asan": ["g++", "-O1", "-g0", "-ftrivial-auto-var-init=pattern", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]}


def gen_driver(types, ops, head=""):
    out = [C.gen_harness(types, ops, head), '#include "%s/drv.h"' % HERE]
    for t in types:
        for op in ops:
            if C.applicable(op, t):
                out.append('extern "C" void run_%s_%s(Case *c) { go<n_%s::T>(n_%s::w_%s_%s, c, %d, %d); }'
                           % (t.tag, op.name, t.tag, t.tag, t.tag, op.name, op.jets, 0 if op.kind == "new" else 1))
    return "\n".join(out)


def start_build(dirn, name, text, mode, defs=(), incs=(), objs=()):
    src = os.path.join(dirn, "drv_%s_%s.cpp" % (name, mode))
    so = src[:-4] + ".so"
    with open(src, "w") as f:
        f.write(text)
    cmd = CXX[mode] + ["-std=c++17", "-ffp-contract=off", "-fno-access-control", "-Wno-invalid-offsetof", "-w", "-fPIC", "-shared",
                       "-I" + C.REPO + "/include", "-I/usr/include/eigen3"] + ["-I" + i for i in incs] + list(defs) + [src] + list(objs) + ["-o", so]
    return so, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def py_objects(dirn, mode):
    """the sources of the Python module, compiled for the drivers"""
    from . import engine as E
    opt = [x for x in CXX[mode] if x not in ("-O1", "-O2")] + ["-O0"]
    cmd = opt + ["-std=c++17", "-ffp-contract=off", "-fno-access-control", "-w", "-fPIC", "-c"] + E.PYDEFS + E.py_incs()
    main = os.path.join(dirn, "py_main_%s.cpp" % mode)
    with open(main, "w") as f:
        f.write(E.PYMAIN)
    return E.py_objects(dirn, cmd, "_%s.o" % mode, [("pyo_" + os.path.basename(f)[:-4], f) for f in E.py_sources()] + [("pyo_main_hjv", main)])


def finish_build(b):
    so, p = b
    _, err = p.communicate()
    if p.returncode:
        raise C.BuildError(err[-3000:])
    return so


class Runner:
    def __init__(self, so, asan=False):
        self.so, self.asan, self.p = so, asan, None
        self.ncases = 0
        self.err = ""

    def start(self):
        env = dict(os.environ, MALLOC_PERTURB_="165")
        if self.asan:
            libs = [subprocess.run(["g++", "-print-file-name=" + l], capture_output=True, text=True).stdout.strip() for l in ("libasan.so", "libubsan.so")]
            env["LD_PRELOAD"] = " ".join(libs)
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
            env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
        self.ef = open(self.so + ".err", "w+")
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "runner.py"), self.so], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.ef, env=env)

    def run(self, cs):
        if self.p is None:
            self.start()
        self.ncases += 1
        b = pickle.dumps(cs)
        try:
            self.p.stdin.write(struct.pack("<I", len(b)) + b)
            self.p.stdin.flush()
            h = self.p.stdout.read(4)
            if len(h) == 4:
                return pickle.loads(self.p.stdout.read(struct.unpack("<I", h)[0]))
        except (BrokenPipeError, OSError):
            pass
        rc = self.p.wait()
        self.ef.seek(0)
        txt = self.ef.read()
        self.p = None
        return {"status": 9, "what": "process ended with %d" % rc, "stderr": txt[-1500:]}

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None


# ------------------------------------------------------------------ inputs
def dense(rng, order, n, f, scale=2.0, special=False):
    L = C.dlen(order, n)
    d = [f]
    for _ in range(L - 1):
        if special and rng.random() < 0.3:
            d.append(rng.choice([0.0, 1.0, -1.0, 0.5, 2.0]))
        else:
            d.append(rng.uniform(-scale, scale))
    return {"size": n, "data": d}


def sparse(rng, f, names):
    return {"size": len(names), "data": [f] + [rng.uniform(-2, 2) for _ in names], "keys": list(names)}


def dom_ok(op, vals, sc):
    """numerical check of the domain; returns the evaluated spec or None"""
    env = numeric.Env(0)
    vt, st = [], []
    for k, v in enumerate(vals):
        env.leaf["v%d" % k] = numeric.mpf(v)
        vt.append(T.rv("v%d" % k))
    for k, v in enumerate(sc):
        env.leaf["s%d" % k] = numeric.mpf(v)
        st.append(T.rv("s%d" % k))
    try:
        for h in op.dom(vt, st):
            if not numeric.ev(h, env):
                return None
        sp = op.spec(vt, st)
        if op.kind == "bool":
            return bool(numeric.ev(sp, env))
        f, d, dd = sp
        memo = {}
        r = (float(numeric.ev(f, env, memo)), [float(numeric.ev(x, env, memo)) for x in d],
             [[float(numeric.ev(x, env, memo)) for x in r] for r in dd])
        # far from overflow: the contracts speak about exact arithmetic
        return r if all(abs(x) < HUGE for x in [r[0]] + r[1] + [y for z in r[2] for y in z]) else None
    except numeric.Undefined:
        return None
    except OverflowError:
        return None


TIGHT, LOOSE = (1e-7, 1e-9), (1e-3, 1e-5)
HUGE = 1e60
ODD = [math.nan, math.inf, -math.inf, 0.0, -0.0, 5e-324, 1.0, 1.0 + 2.0 ** -52, 1e-9, 1e300, -1e300]


def close(a, b, mag, tol=TIGHT):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= tol[0] * mag + tol[1]


def expect(ty, op, case, sp):
    """list of (label, expected, magnitude) in storage order, or {name: ...} for sparse"""
    f, d, dd = sp
    args = [case["args"][k] for k in case["same"]]
    if ty.sparse:
        out, mag = {}, {}
        for k, a in enumerate(args):
            for q, nm in enumerate(a["keys"]):
                out[nm] = out.get(nm, 0.0) + d[k] * a["data"][1 + q]
                mag[nm] = mag.get(nm, 0.0) + abs(d[k] * a["data"][1 + q])
        return f, out, mag
    n = args[0]["size"] if args else case["size"]
    X = [np.array(a["data"]) for a in args]
    g = sum(d[k] * x[1:1 + n] for k, x in enumerate(X))
    gm = sum(np.abs(d[k] * x[1:1 + n]) for k, x in enumerate(X))
    res, mg = [np.array([f]), g], [np.array([abs(f)]), gm]
    if ty.order == 2:
        iu = np.triu_indices(n)
        h = sum(d[k] * x[1 + n:] for k, x in enumerate(X))
        hm = sum(np.abs(d[k] * x[1 + n:]) for k, x in enumerate(X))
        for k in range(len(X)):
            for l in range(len(X)):
                o = dd[k][l] * np.outer(X[k][1:1 + n], X[l][1:1 + n])[iu]
                h = h + o
                hm = hm + np.abs(o)
        res.append(h)
        mg.append(hm)
    return np.concatenate(res), np.concatenate(mg)


def label(ty, n, k):
    if k == 0:
        return "value"
    if k <= n:
        return "gradient(%d)" % (k - 1)
    k -= 1 + n
    i = 0
    while k >= n - i:
        k -= n - i
        i += 1
    return "hessian(%d,%d)" % (i, i + k)


def same_num(x, y):
    return x == y or (math.isnan(x) and math.isnan(y))


def judge(ty, op, case, res, sp, tol=TIGHT):
    """None or a description of the violation"""
    if res["status"] == 9:
        return "the process died: %s %s" % (res["what"], res.get("stderr", "")[:600])
    if res["status"] == 3:
        return "the operation aborted on valid arguments"
    if res["status"] != 0:
        return "the operation threw on valid arguments: " + res["what"]
    if op.kind == "bool":
        if bool(res["ri"]) != sp:
            return "returned %s, expected %s" % (bool(res["ri"]), sp)
    for k, a in enumerate(case["args"]):
        if case["same"][k] != k or (op.kind == "inpl" and k == 0):
            continue
        b = res["args"][k]
        if ty.sparse:
            if not same_num(b["data"][0], a["data"][0]) or dict(zip(b["keys"], b["data"][1:])) != dict(zip(a["keys"], a["data"][1:])):
                return "argument %d was modified" % k
        elif b["size"] != a["size"] or len(b["data"]) != len(a["data"]) or not all(map(same_num, b["data"], a["data"])):
            return "argument %d was modified" % k
    if op.kind == "bool":
        return None
    if op.kind == "inpl" and res["ri"] != 1:
        return "does not return a reference to the modified object"
    if op.kind == "new":
        size, ln, out, keys = res["rsize"], res["rlen"], res["rout"], res["rkeys"]
    else:
        b = res["args"][0]
        size, ln, out, keys = b["size"], b["len"], b["data"], b["keys"]
    if res["shared"] and op.kind == "new":
        return "result shares storage with an argument"
    if ty.sparse:
        f, want, mag = expect(ty, op, case, sp)
        if not close(out[0], f, abs(f), tol):
            return "value is %r, expected %r" % (out[0], f)
        got = dict(zip(keys, out[1:]))
        if set(got) != set(want):
            return "set of names is %s, expected %s" % (sorted(got), sorted(want))
        for nm in want:
            if not close(got[nm], want[nm], mag[nm], tol):
                return "derivative with respect to k%d is %r, expected %r" % (nm, got[nm], want[nm])
        return None
    n = case["args"][0]["size"]
    if size != n:
        return "size of the result is %d, expected %d" % (size, n)
    if ln != C.dlen(ty.order, n):
        return "number of coefficients is %d, expected %d" % (ln, C.dlen(ty.order, n))
    want, mag = expect(ty, op, case, sp)
    got = np.array(out)
    m = min(len(got), len(want))
    bad = ~(np.abs(got[:m] - want[:m]) <= tol[0] * mag[:m] + tol[1])
    if bad.any():
        k = int(np.argmax(bad))
        return "%s is %r, expected %r" % (label(ty, n, k), float(got[k]), float(want[k]))
    return None


def sample_case(rng, ty, op, alias, n, special=False, fvals=None, names=6):
    """a random case inside the domain, or None; returns (case, evaluated spec)"""
    for _ in range(40):
        lo, hi = op.mono or (-3.0, 3.0)
        idx = {ch: k for k, ch in reversed(list(enumerate(alias)))}
        same = [idx[ch] for ch in alias]
        args = []
        for k, ch in enumerate(alias):
            if same[k] != k:
                args.append(args[same[k]])
                continue
            f = rng.uniform(lo, hi)
            if special and rng.random() < 0.6:
                f = rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, -2.0, -0.5, 1e-3, -1e-3, 100.0, -100.0, 1e4, 1e7, -1e7])
            if fvals and rng.random() < 0.7:
                f = rng.choice(fvals)
            if ty.sparse:
                nm = [x for x in range(names) if rng.random() < 0.55]
                args.append(sparse(rng, f, nm))
            else:
                args.append(dense(rng, ty.order, n, f, special=special))
        if op.kind == "bool":
            for k, a in enumerate(args):
                if same[k] == k and rng.random() < 0.25:
                    a["data"][0] = rng.choice(ODD)
            if len(args) == 2 and same[1] == 1 and rng.random() < 0.3:
                args[1]["data"][0] = args[0]["data"][0]
        case = {"fn": "%s_%s" % (ty.tag, op.name), "args": args, "same": same, "s": 0.0, "t": 0.0, "i": 0, "j": 0}
        if op.scal:
            case["s"] = rng.uniform(0.2, 3) if op.name in ("log_b", "py_log_b", "py_log_base") else rng.uniform(-3, 3)
            if op.name in ("pow", "m_pow", "py_pow") and rng.random() < 0.6:
                case["s"] = float(rng.choice([-2, -1, -0.5, 0, 0.5, 1, 1.5, 2, 3, 4]))
            if special and rng.random() < 0.4:
                case["s"] = rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 10.0, -2.0, 1e6])
            if op.kind == "bool" and rng.random() < 0.2:
                case["s"] = rng.choice(ODD)
            if op.kind == "bool" and rng.random() < 0.3:
                case["s"] = args[0]["data"][0]
        if op.idx:
            case["i"] = rng.randint(-4, 6)
        sp = eval_spec(op, case)
        if sp is not None:
            case["cap"] = 400 if ty.sparse else max(400, C.dlen(ty.order, n))
            return case, sp
    return None, None


def eval_spec(op, case):
    vals = [case["args"][k]["data"][0] for k in range(len(case["args"]))]
    sc = [case["s"], case["t"]][:op.scal] + [float(case["i"]), float(case["j"])][:op.idx]
    name = op.name[3:] if op.name.startswith("py_") else op.name
    if op.kind == "bool" and name.split("_")[0] in ("cmp", "cmps", "scmp"):
        v = [sc[0], vals[0]] if name.startswith("scmp") else vals + sc
        o = name.split("_")[1]
        return {"eq": v[0] == v[1], "ne": v[0] != v[1], "lt": v[0] < v[1], "gt": v[0] > v[1], "le": v[0] <= v[1], "ge": v[0] >= v[1]}[o]
    if any(math.isnan(x) or math.isinf(x) for x in vals + sc):
        return None
    return dom_ok(op, vals, sc)


def stable(op, case, exp):
    """is the case well conditioned?  Deviations of the real code at ill-conditioned points may be rounding, which is not judged."""
    import copy
    if not hasattr(op, "spec") or op.spec is None or op.kind == "bool" or not isinstance(exp, tuple) or len(exp) != 3:
        return True
    def flat(e):
        return [e[0]] + list(e[1]) + [y for z in e[2] for y in z]
    base = flat(exp)
    for k in range(len(case["args"])):
        if case["same"][k] != k:
            continue
        for eps in (1e-10, -1e-10):
            c2 = copy.deepcopy(case)
            for q in range(len(case["args"])):
                if case["same"][q] == k:
                    c2["args"][q]["data"][0] = case["args"][k]["data"][0] * (1 + eps)
            e2 = eval_spec(op, c2)
            if e2 is None:
                return False
            if any(abs(x - y) > 1e-6 * abs(x) + 1e-9 for x, y in zip(base, flat(e2))):
                return False
    return True


def jsonable(case):
    return json.loads(json.dumps(case))
