"""Operations whose contract is not a jet formula: construction, accessors, padding, evaluation, size checks, copies.

Every operation has (1) the C++ text that calls the real function, (2) a symbolic contract (setup: precondition, check: postcondition
per outcome) and (3) a numeric reference used only for replay, sampling and conformance runs."""
import math
from . import contracts as C
from . import models, smt, sx
from . import terms as T
from .ir import Unsupported
from .specs import OPS
from .sx import NULL, UNDEF, Obj, Ptr, Special

HELPERS = """#include <array>
#include <string>
template <class D> struct hjv_mk;
template <> struct hjv_mk<std::vector<double>> { static std::vector<double> go(const std::vector<double> &v) { return v; } };
template <size_t N> struct hjv_mk<std::array<double, N>> { static std::array<double, N> go(const std::vector<double> &v) { std::array<double, N> d; for (size_t q = 0; q < N; q++) d[q] = v[q]; return d; } };
"""
EIGEN = "#define EIGEN_DONT_VECTORIZE 1\n#include <Eigen/Core>\n"

I0 = T.ic(0)


class Env:
    pass


class XOp:
    mono = None
    domf = None

    def __init__(self, name, body, kind, setup=None, check=None, ref=None, gen=None, jets=0, scal=0, idx=0, types="D", vec=False, dyn=None,
                 variants=None, cases=None, alias=None, reject="throw", groups=(), orders=(1, 2), spec=None, strkey=False, sizes=None, eigen=False, vecmut=False):
        self.name, self.body, self.kind, self.jets, self.scal, self.idx, self.types = name, body, kind, jets, scal, idx, types
        self._setup, self._check, self._ref, self._gen = setup, check, ref, gen
        self.vec, self.dyn, self.reject, self.groups, self.orders = vec, dyn, reject, set(groups), orders
        self._variants, self._cases, self._alias = variants, cases, alias
        self.spec = None
        self.strkey = strkey
        self.vecmut = vecmut     # the elements of the vector argument are an output
        self.eigen = eigen
        self.sizes = sizes       # sizes of the dynamic type at which the contract is checked when it is bounded
        OPS[name] = self

    def applies(self, ty):
        if ty.kind not in self.types:
            return False
        if ty.sparse:
            return True
        return ty.order in self.orders and (self.dyn is None or self.dyn == ty.dyn)

    def variants(self, ty):
        if self._variants:
            return self._variants(ty) if callable(self._variants) else self._variants
        return C.alias_patterns(self.jets)

    def cases(self, ty, variant):
        """concrete index values to be enumerated (static types), or one symbolic case"""
        if self._cases:
            return self._cases(ty, variant)
        if ty.dyn or ty.sparse or not self.idx:
            return [{}]
        n = ty.size
        if self.idx == 1:
            return [{"p": i} for i in range(n)]
        return [{"p": i, "q": j} for i in range(n) for j in range(n)]

    # ---- symbolic
    def verify(self, m, ty, opname, variant, check_ovf=False, size=None, sizes=None, maxs=C.MAXS, fp=False):
        run = C.Run(m, "%s %s[%s]" % (ty, opname, variant), check_ovf, fp)
        todo = [(size, c) for c in self.cases(ty, variant)]
        if size is None and self.sizes and ty.dyn:
            todo = [(n, c) for n in self.sizes for c in self.cases(ty, variant)]
        any_ = False
        for sz, fixed in todo:
            run.st = C.new_state(m)
            any_ = self.one(run, m, ty, variant, sz, fixed, maxs) or any_
        if not any_ and todo:
            run.bad(sx.State(), "precondition is satisfiable", "vacuity")
        return run

    def one(self, run, m, ty, variant, size, fixed, maxs):
        ex, st = run.ex, run.st
        e = Env()
        e.run, e.ex, e.ty, e.variant, e.m = run, ex, ty, variant, m
        e.names = list(variant.split(";")[0]) if self.jets else []
        e.fixed = fixed
        e.s = e.size = None
        if ty.dyn:
            e.s = T.iv("s") if size is None else T.ic(size)
            if size is None:
                st.assume(T.ile(I0, e.s))
                st.assume(T.ile(e.s, T.ic(maxs)))
        elif not ty.sparse:
            e.s = T.ic(ty.size)
        e.conc = ty.size if not ty.dyn else size
        e.sizes = {}
        e.st = st
        e.op = self
        e.p = T.ic(fixed["p"]) if "p" in fixed else T.iv("p")
        e.q = T.ic(fixed["q"]) if "q" in fixed else T.iv("q")
        e.ns = T.ic(fixed["n"]) if "n" in fixed else T.iv("n")
        e.maxs = maxs
        e.extra = []
        if self._alias:
            self._alias(e)
        pre = list(self._setup(e)) if self._setup else []
        e.ptrs = {}
        for nm in e.names:
            if nm not in e.ptrs:
                e.ptrs[nm] = C.mk_jet(ex, st, ty, nm, e.sizes.get(nm, e.s), ro=not (self.kind == "inpl" and nm == "a"))
        r = C.mk_raw(ex, st, ty, "result") if self.kind == "new" else NULL
        e.r = r if self.kind == "new" else (e.ptrs[e.names[0]] if e.names else NULL)
        e.vp = UNDEF
        if self.vec:
            st.assume(T.ile(I0, e.ns))
            b = Obj("buf", T.iscale(e.ns, 8), "elements of the vector", True)
            b.layers = (("base", "v"),)
            b.ro = not self.vecmut
            e.vb = bo = st.new(b)
            o = Obj("cells", T.ic(24), "vector argument")
            o.ro = True
            for k, x in ((0, I0), (8, T.iscale(e.ns, 8)), (16, T.iscale(e.ns, 8))):
                o.cells[k] = (8, Ptr(bo, x))
            e.vp = Ptr(st.new(o), I0)
        e.S, e.T_ = T.rv("s"), T.rv("t")
        for x in (e.p, e.q)[:self.idx]:
            if x.op == "iv":
                st.assume(T.ile(T.ic(-2 ** 40), x))
                st.assume(T.ile(x, T.ic(2 ** 40)))
        for h in pre:
            st.assume(h)
        if not smt.sat(st.pc):
            return False
        args = [r if self.kind == "new" else UNDEF] + [e.ptrs[n] for n in e.names] + [UNDEF] * (3 - len(e.names))
        if self.strkey:
            o = Obj("cells", T.ic(32), "name argument")
            o.cells[0] = (32, Special("str", T.iv("p")))
            o.ro = True
            args[3] = Ptr(st.new(o), I0)
        args += [e.S, e.T_, e.p if self.idx > 0 else UNDEF, e.q if self.idx > 1 else UNDEF, e.vp]
        e.st0 = st.clone()
        outs = ex.call("w_%s_%s" % (ty.tag, self.name), args, st)
        e.nret = 0
        live = 0
        for o in outs:
            if len(outs) > 1 and not smt.sat(o[1].pc):
                continue
            live += 1
            try:
                self._check(e, o[1], o[0], o[2])
                e.frame(o[1]) if hasattr(e, "frame") else frame(e, o[1])
            except sx.Dead:
                pass
        if not live:
            run.bad(e.st0, "%s returns or is rejected" % self.name)
        return True

    # ---- numeric
    def sample(self, rng, ty, variant, n, special=False, hints=None):
        case = self.gen_case(rng, ty, variant, n, special, hints)
        if case is None:
            return None, None
        exp = self._ref(ty, case, variant)
        return (case, exp) if exp is not None else (None, None)

    def gen_case(self, rng, ty, variant, n, special, hints):
        from . import replay as R
        names = list(variant.split(";")[0]) if self.jets else []
        idx = {ch: k for k, ch in reversed(list(enumerate(names)))}
        same = [idx[ch] for ch in names]
        case = {"fn": "%s_%s" % (ty.tag, self.name), "same": same, "args": [], "s": rng.uniform(-3, 3), "t": rng.uniform(-3, 3), "i": 0, "j": 0, "vec": []}
        sizes = [n] * len(names)
        f = lambda: rng.choice(hints) if hints and rng.random() < 0.3 else rng.uniform(-3, 3)
        case["sizes"] = sizes
        nn = n
        if self._gen:
            self._gen(rng, ty, case, variant, n)
        elif self.idx and not ty.sparse:
            if n == 0:
                return None
            case["i"], case["j"] = rng.randrange(n), rng.randrange(n)
        elif self.idx:
            case["i"], case["j"] = rng.randrange(6), rng.randrange(6)
        for k, ch in enumerate(names):
            if same[k] != k:
                case["args"].append(case["args"][same[k]])
            elif ty.sparse:
                case["args"].append(R.sparse(rng, f(), [x for x in range(6) if rng.random() < 0.55]))
            else:
                case["args"].append(R.dense(rng, ty.order, case["sizes"][k], f(), special=special))
        if self.vec and isinstance(case["vec"], int):
            case["vec"] = [rng.uniform(-3, 3) for _ in range(case["vec"])]
        case["cap"] = 4000
        return case

    def from_cex(self, ty, variant, cex, rng):
        case = self.gen_case(rng, ty, variant, ty.size or 2, False, None)
        iv, leaf = cex.iv, cex.leaf
        if case is None:
            if ty.sparse or "s" not in iv:
                return None, None
            case = self.gen_case(rng, ty, variant, max(1, iv["s"]), False, None)
            if case is None:
                return None, None
        if "s" in leaf and isinstance(leaf["s"], (int, float)):
            case["s"] = float(leaf["s"])
        for k, x in (("p", "i"), ("q", "j")):
            if k in iv:
                case[x] = iv[k]
        if abs(case["i"]) > 2 ** 60 or abs(case["j"]) > 2 ** 60:
            return None, None
        if "n" in iv and self.vec:
            if iv["n"] > 3000:
                return None, None
            case["vec"] = [float(leaf.get(("v", q), rng.uniform(-2, 2))) for q in range(iv["n"])]
        names = list(variant.split(";")[0]) if self.jets else []
        if not ty.sparse:
            for k, ch in enumerate(names):
                if case["same"][k] != k:
                    case["args"][k] = case["args"][case["same"][k]]
                    continue
                n = ty.size if not ty.dyn else iv.get("s_" + ch, iv.get("s", case["args"][k]["size"]))
                if n > 300:
                    return None, None
                L = C.dlen(ty.order, n)
                case["args"][k] = {"size": n, "data": [float(leaf.get((ch, q), rng.uniform(-2, 2))) for q in range(L)]}
        case["cap"] = 4000
        exp = self._ref(ty, case, variant)
        return (case, exp) if exp is not None else (None, None)

    def judge(self, ty, case, res, exp, tol):
        from . import replay as R
        st = {0: "ret", 1: "throw", 2: "throw", 3: "abort"}.get(res["status"], "died")
        if st == "died":
            return "the process died: %s %s" % (res["what"], res.get("stderr", "")[:600])
        want = exp.get("status", ("ret",))
        if st not in want:
            return "outcome is '%s' (%s), expected %s" % (st, res["what"], " or ".join(want))
        args = exp.get("args", {})
        for k, a in enumerate(case["args"]):
            if case["same"][k] != k:
                continue
            b = res["args"][k]
            w = args.get(k)
            if w is None:
                if st == "ret" and self.kind == "inpl" and k == 0:
                    continue
                w = {"size": a["size"], "data": a["data"], "keys": a.get("keys")}
            bad = cmp_obj(ty, b["size"], b["len"], b["data"], b.get("keys"), w, tol)
            if bad:
                return "argument %d: %s" % (k, bad)
        if st != "ret":
            return None
        if "ret" in exp:
            got = res["rd"] if self.kind == "val" else res["ri"]
            if self.kind in ("bool",):
                got = bool(got)
            w = exp["ret"]
            if isinstance(w, float):
                if not R.close(got, w, exp.get("mag", abs(w)), tol):
                    return "returned %r, expected %r" % (got, w)
            elif got != w:
                return "returned %r, expected %r" % (got, w)
        if "res" in exp:
            if res["rlen"] < 0:
                return "no result"
            if res["shared"]:
                return "result shares storage with an argument"
            bad = cmp_obj(ty, res["rsize"], res["rlen"], res["rout"], res["rkeys"], exp["res"], tol)
            if bad:
                return "result: " + bad
        return None


def cmp_obj(ty, size, ln, data, keys, w, tol):
    from . import replay as R
    if ty.sparse:
        if w["data"][0] is not None and not R.close(data[0], w["data"][0], abs(w["data"][0]), tol):
            return "value is %r, expected %r" % (data[0], w["data"][0])
        g, x = dict(zip(keys, data[1:])), dict(zip(w["keys"], w["data"][1:]))
        if set(g) != set(x):
            return "names are %s, expected %s" % (sorted(g), sorted(x))
        for k in x:
            if not R.close(g[k], x[k], abs(x[k]), tol):
                return "derivative with respect to k%s is %r, expected %r" % (k, g[k], x[k])
        return None
    if w.get("size") is not None and size != w["size"]:
        return "size is %d, expected %d" % (size, w["size"])
    n = w.get("size", size)
    if ln != C.dlen(ty.order, n):
        return "number of coefficients is %d, expected %d" % (ln, C.dlen(ty.order, n))
    for k, x in enumerate(w["data"] or []):
        if x is not None and k < len(data) and not R.close(data[k], x, abs(x), tol):
            return "%s is %r, expected %r" % (R.label(ty, n, k), data[k], x)
    return None


# ------------------------------------------------------------------ pieces of contracts
def frame(e, S):
    """arguments that the operation must not modify"""
    for n in e.ptrs:
        if not (e.op.kind == "inpl" and n == "a"):
            C.unchanged(e.run, e.st0, S, e.ty, e.ptrs[n], n, e.s)


def must(e, S, kind, val, what=""):
    if kind != "ret":
        e.run.bad(S, "%s does not fail on valid arguments (%s: %s)" % (e.op.name, kind, str(val)[:100]))
        return False
    return True


def rejected(e, S, kind, val, both=False):
    """the only allowed outcome is the rejection; nothing is modified"""
    ok = ("throw",) if e.op.reject == "throw" else ("abort",)
    if both:
        ok = ("throw", "abort")
    if kind not in ok:
        return e.run.bad(S, "invalid arguments are rejected (%s)" % "/".join(ok))
    if e.op.kind == "inpl":
        C.unchanged(e.run, e.st0, S, e.ty, e.ptrs["a"], "a", e.s)
    # the discharged fact: this path is a rejection
    e.run.post(S, "invalid arguments are rejected", T.TRUE)


def obj(e, S, p=None, what="result", size=None):
    """well-formed object of the given size; returns (size, pointer to coefficients)"""
    w = C.jet_data(e.ex, S, e.ty, p or e.r, e.run, what)
    if w is None:
        raise sx.Dead()
    if size is not None and e.ty.dyn:
        e.run.post(S, what + ": number of variables", T.ieq(w[0], size), "wf")
    return w


def coeffs(e, S, w, want, what="result", lo=0):
    """every coefficient k equals want(k)"""
    s, rp = w
    n = T.as_const(s)
    if n is not None:
        for k in range(lo, C.dlen(e.ty.order, int(n))):
            x = want(T.ic(k))
            if x is not None:
                e.run.post_eq(S, "%s: coefficient %d" % (what, k), e.ex.load(S, C.DBL, rp.plus(8 * k)), x)
        return
    k = T.iv("k?")
    S2 = S.clone()
    S2.assume(T.ile(T.ic(lo), k))
    S2.assume(T.ilt(k, e.ty.length(s)))
    if not smt.sat(S2.pc):
        return
    e.ex.cand = [k] + e.extra
    e.run.post_eq(S2, what + ": coefficient k", e.ex.load(S2, C.DBL, rp.plus(T.iscale(k, 8))), want(k))
    e.ex.cand = []


def retv(e, S, val, want):
    if val is UNDEF or not isinstance(val, T.Term):
        return e.run.bad(S, "returned value is initialised")
    if want.sort == "I":
        return e.run.post(S, "returned value", T.ieq(val, want))
    return e.run.post_eq(S, "returned value", val, want)


def retself(e, S, val):
    if not (isinstance(val, Ptr) and val.o == e.ptrs["a"].o and T.as_const(val.off) == 0):
        e.run.bad(S, "returns a reference to the modified object")


def sparse_obj(e, S, f, names, p=None, what="result"):
    """names: function key term -> (in domain: bool term, derivative term)"""
    ex = e.ex
    p = p or e.r
    lay = C.layout(ex.m, e.ty)
    o = S.mem.get(p.o)
    fc, mc = o.cells.get(lay[0]), o.cells.get(lay[1])
    if mc is None or not isinstance(mc[1], Special):
        return e.run.bad(S, what + " is initialised", "wf")
    if f is not None:
        if fc is None:
            return e.run.bad(S, what + ": value is initialised", "wf")
        e.run.post_eq(S, what + ": value", fc[1], f)
    mo = S.mem[mc[1].p]
    key = T.iv("name?")
    ex.cand = [key]
    dom, val = names(key)
    for on in (True, False):
        S2 = S.clone()
        S2.assume(dom if on else T.bnot(dom))
        if not smt.sat(S2.pc):
            continue
        got = ex.select(S2, mo.x["dom"], key)
        e.run.post(S2, what + ": set of names", got if on else T.bnot(got))
        if on:
            v = ex.select(S2, mo.x["val"], key)
            if v is UNDEF:
                e.run.bad(S2, what + ": derivative is initialised")
            else:
                e.run.post_eq(S2, what + ": derivative", v, val)
    ex.cand = []


def kfun(name):
    return lambda k: T.rsel(name, k)


def onehot(i, f, s):
    """coefficients of variable i"""
    def g(k):
        n = T.as_const(T.isub(k, i))
        kc, ic = T.as_const(k), T.as_const(i)
        one = T.rite(T.ieq(k, T.iadd(i, T.ic(1))), T.R1, T.R0)
        return T.rite(T.ieq(k, I0), f, one)
    return g


def const_data(f):
    return lambda k: T.rite(T.ieq(k, I0), f, T.R0)


def dl(ty, n):
    return C.dlen(ty.order, n)


# ================================================================== C07
G7 = ("make",)
SZERO = T.ic(0)


def sz0(e):
    return SZERO if e.ty.dyn else e.s


def c_ctor(f=None):
    def chk(e, S, kind, val):
        if not must(e, S, kind, val):
            return
        w = obj(e, S, size=sz0(e))
        if f is not None:
            coeffs(e, S, w, const_data(f(e)))
    return chk


def r_ctor(f):
    def ref(ty, case, v):
        n = 0 if ty.dyn else ty.size
        fv = f(case)
        return {"res": {"size": n, "data": None if fv is None else [fv] + [0.0] * (dl(ty, n) - 1)}}
    return ref


XOp("dflt", "new (r) T();", "new", check=c_ctor(), ref=r_ctor(lambda c: None), groups=G7)
XOp("ctor_f", "new (r) T(s);", "new", scal=1, check=c_ctor(lambda e: e.S), ref=r_ctor(lambda c: c["s"]), groups=G7)
XOp("constant", "new (r) T(T::constant(s));", "new", scal=1, check=c_ctor(lambda e: e.S), ref=r_ctor(lambda c: c["s"]), groups=G7)
XOp("zero", "new (r) T(T::zero());", "new", check=c_ctor(lambda e: T.R0), ref=r_ctor(lambda c: 0.0), groups=G7)
XOp("empty", "new (r) T(T::empty());", "new", check=c_ctor(), ref=r_ctor(lambda c: None), groups=G7)


def size_cases(ty, variant):
    """explicit sizes: symbolic for both kinds of types"""
    return [{}]


def c_sized(f):
    def chk(e, S, kind, val):
        if e.variant == "bad":
            return rejected(e, S, kind, val)
        if not must(e, S, kind, val):
            return
        w = obj(e, S, size=e.p)
        if f is not None:
            coeffs(e, S, w, const_data(f(e)))
    return chk


def s_sized(e):
    ok = T.band(T.ile(I0, e.p), T.ile(e.p, T.ic(e.maxs))) if e.ty.dyn else T.ieq(e.p, e.s)
    bad = T.ilt(e.p, I0) if e.ty.dyn else T.bnot(T.ieq(e.p, e.s))
    return [ok] if e.variant == "ok" else [bad]


def g_sized(rng, ty, case, v, n):
    if v == "ok":
        case["i"] = n if ty.dyn else ty.size
    else:
        case["i"] = rng.choice([-1, -2, -3, -7]) if ty.dyn else rng.choice([x for x in (-1, 0, 1, 2, 3, ty.size + 1, ty.size - 1) if x != ty.size])


def rej(op):
    return (op.reject,)


def r_sized(name, f):
    def ref(ty, case, v):
        n = case["i"]
        valid = n >= 0 if ty.dyn else n == ty.size
        if not valid:
            return {"status": rej(OPS[name])}
        if n > 500:
            return None
        fv = f(case)
        return {"res": {"size": n, "data": None if fv is None else [fv] + [0.0] * (dl(ty, n) - 1)}}
    return ref


V_OKBAD = lambda ty: ["ok", "bad"]


def both(name, body, kind, mkref, **kw):
    """the operation with exceptions and, for the units without exceptions, with assertions"""
    XOp(name, body, kind, ref=mkref(name), **kw)
    XOp(name + "_nx", body, kind, ref=mkref(name + "_nx"), reject="abort", **kw)


for nm, body, f, fr in (("constant_n", "new (r) T(T::constant(s, i));", lambda e: e.S, lambda c: c["s"]),
                        ("zero_n", "new (r) T(T::zero(i));", lambda e: T.R0, lambda c: 0.0),
                        ("empty_n", "new (r) T(T::empty(i));", None, lambda c: None)):
    both(nm, body, "new", (lambda fr: lambda name: r_sized(name, fr))(fr), scal=1, idx=1, setup=s_sized, check=c_sized(f), gen=g_sized,
         variants=V_OKBAD, cases=size_cases, groups=G7)


# variable(i, f, size)
def v_cases(ty, variant):
    if ty.dyn:
        return [{}]
    if variant == "bad":
        return [{"p": 0}]
    return [{"p": i, "q": ty.size} for i in range(ty.size)]


def s_var(e):
    if e.variant == "bad":
        return [T.ilt(e.q, I0) if e.ty.dyn else T.bnot(T.ieq(e.q, e.s))]
    if e.ty.dyn:
        return [T.ile(I0, e.p), T.ilt(e.p, e.q), T.ile(e.q, T.ic(e.maxs))]
    return []


def c_var(e, S, kind, val):
    if e.variant == "bad":
        # without exceptions an index check may stop it as well
        return rejected(e, S, kind, val)
    if not must(e, S, kind, val):
        return
    w = obj(e, S, size=e.q if e.ty.dyn else e.s)
    e.extra = [e.p]
    coeffs(e, S, w, onehot(e.p, e.S, w[0]))


def unit(ty, n, i, f):
    d = [f] + [0.0] * (dl(ty, n) - 1)
    d[1 + i] = 1.0
    return d


def mk_r_var(name):
    def ref(ty, case, v):
        i, n = case["i"], case["j"]
        if n < 0 if ty.dyn else n != ty.size:
            return {"status": rej(OPS[name])}
        if n > 500 or not 0 <= i < n:
            return None
        return {"res": {"size": n, "data": unit(ty, n, i, case["s"])}}
    return ref


def g_var(rng, ty, case, v, n):
    if v == "ok":
        case["j"] = n if ty.dyn else ty.size
        case["i"] = rng.randrange(max(1, case["j"]))
    else:
        case["i"] = 0
        g_sized(rng, ty, case, v, n)
        case["i"], case["j"] = 0, case["i"]


def v_var(ty):
    return ["bad"] if ty.size == 0 else ["ok", "bad"]


both("variable_n", "new (r) T(T::variable(i, s, j));", "new", mk_r_var, scal=1, idx=2, setup=s_var, check=c_var, gen=g_var, variants=v_var, cases=v_cases, groups=G7)


def c_var1(e, S, kind, val):
    if not must(e, S, kind, val):
        return
    coeffs(e, S, obj(e, S), onehot(e.p, e.S, e.s))


XOp("variable", "new (r) T(T::variable(i, s));", "new", scal=1, idx=1, dyn=False, check=c_var1, variants=lambda ty: [""] if ty.size else [],
    ref=lambda ty, c, v: {"res": {"size": ty.size, "data": unit(ty, ty.size, c["i"], c["s"])}} if 0 <= c["i"] < ty.size else None, groups=G7)


# variables(values): element and count
def vs_cases(ty, variant):
    if variant == "bad":
        return [{"p": 0}]
    n = ty.size
    return [{"p": i, "n": n} for i in range(n)]


class Variables(XOp):
    """vector of variables, for every number of values"""

    def cases(self, ty, variant):
        if ty.dyn:
            return []
        return vs_cases(ty, variant)

    def verify(self, m, ty, opname, variant, check_ovf=False, size=None, sizes=None, maxs=C.MAXS, fp=False):
        run = C.Run(m, "%s %s[%s]" % (ty, opname, variant), check_ovf, fp)
        if ty.dyn:
            todo = [{}] if size is None else [{"p": i, "n": size} for i in range(size)]
        else:
            todo = vs_cases(ty, variant)
        for f in todo:
            run.st = C.new_state(m)
            self.one(run, m, ty, variant, size if ty.dyn else None, f, maxs)
        return run


def s_vars(e):
    """any number of values, any of the variables"""
    if "n" in e.fixed:
        return []
    return [T.ile(I0, e.p), T.ilt(e.p, e.ns), T.ile(e.ns, T.ic(e.maxs))] if e.variant == "ok" else [T.bnot(T.ieq(e.ns, e.s)), T.ile(e.ns, T.ic(2 ** 50))]


def c_vars(e, S, kind, val):
    if e.variant == "bad":
        return rejected(e, S, kind, val, both=True)
    if not must(e, S, kind, val):
        return
    w = obj(e, S, size=e.ns if e.ty.dyn else e.s)
    coeffs(e, S, w, onehot(e.p, T.rsel("v", e.p), w[0]))


def r_vars(ty, c, v):
    n = len(c["vec"])
    if not ty.dyn and n != ty.size:
        return {"status": ("throw", "abort")}
    if not 0 <= c["i"] < n:
        return None
    return {"res": {"size": n, "data": unit(ty, n, c["i"], c["vec"][c["i"]])}}


def g_vars(rng, ty, case, v, n):
    k = n if ty.dyn else ty.size
    if v == "bad":
        k = rng.choice([x for x in range(1, ty.size + 3) if x != ty.size])
    case["vec"] = k
    case["i"] = rng.randrange(max(1, k)) if v != "bad" else 0


def v_vars(ty):
    return ["ok"] if ty.dyn else (["bad"] if ty.size == 0 else ["ok", "bad"])


Variables("variables", "auto x = T::variables(*v); new (r) T(x[i]);", "new", idx=1, vec=True, setup=s_vars, check=c_vars, ref=r_vars, gen=g_vars, variants=v_vars, groups=G7)
Variables("variables_a", "auto x = T::template variables<T::static_size()>(hjv_mk<std::array<double, T::static_size() < 0 ? 0 : T::static_size()>>::go(*v)); new (r) T(x[i]);",
          "new", idx=1, vec=True, check=c_vars, ref=r_vars, gen=g_vars, variants=lambda ty: ["ok"] if ty.size else [], dyn=False, groups=G7)
Variables("variables_a3", "auto x = T::template variables<3>(hjv_mk<std::array<double, 3>>::go(*v)); new (r) T(x[i]);",
          "new", idx=1, vec=True, check=c_vars, ref=r_vars, gen=lambda rng, ty, case, v, n: case.update(vec=3, i=rng.randrange(3)), variants=lambda ty: ["ok"], dyn=True, groups=G7)
OPS["variables_a3"].verify = lambda m, ty, opname, variant, **k: _va3(OPS["variables_a3"], m, ty, opname, variant, **k)


def _va3(op, m, ty, opname, variant, check_ovf=False, size=None, sizes=None, maxs=C.MAXS, fp=False):
    run = C.Run(m, "%s %s[%s]" % (ty, opname, variant), check_ovf, fp)
    for i in range(3):
        run.st = C.new_state(m)
        op.one(run, m, ty, variant, 3, {"p": i, "n": 3}, maxs)
    return run


def c_varcount(e, S, kind, val):
    if must(e, S, kind, val):
        retv(e, S, val, e.ns)


class VarCount(Variables):
    def verify(self, m, ty, opname, variant, check_ovf=False, size=None, sizes=None, maxs=C.MAXS, fp=False):
        run = C.Run(m, "%s %s[%s]" % (ty, opname, variant), check_ovf, fp)
        n = size if ty.dyn else ty.size
        run.st = C.new_state(m)
        self.one(run, m, ty, variant, size if ty.dyn else None, {} if n is None else {"n": n}, maxs)
        return run


VarCount("variables_count", "auto x = T::variables(*v); return (hyperjet::index)x.size();", "idx", vec=True, setup=lambda e: [T.ile(e.ns, T.ic(e.maxs))], check=c_varcount,
         ref=lambda ty, c, v: {"ret": len(c["vec"])}, gen=lambda rng, ty, case, v, n: case.update(vec=n if ty.dyn else ty.size), variants=lambda ty: ["ok"], groups=G7)


# from stored coefficients
def s_data(e):
    L = e.ty.length(e.s)
    if e.variant == "ok":
        e.ns = L
        return []
    return [T.ile(e.ns, T.ic(2 ** 50))]


def c_create(e, S, kind, val):
    if e.variant == "any":
        # whatever the length: what is accepted is consistent and has all the coefficients; everything else is rejected
        if kind != "ret":
            return rejected(e, S, kind, val)
        w = obj(e, S)
        e.run.post(S, "what is accepted has a valid size", T.band(T.ile(I0, w[0]), T.ieq(e.ty.length(w[0]), e.ns)))
        return
    if not must(e, S, kind, val):
        return
    coeffs(e, S, obj(e, S, size=e.s), kfun("v"))


def sizes_of(order, L):
    # exact integer arithmetic: the independent inverse of the length formula
    s = max(0, L - 1) if order == 1 else max(0, (math.isqrt(8 * max(L, 1) + 1) - 3) // 2)
    while C.dlen(order, s) < L:
        s += 1
    return s if C.dlen(order, s) == L else None


def mk_r_create(name):
    def ref(ty, c, v):
        n = sizes_of(ty.order, len(c["vec"]))
        if n is None or (not ty.dyn and n != ty.size):
            return {"status": rej(OPS[name])}
        return {"res": {"size": n, "data": list(c["vec"])}}
    return ref


def g_create(rng, ty, case, v, n):
    k = dl(ty, n if ty.dyn else ty.size)
    case["vec"] = k if v == "ok" else rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16, k + 1, max(0, k - 1)])


both("create", "new (r) T(T::create(*v));", "new", mk_r_create, vec=True, setup=s_data, check=c_create, gen=g_create, variants=lambda ty: ["ok", "any"], dyn=True, groups=G7)


def cd_verify(op):
    """static: exactly as many coefficients as the type stores"""
    def ver(m, ty, opname, variant, check_ovf=False, size=None, sizes=None, maxs=C.MAXS, fp=False):
        run = C.Run(m, "%s %s[%s]" % (ty, opname, variant), check_ovf, fp)
        op.one(run, m, ty, variant, None, {"n": dl(ty, ty.size)}, maxs)
        return run
    op.verify = ver


def c_copydata(e, S, kind, val):
    if must(e, S, kind, val):
        coeffs(e, S, obj(e, S, size=e.s), kfun("v"))


def r_copydata(ty, c, v):
    return {"res": {"size": sizes_of(ty.order, len(c["vec"])), "data": list(c["vec"])}}


for nm, body in (("create_s", "new (r) T(T::create(hjv_mk<typename T::Data>::go(*v)));"), ("ctor_data", "new (r) T(hjv_mk<typename T::Data>::go(*v));")):
    XOp(nm, body, "new", vec=True, check=c_copydata, ref=r_copydata, gen=lambda rng, ty, case, v, n: case.update(vec=dl(ty, ty.size)), dyn=False, variants=lambda ty: ["ok"], groups=G7)
    cd_verify(OPS[nm])


def s_cdn(e):
    e.ns, e.p = e.ty.length(e.s), e.s
    return []


XOp("ctor_data_n", "new (r) T(*v, i);", "new", vec=True, idx=1, setup=s_cdn, check=c_copydata, ref=r_copydata,
    gen=lambda rng, ty, case, v, n: case.update(vec=dl(ty, n), i=n), dyn=True, variants=lambda ty: ["ok"], groups=G7)


# initializer list
def c_il(e, S, kind, val):
    if e.variant == "any":
        if kind != "ret":
            return rejected(e, S, kind, val)
        w = obj(e, S)
        e.run.post(S, "what is accepted has a valid size", T.band(T.ile(I0, w[0]), T.ieq(e.ty.length(w[0]), e.ns)))
        return
    if not must(e, S, kind, val):
        return
    coeffs(e, S, obj(e, S, size=e.s), kfun("v"))


def il_cases(ty, variant):
    if ty.dyn or variant == "any":
        return [{}]
    return [{"n": dl(ty, ty.size)}]


def s_il(e):
    if e.variant == "any" and not e.ty.dyn:
        return [T.bnot(T.ieq(e.ns, e.ty.length(e.s))), T.ile(e.ns, T.ic(2 ** 50))]
    return s_data(e)


both("ctor_il", "new (r) T(std::initializer_list<double>(v->data(), v->size()));", "new", mk_r_create, vec=True, setup=s_il, check=c_il, gen=g_create,
     variants=lambda ty: ["ok", "any"], cases=il_cases, groups=G7)


# sizes and lengths
def c_len(e, S, kind, val):
    if must(e, S, kind, val):
        retv(e, S, val, e.ty.length(e.p))


XOp("len_from_size", "return T::data_length_from_size(i);", "idx", idx=1, setup=lambda e: [T.ile(I0, e.p), T.ile(e.p, T.ic(e.maxs))], check=c_len, cases=size_cases,
    gen=lambda rng, ty, case, v, n: case.update(i=rng.randrange(200)), ref=lambda ty, c, v: {"ret": dl(ty, c["i"])} if c["i"] < 2 ** 20 else None, groups=("layout",))


def s_sfl(e):
    if e.variant == "ok":
        n = T.iv("m")
        e.extra = [n]
        e.p = e.ty.length(n)
        return [T.ile(I0, n), T.ile(n, T.ic(e.maxs))]
    return [T.ile(I0, e.p), T.ile(e.p, T.ic(2 ** 50))]


def c_sfl(e, S, kind, val):
    if e.variant == "any":
        if kind != "ret":
            return rejected(e, S, kind, val)
        if val is UNDEF:
            return e.run.bad(S, "result is initialised")
        e.run.post(S, "an accepted length belongs to the returned size", T.band(T.ile(I0, val), T.ieq(e.ty.length(val), e.p)))
        return
    if must(e, S, kind, val):
        retv(e, S, val, e.extra[0])


def mk_r_sfl(name):
    def ref(ty, c, v):
        if c["i"] > 2 ** 50 or c["i"] < 0:
            return None
        n = sizes_of(ty.order, c["i"])
        return {"ret": n} if n is not None else {"status": rej(OPS[name])}
    return ref


def g_sfl(rng, ty, case, v, n):
    m = n if rng.random() < 0.2 else int(2 ** rng.uniform(0, 20))
    case["i"] = dl(ty, m) if v == "ok" else rng.choice([rng.randrange(40), dl(ty, m), max(0, dl(ty, m) - 1), dl(ty, m) + 1])


def cex_sfl(op):
    def f(ty, variant, cex, rng):
        case = op.gen_case(rng, ty, variant, 1, False, None)
        if variant == "ok":
            case["i"] = dl(ty, cex.iv.get("m", 1))
        else:
            case["i"] = cex.iv.get("p", 0)
        exp = op._ref(ty, case, variant)
        return (case, exp) if exp is not None else (None, None)
    return f


both("size_from_len", "return T::size_from_data_length(i);", "idx", mk_r_sfl, idx=1, setup=s_sfl, check=c_sfl, variants=lambda ty: ["ok", "any"], cases=size_cases,
     gen=g_sfl, groups=("layout", "make"))

for _o in OPS.values():
    if _o.name.endswith("size_from_len"):
        _o.from_cex = cex_sfl(_o)


# resize
def s_resize(e):
    return [T.band(T.ile(I0, e.p), T.ile(e.p, T.ic(e.maxs)))] if e.variant.endswith("ok") else [T.ilt(e.p, I0)]


def c_resize(e, S, kind, val):
    if e.variant.endswith("bad"):
        return rejected(e, S, kind, val)
    if not must(e, S, kind, val):
        return
    s, rp = obj(e, S, p=e.ptrs["a"], size=e.p, what="object")
    e.run.post_eq(S, "value is kept", e.ex.load(S, C.DBL, rp), T.rsel("a", I0))
    i = T.iv("i?")
    S2 = S.clone()
    for h in (T.ile(I0, i), T.ilt(i, e.s), T.ilt(i, e.p)):
        S2.assume(h)
    if smt.sat(S2.pc):
        e.ex.cand = [i]
        k = T.iadd(i, T.ic(1))
        e.run.post_eq(S2, "gradient(i) of the remaining variables is kept", e.ex.load(S2, C.DBL, rp.plus(T.iscale(k, 8))), T.rsel("a", k))
        e.ex.cand = []


def mk_r_resize(name):
    def ref(ty, c, v):
        if c["i"] < 0:
            return {"status": rej(OPS[name])}
        if c["i"] > 60:
            return None
        a = c["args"][0]
        d = a["data"][:1 + min(a["size"], c["i"])]
        return {"args": {0: {"size": c["i"], "data": d}}}
    return ref


both("resize", "a->resize(i); return a;", "inpl", mk_r_resize, jets=1, idx=1, setup=s_resize, check=c_resize, dyn=True, variants=lambda ty: ["a;ok", "a;bad"], cases=size_cases,
     gen=lambda rng, ty, case, v, n: case.update(i=rng.randrange(12) if v.endswith("ok") else -rng.randrange(1, 5)), groups=G7)


def c_setzero(e, S, kind, val):
    if must(e, S, kind, val):
        coeffs(e, S, obj(e, S, p=e.ptrs["a"], size=e.s, what="object"), const_data(T.R0))


XOp("set_zero", "a->set_zero(); return a;", "inpl", jets=1, check=c_setzero, ref=lambda ty, c, v: {"args": {0: {"size": c["args"][0]["size"], "data": [0.0] * len(c["args"][0]["data"])}}}, groups=G7)


# sparse construction
def sp_const(f):
    def chk(e, S, kind, val):
        if must(e, S, kind, val):
            sparse_obj(e, S, f(e), lambda k: (T.FALSE, T.R0))
    return chk


XOp("s_dflt", "new (r) T();", "new", types="S", check=sp_const(lambda e: None), ref=lambda ty, c, v: {"res": {"data": [None], "keys": []}}, groups=G7)
for nm, body in (("s_ctor_f", "new (r) T(s);"), ("s_constant", "new (r) T(T::constant(s));")):
    XOp(nm, body, "new", types="S", scal=1, check=sp_const(lambda e: e.S), ref=lambda ty, c, v: {"res": {"data": [c["s"]], "keys": []}}, groups=G7)


def c_svar(e, S, kind, val):
    if must(e, S, kind, val):
        sparse_obj(e, S, e.S, lambda k: (T.ieq(k, T.iv("p")), T.R1))


XOp("s_variable", "new (r) T(T::variable(*(const std::string *)c, s));", "new", types="S", scal=1, idx=1, strkey=True, check=c_svar,
    ref=lambda ty, c, v: {"res": {"data": [c["s"], 1.0], "keys": [c["i"]]}} if 0 <= c["i"] < 1000 else None, groups=G7)


def c_sdata(e, S, kind, val):
    if must(e, S, kind, val):
        sparse_obj(e, S, e.S, lambda k: (T.bsel("a.dom", k), T.rsel("a.val", k)))


XOp("s_ctor_data", "new (r) T(s, a->HJV_D);", "new", types="S", jets=1, scal=1, check=c_sdata,
    ref=lambda ty, c, v: {"res": {"data": [c["s"]] + c["args"][0]["data"][1:], "keys": c["args"][0]["keys"]}}, groups=G7)


# ================================================================== C08: accessors
G8 = ("layout",)


def rd(pos):
    """read accessor: returns the coefficient at position pos(e)"""
    def chk(e, S, kind, val):
        if must(e, S, kind, val):
            retv(e, S, val, T.rsel("a", pos(e)))
    return chk


def wr(pos):
    def chk(e, S, kind, val):
        if not must(e, S, kind, val):
            return
        w = obj(e, S, p=e.ptrs["a"], size=e.s, what="object")
        ps = pos(e)
        e.extra = [ps]
        coeffs(e, S, w, lambda k: T.rite(T.ieq(k, ps), e.S, T.rsel("a", k)), what="object")
    return chk


def pg(e):
    return T.iadd(e.p, T.ic(1))


def ph(e):
    return T.iadd(T.iadd(e.p, T.ic(1)), e.s)


def pij(swap):
    return lambda e: C.hidx(e.s, e.q, e.p) if swap else C.hidx(e.s, e.p, e.q)


def in_g(e):
    return [T.ile(I0, e.p), T.ilt(e.p, e.s)]


def in_h(e):
    return [T.ile(I0, e.p), T.ilt(T.iscale(e.p, 2), T.imul(e.s, T.iadd(e.s, T.ic(1))))]


def in_hij(e):
    lo, hi = (e.q, e.p) if e.variant.endswith("lower") else (e.p, e.q)
    return [T.ile(I0, lo), T.ile(lo, hi), T.ilt(hi, e.s)]


def in_hm(e):
    """upper: row <= column, lower: row > column (the diagonal belongs to the upper case)"""
    if e.variant.endswith("lower"):
        return [T.ile(I0, e.q), T.ilt(e.q, e.p), T.ilt(e.p, e.s)]
    return [T.ile(I0, e.p), T.ile(e.p, e.q), T.ilt(e.q, e.s)]


def hcases(ty, variant):
    if ty.dyn:
        return [{}]
    return [{"p": k} for k in range(ty.size * (ty.size + 1) // 2)]


def conc_pos(which):
    def f(ty, c):
        a = c["args"][0]
        n, i, j = a["size"], c["i"], c["j"]
        if which == "f":
            return 0
        if which == "g":
            return 1 + i if 0 <= i < n else None
        if which == "h":
            return 1 + n + i if 0 <= i < n * (n + 1) // 2 else None
        if not (0 <= i < n and 0 <= j < n):
            return None
        return C.hidx(n, min(i, j), max(i, j))
    return f


def r_rd(which):
    ps = conc_pos(which)

    def ref(ty, c, v):
        k = ps(ty, c)
        return None if k is None else {"ret": c["args"][0]["data"][k]}
    return ref


def r_wr(which):
    ps = conc_pos(which)

    def ref(ty, c, v):
        k = ps(ty, c)
        if k is None:
            return None
        d = list(c["args"][0]["data"])
        d[k] = c["s"]
        return {"args": {0: {"size": c["args"][0]["size"], "data": d}}}
    return ref


def g_h(rng, ty, case, v, n):
    k = n if ty.dyn else ty.size
    case["i"] = rng.randrange(max(1, k * (k + 1) // 2))


def g_ij(rng, ty, case, v, n):
    k = max(1, n if ty.dyn else ty.size)
    i, j = rng.randrange(k), rng.randrange(k)
    if (i > j) != v.endswith("lower"):
        i, j = j, i
    case["i"], case["j"] = i, j


some = lambda ty: ["a"] if ty.dyn or ty.size else []
tri = lambda ty: ["a;upper", "a;lower"] if ty.dyn or ty.size else []
A8 = dict(groups=G8, jets=1)
XOp("get_f", "return ((const T &)*a).f();", "val", check=rd(lambda e: I0), ref=r_rd("f"), **A8)
XOp("ref_f", "a->f() = s; return a;", "inpl", scal=1, check=wr(lambda e: I0), ref=r_wr("f"), **A8)
XOp("set_f", "a->set_f(s); return a;", "inpl", scal=1, check=wr(lambda e: I0), ref=r_wr("f"), **A8)
XOp("get_g", "return ((const T &)*a).g(i);", "val", idx=1, setup=in_g, check=rd(pg), ref=r_rd("g"), variants=some, **A8)
XOp("get_g_m", "return a->g(i);", "val", idx=1, setup=in_g, check=rd(pg), ref=r_rd("g"), variants=some, **A8)
XOp("ref_g", "a->g(i) = s; return a;", "inpl", scal=1, idx=1, setup=in_g, check=wr(pg), ref=r_wr("g"), variants=some, **A8)
XOp("set_g", "a->set_g(i, s); return a;", "inpl", scal=1, idx=1, setup=in_g, check=wr(pg), ref=r_wr("g"), variants=some, **A8)
B8 = dict(groups=G8, jets=1, orders=(2,))
XOp("get_h", "return ((const T &)*a).h(i);", "val", idx=1, setup=in_h, check=rd(ph), ref=r_rd("h"), variants=some, cases=hcases, gen=g_h, **B8)
XOp("ref_h", "a->h(i) = s; return a;", "inpl", scal=1, idx=1, setup=in_h, check=wr(ph), ref=r_wr("h"), variants=some, cases=hcases, gen=g_h, **B8)
XOp("set_h", "a->set_h(i, s); return a;", "inpl", scal=1, idx=1, setup=in_h, check=wr(ph), ref=r_wr("h"), variants=some, cases=hcases, gen=g_h, **B8)


def lu(mk):
    def chk(e, S, kind, val):
        return mk(pij(e.variant.endswith("lower")))(e, S, kind, val)
    return chk


XOp("get_hij", "return ((const T &)*a).h(i, j);", "val", idx=2, setup=in_hij, check=lu(rd), ref=r_rd("ij"), variants=tri, gen=g_ij, **B8)
XOp("get_hij_m", "return a->h(i, j);", "val", idx=2, setup=in_hij, check=lu(rd), ref=r_rd("ij"), variants=tri, gen=g_ij, **B8)
XOp("ref_hij", "a->h(i, j) = s; return a;", "inpl", scal=1, idx=2, setup=in_hij, check=lu(wr), ref=r_wr("ij"), variants=tri, gen=g_ij, **B8)
XOp("set_hij", "a->set_h(i, j, s); return a;", "inpl", scal=1, idx=2, setup=in_hij, check=lu(wr), ref=r_wr("ij"), variants=tri, gen=g_ij, **B8)


def c_ptr(e, S, kind, val):
    if not must(e, S, kind, val):
        return
    s, dp = obj(e, S, p=e.ptrs["a"], what="object")
    if not (isinstance(val, Ptr) and val.o == dp.o):
        return e.run.bad(S, "points to the coefficients")
    e.run.post(S, "points to the first coefficient", T.ieq(val.off, dp.off))


XOp("ptr", "return (const void *)((const T &)*a).ptr();", "ptr", check=c_ptr, ref=None, **A8)
XOp("ptr_m", "return (const void *)a->ptr();", "ptr", check=c_ptr, ref=None, **A8)
XOp("data_c", "return (const void *)((const T &)*a).data().data();", "ptr", check=c_ptr, ref=None, **A8)
XOp("data_m", "return (const void *)a->data().data();", "ptr", check=c_ptr, ref=None, **A8)


def c_ret(f):
    def chk(e, S, kind, val):
        if must(e, S, kind, val):
            retv(e, S, val, f(e))
    return chk


XOp("size", "return a->size();", "idx", check=c_ret(lambda e: e.s), ref=lambda ty, c, v: {"ret": c["args"][0]["size"]}, **A8)
XOp("data_length", "return a->data_length();", "idx", check=c_ret(lambda e: e.ty.length(e.s)), ref=lambda ty, c, v: {"ret": len(c["args"][0]["data"])}, **A8)
XOp("order", "return T::order();", "idx", check=c_ret(lambda e: T.ic(e.ty.order)), ref=lambda ty, c, v: {"ret": ty.order}, groups=G8)
XOp("static_size", "return T::static_size();", "idx", check=c_ret(lambda e: T.ic(-1 if e.ty.dyn else e.ty.size)), ref=lambda ty, c, v: {"ret": -1 if ty.dyn else ty.size}, groups=G8)
XOp("is_dynamic", "return T::is_dynamic() ? 1 : 0;", "idx", check=c_ret(lambda e: T.ic(1 if e.ty.dyn else 0)), ref=lambda ty, c, v: {"ret": 1 if ty.dyn else 0}, groups=G8)

# sparse accessors
XOp("s_f", "return a->f();", "val", types="S", check=c_ret(lambda e: T.rv("a.f")), ref=lambda ty, c, v: {"ret": c["args"][0]["data"][0]}, **A8)


def c_sd(e, S, kind, val):
    if not must(e, S, kind, val):
        return
    d = T.bsel("a.dom", T.iv("p"))
    for on in (True, False):
        S2 = S.clone()
        S2.assume(d if on else T.bnot(d))
        if smt.sat(S2.pc):
            retv(e, S2, C.assume_lits(val, {d: T.bc(on)}), T.rsel("a.val", T.iv("p")) if on else T.R0)


XOp("s_d", "return a->d(*(const std::string *)c);", "val", types="S", idx=1, strkey=True, check=c_sd,
    ref=lambda ty, c, v: {"ret": dict(zip(c["args"][0]["keys"], c["args"][0]["data"][1:])).get(c["i"], 0.0)} if 0 <= c["i"] < 1000 else None, **A8)


# ================================================================== C10: index checks
def oob(name, body, kind, ok, orders=(1, 2), idx=1, bad=None):
    XOp(name, body, kind, jets=1, scal=1, idx=idx, orders=orders, setup=lambda e: [T.bnot(T.band(*ok(e)))],
        check=lambda e, S, kind, val: rejected(e, S, kind, val), cases=size_cases, reject="abort", groups=("index",),
        gen=lambda rng, ty, case, v, n: bad(rng, ty, case, n if ty.dyn else ty.size), ref=lambda ty, c, v: {"status": ("abort",)} if not valid_idx(name, ty, c) else None)


def valid_idx(name, ty, c):
    n = c["args"][0]["size"]
    i, j = c["i"], c["j"]
    if name.endswith("ij"):
        return 0 <= i < n and 0 <= j < n
    return 0 <= i < (n if "_g" in name else n * (n + 1) // 2)


def bad_g(rng, ty, case, n):
    case["i"] = rng.choice([-1, -2, n, n + 1, n + 3])


def bad_h(rng, ty, case, n):
    k = n * (n + 1) // 2
    case["i"] = rng.choice([-1, -2, k, k + 1, k + 3])


def bad_ij(rng, ty, case, n):
    x, y = rng.choice([-1, n, n + 1]), rng.choice([0, n - 1, n, -1])
    if rng.random() < 0.5:
        x, y = y, x
    case["i"], case["j"] = x, y


okij = lambda e: [T.ile(I0, e.p), T.ilt(e.p, e.s), T.ile(I0, e.q), T.ilt(e.q, e.s)]
oob("oob_get_g", "return ((const T &)*a).g(i);", "val", in_g, bad=bad_g)
oob("oob_ref_g", "a->g(i) = s; return a;", "inpl", in_g, bad=bad_g)
oob("oob_set_g", "a->set_g(i, s); return a;", "inpl", in_g, bad=bad_g)
oob("oob_get_h", "return ((const T &)*a).h(i);", "val", in_h, orders=(2,), bad=bad_h)
oob("oob_ref_h", "a->h(i) = s; return a;", "inpl", in_h, orders=(2,), bad=bad_h)
oob("oob_get_hij", "return ((const T &)*a).h(i, j);", "val", okij, orders=(2,), idx=2, bad=bad_ij)
oob("oob_ref_hij", "a->h(i, j) = s; return a;", "inpl", okij, orders=(2,), idx=2, bad=bad_ij)


# ================================================================== C09: mismatching sizes
def mismatch(base, pats):
    b = OPS[base]

    def alias(e):
        ds = e.variant.split(";")[1]
        for nm, d in zip(e.names, ds):
            e.sizes[nm] = e.s if d == "=" else T.iv("s_" + nm)

    def setup(e):
        out = []
        ds = e.variant.split(";")[1]
        syms = {}
        for nm, d in zip(e.names, ds):
            if d != "=":
                u = T.iv("s_" + nm)
                out += [T.ile(I0, u), T.ile(u, T.ic(e.maxs)), T.bnot(T.ieq(u, e.s))]
                # letters group equal sizes
                if d in syms:
                    out.append(T.ieq(u, syms[d]))
                syms[d] = u
        if len(syms) == 2:
            x, y = syms.values()
            out.append(T.bnot(T.ieq(x, y)))
        return out

    def gen(rng, ty, case, v, n):
        ds = v.split(";")[1]
        pool = {"=": n}
        for d in ds:
            while d not in pool or list(pool.values()).count(pool[d]) > 1:
                pool[d] = rng.randrange(0, 7)
        case["sizes"] = [pool[d] for d in ds]

    def mkref(name):
        def ref(ty, c, v):
            sz = [a["size"] for a in c["args"]]
            return {"status": rej(OPS[name])} if len(set(sz)) > 1 else None
        return ref
    vs = lambda ty: ["%s;%s" % ("abc"[:b.jets], p) for p in pats]
    both("mm_" + base, b.body, b.kind, mkref, jets=b.jets, alias=alias, setup=setup, check=lambda e, S, kind, val: rejected(e, S, kind, val), gen=gen,
         variants=vs, dyn=True, groups=("mismatch",))


for nm in ("add", "sub", "mul", "div", "iadd", "isub", "imul", "idiv"):
    mismatch(nm, ["=x"])
for _o in [o for o in OPS.values() if "multi" in getattr(o, "groups", ())]:
    mismatch(_o.name, ["=x"] if _o.jets == 2 else ["=x=", "==x", "=xx", "=xy"])


# ================================================================== C11: padding
def c_pad(left):
    def chk(e, S, kind, val):
        if e.variant.endswith("bad"):
            return rejected(e, S, kind, val)
        if not must(e, S, kind, val):
            return
        s, rp = obj(e, S, size=e.p)
        off = T.isub(e.p, e.s) if left else I0

        def shifted(x):
            return T.isub(x, off)

        e.run.post_eq(S, "result: value", e.ex.load(S, C.DBL, rp), T.rsel("a", I0))
        n = T.as_const(s)
        ext = [e.s, off, T.isub(e.p, e.s)]
        tl = lambda i, j: [T.isub(x, e.s) for x in (i, j) if x is not None]
        if n is not None:
            pairs = [(T.ic(i), None) for i in range(int(n))]
            if e.ty.order == 2:
                pairs += [(T.ic(i), T.ic(j)) for i in range(int(n)) for j in range(i, int(n))]
        else:
            pairs = [(T.iv("i?"), None)] + ([(T.iv("i?"), T.iv("j?"))] if e.ty.order == 2 else [])
        for i, j in pairs:
            # case split: entry of an old variable / of a new one
            x, y = shifted(i), shifted(j if j is not None else i)
            for old, hyp in ((True, [T.ile(I0, x), T.ilt(y, e.s)]), (False, [T.ilt(x, I0)]), (False, [T.ile(I0, x), T.ile(e.s, x)]),
                             (False, [T.ile(I0, x), T.ilt(x, e.s), T.ile(e.s, y)])):
                S2 = S.clone()
                for h in ([T.ile(I0, i), T.ilt(i, s)] if j is None else [T.ile(I0, i), T.ile(i, j), T.ilt(j, s)]) + hyp:
                    S2.assume(h)
                if not smt.sat(S2.pc):
                    continue
                e.ex.cand = [i, shifted(i)] + ([] if j is None else [j, shifted(j), T.isub(j, i)]) + ext + tl(i, j)
                k = T.iadd(i, T.ic(1)) if j is None else C.hidx(s, i, j)
                if not old:
                    want = T.R0
                elif j is None:
                    want = T.rsel("a", T.iadd(shifted(i), T.ic(1)))
                else:
                    want = T.rsel("a", C.hidx(e.s, shifted(i), shifted(j)))
                e.run.post_eq(S2, "result: %s of %s variables" % ("gradient(i)" if j is None else "hessian(i,j)", "old" if old else "new"),
                              e.ex.load(S2, C.DBL, rp.plus(T.iscale(k, 8))), want)
        e.ex.cand = []
    return chk


def s_pad(e):
    return [T.ile(e.s, e.p), T.ile(e.p, T.ic(e.maxs))] if e.variant.endswith("ok") else [T.ilt(e.p, e.s)]


def mk_r_pad(left):
    def mk(name):
        def ref(ty, c, v):
            a = c["args"][0]
            s, n = a["size"], c["i"]
            if n < s:
                return {"status": rej(OPS[name])}
            if n > 60:
                return None
            off = n - s if left else 0
            d = [0.0] * dl(ty, n)
            d[0] = a["data"][0]
            for i in range(s):
                d[1 + off + i] = a["data"][1 + i]
                if ty.order == 2:
                    for j in range(i, s):
                        d[C.hidx(n, off + i, off + j)] = a["data"][C.hidx(s, i, j)]
            return {"res": {"size": n, "data": d}}
        return ref
    return mk


def g_pad(rng, ty, case, v, n):
    case["i"] = n + rng.randrange(0, 5) if v.endswith("ok") else n - rng.randrange(1, 4)


for nm, left in (("pad_left", True), ("pad_right", False)):
    both(nm, "new (r) T(a->%s(i));" % nm, "new", mk_r_pad(left), jets=1, idx=1, setup=s_pad, check=c_pad(left), dyn=True, variants=lambda ty: ["a;ok"], gen=g_pad, cases=size_cases, groups=("pad",))
    both("mm_" + nm, "new (r) T(a->%s(i));" % nm, "new", mk_r_pad(left), jets=1, idx=1, setup=s_pad, check=c_pad(left), dyn=True, variants=lambda ty: ["a;bad"], gen=g_pad, cases=size_cases, groups=("mismatch",))


# ================================================================== C12: evaluation
def dot(e, n):
    """sum over the increments, as the documented model"""
    s = e.s
    v = lambda k: T.rsel("v", k)
    a = lambda k: T.rsel("a", k)
    n = T.as_const(s)
    r = a(I0)
    if n is not None:
        n = int(n)
        for i in range(n):
            r = T.radd(r, T.rmul(v(T.ic(i)), a(T.ic(1 + i))))
        if e.ty.order == 2:
            q = T.R0
            for i in range(n):
                for j in range(n):
                    q = T.radd(q, T.rmul(T.rmul(v(T.ic(i)), v(T.ic(j))), a(T.ic(C.hidx(n, min(i, j), max(i, j))))))
            r = T.radd(r, T.rmul(T.rc(0.5), q))
        return r
    i, j = T.iv("ei"), T.iv("ej")
    r = T.radd(r, T.rsum(T.as_atom(i), I0, s, T.rmul(v(i), a(T.iadd(i, T.ic(1))))))
    if e.ty.order == 2:
        low = T.rsum(T.as_atom(j), I0, i, T.rmul(v(j), a(C.hidx(s, j, i))))
        up = T.rsum(T.as_atom(j), i, s, T.rmul(v(j), a(C.hidx(s, i, j))))
        r = T.radd(r, T.rmul(T.rc(0.5), T.rsum(T.as_atom(i), I0, s, T.rmul(v(i), T.radd(low, up)))))
    return r


def c_eval(e, S, kind, val):
    if e.variant.endswith("bad"):
        return rejected(e, S, kind, val)
    if must(e, S, kind, val):
        retv(e, S, val, dot(e, e.s))


def mk_r_eval(name):
    def ref(ty, c, v):
        a = c["args"][0]
        n, d, x = a["size"], a["data"], c["vec"]
        if len(x) != n:
            return {"status": rej(OPS[name])}
        r = d[0] + sum(x[i] * d[1 + i] for i in range(n))
        m = abs(d[0]) + sum(abs(x[i] * d[1 + i]) for i in range(n))
        if ty.order == 2:
            for i in range(n):
                for j in range(n):
                    t = 0.5 * x[i] * x[j] * d[C.hidx(n, min(i, j), max(i, j))]
                    r += t
                    m += abs(t)
        return {"ret": float(r), "mag": m}
    return ref


def s_eval(e):
    if e.variant.endswith("ok"):
        e.ns = e.s
        return []
    return [T.bnot(T.ieq(e.ns, e.s)), T.ile(e.ns, T.ic(2 ** 40))]


def e_cases(ty, variant):
    return [{}] if ty.dyn else [{"n": ty.size}]


def g_eval(rng, ty, case, v, n):
    k = n if ty.dyn else ty.size
    case["vec"] = k if v.endswith("ok") else rng.choice([x for x in range(0, k + 4) if x != k])


EV = "return a->eval(hjv_mk<std::conditional_t<T::is_dynamic(), std::vector<double>, std::array<double, T::static_size() < 0 ? 0 : T::static_size()>>>::go(*v));"
both("eval", EV, "val", mk_r_eval, jets=1, vec=True, setup=s_eval, check=c_eval, variants=lambda ty: ["a;ok"], cases=e_cases, gen=g_eval, groups=("eval",))
both("mm_eval", EV, "val", mk_r_eval, jets=1, vec=True, setup=s_eval, check=c_eval, variants=lambda ty: ["a;bad"], gen=g_eval, dyn=True, groups=("mismatch",))


for _n in ("eval", "eval_nx", "mm_eval", "mm_eval_nx"):
    OPS[_n].eigen = True


def c_seval(e, S, kind, val):
    if not must(e, S, kind, val):
        return
    k = T.iv("k*")
    e.run.post_eq(S, "sum over the shared names", val,
                  T.ksum("k*", T.band(T.bsel("a.dom", k), T.bsel("b.dom", k)), T.rmul(T.rsel("a.val", k), T.rsel("b.val", k))))


def r_seval(ty, c, v):
    a = dict(zip(c["args"][0]["keys"], c["args"][0]["data"][1:]))
    k1 = 1 if v == "ab" else 0
    b = dict(zip(c["args"][k1]["keys"], c["args"][k1]["data"][1:]))
    r = sum(a[k] * b[k] for k in a if k in b)
    return {"ret": float(r), "mag": sum(abs(a[k] * b[k]) for k in a if k in b)}


XOp("s_eval", "return a->eval(b->HJV_D);", "val", types="S", jets=2, check=c_seval, variants=lambda ty: ["ab"], ref=r_seval, groups=("eval",))


# ================================================================== C14: exchange with matrices and vectors
G14 = dict(groups=("eigen",), eigen=True)


def mat(lo, n, i, j):
    """element (i, j) of the column-major matrix stored from position lo of the vector"""
    return T.rsel("v", T.iadd(T.iadd(T.isub(i, I0), lo), T.imul(j, n)))


def in_ij(e):
    return okij(e)


def c_hm(mode):
    def chk(e, S, kind, val):
        if not must(e, S, kind, val):
            return
        if val is UNDEF:
            return e.run.bad(S, "element is initialised")
        for up in (True, False):
            S2 = S.clone()
            S2.assume(T.ile(e.p, e.q) if up else T.ilt(e.q, e.p))
            if smt.sat(S2.pc):
                want = T.rsel("a", C.hidx(e.s, e.p, e.q) if up else C.hidx(e.s, e.q, e.p)) if up or mode == "full" else T.R0
                retv(e, S2, val, want)
    return chk


def s_hmall(e):
    e.ns = T.imul(e.s, e.s)
    return []


def c_hmall(mode):
    """all elements of the exported matrix (static types: one execution, every position)"""
    def chk(e, S, kind, val):
        if not must(e, S, kind, val):
            return
        n = e.ty.size
        for i in range(n):
            for j in range(n):
                got = e.ex.load(S, C.DBL, Ptr(e.vb, T.ic(8 * (i + j * n))))
                want = T.rsel("a", T.ic(C.hidx(n, min(i, j), max(i, j)))) if i <= j or mode == "full" else T.R0
                if got is UNDEF:
                    e.run.bad(S, "element (%d,%d) is initialised" % (i, j))
                else:
                    e.run.post_eq(S, "element (%d,%d)" % (i, j), got, want)
    return chk


def g_hmall(rng, ty, case, v, n):
    n = ty.size
    case["i"], case["j"] = rng.randrange(max(1, n)), rng.randrange(max(1, n))
    case["vec"] = n * n


def r_hm(mode):
    def ref(ty, c, v):
        a = c["args"][0]
        n, i, j = a["size"], c["i"], c["j"]
        if n == 0 and not ty.dyn:
            return {"ret": 0.0}
        if not (0 <= i < n and 0 <= j < n):
            return None
        if i > j and mode != "full":
            return {"ret": 0.0}
        return {"ret": a["data"][C.hidx(n, min(i, j), max(i, j))]}
    return ref


def g_nn(rng, ty, case, v, n):
    k = n if ty.dyn else ty.size
    case["i"], case["j"] = rng.randrange(max(1, k)), rng.randrange(max(1, k))


for mode in ("full", "zeros"):
    for nm, body in (("hm_" + mode, "auto m = a->hm(\"%s\"); return m(i, j);"), ("hmo_" + mode, "typename T::Matrix m(a->size(), a->size()); a->hm(\"%s\", m); return m(i, j);")):
        XOp(nm, body % mode, "val", jets=1, idx=2, setup=in_hm, check=c_hm(mode), ref=r_hm(mode), gen=g_ij, variants=tri, orders=(2,), dyn=True, **G14)
    for nm, body in (("hm_%s_all" % mode, "MAP M(const_cast<double *>(v->data()), a->size(), a->size()); M = a->hm(\"%s\"); return a->size() ? M(i, j) : 0.0;"),
                     ("hmo_%s_all" % mode, "MAP M(const_cast<double *>(v->data()), a->size(), a->size()); a->hm(\"%s\", M); return a->size() ? M(i, j) : 0.0;")):
        XOp(nm, body.replace("MAP", "Eigen::Map<typename T::Matrix>") % mode, "val", jets=1, vec=True, vecmut=True, idx=2, setup=s_hmall, check=c_hmall(mode), ref=r_hm(mode),
            gen=g_hmall, cases=lambda ty, v: [{"p": 0, "q": 0}], orders=(2,), dyn=False, **G14)
    XOp("hm_shape_" + mode, "auto m = a->hm(\"%s\"); return m.rows() == m.cols() ? (hyperjet::index)m.rows() : -1;" % mode, "idx", jets=1, orders=(2,),
        check=c_ret(lambda e: e.s), ref=lambda ty, c, v: {"ret": c["args"][0]["size"]}, **G14)


def s_badmode(e):
    return [T.bnot(T.ieq(T.iv("p"), models.lit_key(x))) for x in (b"full", b"zeros")]


for nm, body in (("hm_bad", "auto m = a->hm(*(const std::string *)c); return 0;"),
                 ("hmo_bad", "typename T::Matrix m(a->size(), a->size()); a->hm(*(const std::string *)c, m); return 0;")):
    XOp(nm, body, "idx", jets=1, idx=1, strkey=True, setup=s_badmode, check=lambda e, S, kind, val: rejected(e, S, kind, val), variants=["a"], orders=(2,),
        cases=lambda ty, v: [{}], ref=lambda ty, c, v: {"status": ("throw",)}, gen=lambda rng, ty, case, v, n: case.update(i=rng.randrange(40)), **G14)


# import of a matrix
def s_sethm(e):
    if e.variant.endswith("ok"):
        e.ns = T.imul(e.s, e.s)
        return []
    bad = T.bnot(T.band(T.ieq(e.p, e.s), T.ieq(e.q, e.s)))
    e.ns = T.imul(e.p, e.q)
    return [T.ile(I0, e.p), T.ile(I0, e.q), T.ile(e.p, T.ic(2 ** 20)), T.ile(e.q, T.ic(2 ** 20)), bad]


def check_h(e, S, w, want_h, want_k, what):
    """value and gradient by position, Hessian by row and column"""
    s, rp = w
    n = T.as_const(s)
    if n is not None:
        n = int(n)
        for k in range(1 + n):
            e.run.post_eq(S, "%s: coefficient %d" % (what, k), e.ex.load(S, C.DBL, rp.plus(8 * k)), want_k(T.ic(k)))
        for i in range(n):
            for j in range(i, n):
                e.run.post_eq(S, "%s: hessian(%d,%d)" % (what, i, j), e.ex.load(S, C.DBL, rp.plus(8 * C.hidx(n, i, j))), want_h(T.ic(i), T.ic(j)))
        return
    k = T.iv("k?")
    S2 = S.clone()
    S2.assume(T.ile(I0, k))
    S2.assume(T.ile(k, s))
    e.ex.cand = [k, T.isub(k, T.ic(1))]
    e.run.post_eq(S2, what + ": value and gradient", e.ex.load(S2, C.DBL, rp.plus(T.iscale(k, 8))), want_k(k))
    if e.ty.order == 2:
        i, j = T.iv("i?"), T.iv("j?")
        S2 = S.clone()
        for h in (T.ile(I0, i), T.ile(i, j), T.ilt(j, s)):
            S2.assume(h)
        if smt.sat(S2.pc):
            e.ex.cand = [i, j, T.isub(j, i)]
            e.run.post_eq(S2, what + ": hessian(i,j)", e.ex.load(S2, C.DBL, rp.plus(T.iscale(C.hidx(s, i, j), 8))), want_h(i, j))
    e.ex.cand = []


def c_sethm(e, S, kind, val):
    if e.variant.endswith("bad"):
        return rejected(e, S, kind, val, both=False)
    if not must(e, S, kind, val):
        return
    w = obj(e, S, p=e.ptrs["a"], size=e.s, what="object")
    check_h(e, S, w, lambda i, j: mat(I0, e.s, i, j), kfun("a"), "object")


def r_sethm(ty, c, v):
    a = c["args"][0]
    n = a["size"]
    r, q = (n, n) if v.endswith("ok") else (c["i"], c["j"])
    if v.endswith("bad") and (r, q) == (n, n):
        return None
    if (r, q) != (n, n):
        return {"status": ("throw",)}
    d = list(a["data"])
    while len(c["vec"]) < n * n:        # a counterexample may leave the matrix open
        c["vec"].append(round(math.sin(1.0 + 7 * len(c["vec"])), 3))
    for i in range(n):
        for j in range(i, n):
            d[C.hidx(n, i, j)] = c["vec"][i + j * n]
    return {"args": {0: {"size": n, "data": d}}}


def g_sethm(rng, ty, case, v, n):
    k = n if ty.dyn else ty.size
    r, q = (k, k) if v.endswith("ok") else rng.choice([x for x in [(k, k + 1), (k + 1, k), (k + 1, k + 1), (k - 1, k), (k, k - 1), (k - 1, k - 1), (0, k), (k, 0), (0, 0)] if min(x) >= 0 and x != (k, k)])
    case["i"], case["j"], case["vec"] = r, q, r * q


MAPM = "Eigen::Map<const Eigen::Matrix<double, -1, -1>> M(v->data(), %s, %s); "
XOp("set_hm", MAPM % ("a->size()", "a->size()") + "a->set_hm(M); return a;", "inpl", jets=1, vec=True, setup=s_sethm, check=c_sethm, ref=r_sethm, gen=g_sethm,
    variants=lambda ty: ["a;ok"], cases=lambda ty, v: [{}] if ty.dyn else [{"n": ty.size ** 2}], orders=(2,), **G14)
XOp("set_hm_bad", MAPM % ("i", "j") + "a->set_hm(M); return a;", "inpl", jets=1, vec=True, idx=2, setup=s_sethm, check=c_sethm, ref=r_sethm, gen=g_sethm,
    variants=lambda ty: ["a;bad"], cases=lambda ty, v: [{}], orders=(2,), dyn=True, **G14)


def c_roundtrip(e, S, kind, val):
    if must(e, S, kind, val):
        w = obj(e, S, size=e.s)
        check_h(e, S, w, lambda i, j: T.rsel("a", C.hidx(e.s, i, j)), kfun("a"), "result")


r_same = lambda ty, c, v: {"res": {"size": c["args"][0]["size"], "data": c["args"][0]["data"]}}
XOp("hm_trip", "T x(*a); x.set_hm(a->hm(\"full\")); new (r) T(x);", "new", jets=1, check=c_roundtrip, ref=r_same, orders=(2,), dyn=False, **G14)
XOp("hm_trip_u", "T x(*a); x.set_hm(a->hm(\"zeros\")); new (r) T(x);", "new", jets=1, check=c_roundtrip, ref=r_same, orders=(2,), dyn=False, **G14)


# vectors
def ag_pos(e):
    return T.iadd(e.p, T.ic(1))


XOp("ag_get", "return a->ag()(i);", "val", jets=1, idx=1, setup=in_g, check=rd(ag_pos), ref=r_rd("g"), variants=some, **G14)
XOp("ag_set", "a->ag()(i) = s; return a;", "inpl", jets=1, scal=1, idx=1, setup=in_g, check=wr(ag_pos), ref=r_wr("g"), variants=some, **G14)
XOp("ag_size", "return a->ag().size();", "idx", jets=1, check=c_ret(lambda e: e.s), ref=lambda ty, c, v: {"ret": c["args"][0]["size"]}, **G14)


def in_d(e):
    return [T.ile(I0, e.p), T.ilt(e.p, e.ty.length(e.s))]


def dcases(ty, variant):
    return [{}] if ty.dyn else [{"p": k} for k in range(dl(ty, ty.size))]


def r_d(write):
    def ref(ty, c, v):
        a = c["args"][0]
        if not 0 <= c["i"] < len(a["data"]):
            return None
        if not write:
            return {"ret": a["data"][c["i"]]}
        d = list(a["data"])
        d[c["i"]] = c["s"]
        return {"args": {0: {"size": a["size"], "data": d}}}
    return ref


def g_d(rng, ty, case, v, n):
    case["i"] = rng.randrange(dl(ty, n if ty.dyn else ty.size))


XOp("adata_get", "return a->adata()(i);", "val", jets=1, idx=1, setup=in_d, check=rd(lambda e: e.p), ref=r_d(False), gen=g_d, cases=dcases, variants=["a"], **G14)
XOp("adata_set", "a->adata()(i) = s; return a;", "inpl", jets=1, scal=1, idx=1, setup=in_d, check=wr(lambda e: e.p), ref=r_d(True), gen=g_d, cases=dcases, variants=["a"], **G14)
XOp("adata_size", "return a->adata().size();", "idx", jets=1, check=c_ret(lambda e: e.ty.length(e.s)), ref=lambda ty, c, v: {"ret": len(c["args"][0]["data"])}, **G14)


def s_len(e):
    e.ns = e.ty.length(e.s)
    return []


def c_fromvec(e, S, kind, val):
    if must(e, S, kind, val):
        coeffs(e, S, obj(e, S, p=e.ptrs["a"], size=e.s, what="object"), kfun("v"))


def r_setadata(ty, c, v):
    return {"args": {0: {"size": c["args"][0]["size"], "data": list(c["vec"])}}}


XOp("set_adata", "typename T::DataVector x(v->size()); for (hyperjet::index q = 0; q < (hyperjet::index)v->size(); q++) x(q) = (*v)[q]; a->set_adata(x); return a;", "inpl", jets=1, vec=True,
    setup=s_len, check=c_fromvec, ref=r_setadata, gen=lambda rng, ty, case, v, n: case.update(vec=dl(ty, n if ty.dyn else ty.size)),
    cases=lambda ty, v: [{}] if ty.dyn else [{"n": dl(ty, ty.size)}], **G14)


# building from arrays
def s_fg(e):
    e.ns = e.s
    return []


def c_fg(e, S, kind, val):
    if must(e, S, kind, val):
        coeffs(e, S, obj(e, S, size=e.s), lambda k: T.rite(T.ieq(k, I0), e.S, T.rsel("v", T.isub(k, T.ic(1)))))


VN = lambda ty, v: [{}] if ty.dyn else [{"n": ty.size}]
XOp("from_gradient", "Eigen::Map<const typename T::Vector> g(v->data(), v->size()); new (r) T(T::from_gradient(s, g));", "new", scal=1, vec=True, setup=s_fg, check=c_fg,
    ref=lambda ty, c, v: {"res": {"size": len(c["vec"]), "data": [c["s"]] + list(c["vec"])}}, gen=lambda rng, ty, case, v, n: case.update(vec=n if ty.dyn else ty.size),
    cases=VN, orders=(1,), **G14)


def s_fa(e):
    if e.variant == "ok":
        e.p = e.q = e.s
    e.ns = T.iadd(e.s, T.imul(e.p, e.q))
    if e.variant == "ok":
        return []
    return [T.ile(I0, e.p), T.ile(I0, e.q), T.ile(e.p, T.ic(2 ** 20)), T.ile(e.q, T.ic(2 ** 20)), T.bnot(T.band(T.ieq(e.p, e.s), T.ieq(e.q, e.s)))]


def c_fa(e, S, kind, val):
    if e.variant == "bad":
        return rejected(e, S, kind, val, both=True)
    if must(e, S, kind, val):
        w = obj(e, S, size=e.s)
        check_h(e, S, w, lambda i, j: mat(e.s, e.s, i, j), lambda k: T.rite(T.ieq(k, I0), e.S, T.rsel("v", T.isub(k, T.ic(1)))), "result")


def r_fa(ty, c, v):
    n, r, q = c["fan"], c["i"], c["j"]
    if (r, q) != (n, n):
        return {"status": ("throw", "abort")}
    d = [c["s"]] + list(c["vec"][:n]) + [0.0] * (n * (n + 1) // 2)
    for i in range(n):
        for j in range(i, n):
            d[C.hidx(n, i, j)] = c["vec"][n + i + j * n]
    return {"res": {"size": n, "data": d}}


def g_fa(rng, ty, case, v, n):
    g_sethm(rng, ty, case, v, n)
    k = n if ty.dyn else ty.size
    case["fan"] = k
    case["vec"] += k


FA = "auto n = (hyperjet::index)v->size() - i * j; Eigen::Map<const Eigen::Matrix<double, 1, -1>> g(v->data(), n); Eigen::Map<const Eigen::Matrix<double, -1, -1>> M(v->data() + n, i, j); new (r) T(T::from_arrays(s, g, M));"
XOp("from_arrays", FA, "new", scal=1, vec=True, idx=2, setup=s_fa, check=c_fa, ref=r_fa, gen=g_fa, variants=lambda ty: ["ok", "bad"] if ty.dyn else ["ok"],
    cases=lambda ty, v: [{}] if ty.dyn else [{"n": ty.size + ty.size ** 2, "p": ty.size, "q": ty.size}], orders=(2,), **G14)


# ================================================================== C15: copies
def c_copy(e, S, kind, val):
    if not must(e, S, kind, val):
        return
    if e.ty.sparse:
        sparse_obj(e, S, T.rv("a.f"), lambda k: (T.bsel("a.dom", k), T.rsel("a.val", k)))
    else:
        w = obj(e, S, size=e.s)
        coeffs(e, S, w, kfun("a"))
        independent(e, S, w[1])


def independent(e, S, rp):
    for n in e.ptrs:
        dp = e.st0.mem[e.ptrs[n].o].cells[C.layout(e.m, e.ty)[1]][1] if e.ty.dyn else e.ptrs[n]
        if isinstance(dp, Ptr) and dp.o == rp.o:
            e.run.bad(S, "does not share storage with an argument", "frame")


def r_copy(ty, c, v):
    a = c["args"][0]
    return {"res": {"size": a["size"], "data": a["data"], "keys": a.get("keys")}}


GC = ("copy",)
XOp("copy", "new (r) T(*a);", "new", jets=1, types="DS", check=c_copy, ref=r_copy, groups=GC)
XOp("copy_data", "new (r) T(*a);", "new", jets=1, types="DS", check=c_copy, ref=r_copy, groups=GC)


def c_assign(src):
    def chk(e, S, kind, val):
        if not must(e, S, kind, val):
            return
        retself(e, S, val)
        x = e.names[1] if src == "b" and len(e.names) > 1 else "a"
        if e.ty.sparse:
            sparse_obj(e, S, T.rv(x + ".f"), lambda k: (T.bsel(x + ".dom", k), T.rsel(x + ".val", k)), p=e.ptrs["a"])
        else:
            w = obj(e, S, p=e.ptrs["a"], size=e.s)
            coeffs(e, S, w, kfun(x))
    return chk


def r_assign(ty, c, v):
    a = c["args"][c["same"][1] if len(c["same"]) > 1 else 0]
    return {"args": {0: {"size": a["size"], "data": a["data"], "keys": a.get("keys")}}}


XOp("assign", "return &(*a = *b);", "inpl", jets=2, types="DS", check=c_assign("b"), ref=r_assign, groups=GC)


# a copy that is changed does not show in the original, and vice versa
def c_keep(e, S, kind, val):
    if must(e, S, kind, val):
        for n in e.ptrs:
            C.unchanged(e.run, e.st0, S, e.ty, e.ptrs[n], n, e.s)
        e.run.post(S, "the original of a changed copy is unchanged", T.TRUE, "frame")


XOp("copy_then_change", "T x(*a); x += 1.0; x *= 3.0; T y = x; y -= *a; y *= x;", "void", jets=1, types="DS", check=c_keep, ref=lambda ty, c, v: {}, groups=GC)


def c_orig(e, S, kind, val):
    """the original is changed after the copy was taken: the copy is still the old one"""
    if not must(e, S, kind, val):
        return
    c_copy_of(e, S)


def c_copy_of(e, S):
    if e.ty.sparse:
        sparse_obj(e, S, T.rv("a.f"), lambda k: (T.bsel("a.dom", k), T.rsel("a.val", k)))
    else:
        w = obj(e, S, size=e.s)
        coeffs(e, S, w, kfun("a"))


XOp("change_original", "T x(*a); new (r) T(x); x += 1.0; x *= 3.0; x -= *a;", "new", jets=1, types="DS", check=c_orig, ref=r_copy, groups=GC)
del OPS["copy_data"]


# ================================================================== C02: the number on the right is a reference to a coefficient of the object itself
def in_c(div):
    def f(e):
        hs = [T.ile(I0, e.p), T.ilt(e.p, e.ty.length(e.s))]
        return hs + ([T.bnot(T.fcmp("oeq", T.rsel("a", e.p), T.R0))] if div else [])
    return f


def c_own(fn, only_value):
    def chk(e, S, kind, val):
        if not must(e, S, kind, val):
            return
        retself(e, S, val)
        w = obj(e, S, p=e.ptrs["a"], size=e.s, what="object")
        x = T.rsel("a", e.p)
        e.extra = [e.p]
        if only_value:
            coeffs(e, S, w, lambda k: T.rite(T.ieq(k, I0), fn(T.rsel("a", k), x), T.rsel("a", k)), what="object")
        else:
            coeffs(e, S, w, lambda k: fn(T.rsel("a", k), x), what="object")
    return chk


def r_own(fn, only_value):
    def ref(ty, c, v):
        d = list(c["args"][0]["data"])
        x = d[c["i"]]
        if fn is T.rdiv and abs(x) < 1e-3:
            return None
        g = {T.radd: lambda p, q: p + q, T.rsub: lambda p, q: p - q, T.rmul: lambda p, q: p * q, T.rdiv: lambda p, q: p / q}[fn]
        return {"args": {0: {"size": c["args"][0]["size"], "data": [g(y, x) if k == 0 or not only_value else y for k, y in enumerate(d)]}}}
    return ref


def cases_c(ty, v):
    if ty.dyn:
        return [{}]
    n = C.dlen(ty.order, ty.size)
    return [{"p": k} for k in sorted({0, 1, ty.size, ty.size + 1, n // 2, n - 1} & set(range(n)))]


for _n, _o, _f, _v in (("iadd_c", "+=", T.radd, True), ("isub_c", "-=", T.rsub, True), ("imul_c", "*=", T.rmul, False), ("idiv_c", "/=", T.rdiv, False)):
    XOp(_n, "return &(*a %s a->HJV_DATA[i]);" % _o, "inpl", jets=1, idx=1, setup=in_c(_f is T.rdiv), check=c_own(_f, _v), ref=r_own(_f, _v), cases=cases_c, groups=("inplace",),
        gen=lambda rng, ty, case, v, n: case.update(i=rng.randrange(C.dlen(ty.order, n if ty.dyn else ty.size))))
