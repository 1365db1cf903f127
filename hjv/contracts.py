"""Types under contract, harness generation, construction of the symbolic inputs (preconditions), postconditions."""
import os
import re
import subprocess
import time
from fractions import Fraction
from . import ir, smt, sx, models, ring
from . import terms as T
from .specs import OPS
from .sx import Ptr, NULL, UNDEF, Special, Obj, Obl
from .ir import Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HJV_REPO", "/repo")
MAXS = 2 ** 29          # assumed bound on the size of a dynamic jet (2^29 variables need an exabyte of Hessian)


class Type:
    def __init__(self, order=None, size=None, sparse=False):
        self.order, self.size, self.sparse = order, size, sparse
        if sparse:
            self.tag, self.cpp = "S", "hyperjet::SScalar<double>"
        elif size is None:
            self.tag, self.cpp = "D%dx" % order, "hyperjet::DDScalar<%d, double, hyperjet::Dynamic>" % order
        else:
            self.tag, self.cpp = "D%d_%d" % (order, size), "hyperjet::DDScalar<%d, double, %d>" % (order, size)
        self.dyn = size is None and not sparse
        self.kind = "S" if sparse else "D"

    def length(self, s):
        return dlen(self.order, s)

    def __repr__(self):
        return self.cpp.replace("hyperjet::", "")


def dlen(order, s):
    """number of stored coefficients for s variables (from the documented layout)"""
    if isinstance(s, int):
        return 1 + s if order == 1 else (s + 1) * (s + 2) // 2
    if order == 1:
        return T.iadd(s, T.ic(1))
    return T.iscale(T.imul(T.iadd(s, T.ic(1)), T.iadd(s, T.ic(2))), Fraction(1, 2))


def hidx(s, i, j):
    """position of H(i, j), i <= j, in the packed storage: row-wise upper triangle"""
    if all(isinstance(x, int) for x in (s, i, j)):
        return 1 + s + i * s - i * (i - 1) // 2 + (j - i)
    s, i, j = [T.ic(x) if isinstance(x, int) else x for x in (s, i, j)]
    tri = T.iscale(T.imul(i, T.isub(i, T.ic(1))), Fraction(1, 2))
    return T.iadd(T.iadd(T.ic(1), s), T.iadd(T.isub(T.imul(i, s), tri), T.isub(j, i)))


SIG = "(T *r, T *a, T *b, T *c, double s, double t, hyperjet::index i, hyperjet::index j, const std::vector<double> *v)"
RET = {"new": "void", "inpl": "const void *", "bool": "bool", "val": "double", "idx": "hyperjet::index", "void": "void", "ptr": "const void *"}

HEAD = """#include <stdexcept>
#include <algorithm>
#include <new>
#include <cstddef>
#include <vector>
%s
#include <hyperjet/hyperjet.h>
"""


def applicable(op, ty):
    return ty.kind in op.types


def gen_type(ty, ops):
    out = ["namespace n_%s { using T = %s;" % (ty.tag, ty.cpp)]
    if ty.sparse:
        out.append('extern "C" { extern const long lay_%s[3]; const long lay_%s[3] = {(long)offsetof(T, HJV_F), (long)offsetof(T, HJV_D), (long)sizeof(T)}; }' % (ty.tag, ty.tag))
    else:
        out.append('extern "C" { extern const long lay_%s[3]; const long lay_%s[3] = {(long)offsetof(T, HJV_SIZE), (long)offsetof(T, HJV_DATA), (long)sizeof(T)}; }' % (ty.tag, ty.tag))
    for op in ops:
        if applicable(op, ty):
            out.append('extern "C" %s w_%s_%s%s { using namespace hyperjet; %s }' % (RET[op.kind], ty.tag, op.name, SIG, op.body))
    out.append("}")
    return "\n".join(out)


def member_names():
    """names of the data members, read from the header (the layout itself is computed by the compiler)"""
    try:
        with open(REPO + "/include/hyperjet/hyperjet.h") as f:
            txt = re.sub(r"//[^\n]*|/\*.*?\*/", "", f.read(), flags=re.S)
    except OSError:
        txt = ""
    out = {"SIZE": "m_size", "DATA": "m_data", "F": "m_f", "D": "m_d"}
    k = txt.find("class SScalar\n")
    for part, pats in ((txt[:k], (("SIZE", r"\n\s*index\s+(\w+)\s*(?:\{[^;{}]*\}|=[^;]*)?;"), ("DATA", r"\n\s*Data\s+(\w+)\s*(?:\{[^;{}]*\})?;"))),
                       (txt[k:], (("F", r"\n\s*Scalar\s+(\w+)\s*(?:\{[^;{}]*\}|=[^;]*)?;"), ("D", r"\n\s*Data\s+(\w+)\s*(?:\{[^;{}]*\})?;")))):
        for n, pat in pats:
            ms = re.findall(pat, part)
            if ms and out[n] not in ms:
                out[n] = ms[0]
    return "".join("#define HJV_%s %s\n" % kv for kv in out.items())


def gen_harness(types, ops, head=""):
    return HEAD % head + member_names() + "\n".join(gen_type(t, ops) for t in types)


IRFLAGS = ["-std=c++17", "-O0", "-ffp-contract=off", "-fno-discard-value-names", "-fno-access-control", "-Wno-invalid-offsetof", "-w",
           "-Xclang", "-disable-O0-optnone", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm"]


class BuildError(Exception):
    pass


def compile_ir(src, out, defs=(), incs=()):
    cmd = ["clang++"] + IRFLAGS + list(defs) + ["-I" + REPO + "/include", "-I/usr/include/eigen3"] + ["-I" + i for i in incs] + [src, "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[-4000:])
    return out


def layout(m, ty):
    lay = getattr(m, "lay", None)
    if lay is None:
        lay = m.lay = {}
        for n, v in re.findall(r"^@lay_(\w+) = [^\n]*\[3 x i64\] (\[[^\n]*?\]|zeroinitializer)", m.text, re.M):
            lay[n] = [int(x) for x in re.findall(r"i64 (-?\d+)", v)]
    return lay[ty.tag]


# ------------------------------------------------------------------ symbolic inputs
def mk_jet(ex, st, ty, name, s=None, ro=False, const=None):
    """an arbitrary well-formed object of the type"""
    lay = layout(ex.m, ty)
    o = Obj("cells", T.ic(lay[2]), name)
    if ty.sparse:
        o.cells[lay[0]] = (8, T.rv(name + ".f"))
        mid = models.new_map(st, (("bbase", name + ".dom"),), (("base", name + ".val"),), None)
        o.cells[lay[1]] = (56, Special("map", mid))
        st.mem[mid].ro = ro
    elif ty.dyn:
        L = ty.length(s)
        b = Obj("buf", T.iscale(L, 8), "coefficients of " + name, True)
        b.layers = (("base", name),)
        b.ro = ro
        bo = st.new(b)
        o.cells[lay[0]] = (8, s)
        end = Ptr(bo, T.iscale(L, 8))
        o.cells[lay[1]] = (8, Ptr(bo, T.ic(0)))
        o.cells[lay[1] + 8] = (8, end)
        o.cells[lay[1] + 16] = (8, end)
    else:
        for k in range(ty.length(ty.size)):
            o.cells[lay[1] + 8 * k] = (8, T.rsel(name, T.ic(k)))
    o.ro = ro
    return Ptr(st.new(o), T.ic(0))


def mk_raw(ex, st, ty, name):
    lay = layout(ex.m, ty)
    return Ptr(st.new(Obj("cells", T.ic(lay[2]), name)), T.ic(0))


class PostFail(Exception):
    pass


def new_state(m):
    """the state in which an entry point starts: empty, or, for the Python module, the state after its initialisation"""
    w = getattr(m, "warm", None)
    return w[0].clone() if w else sx.State()


def warm_exec(m, ex):
    w = getattr(m, "warm", None)
    if w:
        ex.gobj, ex.gtmpl = dict(w[1]), dict(w[2])


def warm(m, fn):
    """run the initialisation of the module once; everything it made is read-only for the contracts"""
    ex = sx.Exec(m, models.table())
    st = sx.State()
    st.ghost["guard"] = 1
    outs = ex.call(fn, [], st)
    bad = [o for o in ex.obls if not o.ok]
    if len(outs) != 1 or outs[0][0] != "ret" or bad:
        raise Unsupported("initialisation of the module: %s" % (bad[0].where if bad else outs[0][2] if outs else "no outcome"))
    S = outs[0][1]
    S.ghost = {}
    for oid in list(S.mem):
        o = S.mem[oid]
        if not o.alive:
            continue
        if not o.ro:
            o = S.w(oid)
            o.ro = True
        if oid in ex.gtmpl:
            ex.gtmpl[oid] = o
    m.warm = (S, ex.gobj, ex.gtmpl)
    m.warm_obls = len(ex.obls)
    return m.warm


class Run:
    """one verification run: a function under contract with one precondition"""

    def __init__(self, m, label, check_ovf=False, fp=False, contracts=None):
        self.ex = sx.Exec(m, models.table(), contracts, check_ovf=check_ovf, fp=fp)
        self.label = label
        warm_exec(m, self.ex)
        self.st = new_state(m)

    def post(self, st, what, goal, kind="post"):
        r = smt.check(st.pc, goal, fp=self.ex.fp, want_model=True)
        self.ex.obls.append(Obl(kind, what, goal, r.ok, r.backend, None if r.ok else list(st.pc), r.why, r.model))
        return r.ok

    def post_eq(self, st, what, a, b):
        if a is UNDEF or not isinstance(a, T.Term):
            return self.bad(st, what + " is uninitialised", "uninit")
        return self.post(st, what, T.fcmp("oeq", a, b))

    def bad(self, st, what, kind="post"):
        r = smt.check(st.pc, T.FALSE, want_model=True)
        self.ex.obls.append(Obl(kind, what, T.FALSE, r.ok, r.backend, list(st.pc), r.why, r.model))
        return r.ok


def jet_data(ex, st, ty, p, run, what):
    """well-formedness of a jet; returns (size poly, pointer to the coefficients) or None"""
    lay = layout(ex.m, ty)
    o = st.mem.get(p.o)
    if o is None or not o.alive:
        run.bad(st, what + ": object is alive", "wf")
        return None
    base = T.as_const(p.off)
    if not ty.dyn:
        return T.ic(ty.size), Ptr(p.o, T.ic(base + lay[1]))
    s = o.cells.get(base + lay[0])
    bg, en, cp = [o.cells.get(base + lay[1] + 8 * k) for k in range(3)]
    if s is None or bg is None or en is None or cp is None or not all(isinstance(x[1], Ptr) for x in (bg, en, cp)):
        run.bad(st, what + ": size and storage are initialised", "wf")
        return None
    s = s[1]
    bg, en, cp = bg[1], en[1], cp[1]
    if bg.o is None:
        run.bad(st, what + ": has storage", "wf")
        return None
    bo = st.mem.get(bg.o)
    if bo is None or not bo.alive or not bo.heap or en.o != bg.o or cp.o != bg.o or T.as_const(bg.off) != 0:
        run.bad(st, what + ": owns its storage", "wf")
        return None
    L = ty.length(s)
    run.post(st, what + ": size is not negative", T.ile(T.ic(0), s), "wf")
    run.post(st, what + ": number of coefficients matches the size", T.ieq(en.off, T.iscale(L, 8)), "wf")
    run.post(st, what + ": capacity", T.band(T.ile(en.off, cp.off), T.ile(cp.off, bo.size)), "wf")
    return s, bg


def coef(name, k):
    return T.rsel(name, T.ic(k) if isinstance(k, int) else k)


def chain(spec_d, spec_dd, names, gi, gj=None, h=None):
    """coefficient demanded by the chain rule"""
    r = T.R0
    n = len(names)
    if gj is None:
        for k in range(n):
            r = T.radd(r, T.rmul(spec_d[k], coef(names[k], gi)))
        return r
    for k in range(n):
        r = T.radd(r, T.rmul(spec_d[k], coef(names[k], h)))
    for k in range(n):
        for l in range(n):
            r = T.radd(r, T.rmul(spec_dd[k][l], T.rmul(coef(names[k], gi), coef(names[l], gj))))
    return r


DBL = ir.DBL


def check_coeffs(run, st, ty, rp, s, want_f, want_g, want_h, what):
    """postcondition over the whole view: value, every gradient entry, every Hessian entry"""
    ex = run.ex
    if want_f is not None:
        run.post_eq(st, what + ": value", ex.load(st, DBL, rp), want_f)
    if not ty.dyn:
        n = ty.size
        for i in range(n):
            run.post_eq(st, what + ": gradient(%d)" % i, ex.load(st, DBL, rp.plus(8 * (1 + i))), want_g(i))
        if ty.order == 2:
            for i in range(n):
                for j in range(i, n):
                    k = hidx(n, i, j)
                    run.post_eq(st, what + ": hessian(%d,%d)" % (i, j), ex.load(st, DBL, rp.plus(8 * k)), want_h(i, j, k))
        return
    i, j = T.iv("i?"), T.iv("j?")
    s2 = st.clone()
    s2.assume(T.ile(T.ic(0), i))
    s2.assume(T.ilt(i, s))
    ex.cand = [i]
    if smt.sat(s2.pc):
        k = T.iadd(i, T.ic(1))
        run.post_eq(s2, what + ": gradient(i)", ex.load(s2, DBL, rp.plus(T.iscale(k, 8))), want_g(i))
    if ty.order == 2:
        s2 = st.clone()
        s2.assume(T.ile(T.ic(0), i))
        s2.assume(T.ile(i, j))
        s2.assume(T.ilt(j, s))
        ex.cand = [i, j, T.isub(j, i)]
        if smt.sat(s2.pc):
            k = hidx(s, i, j)
            run.post_eq(s2, what + ": hessian(i,j)", ex.load(s2, DBL, rp.plus(T.iscale(k, 8))), want_h(i, j, k))
    ex.cand = []


def unchanged(run, st0, st, ty, p, name, s):
    """frame: an argument object is not modified"""
    o0, o1 = st0.mem.get(p.o), st.mem.get(p.o)
    if o1 is o0:
        return True
    if o1 is None or not o1.alive or o1.cells != o0.cells:
        return run.bad(st, "frame: argument %s is unchanged" % name, "frame")
    return True


def alias_patterns(n):
    return {0: [""], 1: ["a"], 2: ["ab", "aa"], 3: ["abc", "aab", "aba", "abb", "aaa"]}[n]


def verify_op(m, ty, opname, alias, check_ovf=False, fp=False, maxs=MAXS, size=None, contracts=None):
    """verify one operation of one type for one aliasing pattern; returns the Exec with all obligations.
    size: fixed size for a dynamic type (bounded stand-in)"""
    op = OPS[opname]
    run = Run(m, "%s %s[%s]" % (ty, opname, alias), check_ovf, fp, contracts)
    ex, st = run.ex, run.st
    fn = "w_%s_%s" % (ty.tag, opname)
    s = None
    if ty.dyn:
        if size is None:
            s = T.iv("s")
            st.assume(T.ile(T.ic(0), s))
            st.assume(T.ile(s, T.ic(maxs)))
        else:
            s = T.ic(size)
    elif not ty.sparse:
        s = T.ic(ty.size)
    names = list(alias)
    ptrs = {}
    for nm in names:
        if nm not in ptrs:
            ptrs[nm] = mk_jet(ex, st, ty, nm, s, ro=not (op.kind == "inpl" and nm == "a"))
    if op.kind == "new":
        r = mk_raw(ex, st, ty, "result")
    else:
        r = ptrs[names[0]] if op.kind == "inpl" else NULL
    scal = [T.rv("s"), T.rv("t")][:op.scal]
    vals = [T.rv(n + ".f") if ty.sparse else coef(n, 0) for n in names]
    ivars = [T.iv("p"), T.iv("q")][:op.idx]
    sc = scal + [T.i2r(x) for x in ivars]
    if op.idx:
        for x in ivars:
            st.assume(T.ile(T.ic(-2 ** 52), x))
            st.assume(T.ile(x, T.ic(2 ** 52)))
    if not fp:
        for h in op.dom(vals, sc):
            st.assume(h)
    # vacuity guard: the precondition is satisfiable
    if not smt.sat(st.pc):
        run.bad(sx.State(), "precondition is satisfiable", "vacuity")
        return run
    args = [r if op.kind == "new" else UNDEF] + [ptrs[n] for n in names] + [UNDEF] * (3 - len(names))
    args += [scal[k] if k < len(scal) else UNDEF for k in range(2)] + [ivars[k] if k < len(ivars) else UNDEF for k in range(2)] + [UNDEF]
    st0 = st.clone()
    outs = ex.call(fn, args, st)
    nret = 0
    sp = op.spec(vals, sc)
    for o in outs:
        if o[0] != "ret":
            run.bad(o[1], "%s does not fail on valid arguments (%s: %s)" % (opname, o[0], str(o[2])[:120]))
            continue
        S = o[1]
        if len(outs) > 1 and not smt.sat(S.pc):
            continue
        nret += 1
        try:
            if op.kind == "bool":
                goal = o[2]
                if goal is UNDEF:
                    run.bad(S, "result is initialised")
                else:
                    if isinstance(goal, T.Term) and goal.sort == "I":
                        goal = T.bnot(T.ieq(goal, T.ic(0)))
                    run.post(S, "truth value", T.bite(sp, goal, T.bnot(goal)))
                for n in ptrs:
                    unchanged(run, st0, S, ty, ptrs[n], n, s)
                continue
            if op.kind == "inpl":
                if not (isinstance(o[2], Ptr) and o[2].o == r.o and T.as_const(o[2].off) == 0):
                    run.bad(S, "returns a reference to the modified object")
            f, d, dd = sp
            if ty.sparse:
                check_sparse(run, S, ty, r, names, f, d)
            else:
                w = jet_data(ex, S, ty, r, run, "result")
                if w is None:
                    continue
                rs, rp = w
                if ty.dyn:
                    run.post(S, "result has the size of the arguments", T.ieq(rs, s), "wf")
                    if op.kind == "new" and any(S.mem[ptrs[n].o].cells[layout(m, ty)[1]][1].o == rp.o for n in ptrs):
                        run.bad(S, "result does not share storage with an argument", "frame")
                check_coeffs(run, S, ty, rp, s, f,
                             lambda i: chain(d, dd, names, T.iadd(i, T.ic(1)) if isinstance(i, T.Term) else 1 + i),
                             lambda i, j, k: chain(d, dd, names, *[(T.iadd(x, T.ic(1)) if isinstance(x, T.Term) else 1 + x) for x in (i, j)], k),
                             "result")
            for n in ptrs:
                if not (op.kind == "inpl" and n == "a"):
                    unchanged(run, st0, S, ty, ptrs[n], n, s)
        except sx.Dead:
            pass
    if nret == 0:
        run.bad(st0, "%s returns" % opname)
    return run


def assume_lits(t, lits):
    """simplify boolean literals known to be true/false"""
    def f(x):
        if x.op == "bsel" and x in lits:
            return lits[x]
        return None
    return T.transform(t, f) if isinstance(t, T.Term) else t


def check_sparse(run, S, ty, r, names, f, d):
    ex = run.ex
    lay = layout(ex.m, ty)
    o = S.mem.get(r.o)
    if o is None or not o.alive:
        return run.bad(S, "result is alive", "wf")
    fc = o.cells.get(lay[0])
    mc = o.cells.get(lay[1])
    if fc is None or mc is None or not isinstance(mc[1], Special):
        return run.bad(S, "result is initialised", "wf")
    run.post_eq(S, "result: value", fc[1], f)
    mo = S.mem[mc[1].p]
    if not mo.alive:
        return run.bad(S, "result: storage is alive", "wf")
    uniq = sorted(set(names))
    key = T.iv("name?")
    ex.cand = [key]
    for bits in range(2 ** len(uniq)):
        lits, want = {}, T.R0
        s2 = S.clone()
        inany = False
        for q, n in enumerate(uniq):
            on = bool(bits >> q & 1)
            b = T.bsel(n + ".dom", key)
            lits[b] = T.bc(on)
            s2.assume(b if on else T.bnot(b))
            inany = inany or on
        if not smt.sat(s2.pc):
            continue
        for k, n in enumerate(names):
            if lits[T.bsel(n + ".dom", key)] is T.TRUE:
                want = T.radd(want, T.rmul(d[k], T.rsel(n + ".val", key)))
        tagn = "name in {%s}" % ",".join(n for q, n in enumerate(uniq) if bits >> q & 1)
        dom = assume_lits(ex.select(s2, mo.x["dom"], key), lits)
        run.post(s2, "result: set of names, %s" % tagn, dom if inany else T.bnot(dom))
        if inany:
            v = ex.select(s2, mo.x["val"], key)
            if v is UNDEF:
                run.bad(s2, "result: derivative, %s is initialised" % tagn)
            else:
                run.post_eq(s2, "result: derivative, %s" % tagn, assume_lits(v, lits), want)
    ex.cand = []
