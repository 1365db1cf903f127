"""Discharging obligations: z3 (API 5.x), optional cvc5 cross-check, and the ring normaliser."""
import time
import z3
from fractions import Fraction
from . import terms as T
from . import ring

z3.set_param("smt.random_seed", 1)


class Stats:
    def __init__(self):
        self.n = {}
        self.t = {}

    def add(self, be, dt):
        self.n[be] = self.n.get(be, 0) + 1
        self.t[be] = self.t.get(be, 0.0) + dt


STATS = Stats()
_cache = {}
TIMEOUT = 4000


class Tr:
    """translation of terms to z3. relax=True: integers as reals (sound for proving)."""

    def __init__(self, relax=False, fp=False):
        self.relax = relax
        self.fp = fp
        self.memo = {}
        self.side = []
        self.apps = []
        self.vars = {}
        self.funs = {}
        self.IS = z3.RealSort() if relax else z3.IntSort()

    def fun(self, name, dom, rng):
        k = (name, len(dom))
        if k not in self.funs:
            self.funs[k] = z3.Function(name, *dom, rng)
        return self.funs[k]

    def tr(self, t):
        st = [t]
        memo = self.memo
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            todo = [c for c in T.children(x) if c not in memo]
            if x.op == "sum":
                todo = [c for c in (x.a[1], x.a[2]) if c not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x] = self.one(x)
            st.pop()
        return memo[t]

    def cst(self, c):
        if self.relax:
            return z3.Q(c.numerator, c.denominator)
        return z3.IntVal(int(c))

    def one(self, x):
        o = x.op
        m = self.memo
        if x.sort == "I":
            if o == "poly":
                # common denominator handled by the caller (le0/eq0) except in value position
                den = 1
                for _, c in x.a:
                    den = den * c.denominator // _gcd(den, c.denominator)
                s = None
                for mono, c in x.a:
                    t = self.cst(c * (1 if self.relax else den))
                    first = True
                    for a, e in mono:
                        for _ in range(e):
                            if first and c * (1 if self.relax else den) == 1:
                                t = m[a]
                            else:
                                t = t * m[a]
                            first = False
                    s = t if s is None else s + t
                if s is None:
                    s = self.cst(Fraction(0))
                if den != 1 and not self.relax:
                    q = z3.FreshInt("q")
                    self.side.append(q * den == s)
                    return q
                return s
            if o == "iv":
                v = z3.Const(x.a[0], self.IS)
                self.vars[x.a[0]] = v
                return v
            if o == "fdiv":
                p = m[x.a[0]]
                q = z3.FreshConst(self.IS, "fd")
                k = x.a[1]
                if self.relax:
                    self.side.append(z3.And(q * k <= p, p < q * k + k, p - q * k <= k - 1))
                else:
                    self.side.append(z3.And(q * k <= p, p < q * k + k))
                self.apps.append((x, q))
                return q
            if o == "iapp":
                args = [m[c] for c in x.a[1:]]
                f = self.fun(x.a[0], [c.sort() for c in args], self.IS)
                return f(*args)
            if o == "trunc":
                r = m[x.a[0]]
                q = z3.FreshConst(self.IS, "tr")
                qr = q if self.relax else z3.ToReal(q)
                self.side.append(z3.If(r >= 0, z3.And(qr <= r, r < qr + 1), z3.And(qr >= r, r > qr - 1)))
                return q
            if o == "ite":
                return z3.If(m[x.a[0]], m[x.a[1]], m[x.a[2]])
        if x.sort == "R":
            S = z3.RealSort() if not self.fp else z3.Float64()
            if o == "rc":
                if self.fp:
                    return z3.FPVal(float(x.a[0]), z3.Float64())
                return z3.Q(x.a[0].numerator, x.a[0].denominator)
            if o == "rv" or o == "rspec":
                v = z3.Const("r_" + x.a[0], S)
                self.vars["r_" + x.a[0]] = v
                return v
            if o == "sel":
                f = self.fun("a_" + x.a[0], [m[x.a[1]].sort()], S)
                return f(m[x.a[1]])
            if o == "ite":
                return z3.If(m[x.a[0]], m[x.a[1]], m[x.a[2]])
            if o == "i2r":
                if self.fp:
                    raise NotImplementedError("i2r in fp mode")
                p = m[x.a[0]]
                return p if self.relax else z3.ToReal(p)
            if self.fp:
                if o == "neg":
                    return z3.fpNeg(m[x.a[0]])
                rm = z3.RNE()
                if o == "add":
                    return z3.fpAdd(rm, m[x.a[0]], m[x.a[1]])
                if o == "mul":
                    return z3.fpMul(rm, m[x.a[0]], m[x.a[1]])
                if o == "div":
                    return z3.fpDiv(rm, m[x.a[0]], m[x.a[1]])
                if o == "rapp":
                    f = self.fun("f_" + x.a[0], [S] * (len(x.a) - 1), S)
                    return f(*[m[c] for c in x.a[1:]])
            if o == "add":
                return m[x.a[0]] + m[x.a[1]]
            if o == "mul":
                return m[x.a[0]] * m[x.a[1]]
            if o == "neg":
                return -m[x.a[0]]
            if o == "div":
                return m[x.a[0]] / m[x.a[1]]
            if o == "rapp" and x.a[0] == "ksum":
                return z3.Const("ksum_%d" % x.id, S)
            if o == "rapp":
                f = self.fun("f_" + x.a[0], [S] * (len(x.a) - 1), S)
                args = [m[c] for c in x.a[1:]]
                v = f(*args)
                self.apps.append((x, v))
                self.side.extend(libm_axioms(x.a[0], args, v, self))
                return v
            if o == "sum":
                v = z3.Const("sum_%d" % x.id, S)
                return v
        if x.sort == "B":
            if o == "true":
                return z3.BoolVal(True)
            if o == "false":
                return z3.BoolVal(False)
            if o == "bv":
                v = z3.Bool("b_" + x.a[0])
                self.vars["b_" + x.a[0]] = v
                return v
            if o == "bsel":
                f = self.fun("d_" + x.a[0], [m[x.a[1]].sort()], z3.BoolSort())
                return f(m[x.a[1]])
            if o == "not":
                return z3.Not(m[x.a[0]])
            if o == "and":
                return z3.And(*[m[c] for c in x.a])
            if o == "or":
                return z3.Or(*[m[c] for c in x.a])
            if o in ("le0", "eq0"):
                p = x.a[0]
                den = 1
                for _, c in p.a:
                    den = den * c.denominator // _gcd(den, c.denominator)
                if den != 1:
                    p = T.iscale(p, den)
                    v = self.tr_nomemo(p)
                else:
                    v = m[p]
                z = self.cst(Fraction(0))
                return v <= z if o == "le0" else v == z
            if o == "fcmp":
                a, b = m[x.a[1]], m[x.a[2]]
                if self.fp:
                    return {"oeq": z3.fpEQ, "olt": z3.fpLT, "ole": z3.fpLEQ}[x.a[0]](a, b)
                return {"oeq": a == b, "olt": a < b, "ole": a <= b}[x.a[0]]
        raise NotImplementedError("smt: " + o)

    def tr_nomemo(self, p):
        return self.tr(p)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def libm_axioms(f, a, v, tr):
    """sound facts about the libm function values over the reals (assumed contracts of the dependency)"""
    if f == "sqrt":
        return [z3.Implies(a[0] >= 0, z3.And(v >= 0, v * v == a[0])), z3.Implies(a[0] > 0, v > 0)]
    if f == "cbrt":
        return [v * v * v == a[0], z3.Implies(a[0] > 0, v > 0), z3.Implies(a[0] < 0, v < 0)]
    if f == "exp":
        return [v > 0]
    if f == "cosh":
        return [v >= 1]
    if f in ("sin", "cos"):
        return [v <= 1, v >= -1]
    if f == "tanh":
        return [v < 1, v > -1]
    if f == "log":
        return [z3.Implies(a[0] > 1, v > 0), z3.Implies(z3.And(a[0] > 0, a[0] < 1), v < 0), z3.Implies(a[0] == 1, v == 0)]
    if f == "hypot":
        return [v >= 0, v * v == a[0] * a[0] + a[1] * a[1]]
    if f == "hypot3":
        return [v >= 0, v * v == a[0] * a[0] + a[1] * a[1] + a[2] * a[2]]
    if f == "fabs":
        return [v == z3.If(a[0] >= 0, a[0], -a[0])]
    if f == "pow":
        return [z3.Implies(a[0] > 0, v > 0), z3.Implies(z3.And(a[0] != 0, a[1] == 2), v == a[0] * a[0])]
    return []


def pair_axioms(apps):
    """relations between different functions of the same argument"""
    out = []
    by = {}
    for x, v in apps:
        if x.op == "rapp":
            by.setdefault(x.a[1:], {})[x.a[0]] = v
    for args, d in by.items():
        if "sin" in d and "cos" in d:
            out.append(d["sin"] * d["sin"] + d["cos"] * d["cos"] == 1)
        if "tan" in d and "cos" in d and "sin" in d:
            out.append(d["tan"] * d["cos"] == d["sin"])
        if "sinh" in d and "cosh" in d:
            out.append(d["cosh"] * d["cosh"] - d["sinh"] * d["sinh"] == 1)
            if "tanh" in d:
                out.append(d["tanh"] * d["cosh"] == d["sinh"])
    return out


def _relevant(pc, goal):
    """keep hypotheses that share a free symbol (transitively) with the goal"""
    want = set(x for x in T.fv(goal))
    if not want:
        return list(pc)
    rest = [(p, T.fv(p)) for p in pc]
    keep = []
    ch = True
    while ch:
        ch = False
        nr = []
        for p, f in rest:
            if f & want or not f:
                keep.append(p)
                if not f <= want:
                    want |= f
                    ch = True
            else:
                nr.append((p, f))
        rest = nr
    return keep


class Result:
    __slots__ = ("ok", "backend", "model", "why", "dt")

    def __init__(self, ok, backend=None, model=None, why="", dt=0.0):
        self.ok, self.backend, self.model, self.why, self.dt = ok, backend, model, why, dt


def quick_true(pc, goal):
    if goal is T.TRUE:
        return True
    if goal in pc:
        return True
    if goal.op == "and":
        return all(quick_true(pc, g) for g in goal.a)
    if goal.op == "or":
        return any(quick_true(pc, g) for g in goal.a)
    if goal.op == "le0":
        # p <= 0 follows from q <= 0 in pc when p - q is a constant <= 0
        for h in pc:
            if h.op == "le0":
                c = T.as_const(T.isub(goal.a[0], h.a[0]))
                if c is not None and c <= 0:
                    return True
    return False


def _flat(pc):
    out = []
    for p in pc:
        if p.op == "and":
            out.extend(_flat(p.a))
        elif p is not T.TRUE:
            out.append(p)
    return out


def has_sum(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sum":
            return True
        st.extend(T.children(x))
    return False


def expand_sums(pc, t):
    """sums whose number of terms is 0, 1 or 2 under the hypotheses are written out"""
    if not has_sum(t):
        return t

    def f(x):
        if x.op != "sum":
            return None
        v, lo, hi, body = x.a
        n = T.isub(hi, lo)
        if check(pc, T.ile(n, T.ic(0)), timeout=1000).ok:
            return T.R0
        for k in (1, 2):
            if check(pc, T.ieq(n, T.ic(k)), timeout=1000).ok:
                r = T.R0
                for q in range(k):
                    r = T.radd(r, T.subst(body, {("iv", v.a[0]): T.iadd(lo, T.ic(q))}))
                return r
        return None
    r = T.transform(t, f)
    return r if r is t else expand_sums(pc, r) if has_sum(r) and r is not t else r


def check(pc, goal, fp=False, timeout=None, relax_only=False, want_model=False):
    """prove pc |= goal"""
    t0 = time.time()
    pc = _flat(pc)
    if goal is T.TRUE:
        return Result(True, "hjv-simplify")
    if T.FALSE in pc:
        return Result(True, "hjv-simplify")
    if quick_true(pc, goal):
        return Result(True, "hjv-simplify")
    if goal.op == "and":
        last = None
        for g in goal.a:
            last = check(pc, g, fp, timeout, relax_only, want_model)
            if not last.ok:
                return last
        return last
    key = (frozenset(pc), goal, fp, relax_only)
    r = _cache.get(key)
    if r is not None and not (want_model and not r.ok and r.model is None):
        return r
    if goal.op == "fcmp" and goal.a[0] == "oeq" and not fp:
        if ring.equal(goal.a[1], goal.a[2]):
            r = Result(True, "hjv-ring", dt=time.time() - t0)
            STATS.add("hjv-ring", r.dt)
            _cache[key] = r
            return r
        g2 = expand_sums(pc, goal)
        if g2 is not goal:
            r = check(pc, g2, fp, timeout, relax_only, want_model)
            _cache[key] = r
            return r
    r = _z3check(pc, goal, fp, timeout or TIMEOUT, relax_only, want_model)
    r.dt = time.time() - t0
    STATS.add(r.backend or "unknown", r.dt)
    _cache[key] = r
    return r


def _attempt(pc, goal, relax, fp, timeout, want_model, logic=None):
    tr = Tr(relax=relax, fp=fp)
    try:
        hs = [tr.tr(p) for p in pc]
        g = tr.tr(goal)
    except NotImplementedError as e:
        return "unknown", None, str(e)
    s = z3.SolverFor(logic) if logic else z3.Solver()
    s.set("timeout", timeout)
    for h in hs:
        s.add(h)
    for h in tr.side:
        s.add(h)
    for h in pair_axioms(tr.apps):
        s.add(h)
    s.add(z3.Not(g))
    r = s.check()
    if r == z3.unsat:
        return "unsat", None, ""
    if r == z3.sat:
        m = s.model() if want_model else None
        md = None
        if m is not None:
            md = {}
            for n, v in tr.vars.items():
                val = m.eval(v, model_completion=True)
                md[n] = val
        return "sat", md, ""
    return "unknown", None, s.reason_unknown()


# ------------------------------------------------------------------ cheap refutation (finds an integer witness without z3)
_cc = {}


def _pyexpr(c):
    """python source of an integer-only condition, or None"""
    o = c.op
    if o == "true":
        return "True"
    if o == "false":
        return "False"
    if o in ("le0", "eq0"):
        p = c.a[0]
        den = 1
        for _, k in p.a:
            den = den * k.denominator // _gcd(den, k.denominator)
        ts = []
        for m, k in p.a:
            f = [str(int(k * den))]
            for x, e in m:
                if x.op != "iv":
                    return None
                f += ["v%d" % x.id] * e
            ts.append("*".join(f))
        return "(%s)%s0" % ("+".join(ts) or "0", "<=" if o == "le0" else "==")
    if o == "not":
        r = _pyexpr(c.a[0])
        return None if r is None else "(not %s)" % r
    if o in ("and", "or"):
        rs = [_pyexpr(x) for x in c.a]
        if None in rs:
            return None
        return "(" + (" %s " % o).join(rs) + ")"
    return None


def _ivars(c, acc):
    if c.sort == "I":
        for m, _ in c.a:
            for x, e in m:
                acc.add(x)
        return
    for x in c.a:
        if isinstance(x, T.Term):
            _ivars(x, acc)


def _compiled(c):
    r = _cc.get(c)
    if r is None:
        e = _pyexpr(c)
        if e is None:
            r = (None, ())
        else:
            vs = set()
            _ivars(c, vs)
            vs = sorted(vs, key=lambda x: x.id)
            r = (eval("lambda %s: %s" % (",".join("v%d" % x.id for x in vs), e)), tuple(vs))
        _cc[c] = r
    return r


_VALS = (0, 1, 2, 3, 5, 4, 7, 6, -1, 9)


def refute(pc, goal):
    """an integer assignment satisfying pc and falsifying goal, or None"""
    cs, raw = [], []
    for c in list(pc) + [T.bnot(goal)]:
        f, vs = _compiled(c)
        if f is None:
            return None
        if not vs:
            if not f():
                return None
            continue
        cs.append((f, vs))
        raw.append(c)
    allv = sorted({x for _, vs in cs for x in vs}, key=lambda x: x.id)
    if not allv:
        return {}
    if len(allv) > 12:
        return None
    # models found before
    for md in reversed(_models):
        try:
            if all(f(*[md[x] for x in vs]) for f, vs in cs):
                return {x.a[0]: md[x] for x in allv}
        except KeyError:
            continue
    at = [[] for _ in allv]
    pos = {x: k for k, x in enumerate(allv)}
    for c, (f, vs) in zip(raw, cs):
        k = max(pos[x] for x in vs)
        at[k].append((f, [pos[x] for x in vs], _edge(c, allv[k])))
    val = [0] * len(allv)
    budget = [1500]

    def go(k):
        if k == len(allv):
            return True
        cand = list(_VALS)
        for f, ix, ed in at[k]:
            for sg, g in ed:
                val[k] = 0
                b0 = g(*[val[q] for q in ix])
                val[k] = 1
                a = g(*[val[q] for q in ix]) - b0
                if a:
                    x = -b0 // a
                    cand += [x + d for d in (0, 1, -1) if x + d not in cand]
        for v in cand:
            budget[0] -= 1
            if budget[0] < 0:
                return False
            val[k] = v
            if all(f(*[val[q] for q in ix]) for f, ix, _ in at[k]) and go(k + 1):
                return True
        return False

    if go(0):
        _models.append({x: val[k] for k, x in enumerate(allv)})
        if len(_models) > 40:
            del _models[0]
        return {x.a[0]: val[k] for k, x in enumerate(allv)}
    return None


_models = []
_ec = {}


def _edge(c, x):
    """polynomials, linear in x, whose sign decides the condition c"""
    r = _ec.get((c, x))
    if r is None:
        r = []
        at = [c]
        while at:
            d = at.pop()
            if d.op in ("and", "or", "not"):
                at += list(d.a)
            elif d.op in ("le0", "eq0"):
                p = d.a[0]
                if any(y is x for m, _ in p.a for y, e in m) and all(e == 1 for m, _ in p.a for y, e in m if y is x):
                    f = _compiled(c)
                    den = 1
                    for _, k in p.a:
                        den = den * k.denominator // _gcd(den, k.denominator)
                    e = "+".join("*".join([str(int(k * den))] + ["v%d" % y.id for y, q in m for _ in range(q)]) for m, k in p.a)
                    r.append((1, eval("lambda %s: %s" % (",".join("v%d" % y.id for y in f[1]), e))))
        _ec[(c, x)] = r
    return r


# ------------------------------------------------------------------ linear arithmetic over products of hypotheses
def _nonneg(cs):
    """integer polynomials known to be >= 0, from conjunctive hypotheses"""
    out = []
    for c in cs:
        if c.op == "le0":
            out.append(T.iscale(c.a[0], -1))
        elif c.op == "eq0":
            out.append(c.a[0])
            out.append(T.iscale(c.a[0], -1))
        elif c.op == "not" and c.a[0].op == "le0":
            out.append(T.isub(c.a[0].a[0], T.ic(1)))
    return out


def _deg(p):
    return max([sum(e for _, e in m) for m, _ in p.a] or [0])


def lra_products(pc, goal):
    """unsatisfiability of pc and not goal in linear arithmetic, where every monomial is a variable and the pairwise products of the
    linear hypotheses are added (degree-two Positivstellensatz)"""
    if goal.op == "eq0":
        p = goal.a[0]
        return lra_products(pc, mk_le(p)) and lra_products(pc, mk_le(T.iscale(p, -1)))
    if goal.op == "and":
        return all(lra_products(pc, g) for g in goal.a)
    if goal.op not in ("le0", "not", "false"):
        return False
    hs = _nonneg(list(pc) + ([] if goal is T.FALSE else [T.bnot(goal)]))
    hs = [h for h in hs if h.a and _deg(h) <= 2]
    if not any(_deg(h) == 2 for h in hs):
        return False
    lin = [h for h in hs if _deg(h) == 1]
    if len(lin) > 26:
        return False
    allp = list(hs)
    for x in range(len(lin)):
        for y in range(x, len(lin)):
            allp.append(T.imul(lin[x], lin[y]))
    mon = {}
    body = []
    for p in dict.fromkeys(allp):
        den = 1
        for _, c in p.a:
            den = den * c.denominator // _gcd(den, c.denominator)
        ts = []
        k0 = 0
        for m, c in p.a:
            k = int(c * den)
            if not m:
                k0 = k
                continue
            v = mon.get(m)
            if v is None:
                v = mon[m] = "m%d" % len(mon)
            ts.append(v if k == 1 else "(* %s %s)" % (k if k >= 0 else "(- %d)" % -k, v))
        if not ts:
            if k0 < 0:
                return True
            continue
        lhs = ts[0] if len(ts) == 1 else "(+ %s)" % " ".join(ts)
        body.append("(assert (>= %s %s))" % (lhs, "%d" % -k0 if k0 <= 0 else "(- %d)" % k0))
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 1500)
    s.from_string("".join("(declare-const %s Real)" % v for v in mon.values()) + "".join(body))
    return s.check() == z3.unsat


def linear_unsat(pc):
    """cheap refutation: linear relaxation with products"""
    pc = _flat(pc)
    if T.FALSE in pc:
        return True
    try:
        return lra_products(pc, T.FALSE) or check(pc, T.FALSE, relax_only=True, timeout=500).ok
    except z3.Z3Exception:
        return False


def trivially_false(pc):
    return T.FALSE in _flat(pc)


def mk_le(p):
    return T.ile(p, T.ic(0))


def _z3check(pc, goal, fp, timeout, relax_only, want_model):
    rel = _relevant(pc, goal)
    why = ""
    if not fp:
        md = refute(rel, goal)
        if md is not None:
            return Result(False, None, md if want_model else None, "sat")
        try:
            if lra_products(rel, goal):
                return Result(True, "z3-lra")
        except z3.Z3Exception:
            pass
    if fp:
        r, md, why = _attempt(rel, goal, False, True, timeout * 4, want_model)
        return Result(r == "unsat", "z3-fp" if r == "unsat" else None, md, why or r)
    r, md, why = _attempt(rel, goal, True, False, min(timeout, 1500), False)
    if r == "unsat":
        return Result(True, "z3-real")
    if relax_only:
        return Result(False, None, None, r)
    r, md, why = _attempt(rel, goal, False, False, timeout, want_model)
    if r == "unsat":
        return Result(True, "z3-int")
    if r == "unknown":
        r2, md2, _ = _attempt(rel, goal, True, False, timeout * 2, False, "QF_NRA") if not _has_uf(rel, goal) else ("x", None, "")
        if r2 == "unsat":
            return Result(True, "z3-nra")
    return Result(False, None, md, why or r)


def _has_uf(pc, goal):
    for p in list(pc) + [goal]:
        for k, n in T.fv(p):
            if k in ("arr", "fn"):
                return True
    return False


def sat(pc, timeout=None):
    """False only if pc is proved unsatisfiable"""
    r = check(pc, T.FALSE, timeout=timeout)
    return not r.ok
