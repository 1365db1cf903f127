"""What a failed obligation means: search for an assignment that satisfies its hypotheses and falsifies its goal."""
import math
import random
import time
from fractions import Fraction
import z3
from . import numeric, smt
from . import terms as T


def _leaves(ts):
    seen, out = set(), []
    st = list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("sel", "rv", "bsel", "bv"):
            out.append(x)
        st.extend(T.children(x))
        if x.op == "sum":
            st.extend(x.a[1:])
    return out


def _num(v):
    if z3.is_fp_value(v):
        if v.isNaN():
            return math.nan
        if v.isInf():
            return -math.inf if v.isNegative() else math.inf
        if v.isZero():
            return -0.0 if v.isNegative() else 0.0
        return eval_fp(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def eval_fp(v):
    x = v.significand_as_long() + (0 if v.isSubnormal() else 2 ** 52)
    e = v.exponent_as_long(True)
    e = -1074 if v.isSubnormal() or e == 0 else e - 1075
    x = Fraction(x) * (Fraction(2) ** e)
    return -float(x) if v.isNegative() else float(x)


def z3model(pc, goal, bounds, timeout=2000, salt=0, diff=False, fp=False):
    """(iv, leaf) of a z3 model of pc and not goal; None if there is none or it is not found"""
    tr = smt.Tr(fp=fp)
    try:
        hs = [tr.tr(p) for p in pc]
        g = z3.Not(tr.tr(goal))
    except NotImplementedError:
        return None
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("random_seed", salt)
    s.add(*hs)
    s.add(*tr.side)
    if not diff:
        s.add(g)
    for n, b in bounds.items():
        if n in tr.vars:
            s.add(tr.vars[n] <= b)
    if s.check() != z3.sat:
        return None
    m = s.model()
    iv, leaf = {}, {}
    for n, v in tr.vars.items():
        x = _num(m.eval(v, model_completion=True))
        if isinstance(x, int) and not isinstance(x, bool) and not n.startswith("r_") and not n.startswith("b_"):
            iv[n] = x
    for x in _leaves(list(pc) + [goal]):
        if x not in tr.memo:
            continue
        v = _num(m.eval(tr.memo[x], model_completion=True))
        if v is None:
            continue
        if x.op in ("sel", "bsel"):
            k = m.eval(tr.memo[x.a[1]], model_completion=True)
            k = _num(k)
            if k is None:
                continue
            key = (x.a[0], int(k))
        else:
            key = x.a[0]
        leaf[key] = v if isinstance(v, (bool, float)) else Fraction(v)
    return iv, leaf


class Cex:
    def __init__(self, iv, leaf):
        self.iv = dict(iv)
        self.leaf = {k: (v if isinstance(v, (bool, int)) else float(v)) for k, v in leaf.items()}

    def as_dict(self):
        return {"integers": {k: v for k, v in self.iv.items()},
                "reals": {str(k): (v if isinstance(v, bool) else float(v)) for k, v in list(self.leaf.items())[:40]}}


def holds(pc, goal, env):
    """True: pc holds and goal fails"""
    memo = {}
    try:
        for p in pc:
            if not numeric.ev(p, env, memo):
                return False
        return not numeric.ev(goal, env, memo)
    except numeric.Undefined:
        return False
    except RecursionError:
        return False


def vccex(o, seed=1, budget=6.0, maxsize=64, fp=False):
    """counterexample of the verification condition, or None"""
    t0 = time.time()
    pc, goal = list(o.pc or []), o.goal
    rng = random.Random(seed)
    if fp:
        for bound in ({"s": 6}, {"s": maxsize}, {}):
            r = z3model(pc, goal, bound, timeout=4000, fp=True)
            if r:
                return Cex(*r)
        return None
    intpc = [p for p in pc if not any(k not in ("iv",) for k, _ in T.fv(p))]
    bases = []
    for bound in ({"s": 6}, {"s": maxsize}, {"s": 2000}, {}):
        r = z3model(pc, goal, bound, timeout=1200, salt=rng.randint(0, 1000))
        if r:
            bases.append(r)
            if len(bases) >= 2:
                break
    for bound in ({"s": 3}, {"s": 7}, {"s": maxsize}, {"s": 2000}, {}):
        r = z3model(intpc, T.FALSE, bound, timeout=500, salt=rng.randint(0, 1000))
        if r:
            bases.append((r[0], {}))
    if not bases:
        bases = [({}, {})]
    tries = 0
    while time.time() - t0 < budget and tries < 400:
        iv, leaf = bases[tries % len(bases)]
        tries += 1
        lf = {k: (v if isinstance(v, bool) else numeric.mpf(v.numerator) / v.denominator) for k, v in leaf.items()}
        if tries > 2 * len(bases):
            # keep the integers, randomise some of the reals
            lf = {k: v for k, v in lf.items() if rng.random() < 0.6}
        iv = dict(iv)
        for p in list(pc) + [goal]:
            for k, n in T.fv(p):
                if k == "iv" and n not in iv:
                    iv[n] = rng.randint(0, 3)
        sc = rng.choice([1, 3, 3, 10, 1000])
        env = numeric.Env(rng.randint(0, 10 ** 9), iv, lf, -sc, sc)
        if holds(pc, goal, env):
            return Cex(env.iv, env.leaf)
    return None
