"""numerical evaluation of terms (40 digits) -- used to look for counterexamples of failed obligations, never to discharge one"""
import random
import mpmath
from . import terms as T

mp = mpmath.mp.clone()
mp.dps = 40
mpf = mp.mpf


class Undefined(Exception):
    pass


FUN = {"sqrt": mp.sqrt, "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "asin": mp.asin, "acos": mp.acos, "atan": mp.atan,
       "atan2": mp.atan2, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh, "asinh": mp.asinh, "acosh": mp.acosh, "atanh": mp.atanh,
       "exp": mp.exp, "log": mp.log, "log2": lambda x: mp.log(x, 2), "log10": lambda x: mp.log(x, 10), "exp2": lambda x: mpf(2) ** x,
       "expm1": mp.expm1, "log1p": mp.log1p, "hypot": lambda x, y: mp.sqrt(x * x + y * y),
       "hypot3": lambda x, y, z: mp.sqrt(x * x + y * y + z * z), "fabs": abs, "floor": mp.floor, "ceil": mp.ceil,
       "cbrt": lambda x: mp.cbrt(x) if x >= 0 else -mp.cbrt(-x), "fma": lambda a, b, c: a * b + c, "erf": mp.erf, "tgamma": mp.gamma,
       "fmin": min, "fmax": max, "copysign": lambda a, b: abs(a) if b >= 0 else -abs(a),
       "trunc": lambda x: mp.floor(x) if x >= 0 else mp.ceil(x), "fmod": lambda a, b: a - b * (mp.floor(a / b) if a / b >= 0 else mp.ceil(a / b))}


def fun(f, a):
    try:
        if f == "pow":
            if a[0] == 0 and a[1] <= 0:
                if a[1] == 0:
                    return mpf(1)
                raise Undefined
            r = mp.power(a[0], a[1])
        elif f in FUN:
            r = FUN[f](*a)
        else:
            raise Undefined("no numeric " + f)
    except (ZeroDivisionError, ValueError, OverflowError):
        raise Undefined
    if isinstance(r, mp.mpc):
        if abs(r.imag) > mpf(10) ** -30 * (1 + abs(r.real)):
            raise Undefined
        r = r.real
    if not mp.isfinite(r):
        raise Undefined
    return r


class Env:
    """lazy random assignment; fixed values may be given beforehand"""

    def __init__(self, seed=0, iv=None, leaf=None, lo=-3, hi=3):
        self.rng = random.Random(seed)
        self.iv = dict(iv or {})
        self.leaf = dict(leaf or {})
        self.lo, self.hi = lo, hi

    def real(self, key):
        if key not in self.leaf:
            self.leaf[key] = mpf(self.rng.uniform(self.lo, self.hi))
        return self.leaf[key]

    def boolean(self, key):
        if key not in self.leaf:
            self.leaf[key] = self.rng.random() < 0.5
        return self.leaf[key]

    def integer(self, name):
        if name not in self.iv:
            raise Undefined("integer " + name)
        return self.iv[name]


def ev(t, env, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = _ev(t, env, memo)
    memo[t] = r
    return r


def _ev(t, env, memo):
    o = t.op
    if t.sort == "I":
        if o == "poly":
            v = 0
            from fractions import Fraction
            v = Fraction(0)
            for m, c in t.a:
                k = c
                for x, e in m:
                    k *= ev(x, env, memo) ** e
                v += k
            if v.denominator != 1:
                raise Undefined("fraction")
            return int(v)
        if o == "iv":
            return env.integer(t.a[0])
        if o == "fdiv":
            return ev(t.a[0], env, memo) // t.a[1]
        if o == "ite":
            return ev(t.a[1], env, memo) if ev(t.a[0], env, memo) else ev(t.a[2], env, memo)
        if o == "trunc":
            v = ev(t.a[0], env, memo)
            return int(mp.floor(v)) if v >= 0 else int(mp.ceil(v))
        if o == "iapp":
            key = ("iapp", t.a[0]) + tuple(ev(x, env, memo) for x in t.a[1:])
            if key not in env.leaf:
                env.leaf[key] = env.rng.randint(0, 50)
            return env.leaf[key]
    elif t.sort == "R":
        if o == "rc":
            return mpf(t.a[0].numerator) / t.a[0].denominator
        if o == "rv":
            return env.real(t.a[0])
        if o == "sel":
            return env.real((t.a[0], ev(t.a[1], env, memo)))
        if o == "i2r":
            return mpf(ev(t.a[0], env, memo))
        if o == "add":
            return ev(t.a[0], env, memo) + ev(t.a[1], env, memo)
        if o == "mul":
            return ev(t.a[0], env, memo) * ev(t.a[1], env, memo)
        if o == "neg":
            return -ev(t.a[0], env, memo)
        if o == "div":
            d = ev(t.a[1], env, memo)
            if d == 0:
                raise Undefined
            return ev(t.a[0], env, memo) / d
        if o == "ite":
            return ev(t.a[1], env, memo) if ev(t.a[0], env, memo) else ev(t.a[2], env, memo)
        if o == "rapp":
            return fun(t.a[0], [ev(x, env, memo) for x in t.a[1:]])
        if o == "sum":
            v, lo, hi, body = t.a
            lo, hi = ev(lo, env, memo), ev(hi, env, memo)
            nm = v.a[0]
            old = env.iv.get(nm)
            r = mpf(0)
            for k in range(lo, hi):
                env.iv[nm] = k
                r += ev(body, env, {})
            if old is None:
                env.iv.pop(nm, None)
            else:
                env.iv[nm] = old
            return r
    else:
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "bv":
            return env.boolean(t.a[0])
        if o == "bsel":
            return env.boolean((t.a[0], ev(t.a[1], env, memo)))
        if o == "not":
            return not ev(t.a[0], env, memo)
        if o == "and":
            return all(ev(x, env, memo) for x in t.a)
        if o == "or":
            return any(ev(x, env, memo) for x in t.a)
        if o in ("le0", "eq0"):
            v = ev(t.a[0], env, memo)
            return v <= 0 if o == "le0" else v == 0
        if o == "fcmp":
            a, b = ev(t.a[1], env, memo), ev(t.a[2], env, memo)
            if t.a[0] == "oeq":
                return abs(a - b) <= mpf(10) ** -25 * (1 + abs(a) + abs(b))
            return a < b if t.a[0] == "olt" else a <= b
    raise Undefined(o)
