"""Contracts of the public operations of hyperjet.

Every operation is specified by the property statement only: the value and the first and second partial derivatives of the
mathematical function it stands for, as terms over the values of its jet arguments; the derivative of the jet follows from the
chain rule (see `check_jet` in contracts.py).  Nothing here is derived from the code of the header.
"""
from . import terms as T

R0, R1 = T.R0, T.R1
c = T.rc


def lt(a, b):
    return T.fcmp("olt", a, b)


def ne0(a):
    return T.bnot(T.fcmp("oeq", a, R0))


def pos(a):
    return lt(R0, a)


def mul(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = T.rmul(r, x)
    return r


def add(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = T.radd(r, x)
    return r


sub, neg, div = T.rsub, T.rneg, T.rdiv


def fn(f, *a):
    return T.rapp(f, *a)


class Op:
    """kind: new   -- builds a result jet in *r
             inpl  -- modifies *a, returns the address of the object it returns a reference to
             bool  -- returns a truth value
       jets: number of jet arguments; scal: number of scalar arguments (s, t); idx: number of index arguments (i, j)
       spec(vals, scalars) -> (f, [first partials], [[second partials]])
       dom(vals, scalars)  -> list of hypotheses (the open domain of differentiability)"""

    def __init__(self, name, body, jets, spec, dom=None, scal=0, kind="new", idx=0, types="DS", groups=(), title="", mono=None):
        self.name, self.body, self.jets, self.spec, self.dom = name, body, jets, spec, dom or (lambda v, s: [])
        self.scal, self.kind, self.idx, self.types, self.groups, self.title = scal, kind, idx, types, set(groups), title
        self.mono = mono      # sampling ranges


OPS = {}


def op(*a, **k):
    o = Op(*a, **k)
    OPS[o.name] = o
    return o


def lin(coefs):
    n = len(coefs)
    return coefs, [[R0] * n for _ in range(n)]


# ------------------------------------------------------------------ arithmetic
def s_add(v, s):
    return (add(v[0], v[1]),) + lin([R1, R1])


def s_sub(v, s):
    return (sub(v[0], v[1]),) + lin([R1, c(-1)])


def s_mul(v, s):
    return mul(v[0], v[1]), [v[1], v[0]], [[R0, R1], [R1, R0]]


def s_div(v, s):
    a, b = v
    b2 = mul(b, b)
    return div(a, b), [div(R1, b), neg(div(a, b2))], [[R0, neg(div(R1, b2))], [neg(div(R1, b2)), div(mul(c(2), a), mul(b2, b))]]


def u(f, d, dd):
    return f, [d], [[dd]]


def s_recip(num):
    def g(v, s):
        n = num(s)
        x = v[0]
        return u(div(n, x), neg(div(n, mul(x, x))), div(mul(c(2), n), mul(x, x, x)))
    return g


dom_b = lambda v, s: [ne0(v[1])]
dom_a = lambda v, s: [ne0(v[0])]
dom_s = lambda v, s: [ne0(s[0])]
A = ("arith",)
I = ("inplace",)

op("neg", "new(r) T(-*a);", 1, lambda v, s: u(neg(v[0]), c(-1), R0), groups=A)
op("add", "new(r) T(*a + *b);", 2, s_add, groups=A)
op("add_s", "new(r) T(*a + s);", 1, lambda v, s: u(add(v[0], s[0]), R1, R0), scal=1, groups=A)
op("s_add", "new(r) T(s + *a);", 1, lambda v, s: u(add(v[0], s[0]), R1, R0), scal=1, groups=A)
op("sub", "new(r) T(*a - *b);", 2, s_sub, groups=A)
op("sub_s", "new(r) T(*a - s);", 1, lambda v, s: u(sub(v[0], s[0]), R1, R0), scal=1, groups=A)
op("s_sub", "new(r) T(s - *a);", 1, lambda v, s: u(sub(s[0], v[0]), c(-1), R0), scal=1, groups=A)
op("mul", "new(r) T(*a * *b);", 2, s_mul, groups=A)
op("mul_s", "new(r) T(*a * s);", 1, lambda v, s: u(mul(v[0], s[0]), s[0], R0), scal=1, groups=A)
op("s_mul", "new(r) T(s * *a);", 1, lambda v, s: u(mul(v[0], s[0]), s[0], R0), scal=1, groups=A)
op("div", "new(r) T(*a / *b);", 2, s_div, dom_b, groups=A)
op("div_s", "new(r) T(*a / s);", 1, lambda v, s: u(div(v[0], s[0]), div(R1, s[0]), R0), dom_s, scal=1, groups=A)
op("s_div", "new(r) T(s / *a);", 1, s_recip(lambda s: s[0]), dom_a, scal=1, groups=A)
op("reciprocal", "new(r) T(a->reciprocal());", 1, s_recip(lambda s: R1), dom_a, groups=A)

op("iadd", "return &(*a += *b);", 2, s_add, kind="inpl", groups=I)
op("isub", "return &(*a -= *b);", 2, s_sub, kind="inpl", groups=I)
op("imul", "return &(*a *= *b);", 2, s_mul, kind="inpl", groups=I)
op("idiv", "return &(*a /= *b);", 2, s_div, dom_b, kind="inpl", groups=I)
op("iadd_s", "return &(*a += s);", 1, lambda v, s: u(add(v[0], s[0]), R1, R0), scal=1, kind="inpl", groups=I)
op("isub_s", "return &(*a -= s);", 1, lambda v, s: u(sub(v[0], s[0]), R1, R0), scal=1, kind="inpl", groups=I)
op("imul_s", "return &(*a *= s);", 1, lambda v, s: u(mul(v[0], s[0]), s[0], R0), scal=1, kind="inpl", groups=I)
op("idiv_s", "return &(*a /= s);", 1, lambda v, s: u(div(v[0], s[0]), div(R1, s[0]), R0), dom_s, scal=1, kind="inpl", groups=I)
# the scalar operand is the value of the object itself (for DDScalar a reference into its storage); the scalar is a constant
# for differentiation
op("iadd_f", "return &(*a += a->f());", 1, lambda v, s: u(add(v[0], v[0]), R1, R0), kind="inpl", groups=I)
op("isub_f", "return &(*a -= a->f());", 1, lambda v, s: u(R0, R1, R0), kind="inpl", groups=I)
op("imul_f", "return &(*a *= a->f());", 1, lambda v, s: u(mul(v[0], v[0]), v[0], R0), kind="inpl", groups=I)
op("idiv_f", "return &(*a /= a->f());", 1, lambda v, s: u(R1, div(R1, v[0]), R0), dom_a, kind="inpl", groups=I)


# ------------------------------------------------------------------ elementary functions of one argument
def el(name, spec, dom=None, body=None, scal=0, idx=0, member=True, types="DS", rng=None):
    op(name, body or "using std::%s; new(r) T(%s(*a));" % (name, name), 1, spec, dom, scal=scal, idx=idx, groups=("elem",), types=types, mono=rng)
    if member and body is None:
        op("m_" + name, "new(r) T(a->%s());" % name, 1, spec, dom, scal=scal, groups=("elem", "member"), types=types, mono=rng)


def sp_sqrt(v, s):
    x = v[0]
    r = fn("sqrt", x)
    return u(r, div(R1, mul(c(2), r)), neg(div(R1, mul(c(4), x, r))))


def sp_cbrt(v, s):
    x = v[0]
    r = fn("cbrt", x)
    return u(r, div(R1, mul(c(3), r, r)), neg(div(c(2), mul(c(9), x, r, r))))


def sp_tan(v, s):
    x = v[0]
    co, si = fn("cos", x), fn("sin", x)
    return u(fn("tan", x), div(R1, mul(co, co)), div(mul(c(2), si), mul(co, co, co)))


def sp_arc(name, sign):
    def g(v, s):
        x = v[0]
        t = sub(R1, mul(x, x))
        q = fn("sqrt", t)
        return u(fn(name, x), div(c(sign), q), div(mul(c(sign), x), mul(t, q)))
    return g


def sp_atan(v, s):
    x = v[0]
    t = add(R1, mul(x, x))
    return u(fn("atan", x), div(R1, t), neg(div(mul(c(2), x), mul(t, t))))


def sp_tanh(v, s):
    x = v[0]
    ch, sh = fn("cosh", x), fn("sinh", x)
    return u(fn("tanh", x), div(R1, mul(ch, ch)), neg(div(mul(c(2), sh), mul(ch, ch, ch))))


def sp_acosh(v, s):
    x = v[0]
    p, m = add(x, R1), sub(x, R1)
    q = mul(fn("sqrt", m), fn("sqrt", p))
    return u(fn("acosh", x), div(R1, q), neg(div(x, mul(p, m, q))))


def sp_asinh(v, s):
    x = v[0]
    t = add(R1, mul(x, x))
    q = fn("sqrt", t)
    return u(fn("asinh", x), div(R1, q), neg(div(x, mul(t, q))))


def sp_atanh(v, s):
    x = v[0]
    t = sub(R1, mul(x, x))
    return u(fn("atanh", x), div(R1, t), div(mul(c(2), x), mul(t, t)))


def sp_log(f, k):
    def g(v, s):
        x = v[0]
        return u(f(x), div(R1, mul(k(s), x)), neg(div(R1, mul(k(s), x, x))))
    return g


def sp_exp(v, s):
    e = fn("exp", v[0])
    return u(e, e, e)


def sp_pow(b):
    def g(v, s):
        x, n = v[0], b(s)
        return u(fn("pow", x, n), mul(n, fn("pow", x, sub(n, R1))), mul(n, sub(n, R1), fn("pow", x, sub(n, c(2)))))
    return g


inside = lambda v, s: [lt(c(-1), v[0]), lt(v[0], R1)]
posx = lambda v, s: [pos(v[0])]
el("sqrt", sp_sqrt, posx, rng=(0.05, 9))
el("cbrt", sp_cbrt, dom_a)
el("cos", lambda v, s: u(fn("cos", v[0]), neg(fn("sin", v[0])), neg(fn("cos", v[0]))))
el("sin", lambda v, s: u(fn("sin", v[0]), fn("cos", v[0]), neg(fn("sin", v[0]))))
el("tan", sp_tan, lambda v, s: [ne0(fn("cos", v[0]))], rng=(-1.4, 1.4))
el("acos", sp_arc("acos", -1), inside, rng=(-0.95, 0.95))
el("asin", sp_arc("asin", 1), inside, rng=(-0.95, 0.95))
el("atan", sp_atan)
el("cosh", lambda v, s: u(fn("cosh", v[0]), fn("sinh", v[0]), fn("cosh", v[0])))
el("sinh", lambda v, s: u(fn("sinh", v[0]), fn("cosh", v[0]), fn("sinh", v[0])))
el("tanh", sp_tanh)
el("acosh", sp_acosh, lambda v, s: [lt(R1, v[0])], rng=(1.05, 9))
el("asinh", sp_asinh)
el("atanh", sp_atanh, inside, rng=(-0.95, 0.95))
el("exp", sp_exp)
el("log", sp_log(lambda x: fn("log", x), lambda s: R1), posx, rng=(0.05, 9))
el("log2", sp_log(lambda x: fn("log2", x), lambda s: fn("log", c(2))), posx, rng=(0.05, 9))
el("log10", sp_log(lambda x: fn("log10", x), lambda s: fn("log", c(10))), posx, rng=(0.05, 9))
op("log_b", "new(r) T(a->log(s));", 1,
   lambda v, s: u(div(fn("log", v[0]), fn("log", s[0])), div(R1, mul(v[0], fn("log", s[0]))), neg(div(R1, mul(v[0], v[0], fn("log", s[0]))))),
   lambda v, s: [pos(v[0]), pos(s[0]), T.bnot(T.fcmp("oeq", s[0], R1)), ne0(fn("log", s[0]))], scal=1, groups=("elem",), mono=(0.05, 9))
op("pow", "new(r) T(pow(*a, s));", 1, sp_pow(lambda s: s[0]), posx, scal=1, groups=("elem",), mono=(0.05, 5))
op("m_pow", "new(r) T(a->pow(s));", 1, sp_pow(lambda s: s[0]), posx, scal=1, groups=("elem", "member"), mono=(0.05, 5))
op("pow_i", "new(r) T(pow(*a, i));", 1, sp_pow(lambda s: s[-1]), dom_a, idx=1, groups=("elem",), mono=(-5, 5))
for _k in (-3, -2, -1, 0, 1, 2, 3, 4):
    def _mk(k):
        def g(v, s):
            x = v[0]

            def p(n):
                r = R1
                for _ in range(abs(n)):
                    r = mul(r, x)
                return r if n >= 0 else div(R1, r)
            return u(p(k), mul(c(k), p(k - 1)), mul(c(k * (k - 1)), p(k - 2)))
        return g
    op("pow_c%d" % _k if _k >= 0 else "pow_cm%d" % -_k, "new(r) T(pow(*a, hyperjet::index(%d)));" % _k, 1, _mk(_k), dom_a, groups=("elem",))


# ------------------------------------------------------------------ functions of two and three arguments
def sp_atan2(v, s):
    y, x = v
    q = add(mul(x, x), mul(y, y))
    q2 = mul(q, q)
    yy = neg(div(mul(c(2), x, y), q2))
    xy = div(sub(mul(y, y), mul(x, x)), q2)
    return fn("atan2", y, x), [div(x, q), neg(div(y, q))], [[yy, xy], [xy, neg(yy)]]


def sp_hypot(n):
    def g(v, s):
        r = fn("hypot" if n == 2 else "hypot3", *v)
        r3 = mul(r, r, r)
        d = [div(x, r) for x in v]
        dd = [[None] * n for _ in range(n)]
        for k in range(n):
            for l in range(n):
                if k == l:
                    o = [mul(v[m], v[m]) for m in range(n) if m != k]
                    dd[k][l] = div(add(*o), r3)
                else:
                    dd[k][l] = neg(div(mul(v[k], v[l]), r3))
        return r, d, dd
    return g


def any0(v, s):
    q = R0
    for x in v:
        q = add(q, mul(x, x))
    return [pos(q)]


op("atan2", "using std::atan2; new(r) T(atan2(*a, *b));", 2, sp_atan2, any0, groups=("multi",))
op("m_atan2", "new(r) T(a->atan2(*b));", 2, sp_atan2, any0, groups=("multi", "member"))
op("hypot2", "using std::hypot; new(r) T(hypot(*a, *b));", 2, sp_hypot(2), any0, groups=("multi",))
op("m_hypot2", "new(r) T(T::hypot(*a, *b));", 2, sp_hypot(2), any0, groups=("multi", "member"))
op("hypot3", "using std::hypot; new(r) T(hypot(*a, *b, *c));", 3, sp_hypot(3), any0, groups=("multi",))
op("m_hypot3", "new(r) T(T::hypot(*a, *b, *c));", 3, sp_hypot(3), any0, groups=("multi", "member"))

# ------------------------------------------------------------------ comparison: by value only
CMP = {"eq": ("==", lambda a, b: T.fcmp("oeq", a, b)), "ne": ("!=", lambda a, b: T.bnot(T.fcmp("oeq", a, b))),
       "lt": ("<", lambda a, b: T.fcmp("olt", a, b)), "gt": (">", lambda a, b: T.fcmp("olt", b, a)),
       "le": ("<=", lambda a, b: T.fcmp("ole", a, b)), "ge": (">=", lambda a, b: T.fcmp("ole", b, a))}
for _n, (_o, _f) in CMP.items():
    op("cmp_" + _n, "return *a %s *b;" % _o, 2, (lambda f: lambda v, s: f(v[0], v[1]))(_f), kind="bool", groups=("cmp",))
    op("cmps_" + _n, "return *a %s s;" % _o, 1, (lambda f: lambda v, s: f(v[0], s[0]))(_f), scal=1, kind="bool", groups=("cmp",))
    op("scmp_" + _n, "return s %s *a;" % _o, 1, (lambda f: lambda v, s: f(s[0], v[0]))(_f), scal=1, kind="bool", groups=("cmp",))
for _m in ("abs", "m_abs"):
    _b = "using std::abs; new(r) T(abs(*a));" if _m == "abs" else "new(r) T(a->abs());"
    op(_m, _b, 1, lambda v, s: u(T.rite(lt(v[0], R0), neg(v[0]), v[0]), T.rite(lt(v[0], R0), c(-1), R1), R0), dom_a, groups=("abs",))
