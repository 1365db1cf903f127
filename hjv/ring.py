"""Decision procedure for equality of real terms: rational-function normal form modulo the algebraic laws of libm.

Back end name in the evidence: "hjv-ring".  Sound over the reals provided every denominator that occurs is nonzero,
which the executor checks separately (obligation kind 'div').  Laws used (all true on the functions' domains):
  sqrt(u)^2=u, cbrt(u)^3=u, cos^2=1-sin^2, tan=sin/cos, cosh=(e+1/e)/2, sinh=(e-1/e)/2, tanh=(e^2-1)/(e^2+1) with
  e=exp(x), exp(-u)=1/exp(u), exp2/expm1/log1p/log2/log10 by definition, pow(x,n)=x^n, pow(x,n+1/2)=x^n sqrt(x),
  pow(x,b+k)=pow(x,b) x^k, hypot=sqrt of the sum of squares, fabs only syntactically, fma(a,b,c)=ab+c.
"""
from fractions import Fraction
from . import terms as T

LIMIT = 20000


class TooBig(Exception):
    pass


# polynomials: dict mono->Fraction, mono = tuple sorted ((key,exp),...) ; key = hashable atom key
def padd(p, q, k=1):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mm(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for x, e in n:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > LIMIT:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, k in q.items():
            mn = _mm(m, n)
            v = r.get(mn, 0) + c * k
            if v:
                r[mn] = v
            else:
                r.pop(mn, None)
    return reduce_poly(r)


def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


ONE = {(): Fraction(1)}


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d


# atom registry: key (int) -> description
_keys = {}
_desc = {}
_pow_rules = {}     # key -> (exp, replacement poly num, den) : atom^exp = num/den   (den must be 1 here)


def akey(desc):
    k = _keys.get(desc)
    if k is None:
        k = len(_keys)
        _keys[desc] = k
        _desc[k] = desc
    return k


def patom(desc):
    return {((akey(desc), 1),): Fraction(1)}


def reduce_poly(p):
    """apply atom^e rewriting until none applies"""
    if not _pow_rules:
        return p
    while True:
        hit = None
        for m in p:
            for x, e in m:
                if x in _pow_rules and e >= _pow_rules[x][0]:
                    hit = (m, x, e)
                    break
            if hit:
                break
        if not hit:
            return p
        m, x, e = hit
        c = p[m]
        p = dict(p)
        del p[m]
        ex, rep = _pow_rules[x]
        rest = tuple((y, f if y != x else f - ex) for y, f in m if y != x or f > ex)
        add = {}
        for n, k in rep.items():
            mn = _mm(rest, n)
            add[mn] = add.get(mn, 0) + k * c
        p = padd(p, add)
        if len(p) > LIMIT:
            raise TooBig()


def simp(r):
    """cheap normalisation: monomial content, constant denominators, exact division attempt"""
    n, d = r.n, r.d
    if not n:
        return Rat({}, ONE)
    if len(d) == 1:
        (m, c), = d.items()
        # cancel common monomial
        if m:
            com = dict(m)
            for mm in n:
                dd = dict(mm)
                for x in list(com):
                    com[x] = min(com[x], dd.get(x, 0))
                    if com[x] == 0:
                        del com[x]
                if not com:
                    break
            if com:
                def red(mono):
                    return tuple((x, e - com.get(x, 0)) for x, e in mono if e - com.get(x, 0))
                n = {red(k): v for k, v in n.items()}
                d = {red(m): c}
        (m, c), = d.items()
        if c != 1:
            n = {k: v / c for k, v in n.items()}
            d = {m: Fraction(1)}
        return Rat(n, d)
    # identical up to constant
    if len(n) == len(d) and set(n) == set(d):
        it = iter(n)
        k0 = next(it)
        q = n[k0] / d[k0]
        if all(n[k] == q * d[k] for k in n):
            return Rat(pconst(q), ONE)
    # normalise leading coefficient of the denominator
    lead = max(d)
    c = d[lead]
    if c != 1:
        n = {k: v / c for k, v in n.items()}
        d = {k: v / c for k, v in d.items()}
    # try exact division d | n  (only if cheap)
    if len(n) >= len(d) and len(d) <= 6 and len(n) <= 400:
        q = pdivexact(n, d)
        if q is not None:
            return Rat(q, ONE)
    return Rat(n, d)


def pdivexact(n, d):
    # lexicographic monomial order on exponent vectors over the union of keys
    keys = sorted({x for m in list(n) + list(d) for x, _ in m})

    def vec(m):
        dd = dict(m)
        return tuple(dd.get(k, 0) for k in keys)
    nn = {vec(m): c for m, c in n.items()}
    dv = {vec(m): c for m, c in d.items()}
    ld = max(dv)
    q = {}
    steps = 0
    while nn:
        steps += 1
        if steps > 400:
            return None
        ln = max(nn)
        e = tuple(a - b for a, b in zip(ln, ld))
        if min(e, default=0) < 0:
            return None
        c = nn[ln] / dv[ld]
        q[e] = c
        for m, k in dv.items():
            mm = tuple(a + b for a, b in zip(m, e))
            v = nn.get(mm, 0) - c * k
            if v:
                nn[mm] = v
            else:
                nn.pop(mm, None)
    return {tuple((k, x) for k, x in zip(keys, e) if x): c for e, c in q.items()}


def r_add(a, b, k=1):
    if a.d == b.d:
        return simp(Rat(reduce_poly(padd(a.n, b.n, k)), a.d))
    return simp(Rat(reduce_poly(padd(pmul(a.n, b.d), pmul(b.n, a.d), k)), pmul(a.d, b.d)))


def r_mul(a, b):
    return simp(Rat(pmul(a.n, b.n), pmul(a.d, b.d)))


def r_inv(a):
    if not a.n:
        raise ZeroDivisionError
    return simp(Rat(a.d, a.n))


def r_pow(a, k):
    if k < 0:
        return r_pow(r_inv(a), -k)
    if k > 16:
        raise TooBig()
    r = Rat(ONE, ONE)
    for _ in range(k):
        r = r_mul(r, a)
    return r


def r_key(a):
    return (frozenset(a.n.items()), frozenset(a.d.items()))


def r_const(a):
    if a.d == ONE:
        if not a.n:
            return Fraction(0)
        if len(a.n) == 1 and () in a.n:
            return a.n[()]
    return None


def int_rat(p):
    r = {}
    for m, c in p.a:
        mono = tuple(sorted((akey(("int", x)), e) for x, e in m))
        r[mono] = r.get(mono, 0) + c
    return Rat({k: v for k, v in r.items() if v}, ONE)


def ratom(desc):
    return Rat(patom(desc), ONE)


def r_sqrt(u):
    c = r_const(u)
    if c is not None and c >= 0:
        n, d = c.numerator, c.denominator
        import math
        if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return Rat(pconst(Fraction(math.isqrt(n), math.isqrt(d))), ONE)
    # sqrt(n/d) = sqrt(n*d)/d is only valid for d>0; keep atom on the pair, rule: atom^2 = n/d
    if u.d == ONE:
        a = patom(("app", "sqrt", r_key(u)))
        (k, _), = list(a)[0]
        _pow_rules.setdefault(k, (2, u.n))
        return Rat(a, ONE)
    # represent with atom s^2 = n*d, value s/|d|: use a dedicated atom t with t^2*d = n -> handle as rational rule
    a = patom(("app", "sqrtq", r_key(u)))
    (k, _), = list(a)[0]
    # value v with v^2 = n/d ; write v = w / d , w^2 = n*d  (w := v*d, sign absorbed by definition of w)
    if k not in _pow_rules:
        _pow_rules[k] = (2, pmul(u.n, u.d))
    return simp(Rat(a, u.d))


def r_app(f, args, rargs):
    A = rargs
    if f == "sqrt":
        return r_sqrt(A[0])
    if f == "cbrt":
        u = A[0]
        if u.d == ONE:
            a = patom(("app", "cbrt", r_key(u)))
            (k, _), = list(a)[0]
            _pow_rules.setdefault(k, (3, u.n))
            return Rat(a, ONE)
    if f in ("hypot", "hypot3"):
        s = None
        for x in A:
            q = r_mul(x, x)
            s = q if s is None else r_add(s, q)
        return r_sqrt(s)
    if f == "exp":
        u = A[0]
        if r_const(u) == 0:
            return Rat(ONE, ONE)
        n = u.n
        lead = max(n)
        if n[lead] < 0:
            v = Rat({k: -c for k, c in n.items()}, u.d)
            return r_inv(ratom(("app", "exp", r_key(v))))
        # exp(2x) -> exp(x)^2 for integer content
        from math import gcd
        if all(c.denominator == 1 for c in n.values()):
            g = 0
            for c in n.values():
                g = gcd(g, int(c))
            if 1 < g <= 8:
                v = Rat({k: c / g for k, c in n.items()}, u.d)
                return r_pow(ratom(("app", "exp", r_key(v))), g)
        return ratom(("app", "exp", r_key(u)))
    if f == "expm1":
        return r_add(r_app("exp", None, A), Rat(ONE, ONE), -1)
    if f == "exp2":
        return r_app("exp", None, [r_mul(A[0], r_app("log", None, [Rat(pconst(2), ONE)]))])
    if f in ("cosh", "sinh", "tanh"):
        e = r_app("exp", None, A)
        ie = r_inv(e)
        half = Rat(pconst(Fraction(1, 2)), ONE)
        if f == "cosh":
            return r_mul(half, r_add(e, ie))
        if f == "sinh":
            return r_mul(half, r_add(e, ie, -1))
        return r_mul(r_add(e, ie, -1), r_inv(r_add(e, ie)))
    if f in ("sin", "cos", "tan"):
        u = A[0]
        sgn = 1
        if u.n and u.n[max(u.n)] < 0:
            u = Rat({k: -c for k, c in u.n.items()}, u.d)
            sgn = -1
        k = r_key(u)
        s = patom(("app", "sin", k))
        c = patom(("app", "cos", k))
        (ck, _), = list(c)[0]
        _pow_rules.setdefault(ck, (2, padd(ONE, {((akey(("app", "sin", k)), 2),): Fraction(1)}, -1)))
        S = Rat(s if sgn == 1 else {m: -v for m, v in s.items()}, ONE)
        C = Rat(c, ONE)
        if f == "sin":
            return S
        if f == "cos":
            return C
        return r_mul(S, r_inv(C))
    if f == "log2":
        return r_mul(r_app("log", None, A), r_inv(r_app("log", None, [Rat(pconst(2), ONE)])))
    if f == "log10":
        return r_mul(r_app("log", None, A), r_inv(r_app("log", None, [Rat(pconst(10), ONE)])))
    if f == "log1p":
        return r_app("log", None, [r_add(A[0], Rat(ONE, ONE))])
    if f == "log":
        if r_const(A[0]) == 1:
            return Rat({}, ONE)
    if f == "fma":
        return r_add(r_mul(A[0], A[1]), A[2])
    if f == "pow":
        x, b = A
        # split exponent into integer part and rest
        if b.d == ONE:
            k = b.n.get((), Fraction(0))
            import math
            ip = math.floor(k)
            rest = {m: c for m, c in b.n.items() if m != ()}
            fr = k - ip
            if not rest and fr == 0:
                return r_pow(x, ip)
            if not rest and fr == Fraction(1, 2):
                return r_mul(r_pow(x, ip), r_sqrt(x))
            if fr:
                rest[()] = fr
            base = ratom(("app", "pow", (r_key(x), r_key(Rat(rest, ONE)))))
            return r_mul(base, r_pow(x, ip))
        return ratom(("app", "pow", (r_key(x), r_key(b))))
    return ratom(("app", f, tuple(r_key(a) for a in A)))


def norm(t):
    """Rat normal form of a real Term (cached)"""
    if t._norm is not None:
        return t._norm
    st = [t]
    while st:
        x = st[-1]
        if x._norm is not None:
            st.pop()
            continue
        if x.op in ("add", "mul", "neg", "div", "rapp"):
            ch = [c for c in x.a if isinstance(c, T.Term)]
            todo = [c for c in ch if c._norm is None]
            if todo:
                st.extend(todo)
                continue
        x._norm = _norm1(x)
        st.pop()
    return t._norm


def _norm1(x):
    o = x.op
    if o == "rc":
        return Rat(pconst(x.a[0]), ONE)
    if o == "add":
        return r_add(x.a[0]._norm, x.a[1]._norm)
    if o == "mul":
        return r_mul(x.a[0]._norm, x.a[1]._norm)
    if o == "neg":
        n = x.a[0]._norm
        return Rat({k: -c for k, c in n.n.items()}, n.d)
    if o == "div":
        d = x.a[1]._norm
        if not d.n:
            return ratom(("t", x))
        return r_mul(x.a[0]._norm, r_inv(d))
    if o == "rapp":
        return r_app(x.a[0], x.a[1:], [c._norm for c in x.a[1:]])
    if o == "i2r":
        return int_rat(x.a[0])
    if o == "sum":
        # linear in the body: constants factored out; canonical bound variable
        v = x.a[0]
        canon = T.mk("I", "iv", "sumvar%d" % _sum_depth(x))
        body = T.subst(x.a[3], {("iv", v.a[0]): T.iatom(canon)})
        b = norm(body)
        lo, hi = x.a[1], x.a[2]
        # factor monomials independent of the bound variable
        dep = lambda key: _depends(key, ("iv", canon.a[0]))
        if any(dep(k) for m in b.d for k, _ in m):
            return ratom(("sum", lo, hi, r_key(b)))
        acc = {}
        for m, c in b.n.items():
            ins = tuple((k, e) for k, e in m if dep(k))
            out = tuple((k, e) for k, e in m if not dep(k))
            if not ins:
                cnt = int_rat(T.isub(hi, lo))
                part = pmul({out: c}, cnt.n)
            else:
                a = akey(("sum", lo, hi, ins))
                part = {_mm(out, ((a, 1),)): c}
            acc = padd(acc, part)
        return simp(Rat(reduce_poly(acc), b.d))
    return ratom(("t", x))


def _sum_depth(x):
    d = 0
    st = [(x.a[3], 1)]
    best = 1
    while st:
        y, k = st.pop()
        if y.op == "sum":
            k += 1
            best = max(best, k)
        for c in T.children(y):
            if ("iv" if False else True):
                st.append((c, k))
    return best


def _depends(key, var):
    return var in _key_fv(key)


_kfv = {}


def _key_fv(key):
    r = _kfv.get(key)
    if r is not None:
        return r
    d = _desc[key]
    s = frozenset()
    if d[0] == "t" or d[0] == "int":
        s = T.fv(d[1])
    else:
        acc = set()

        def walk(o):
            if isinstance(o, T.Term):
                acc.update(T.fv(o))
            elif isinstance(o, (tuple, frozenset)):
                # monomials appear as ((key,exp),...) pairs
                for y in o:
                    walk2(y)

        def walk2(o):
            if isinstance(o, T.Term):
                acc.update(T.fv(o))
            elif isinstance(o, frozenset):
                for mono, c in o:
                    for k, e in mono:
                        acc.update(_key_fv(k))
            elif isinstance(o, tuple):
                if len(o) == 2 and isinstance(o[0], int) and isinstance(o[1], int):
                    acc.update(_key_fv(o[0]))
                else:
                    for y in o:
                        walk2(y)
        walk2(d[1:] if d[0] != "sum" else (d[1], d[2], d[3]))
        s = frozenset(acc)
    _kfv[key] = s
    return s


def merge_sqrt(p):
    """sqrt(u)*sqrt(v) = sqrt(u*v) (wherever the left side is defined)"""
    for _ in range(60):
        hit = None
        for m in p:
            ss = [k for k, e in m if _desc[k][0] == "app" and _desc[k][1] == "sqrt"]
            if len(ss) >= 2:
                hit = (m, ss[0], ss[1])
                break
        if not hit:
            return p
        m, k1, k2 = hit
        c = p[m]
        u = r_mul(Rat(_pow_rules[k1][1], ONE), Rat(_pow_rules[k2][1], ONE))
        s = r_sqrt(u)
        if s.d != ONE:
            return p
        rest = tuple((k, e - 1 if k in (k1, k2) else e) for k, e in m if k not in (k1, k2) or e > 1)
        p = dict(p)
        del p[m]
        p = reduce_poly(padd(p, pmul({rest: c}, s.n)))
        if len(p) > LIMIT:
            raise TooBig()
    return p


def equal(a, b):
    """True if a == b is proved"""
    if a is b:
        return True
    try:
        x, y = norm(a), norm(b)
        if x.d == y.d:
            d = padd(x.n, y.n, -1)
        else:
            d = padd(pmul(x.n, y.d), pmul(y.n, x.d), -1)
        d = reduce_poly(d)
        return not d or not merge_sqrt(d)
    except (TooBig, ZeroDivisionError, RecursionError):
        return False
