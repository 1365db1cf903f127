"""Hash-consed terms used in verification conditions.

Sorts: 'I' mathematical integers (canonical polynomials with rational coefficients over integer atoms),
       'R' mathematical reals, 'B' booleans.
"""
import math
from fractions import Fraction
import itertools

_tab = {}
_ctr = itertools.count()


class Term:
    __slots__ = ("op", "a", "sort", "id", "_fv", "_norm")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(sort, op, *a):
    k = (sort, op) + a
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.a, t.sort, t.id = op, a, sort, next(_ctr)
        t._fv = None
        t._norm = None
        _tab[k] = t
    return t


_fresh = itertools.count()


def fresh(pfx):
    return "%s!%d" % (pfx, next(_fresh))


# ------------------------------------------------------------------ integers (polynomials)
# poly term: a = tuple of (mono, coef); mono = tuple of (atom, exp) sorted by atom id
def _poly(d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: tuple((x.id, e) for x, e in mc[0])))
    return mk("I", "poly", *items)


def ic(n):
    n = Fraction(n)
    return _poly({(): n}) if n else _poly({})


ZERO_I = None


def iatom(t):
    return _poly({((t, 1),): Fraction(1)})


def iv(name):
    return iatom(mk("I", "iv", name))


def ifresh(p):
    return iv(fresh(p))


def as_const(p):
    """int value of a constant polynomial or None"""
    if len(p.a) == 0:
        return 0
    if len(p.a) == 1 and p.a[0][0] == ():
        c = p.a[0][1]
        return int(c) if c.denominator == 1 else None
    return None


def as_atom(p):
    if len(p.a) == 1 and p.a[0][1] == 1 and len(p.a[0][0]) == 1 and p.a[0][0][0][1] == 1:
        return p.a[0][0][0][0]
    return None


def iadd(p, q):
    if not p.a:
        return q
    if not q.a:
        return p
    d = dict(p.a)
    for m, c in q.a:
        d[m] = d.get(m, 0) + c
    return _poly(d)


def iscale(p, k):
    k = Fraction(k)
    if k == 1:
        return p
    return _poly({m: c * k for m, c in p.a})


def isub(p, q):
    return iadd(p, iscale(q, -1))


def _mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for x, e in n:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items(), key=lambda t: t[0].id))


def imul(p, q):
    d = {}
    for m, c in p.a:
        for n, k in q.a:
            mn = _mmul(m, n)
            d[mn] = d.get(mn, 0) + c * k
    return _poly(d)


def ipow(p, n):
    r = ic(1)
    for _ in range(n):
        r = imul(r, p)
    return r


def atoms_of(p):
    s = []
    seen = set()
    for m, _ in p.a:
        for x, _ in m:
            if x not in seen:
                seen.add(x)
                s.append(x)
    return s


def degree_in(p, x):
    return max([0] + [e for m, _ in p.a for y, e in m if y is x])


def integer_valued(p):
    """is this rational polynomial integer valued on all integer points?"""
    if all(c.denominator == 1 for _, c in p.a):
        return True
    at = atoms_of(p)
    degs = [degree_in(p, x) for x in at]
    n = 1
    for d in degs:
        n *= d + 1
    if n > 4000:
        return False
    for pt in itertools.product(*[range(d + 1) for d in degs]):
        env = dict(zip(at, pt))
        v = Fraction(0)
        for m, c in p.a:
            t = c
            for x, e in m:
                t *= env[x] ** e
            v += t
        if v.denominator != 1:
            return False
    return True


def coeffs_in(p, x):
    """list c with p = sum c[k] x^k; coefficients polys without x at top level"""
    r = {}
    for m, c in p.a:
        e = 0
        mm = []
        for y, k in m:
            if y is x:
                e = k
            else:
                mm.append((y, k))
        r.setdefault(e, {})
        mm = tuple(mm)
        r[e][mm] = r[e].get(mm, 0) + c
    n = max(r) if r else 0
    return [_poly(r.get(k, {})) for k in range(n + 1)]


def idiv_exact(p, k):
    """p / k when provably integer valued, else None"""
    q = iscale(p, Fraction(1, k))
    return q if integer_valued(q) else None


def ifloordiv(p, k):
    """floor(p/k), k positive int constant"""
    q = idiv_exact(p, k)
    if q is not None:
        return q
    return iatom(mk("I", "fdiv", p, k))


def iapp(f, *args):
    return iatom(mk("I", "iapp", f, *args))


def iite(c, p, q):
    if c is TRUE:
        return p
    if c is FALSE:
        return q
    if p is q:
        return p
    return iatom(mk("I", "ite", c, p, q))


def _intreal(r):
    """integer polynomial equal to the real term, or None"""
    if r.op == "i2r":
        return r.a[0]
    if r.op == "rc":
        return ic(int(r.a[0])) if r.a[0].denominator == 1 else None
    if r.op in ("add", "mul"):
        a, b = _intreal(r.a[0]), _intreal(r.a[1])
        if a is None or b is None:
            return None
        return iadd(a, b) if r.op == "add" else imul(a, b)
    if r.op == "neg":
        a = _intreal(r.a[0])
        return None if a is None else iscale(a, -1)
    return None


def psqrt(p):
    """polynomial q with q*q == p, or None"""
    if not p.a:
        return p
    lead = max(p.a, key=lambda mc: (sum(e for _, e in mc[0]), sorted(((x.id, e) for x, e in mc[0]), reverse=True)))
    m, c = lead
    if any(e % 2 for _, e in m) or c <= 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    half = ic(1)
    for x, e in m:
        for _ in range(e // 2):
            half = imul(half, iatom(x))
    lc = Fraction(n, d)
    q = iscale(half, lc)
    hm = dict(half.a and half.a[0][0] or ())
    for _ in range(12):
        r = isub(p, imul(q, q))
        if not r.a:
            return q
        m2, c2 = max(r.a, key=lambda mc: (sum(e for _, e in mc[0]), sorted(((x.id, e) for x, e in mc[0]), reverse=True)))
        mm = dict(m2)
        for x, e in hm.items():
            mm[x] = mm.get(x, 0) - e
        if any(e < 0 for e in mm.values()):
            return None
        t = ic(1)
        for x, e in mm.items():
            for _ in range(e):
                t = imul(t, iatom(x))
        q = iadd(q, iscale(t, c2 / (2 * lc)))
    return None


def r2i(r):
    """truncation towards zero of a real"""
    if r.op == "i2r":
        return r.a[0]
    k = _intreal(r)
    if k is not None:
        return k
    if r.op == "rc":
        v = r.a[0]
        n = int(v)
        return ic(n)
    return iatom(mk("I", "trunc", r))


# ------------------------------------------------------------------ reals
def rc(v):
    return mk("R", "rc", Fraction(v))


R0 = rc(0)
R1 = rc(1)


def rv(name):
    return mk("R", "rv", name)


def rspecial(name):
    return mk("R", "rspec", name)


def radd(a, b):
    if a is R0:
        return b
    if b is R0:
        return a
    if a.op == "rc" and b.op == "rc":
        return rc(a.a[0] + b.a[0])
    return mk("R", "add", a, b)


def rneg(a):
    if a.op == "rc":
        return rc(-a.a[0])
    if a.op == "neg":
        return a.a[0]
    return mk("R", "neg", a)


def rsub(a, b):
    return radd(a, rneg(b))


def rmul(a, b):
    if a is R1:
        return b
    if b is R1:
        return a
    if a is R0 or b is R0:
        return R0
    if a.op == "rc" and b.op == "rc":
        return rc(a.a[0] * b.a[0])
    return mk("R", "mul", a, b)


def rdiv(a, b):
    if b is R1:
        return a
    if b.op == "rc" and b.a[0] != 0:
        return rmul(a, rc(1 / b.a[0]))
    return mk("R", "div", a, b)


def rapp(f, *args):
    return mk("R", "rapp", f, *args)


def rite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk("R", "ite", c, a, b)


def rsel(base, idx):
    return mk("R", "sel", base, idx)


def i2r(p):
    c = as_const(p)
    if c is not None:
        return rc(c)
    return mk("R", "i2r", p)


def rsum(var, lo, hi, body):
    """sum_{var=lo}^{hi-1} body ; var an int atom ('iv')"""
    if body is R0:
        return R0
    if as_const(lo) != 0:
        # sums start at zero
        body = subst(body, {("iv", var.a[0]): iadd(iatom(var), lo)})
        lo, hi = ic(0), isub(hi, lo)
    return mk("R", "sum", var, lo, hi, body)


def ksum(var, cond, val):
    """sum of val over the (finitely many) keys that satisfy cond; var: key variable name"""
    if ("iv", "key*") in fv(cond) | fv(val):
        raise ValueError("nested sum over keys")
    sub = {("iv", var): iv("key*")}
    cond, val = subst(cond, sub), subst(val, sub)
    while val.op == "ite":
        if val.a[2] is R0:
            cond, val = band(cond, val.a[0]), val.a[1]
        elif val.a[1] is R0:
            cond, val = band(cond, bnot(val.a[0])), val.a[2]
        else:
            break
    if val is R0:
        return R0
    if cond.op == "and":
        cond = mk("B", "and", *sorted(cond.a))
    return rapp("ksum", rmul(rite(cond, R1, R0), val))


# ------------------------------------------------------------------ booleans
TRUE = mk("B", "true")
FALSE = mk("B", "false")


def bc(v):
    return TRUE if v else FALSE


def bv(name):
    return mk("B", "bv", name)


def bsel(base, idx):
    return mk("B", "bsel", base, idx)


def bnot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.a[0]
    if x.op == "le0":       # p <= 0  ->  1 - p <= 0   (integers)
        return ile0(isub(ic(1), x.a[0]))
    return mk("B", "not", x)


def band(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.a:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    for x in out:
        if bnot(x) in out:
            return FALSE
    return mk("B", "and", *out)


def bor(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            for y in x.a:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("B", "or", *out)


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    return bor(band(c, a), band(bnot(c), b))


def ile0(p):
    c = as_const(p)
    if c is not None:
        return bc(c <= 0)
    # normalise content for integer coefficients: divide by gcd and tighten
    return mk("B", "le0", p)


def ile(a, b):
    return ile0(isub(a, b))


def ilt(a, b):
    return ile0(isub(iadd(a, ic(1)), b))


def ieq(a, b):
    p = isub(a, b)
    c = as_const(p)
    if c is not None:
        return bc(c == 0)
    if len(p.a) == 1 and p.a[0][0] == ():
        return FALSE
    at = as_atom(p)
    if at is not None and at.op == "ite":
        x, y = as_const(at.a[1]), as_const(at.a[2])
        if x is not None and y is not None:
            return bite(at.a[0], bc(x == 0), bc(y == 0))
    if len(p.a) <= 2:
        # ite(c,1,0) - 1 == 0 etc
        k = Fraction(0)
        t = None
        cf = None
        for m, c in p.a:
            if m == ():
                k = c
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite":
                t, cf = m[0][0], c
        if t is not None and len(p.a) == (2 if k else 1):
            x, y = as_const(t.a[1]), as_const(t.a[2])
            if x is not None and y is not None:
                return bite(t.a[0], bc(cf * x + k == 0), bc(cf * y + k == 0))
    # canonical sign
    if p.a[0][1] < 0:
        p = iscale(p, -1)
    return mk("B", "eq0", p)


def fcmp(pred, a, b):
    """ordered comparisons 'oeq','olt','ole' plus negations; NaN-aware when translated to FP"""
    if pred == "true":
        return TRUE
    if pred == "false":
        return FALSE
    if pred in ("ogt", "oge", "ugt", "uge"):
        return fcmp({"ogt": "olt", "oge": "ole", "ugt": "ult", "uge": "ule"}[pred], b, a)
    if pred == "une":
        return bnot(fcmp("oeq", a, b))
    if pred == "ult":
        return bnot(fcmp("ole", b, a))
    if pred == "ule":
        return bnot(fcmp("olt", b, a))
    if pred == "one":
        return bor(fcmp("olt", a, b), fcmp("olt", b, a))
    if pred == "ueq":
        return bnot(fcmp("one", a, b))
    if pred == "ord":
        return band(fcmp("oeq", a, a), fcmp("oeq", b, b))
    if pred == "uno":
        return bnot(fcmp("ord", a, b))
    if a.op == "rc" and b.op == "rc":
        x, y = a.a[0], b.a[0]
        return bc({"oeq": x == y, "olt": x < y, "ole": x <= y}[pred])
    if pred == "oeq" and b.id < a.id:
        a, b = b, a
    return mk("B", "fcmp", pred, a, b)


# ------------------------------------------------------------------ traversal
def children(t):
    if t.op == "poly":
        for m, _ in t.a:
            for x, _ in m:
                yield x
        return
    for x in t.a:
        if isinstance(x, Term):
            yield x


def fv(t):
    """free variables / array names: frozenset of (sort-kind, name) plus bound handling for sums"""
    if t._fv is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x._fv is not None:
                stack.pop()
                continue
            todo = [c for c in children(x) if c._fv is None]
            if todo:
                stack.extend(todo)
                continue
            s = set()
            for c in children(x):
                s |= c._fv
            if x.op in ("iv", "rv", "bv"):
                s.add((x.op, x.a[0]))
            elif x.op in ("sel", "bsel"):
                s.add(("arr", x.a[0]))
            elif x.op == "sum":
                s.discard(("iv", x.a[0].a[0]))
            elif x.op == "iapp" or x.op == "rapp":
                s.add(("fn", x.a[0]))
            x._fv = frozenset(s)
            stack.pop()
    return t._fv


def rebuild(t, ch):
    """rebuild term t with rewritten children through smart constructors; ch maps child->new term"""
    op = t.op
    g = ch
    if op == "poly":
        r = None
        d = {}
        plain = True
        for m, c in t.a:
            for x, e in m:
                if g(x) is not None and not (as_atom(g(x)) is x):
                    plain = False
        if plain:
            return t
        acc = ic(0)
        for m, c in t.a:
            p = ic(c)
            for x, e in m:
                p = imul(p, ipow(g(x), e))
            acc = iadd(acc, p)
        return acc
    if op == "fdiv":
        return ifloordiv(g(t.a[0]), t.a[1])
    if op == "iapp":
        return iapp(t.a[0], *[g(x) for x in t.a[1:]])
    if op == "trunc":
        return r2i(g(t.a[0]))
    if op == "ite":
        f = iite if t.sort == "I" else rite
        return f(g(t.a[0]), g(t.a[1]), g(t.a[2]))
    if op == "add":
        return radd(g(t.a[0]), g(t.a[1]))
    if op == "mul":
        return rmul(g(t.a[0]), g(t.a[1]))
    if op == "neg":
        return rneg(g(t.a[0]))
    if op == "div":
        return rdiv(g(t.a[0]), g(t.a[1]))
    if op == "rapp":
        return rapp(t.a[0], *[g(x) for x in t.a[1:]])
    if op == "sel":
        return rsel(t.a[0], g(t.a[1]))
    if op == "bsel":
        return bsel(t.a[0], g(t.a[1]))
    if op == "i2r":
        return i2r(g(t.a[0]))
    if op == "sum":
        return rsum(t.a[0], g(t.a[1]), g(t.a[2]), g(t.a[3]))
    if op == "not":
        return bnot(g(t.a[0]))
    if op == "and":
        return band(*[g(x) for x in t.a])
    if op == "or":
        return bor(*[g(x) for x in t.a])
    if op == "le0":
        return ile0(g(t.a[0]))
    if op == "eq0":
        return ieq(g(t.a[0]), ic(0))
    if op == "fcmp":
        return fcmp(t.a[0], g(t.a[1]), g(t.a[2]))
    return t


def transform(t, f):
    """bottom-up rewriting; f(term_after_children) -> replacement or None. Int atoms: replacement must be a poly."""
    memo = {}

    def go(x):
        st = [x]
        while st:
            y = st[-1]
            if y in memo:
                st.pop()
                continue
            todo = [c for c in children(y) if c not in memo]
            if y.op == "sum":
                todo = [c for c in todo if c is not y.a[0]]
            if todo:
                st.extend(todo)
                continue
            if y.op in ("iv", "rv", "bv", "rc", "rspec", "true", "false"):
                nb = y
            else:
                nb = rebuild(y, lambda c: memo[c])
            isatom = y.sort == "I" and y.op != "poly"
            if isatom and nb is y:
                r = f(y)
                memo[y] = r if r is not None else iatom(y)
            else:
                if isatom:     # nb already a poly
                    at = as_atom(nb)
                    if at is not None:
                        r = f(at)
                        if r is not None:
                            nb = r
                    memo[y] = nb
                else:
                    r = f(nb)
                    memo[y] = nb if r is None else r
            st.pop()
        return memo[x]
    return go(t)


def subst(t, m):
    """m: dict {('iv',name): poly, ('rv',name): Term, ('bv',name): Term}"""
    if not m:
        return t
    keys = frozenset(m)
    if not (fv(t) & keys):
        return t
    memo = {}

    def go(x):
        st = [x]
        while st:
            y = st[-1]
            if y in memo:
                st.pop()
                continue
            if not (fv(y) & keys):
                memo[y] = iatom(y) if (y.sort == "I" and y.op != "poly") else y
                st.pop()
                continue
            if y.op in ("iv", "rv", "bv"):
                memo[y] = m[(y.op, y.a[0])]
                st.pop()
                continue
            if y.op == "sum" and ("iv", y.a[0].a[0]) in keys:
                m2 = {k: v for k, v in m.items() if k != ("iv", y.a[0].a[0])}
                memo[y] = rsum(y.a[0], subst(y.a[1], m), subst(y.a[2], m), subst(y.a[3], m2))
                st.pop()
                continue
            todo = [c for c in children(y) if c not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[y] = rebuild(y, lambda c: memo[c])
            st.pop()
        return memo[x]
    return go(t)


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if d > 30:
        return "..."
    o = t.op
    s = lambda x: show(x, d + 1)
    if o == "poly":
        if not t.a:
            return "0"
        parts = []
        for m, c in t.a:
            ms = "*".join(s(x) if e == 1 else "%s^%d" % (s(x), e) for x, e in m)
            parts.append((str(c) + "*" + ms if c != 1 else ms) if ms else str(c))
        return "(" + " + ".join(parts) + ")" if len(parts) > 1 else parts[0]
    if o in ("iv", "rv", "bv", "rspec"):
        return str(t.a[0])
    if o == "rc":
        return str(t.a[0])
    if o in ("true", "false"):
        return o
    if o == "add":
        return "(%s + %s)" % (s(t.a[0]), s(t.a[1]))
    if o == "mul":
        return "%s*%s" % (s(t.a[0]), s(t.a[1]))
    if o == "div":
        return "(%s / %s)" % (s(t.a[0]), s(t.a[1]))
    if o == "neg":
        return "-%s" % s(t.a[0])
    if o in ("sel", "bsel"):
        return "%s[%s]" % (t.a[0], s(t.a[1]))
    if o in ("rapp", "iapp"):
        return "%s(%s)" % (t.a[0], ", ".join(s(x) for x in t.a[1:]))
    if o == "i2r":
        return "real(%s)" % s(t.a[0])
    if o == "trunc":
        return "trunc(%s)" % s(t.a[0])
    if o == "fdiv":
        return "floor(%s/%d)" % (s(t.a[0]), t.a[1])
    if o == "ite":
        return "ite(%s, %s, %s)" % tuple(s(x) for x in t.a)
    if o == "sum":
        return "sum[%s=%s..%s)(%s)" % (s(t.a[0]), s(t.a[1]), s(t.a[2]), s(t.a[3]))
    if o == "not":
        return "!(%s)" % s(t.a[0])
    if o == "and":
        return "(" + " & ".join(s(x) for x in t.a) + ")"
    if o == "or":
        return "(" + " | ".join(s(x) for x in t.a) + ")"
    if o == "le0":
        return "%s <= 0" % s(t.a[0])
    if o == "eq0":
        return "%s == 0" % s(t.a[0])
    if o == "fcmp":
        return "(%s %s %s)" % (s(t.a[1]), {"oeq": "==", "olt": "<", "ole": "<="}[t.a[0]], s(t.a[2]))
    return o + str(t.a)
