"""Assumed contracts of the dependencies: libm, operator new/delete, mem*, exceptions, std::string, std::unordered_map.

Each model is keyed by the (demangled) library name; every use is counted in Exec.uassumed and reported in the evidence.
"""
import re
from . import terms as T, smt
from .sx import Ptr, NULL, UNDEF, Special, Agg, Obj, FnPtr, Dead, LIBM, FACTS, short
from .ir import Unsupported

STR = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>"


def ret(st, v=None):
    return [("ret", st, v)]


def use(ex, what):
    ex.uassumed[what] = ex.uassumed.get(what, 0) + 1


# ------------------------------------------------------------------ libm
def libm(ex, st, f, args, fname=None):
    use(ex, "libm " + f)
    a = []
    for x in args:
        if x is UNDEF:
            ex.fail(st, "uninit", "argument of %s is uninitialised: %s" % (f, ex.where(getattr(ex, "curins", None))))
            raise Dead()
        a.append(x)
    w = ex.where(getattr(ex, "curins", None))
    if ex.fp:
        return T.rapp(f, *a)
    lt, le = (lambda p, q: T.fcmp("olt", p, q)), (lambda p, q: T.fcmp("ole", p, q))
    if f == "fabs":
        return T.rite(lt(a[0], T.R0), T.rneg(a[0]), a[0])
    if f in ("fmin", "fmax"):
        return T.rite(lt(a[0], a[1]), a[0] if f == "fmin" else a[1], a[1] if f == "fmin" else a[0])
    if f == "pow":
        b = a[1]
        if b.op == "i2r":
            pass
        if b.op == "rc" and b.a[0].denominator == 1 and abs(b.a[0]) <= 8:
            n = int(b.a[0])
            r = T.R1
            for _ in range(abs(n)):
                r = T.rmul(r, a[0])
            if n < 0:
                ex.oblige(st, "div", T.bnot(T.fcmp("oeq", a[0], T.R0)), "pow base is nonzero: " + w)
                r = T.rdiv(T.R1, r)
            return r
        ex.oblige(st, "dom", T.bor(lt(T.R0, a[0]), T.band(T.bnot(T.fcmp("oeq", a[0], T.R0)), integral(b)),
                                   T.band(T.fcmp("oeq", a[0], T.R0), lt(T.R0, b))), "pow is called inside its domain: " + w)
        return T.rapp("pow", *a)
    dom = None
    if f == "sqrt" and a[0].op == "i2r":
        q = T.psqrt(a[0].a[0])
        if q is not None:
            for z in (q, T.iscale(q, -1)):
                if smt.check(st.pc, T.ile(T.ic(0), z)).ok:
                    return T.i2r(z)
    if f == "sqrt":
        dom = le(T.R0, a[0])
    elif f in ("log", "log2", "log10"):
        dom = lt(T.R0, a[0])
    elif f == "log1p":
        dom = lt(T.rc(-1), a[0])
    elif f in ("asin", "acos"):
        dom = T.band(le(T.rc(-1), a[0]), le(a[0], T.R1))
    elif f == "acosh":
        dom = le(T.R1, a[0])
    elif f == "atanh":
        dom = T.band(lt(T.rc(-1), a[0]), lt(a[0], T.R1))
    if dom is not None:
        ex.oblige(st, "dom", dom, "%s is called inside its domain: %s" % (f, w))
    return T.rapp(f, *a)


def integral(b):
    if b.op == "rc":
        return T.bc(b.a[0].denominator == 1)
    if b.op == "i2r":
        return T.TRUE
    if b.op in ("add", "mul"):
        return T.band(integral(b.a[0]), integral(b.a[1]))
    if b.op == "neg":
        return integral(b.a[0])
    if b.op == "rv":
        return T.bv("integral_" + b.a[0])
    return T.FALSE


def m_libm(ex, st, name, d, args):
    f = name
    if f.startswith("llvm."):
        f = f.split(".")[1]
        if f == "minnum":
            f = "fmin"
        if f == "maxnum":
            f = "fmax"
        if f == "powi":
            return ret(st, libm(ex, st, "pow", [args[0], T.i2r(args[1])]))
        if f == "fmuladd":
            return ret(st, T.radd(T.rmul(args[0], args[1]), args[2]))
    else:
        f = re.sub(r"[fl]$", "", f) if f not in LIBM and re.sub(r"[fl]$", "", f) in LIBM else f
    return ret(st, libm(ex, st, f, args))


def is_libm(name, d):
    if name in LIBM:
        return True
    if re.sub(r"[fl]$", "", name) in LIBM and "(" not in d:
        return True
    m = re.match(r"llvm\.(sqrt|sin|cos|tan|exp|exp2|log|log2|log10|pow|powi|fabs|fma|fmuladd|minnum|maxnum|floor|ceil)\.", name)
    return bool(m)


def m_hypot3(ex, st, name, d, args):
    return ret(st, libm(ex, st, "hypot3", list(args)))


# ------------------------------------------------------------------ memory
def m_new(ex, st, name, d, args):
    use(ex, "operator new")
    n = args[0]
    c = T.as_const(n)
    if c is not None:
        o = Obj("cells", n, "heap[%d]" % c, True)
    else:
        if not smt.check(st.pc, T.ile(T.ic(0), n)).ok:
            ex.oblige(st, "bounds", T.ile(T.ic(0), n), "allocation size is not negative")
        o = Obj("buf", n, "heap[%s]" % n, True)
    return ret(st, Ptr(st.new(o), T.ic(0)))


def m_delete(ex, st, name, d, args):
    use(ex, "operator delete")
    p = args[0]
    if p is UNDEF:
        ex.fail(st, "uninit", "delete of an undefined pointer")
        raise Dead()
    if p.o is None:
        return ret(st)
    o = st.mem.get(p.o)
    if o is not None and o.kind == "fam" and T.as_const(p.off) == 0:
        ex.free_member(st, p)
        return ret(st)
    if o is None or not o.alive or not o.heap or T.as_const(p.off) != 0:
        ex.fail(st, "lifetime", "invalid or repeated delete")
        raise Dead()
    o = st.w(p.o)
    o.alive = False
    return ret(st)


def m_memcpy(ex, st, name, d, args):
    ex.memcpy(st, args[0], args[1], args[2], getattr(ex, "curins", None))
    return ret(st, args[0])


def m_memset(ex, st, name, d, args):
    ex.memset(st, args[0], args[1], args[2], getattr(ex, "curins", None))
    return ret(st, args[0])


# ------------------------------------------------------------------ exceptions, aborts
def m_alloc_exc(ex, st, name, d, args):
    return ret(st, Ptr(st.new(Obj("cells", T.ic(256), "exception")), T.ic(0)))


def m_throw(ex, st, name, d, args):
    ti = args[1] if len(args) > 1 else None
    what = "?"
    if isinstance(ti, Ptr) and ti.o in st.mem:
        what = st.mem[ti.o].name
    return [("throw", st, what)]


def m_throw2(ex, st, name, d, args):
    return [("throw", st, d)]


def m_abort(ex, st, name, d, args):
    msg = ""
    if name == "__assert_fail" and isinstance(args[0], Ptr):
        o = st.mem.get(args[0].o)
        if o is not None and "str" in o.cells:
            msg = o.cells["str"].rstrip(b"\0").decode()
    return [("abort", st, name + " " + msg)]


def m_guard(ex, st, name, d, args):
    """initialisation of function-local statics: run on every path (it may depend on constants only)"""
    if name == "__cxa_guard_acquire":
        st.ghost["guard"] = st.ghost.get("guard", 0) + 1
        return ret(st, T.ic(1))
    st.ghost["guard"] = st.ghost.get("guard", 1) - 1
    for oid in ex.gobj.values():
        o = st.mem.get(oid)
        if o is not None and o.x == "global":
            ex.check_ground(st, o)
    return ret(st)


def m_nop0(ex, st, name, d, args):
    return ret(st, T.ic(0))


def m_ident(ex, st, name, d, args):
    return ret(st, args[0])


def m_nop(ex, st, name, d, args):
    return ret(st, None)


def m_first(ex, st, name, d, args):
    return ret(st, args[0])


def m_objsize(ex, st, name, d, args):
    raise Unsupported(name)


def m_expect(ex, st, name, d, args):
    return ret(st, args[0])


def m_minmax(ex, st, name, d, args):
    a, b = args[0], args[1]
    c = T.ilt(a, b)
    if "min" in name:
        return ret(st, T.iite(c, a, b))
    return ret(st, T.iite(c, b, a))


def m_abs(ex, st, name, d, args):
    a = args[0]
    return ret(st, T.iite(T.ilt(a, T.ic(0)), T.iscale(a, -1), a))


def m_assume(ex, st, name, d, args):
    return ret(st)


def m_false(ex, st, name, d, args):
    return ret(st, T.FALSE)


# ------------------------------------------------------------------ std::string as keys
_lits = {}


def lit_key(b):
    if b not in _lits:
        _lits[b] = -1000 - len(_lits)
    return T.ic(_lits[b])


def cstr(st, p):
    o = st.mem.get(p.o)
    if o is None or "str" not in o.cells:
        raise Unsupported("unknown C string")
    off = T.as_const(p.off)
    b = o.cells["str"][off:]
    return b.split(b"\0")[0]


def str_key(ex, st, p):
    if p is UNDEF or p.o is None:
        ex.fail(st, "uninit", "string through an undefined pointer")
        raise Dead()
    o = st.mem.get(p.o)
    if o is None or not o.alive:
        ex.fail(st, "lifetime", "string after end of lifetime")
        raise Dead()
    if p.key is not None:
        if T.as_const(p.off) != 0:
            raise Unsupported("string inside element")
        return p.key
    off = T.as_const(p.off)
    c = o.cells.get(off)
    if c is None:
        ex.fail(st, "uninit", "read of an unconstructed string")
        raise Dead()
    if not (isinstance(c[1], Special) and c[1].k == "str"):
        raise Unsupported("not a string")
    return c[1].p


def put_str(ex, st, p, key):
    ex.access(st, p, 32, "construct string", None, True)
    o = st.w(p.o)
    ex.put(o, T.as_const(p.off), 32, Special("str", key))


def m_str_ctor(ex, st, name, d, args):
    use(ex, "std::string")
    m = re.search(r"::basic_string(?:<.*?>)?\((.*)\)( \[clone.*)?$", d)
    sig = m.group(1) if m else ""
    if re.match(STR + r"( const)?&", sig):
        put_str(ex, st, args[0], str_key(ex, st, args[1]))
        return ret(st)
    if sig.startswith("char const*"):
        put_str(ex, st, args[0], lit_key(cstr(st, args[1])))
        return ret(st)
    if sig == "":
        put_str(ex, st, args[0], lit_key(b""))
        return ret(st)
    raise Unsupported("std::string constructor " + sig)


def m_str_assign(ex, st, name, d, args):
    use(ex, "std::string")
    if re.search(r"operator=\((char const\*)\)", d):
        put_str(ex, st, args[0], lit_key(cstr(st, args[1])))
    else:
        put_str(ex, st, args[0], str_key(ex, st, args[1]))
    return ret(st, args[0])


def m_str_dtor(ex, st, name, d, args):
    p = args[0]
    if p.key is None and p.o in st.mem:
        o = st.w(p.o)
        o.cells.pop(T.as_const(p.off), None)
    return ret(st)


def m_str_eq(ex, st, name, d, args):
    use(ex, "std::string comparison")
    sig = d[d.rindex("operator"):]
    def key(p, k):
        o = st.mem.get(p.o)
        if o is not None and "str" in o.cells:
            return lit_key(cstr(st, p))
        return str_key(ex, st, p)
    c = T.ieq(key(args[0], 0), key(args[1], 1))
    return ret(st, c if "operator==" in d else T.bnot(c))


def m_str_compare(ex, st, name, d, args):
    use(ex, "std::string comparison")
    o = st.mem.get(args[1].o)
    k2 = lit_key(cstr(st, args[1])) if o is not None and "str" in o.cells else str_key(ex, st, args[1])
    k1 = str_key(ex, st, args[0])
    c = T.ieq(k1, k2)
    if T.as_const(k1) is not None and T.as_const(k2) is not None:
        b1, b2 = lit_bytes(k1), lit_bytes(k2)
        if b1 is not None and b2 is not None:
            return ret(st, T.ic((b1 > b2) - (b1 < b2)))
    n = T.ifresh("strcmp")
    z = T.ieq(n, T.ic(0))
    st.assume(T.bor(T.bnot(c), z))
    st.assume(T.bor(c, T.bnot(z)))
    st.assume(T.band(T.ile(T.ic(-2 ** 31), n), T.ile(n, T.ic(2 ** 31 - 1))))
    return ret(st, n)


def lit_bytes(k):
    for b, n in _lits.items():
        if T.as_const(k) == n:
            return b
    return None


def m_str_empty(ex, st, name, d, args):
    use(ex, "std::string")
    return ret(st, T.ieq(str_key(ex, st, args[0]), lit_key(b"")))


def m_str_size(ex, st, name, d, args):
    """length: known for literals; for an arbitrary string some number, equal for equal strings, zero for the empty one only"""
    use(ex, "std::string")
    k = str_key(ex, st, args[0])
    b = lit_bytes(k)
    if b is not None:
        return ret(st, T.ic(len(b)))
    n = T.iapp("strlen", k)
    lit_key(b"")
    st.assume(T.band(T.ile(T.ic(0), n), T.ile(n, T.ic(2 ** 62))))
    for b, q in list(_lits.items()):
        st.assume(T.bor(T.bnot(T.ieq(k, T.ic(q))), T.ieq(n, T.ic(len(b)))))
    st.assume(T.bor(T.bnot(T.ieq(n, T.ic(0))), T.ieq(k, lit_key(b""))))
    return ret(st, n)


def m_str_cstr(ex, st, name, d, args):
    """characters of a string with known content"""
    k = str_key(ex, st, args[0])
    for b, n in _lits.items():
        if T.as_const(k) == n:
            o = Obj("cells", T.ic(len(b) + 1), "characters")
            o.cells["str"] = b + b"\0"
            for q, x in enumerate(b + b"\0"):
                o.cells[q] = (1, T.ic(x))
            o.ro = True
            return ret(st, Ptr(st.new(o), T.ic(0)))
    raise Unsupported("characters of an arbitrary string")


# ------------------------------------------------------------------ std::unordered_map<std::string, double>
def new_map(st, dom, val, n=None):
    if n is None:
        n = T.ifresh("n")
        fact = T.ile(T.ic(0), n)
        FACTS.add(fact)
        st.assume(fact)
    o = Obj("map", None, "unordered_map")
    o.x = {"dom": dom, "val": val, "epoch": T.fresh("epoch"), "enum": None, "n": n}
    return st.new(o)


EMPTY = (("const", T.FALSE),)


def map_of(ex, st, p):
    if p is UNDEF or not isinstance(p, Ptr) or p.o is None:
        ex.fail(st, "uninit", "container through an undefined pointer")
        raise Dead()
    o = st.mem.get(p.o)
    if o is None or not o.alive:
        ex.fail(st, "lifetime", "container after end of lifetime: " + ex.where(getattr(ex, "curins", None)))
        raise Dead()
    off = T.as_const(p.off)
    c = o.cells.get(off)
    if c is None:
        ex.fail(st, "uninit", "use of an unconstructed container")
        raise Dead()
    if not (isinstance(c[1], Special) and c[1].k == "map"):
        raise Unsupported("not a container")
    return c[1].p


def put_map(ex, st, p, oid):
    ex.access(st, p, 56, "construct container", None, True)
    o = st.w(p.o)
    ex.put(o, T.as_const(p.off), 56, Special("map", oid))


def enum_of(ex, st, oid):
    o = st.mem[oid]
    if o.x["enum"] is None:
        o = st.w(oid)
        x = dict(o.x)
        x["enum"] = T.fresh("enum")
        if x["n"] is None:
            x["n"] = T.ifresh("n")
            fact = T.ile(T.ic(0), x["n"])
            FACTS.add(fact)
            st.assume(fact)
        o.x = x
        st.ghost[x["enum"]] = (x["dom"], x["n"])
    return o.x["enum"], o.x["n"]


def mapfn(d):
    """method name of an unordered_map / node iterator symbol"""
    # strip template arguments
    out = []
    depth = 0
    i = 0
    while i < len(d):
        c = d[i]
        if c == "<" and not d[:i].endswith("operator"):
            depth += 1
        elif c == ">" and depth and not d[:i].endswith("operator-"):
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


def m_map(ex, st, name, d, args):
    use(ex, "std::unordered_map")
    s = mapfn(d)
    m = re.search(r"unordered_map::(~?[a-zA-Z_]+|operator\[\]|operator=)\(", s)
    if not m:
        raise Unsupported("unordered_map operation " + short(s))
    f = m.group(1)
    sig = s[m.end():]
    if f == "unordered_map":
        if sig.startswith(")"):
            put_map(ex, st, args[0], new_map(st, EMPTY, (("undef",),), T.ic(0)))
            return ret(st)
        if sig.startswith("std::initializer_list"):
            oid = new_map(st, EMPTY, (("undef",),), None)
            o = st.mem[oid]
            x = dict(o.x)
            n = T.as_const(args[2])
            if n is None:
                raise Unsupported("initializer list length")
            for i in range(n):
                e = args[1].plus(40 * i)
                k = str_key(ex, st, e)
                v = ex.load(st, DBLT, e.plus(32))
                x["dom"] = ex.push_store(x["dom"], k, T.TRUE)
                x["val"] = ex.push_store(x["val"], k, v)
            if n <= 1:
                x["n"] = T.ic(n)
            o.x = x
            put_map(ex, st, args[0], oid)
            return ret(st)
        if sig.startswith("std::unordered_map const&)") or sig.startswith("std::unordered_map&&)"):
            src = map_of(ex, st, args[1])
            x = st.mem[src].x
            oid = new_map(st, x["dom"], x["val"], x["n"])
            st.mem[oid].x["enum"] = None
            put_map(ex, st, args[0], oid)
            if "&&" in sig:
                clear(ex, st, src)
            return ret(st)
        raise Unsupported("unordered_map constructor " + sig[:80])
    if f == "~unordered_map":
        oid = map_of(ex, st, args[0])
        st.w(oid).alive = False
        o = st.w(args[0].o)
        o.cells.pop(T.as_const(args[0].off), None)
        return ret(st)
    oid = map_of(ex, st, args[0])
    if f == "operator=":
        if not (sig.startswith("std::unordered_map const&)") or sig.startswith("std::unordered_map&&)")):
            raise Unsupported("unordered_map assignment")
        src = map_of(ex, st, args[1])
        if src == oid:
            return ret(st, args[0])
        y = st.mem[src].x
        o = st.w(oid)
        x = dict(o.x)
        x["dom"], x["val"] = y["dom"], y["val"]
        ex.bump(x)
        x["n"] = y["n"]
        o.x = x
        if "&&" in sig:
            clear(ex, st, src)
        return ret(st, args[0])
    if f in ("begin", "cbegin", "end", "cend"):
        en, n = enum_of(ex, st, oid)
        ep = st.mem[oid].x["epoch"]
        return ret(st, Special("mapit", (oid, T.ic(0) if f.endswith("begin") else n, ep, None)))
    if f == "size":
        _, n = enum_of(ex, st, oid)
        return ret(st, n)
    if f == "empty":
        _, n = enum_of(ex, st, oid)
        return ret(st, T.ieq(n, T.ic(0)))
    if f in ("reserve", "rehash"):
        o = st.w(oid)
        x = dict(o.x)
        n = x["n"]
        ex.bump(x)
        x["n"] = n
        o.x = x
        return ret(st)
    if f == "clear":
        clear(ex, st, oid)
        return ret(st)
    if f in ("operator[]", "at", "find", "count", "contains"):
        k = str_key(ex, st, args[1])
        dom = ex.select(st, st.mem[oid].x["dom"], k)
        if f in ("count", "contains"):
            return ret(st, T.iite(dom, T.ic(1), T.ic(0)) if f == "count" else dom)
        if f == "find":
            en, n = enum_of(ex, st, oid)
            ep = st.mem[oid].x["epoch"]
            outs = []
            if dom is not T.FALSE and not smt.check(st.pc, T.bnot(dom)).ok:
                s1 = st.clone()
                s1.assume(dom)
                outs.append(("ret", s1, Special("mapit", (oid, None, ep, k))))
            if dom is not T.TRUE and not smt.check(st.pc, dom).ok:
                s2 = st.clone()
                s2.assume(T.bnot(dom))
                outs.append(("ret", s2, Special("mapit", (oid, n, ep, None))))
            return outs
        if f == "at":
            outs = []
            if dom is not T.FALSE and not smt.check(st.pc, T.bnot(dom)).ok:
                s1 = st.clone()
                s1.assume(dom)
                outs.append(("ret", s1, Ptr(oid, T.ic(32), k)))
            if dom is not T.TRUE and not smt.check(st.pc, dom).ok:
                s2 = st.clone()
                s2.assume(T.bnot(dom))
                outs.append(("throw", s2, "std::out_of_range"))
            return outs
        if dom is T.TRUE or smt.check(st.pc, dom).ok:
            return ret(st, Ptr(oid, T.ic(32), k))
        old = None
        if not (dom is T.FALSE or smt.check(st.pc, T.bnot(dom)).ok):
            s1 = st.clone()
            s1.assume(dom)
            old = ex.select(s1, st.mem[oid].x["val"], k)
        o = st.w(oid)
        x = dict(o.x)
        x["val"] = ex.push_store(x["val"], k, T.R0 if old is None else ex.ite(dom, old, T.R0))
        x["dom"] = ex.push_store(x["dom"], k, T.TRUE)
        ex.bump(x)
        o.x = x
        return ret(st, Ptr(oid, T.ic(32), k))
    if f in ("emplace", "insert", "try_emplace", "insert_or_assign"):
        ps = split_params(sig)
        if f == "insert":
            if len(ps) != 1 or not ps[0].startswith("std::pair") or not re.search(r"pair<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>( const)?, double>", d):
                raise Unsupported("unordered_map::insert" + sig[:60])
            k, vp = str_key(ex, st, args[1]), args[1].plus(32)
            vt = "double"
        else:
            if len(ps) != 2 or not ps[0].startswith("std::__cxx11::basic_string"):
                raise Unsupported("unordered_map::" + f + sig[:60])
            k, vp, vt = str_key(ex, st, args[1]), args[2], ps[1]
        if vt.startswith("double"):
            v = ex.load(st, DBLT, vp)
        elif vt.startswith("int") or vt.startswith("long"):
            v = T.i2r(ex.load(st, _ir.INT(32 if vt.startswith("int") else 64), vp))
        else:
            raise Unsupported("unordered_map::" + f + " of " + vt[:40])
        dom = ex.select(st, st.mem[oid].x["dom"], k)
        if smt.check(st.pc, dom).ok:
            dom = T.TRUE
        elif smt.check(st.pc, T.bnot(dom)).ok:
            dom = T.FALSE
        if f == "insert_or_assign" or dom is T.FALSE:
            nv = v
        elif dom is T.TRUE:
            nv = None
        else:
            s1 = st.clone()
            s1.assume(dom)
            nv = ex.ite(dom, ex.select(s1, st.mem[oid].x["val"], k), v)
        o = st.w(oid)
        x = dict(o.x)
        if nv is not None:
            x["val"] = ex.push_store(x["val"], k, nv)
        if dom is not T.TRUE:
            x["dom"] = ex.push_store(x["dom"], k, T.TRUE)
            ex.bump(x)
        o.x = x
        return ret(st, Agg([Special("mapit", (oid, None, st.mem[oid].x["epoch"], k)), T.iite(dom, T.ic(0), T.ic(1))]))
    if f == "swap":
        oid2 = map_of(ex, st, args[1])
        a, b = st.mem[oid].x, st.mem[oid2].x
        st.w(oid).x, st.w(oid2).x = b, a
        return ret(st)
    raise Unsupported("unordered_map::" + f)


def split_params(sig):
    """parameter types of a stripped signature 'T1, T2)...'"""
    out, depth, cur = [], 0, ""
    for c in sig:
        if c in "([":
            depth += 1
        elif c in ")]":
            if depth == 0:
                break
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def clear(ex, st, oid):
    o = st.w(oid)
    x = dict(o.x)
    x["dom"], x["val"] = EMPTY, (("undef",),)
    ex.bump(x)
    x["n"] = T.ic(0)
    o.x = x


def it_of(ex, st, p):
    if isinstance(p, Special) and p.k == "mapit":
        return p.p
    v = ex.load(st, PTRT, p)
    if not (isinstance(v, Special) and v.k == "mapit"):
        raise Unsupported("not a container iterator")
    return v.p


def m_it_cmp(ex, st, name, d, args):
    use(ex, "std::unordered_map iterator")
    a, b = it_of(ex, st, args[0]), it_of(ex, st, args[1])
    if a[0] != b[0]:
        ex.fail(st, "ub", "comparison of iterators of different containers: " + ex.where())
        raise Dead()
    if a[1] is None or b[1] is None:
        if a[1] is None and b[1] is None:
            c = T.ieq(a[3], b[3])
        else:
            f, e = (a, b) if a[1] is None else (b, a)
            n = st.mem[f[0]].x["n"]
            if T.as_const(T.isub(e[1], n)) != 0:
                raise Unsupported("iterator comparison")
            c = T.FALSE
    else:
        c = T.ieq(a[1], b[1])
    return ret(st, c if "operator==" in d else T.bnot(c))


def m_it_method(ex, st, name, d, args):
    use(ex, "std::unordered_map iterator")
    it = it_of(ex, st, args[0])
    oid, pos, ep, k = it[0], it[1], it[2], it[3]
    o = st.mem[oid]
    if not o.alive or o.x["epoch"] != ep:
        ex.fail(st, "lifetime", "use of an invalidated container iterator: " + ex.where())
        raise Dead()
    if "operator++" in d:
        if pos is None:
            raise Unsupported("increment of a found iterator")
        _, n = enum_of(ex, st, oid)
        ex.oblige(st, "bounds", T.ilt(pos, n), "iterator increment inside the container: " + ex.where())
        nv = Special("mapit", (oid, T.iadd(pos, T.ic(1)), ep, None))
        ex.store(st, PTRT, nv, args[0])
        if "operator++(int)" in d:
            return ret(st, Special("mapit", it))
        return ret(st, args[0])
    if "operator*" in d or "operator->" in d:
        if pos is not None:
            en, n = enum_of(ex, st, oid)
            ex.oblige(st, "bounds", T.band(T.ile(T.ic(0), pos), T.ilt(pos, n)), "iterator dereference inside the container: " + ex.where())
            k = T.iapp(en, pos)
            dom = ex.select(st, st.ghost[en][0], k)
            st.assume(dom)
        return ret(st, Ptr(oid, T.ic(0), k))
    raise Unsupported("iterator operation " + short(d))


from . import ir as _ir
DBLT = _ir.DBL
PTRT = _ir.PTR


def rx(p):
    r = re.compile(p)
    return lambda name, d: bool(r.search(d))


def nm(*names):
    s = set(names)
    return lambda name, d: name in s


def pre(*ps):
    return lambda name, d: any(name.startswith(p) for p in ps)


UMAP = r"std::unordered_map<" + STR


def table():
    return [
        (is_libm, m_libm),
        (rx(r"^(double|float) std::__hypot3<"), m_hypot3),
        (lambda n, d: bool(re.match(r"(double |float )?std::hypot\((double, double, double|float, float, float)\)", d)), m_hypot3),
        (nm("_Znwm", "_Znam", "malloc"), m_new),
        (nm("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free"), m_delete),
        (pre("llvm.memcpy", "llvm.memmove"), m_memcpy),
        (nm("memcpy", "memmove"), m_memcpy),
        (pre("llvm.memset"), m_memset),
        (nm("memset"), m_memset),
        (nm("__cxa_allocate_exception"), m_alloc_exc),
        (nm("__cxa_free_exception"), m_nop),
        (nm("__cxa_throw", "__cxa_rethrow", "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"), m_throw),
        (rx(r"^std::__throw_"), m_throw2),
        (rx(r"^std::(runtime_error|logic_error|invalid_argument|length_error|out_of_range|domain_error|range_error)::"), m_nop),
        (nm("__assert_fail", "abort", "_ZSt9terminatev", "__clang_call_terminate", "_ZSt20__glibcxx_assert_failPKciS0_S0_"), m_abort),
        (pre("llvm.expect"), m_expect),
        (pre("llvm.assume"), m_nop),
        (pre("llvm.threadlocal.address"), m_ident),
        (nm("__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"), m_guard),
        (nm("__cxa_atexit"), m_nop0),
        (pre("llvm.smax", "llvm.smin"), m_minmax),
        (pre("llvm.abs"), m_abs),
        (pre("llvm.is.constant"), m_false),
        (nm("_ZSt21is_constant_evaluatedv", "_ZSt23__is_constant_evaluatedv"), m_false),
        (rx(r"^" + STR + r"::basic_string(<.*>)?\("), m_str_ctor),
        (rx(r"^" + STR + r"::~basic_string\("), m_str_dtor),
        (rx(r"^" + STR + r"::(c_str|data)\("), m_str_cstr),
        (rx(r"^" + STR + r"::operator=\("), m_str_assign),
        (rx(r"^" + STR + r"::compare\((char const\*|std::)"), m_str_compare),
        (rx(r"^" + STR + r"::empty\("), m_str_empty),
        (rx(r"^" + STR + r"::(size|length)\("), m_str_size),
        (rx(r"^(bool |std::__enable_if<.*>::__type )?std::operator(==|!=)(<char.*)?\(" + STR + r".*\)"), m_str_eq),
        (rx(r"^bool std::operator[!=]=<char, .*std::allocator<char> ?>\("), m_str_eq),
        (rx(r"^std::allocator<char>::"), m_nop),
        (rx(UMAP + r", (double|float).*>::(~?unordered_map|operator|begin|end|cbegin|cend|size|empty|find|count|contains|at|insert|emplace|erase|clear|reserve|rehash|swap|try_emplace|insert_or_assign)"), m_map),
        (rx(r"std::__detail::operator(!=|==)\(std::__detail::_Node_iterator_base"), m_it_cmp),
        (rx(r"std::__detail::_Node_(const_)?iterator<.*>::operator(\+\+|\*|->)\("), m_it_method),
    ]
