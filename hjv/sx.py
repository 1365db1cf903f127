"""Deductive executor: strongest-postcondition computation over clang's LLVM IR of the real header.

Loops with constant trip counts are unrolled completely; loops with symbolic trip counts are replaced by inferred
inductive summaries (closed forms for the scalars, "bulk" updates for the arrays) whose side conditions -- trip count,
independence of the iterations, disjointness of the writes -- are obligations discharged by the solver.
Everything that cannot be expressed raises Unsupported.
"""
import os
import re
import subprocess
from fractions import Fraction
from . import ir, smt
from . import terms as T
from .ir import Unsupported


class Ptr:
    """pointer: object id and byte offset; key: element of a modelled associative container"""
    __slots__ = ("o", "off", "key")

    def __init__(self, o, off, key=None):
        self.o, self.off, self.key = o, off, key

    def at(self, off):
        return Ptr(self.o, off, self.key)

    def plus(self, n):
        return Ptr(self.o, T.iadd(self.off, T.ic(n) if isinstance(n, int) else n), self.key)

    def __repr__(self):
        return "&%s+%s%s" % (self.o, self.off, "" if self.key is None else "{%s}" % self.key)


NULL = Ptr(None, T.ic(0))


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Special:
    """opaque value of a modelled library type (kind, payload)"""
    __slots__ = ("k", "p")

    def __init__(self, k, p):
        self.k, self.p = k, p

    def __repr__(self):
        return "<%s %s>" % (self.k, self.p)


class Obj:
    __slots__ = ("kind", "size", "cells", "layers", "name", "alive", "ro", "x", "esz", "heap")

    def __init__(self, kind, size, name, heap=False):
        self.kind, self.size, self.name = kind, size, name
        self.cells = {}
        self.layers = (("undef",),)
        self.alive = True
        self.ro = False
        self.x = None
        self.esz = 8
        self.heap = heap

    def copy(self):
        o = Obj(self.kind, self.size, self.name, self.heap)
        o.cells = dict(self.cells)
        o.layers = self.layers
        o.alive, o.ro, o.x, o.esz = self.alive, self.ro, self.x, self.esz
        return o


class State:
    __slots__ = ("mem", "pc", "own", "ghost")

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.own = set()
        self.ghost = {}

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        self.own = set()      # contents are shared from now on
        s.ghost = dict(self.ghost)
        return s

    def w(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        return o

    def new(self, obj):
        n = State.ctr
        State.ctr += 1
        self.mem[n] = obj
        self.own.add(n)
        return n

    ctr = 1

    def assume(self, c):
        if c is T.TRUE:
            return
        if c.op == "and":
            for x in c.a:
                self.assume(x)
        elif c not in self.pc:
            self.pc.append(c)


class Obl:
    __slots__ = ("kind", "where", "goal", "ok", "backend", "pc", "why", "model", "fn")

    def __init__(self, kind, where, goal, ok, backend, pc, why="", model=None):
        self.kind, self.where, self.goal, self.ok, self.backend, self.pc = kind, where, goal, ok, backend, pc
        self.why = why
        self.model = model


class Dead(Exception):
    """the current path is infeasible"""


_dm_cache = {}


def demangle(names):
    todo = [n for n in names if n not in _dm_cache]
    if todo:
        out = subprocess.run(["c++filt"], input="\n".join(todo), capture_output=True, text=True).stdout.split("\n")
        for n, d in zip(todo, out):
            _dm_cache[n] = d
    return {n: _dm_cache[n] for n in names}


def as_int(v):
    if isinstance(v, T.Term):
        if v.sort == "I":
            return v
        if v.sort == "B":
            return T.iite(v, T.ic(1), T.ic(0))
    raise Unsupported("integer expected, got %r" % (v,))


LIBM = {"sqrt", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "asinh", "acosh",
        "atanh", "exp", "log", "log2", "log10", "pow", "hypot", "exp2", "expm1", "log1p", "fabs", "floor", "ceil",
        "fmod", "trunc", "round", "copysign", "fma", "fmin", "fmax", "erf", "tgamma", "lgamma"}


# assumed facts about fresh symbols (not branch conditions): they never decide whether a write of a loop happens
FACTS = set()


class Exec:
    current = None
    on_bad_hook = None

    def __init__(self, module, models=None, contracts=None, check_ovf=False, budget=6000000, fp=False):
        self.m = module
        if getattr(module, "dm", None) is None:
            module.dm = demangle(list(module.fns) + list(module.decls))
        self.dm = module.dm
        self.models = models or []
        self.contracts = contracts or {}
        self.obls = []
        self.recording = True
        self.steps = 0
        self.budget = budget
        self.check_ovf = check_ovf
        self.fp = fp
        self.gobj = {}
        self.stack = []
        self.used = {}          # functions inlined -> count
        self.ucontracts = {}    # contracts used at call sites
        self.uassumed = {}      # assumed (library) contracts used
        self.loops_sum = 0
        self.loops_unr = 0
        self._mc = {}
        self.unroll_limit = 3000
        self.debug = bool(os.environ.get("HJV_DEBUG"))
        self.facts = FACTS
        self.stride = {}
        self.carry = {}         # contents a loop carries from one iteration to the next: name -> (contents before the loop, path condition, reads)
        self.on_bad = Exec.on_bad_hook
        Exec.current = self
        self.cand = []          # candidate index terms (ghost hints from the contract's quantified variables)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, kind, goal, what, assume=True):
        if goal is T.TRUE:
            if self.recording:
                self.obls.append(Obl(kind, what, goal, True, "hjv-simplify", None))
            return True
        if not self.recording:
            if assume:
                st.assume(goal)
            return True
        r = smt.check(st.pc, goal, fp=False, want_model=True)
        self.obls.append(Obl(kind, what, goal, r.ok, r.backend, None if r.ok else list(st.pc), r.why, r.model))
        if not r.ok and self.on_bad:
            self.on_bad(kind)
        if assume and not r.ok:
            st.assume(goal)
        return r.ok

    def fail(self, st, kind, what):
        if self.recording:
            # a path that cannot happen carries no obligation
            r = smt.check(st.pc, T.FALSE, want_model=True)
            self.obls.append(Obl(kind, what, T.FALSE, r.ok, r.backend, list(st.pc), r.why, r.model))
            if not r.ok and self.on_bad:
                self.on_bad(kind)
        return None

    def where(self, ins=None):
        f = self.stack[-1] if self.stack else "?"
        return "%s: %s" % (short(self.dm.get(f, f)), ins.txt[:150] if ins is not None else "")

    # ------------------------------------------------------------ memory
    def glob(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.fns or name in self.m.decls:
            return FnPtr(name)
        if name in self.gobj:
            oid = self.gobj[name]
            if oid not in st.mem:
                st.mem[oid] = self.gtmpl[oid]
            return Ptr(oid, T.ic(0))
        if name not in self.m.globals:
            raise Unsupported("global " + name)
        kind, ty, init = self.m.globals[name]
        o = Obj("cells", T.ic(self.m.size(ty)), "@" + name)
        o.ro = kind == "constant"
        if not o.ro and init is not None:
            o.x = "global"
        if init is not None:
            self.init_cells(st, o, 0, ty, init)
        else:
            o.x = "extern"
        oid = State.ctr
        State.ctr += 1
        self.gobj[name] = oid
        if not hasattr(self, "gtmpl"):
            self.gtmpl = {}
        self.gtmpl[oid] = o
        st.mem[oid] = o
        if o.x == "global":
            self.dynamic_init(name, oid)
            st.mem[oid] = self.gtmpl[oid]
        return Ptr(oid, T.ic(0))

    def dynamic_init(self, name, oid):
        """objects with static storage duration and a dynamic initialiser: the initialiser is run"""
        pat = re.compile(re.escape("@" + name) + r"(?![\w.$])")
        for fn in self.m.fns:
            if not fn.startswith("__cxx_global_var_init"):
                continue
            f = self.m.body(self.m.fns[fn])
            if not any(pat.search(i.txt or "") for b in f.blocks.values() for i in b):
                continue
            s = State()
            s.ghost["guard"] = 1
            outs = self.call(fn, [], s)
            if len(outs) != 1 or outs[0][0] != "ret":
                raise Unsupported("dynamic initialisation of " + name)
            o = outs[0][1].mem.get(oid)
            if o is not None:
                self.gtmpl[oid] = o
                self.check_ground(outs[0][1], o)

    def check_ground(self, st, o):
        for k, c in o.cells.items():
            if isinstance(k, int) and isinstance(c[1], T.Term) and any(q != "fn" for q, _ in T.fv(c[1])):
                self.fail(st, "frame", "object with static storage duration initialised from an argument: " + o.name)
                return

    def init_cells(self, st, o, off, ty, v):
        t = self.m.resolve(ty)
        if v[0] == "undef":
            return
        if v[0] == "cstr":
            o.cells["str"] = v[1]
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, T.ic(b))
            return
        if v[0] in ("zero",):
            self.zero_cells(o, off, t)
            return
        if v[0] == "agg":
            if t.k == "struct":
                for i, (ft, fv) in enumerate(v[1]):
                    self.init_cells(st, o, off + self.m.field_off(t, i), ft, fv)
            else:
                es = self.m.size(t.b)
                for i, (ft, fv) in enumerate(v[1]):
                    self.init_cells(st, o, off + i * es, ft, fv)
            return
        if v[0] == "glob":
            try:
                o.cells[off] = (8, self.glob(st, v[1]))
            except Unsupported:
                pass
            return
        if v[0] in ("int", "flt", "null"):
            o.cells[off] = (self.m.size(t), self.const(st, t, v))
            return

    def zero_cells(self, o, off, t):
        t = self.m.resolve(t)
        if t.k == "struct":
            for i, f in enumerate(t.a):
                self.zero_cells(o, off + self.m.field_off(t, i), f)
        elif t.k == "arr":
            es = self.m.size(t.b)
            for i in range(t.a):
                self.zero_cells(o, off + i * es, t.b)
        else:
            o.cells[off] = (self.m.size(t), self.zero_of(t))

    def zero_of(self, t):
        t = self.m.resolve(t)
        if t.k == "fp":
            return T.R0
        if t.k == "ptr":
            return NULL
        if t.k == "int":
            return T.FALSE if t.a == 1 else T.ic(0)
        if t.k == "struct":
            return Agg([self.zero_of(f) for f in t.a])
        if t.k == "arr":
            return Agg([self.zero_of(t.b) for _ in range(t.a)])
        raise Unsupported("zero of " + t.k)

    def access(self, st, p, n, what, ins, write=False):
        """bounds and liveness; returns Obj or raises Dead"""
        if p is UNDEF or not isinstance(p, Ptr):
            self.fail(st, "uninit", what + " through undefined pointer: " + self.where(ins))
            raise Dead()
        if p.o is None:
            self.fail(st, "bounds", what + " through null pointer: " + self.where(ins))
            raise Dead()
        o = st.mem.get(p.o)
        if o is None:
            if hasattr(self, "gtmpl") and p.o in self.gtmpl:
                o = st.mem[p.o] = self.gtmpl[p.o]
            else:
                self.fail(st, "lifetime", what + " after end of lifetime: " + self.where(ins))
                raise Dead()
        if not o.alive:
            self.fail(st, "lifetime", what + " after free of " + o.name + ": " + self.where(ins))
            raise Dead()
        if write and o.ro:
            self.fail(st, "frame", "write to read-only object " + o.name + ": " + self.where(ins))
            raise Dead()
        if write and o.x == "global" and not st.ghost.get("guard"):
            self.fail(st, "frame", "write to an object with static storage duration " + o.name + ": " + self.where(ins))
        if o.size is not None:
            off, sz = T.as_const(p.off), T.as_const(o.size)
            if off is not None and sz is not None and isinstance(n, int):
                if off < 0 or off + n > sz:
                    self.fail(st, "bounds", "%s of %s at offset %d (size %d): %s" % (what, o.name, off, sz, self.where(ins)))
                    raise Dead()
                if self.recording:
                    self.obls.append(Obl("bounds", what, T.TRUE, True, "hjv-simplify", None))
            else:
                nn = T.ic(n) if isinstance(n, int) else n
                g = T.band(T.ile(T.ic(0), p.off), T.ile(T.iadd(p.off, nn), o.size))
                if not self.oblige(st, "bounds", g, "%s of %s at %s: %s" % (what, o.name, p.off, self.where(ins))):
                    if not smt.sat(st.pc):
                        raise Dead()
        return o

    def eidx(self, st, p, o):
        e = T.idiv_exact(p.off, o.esz)
        if e is None:
            raise Unsupported("misaligned symbolic access to " + o.name)
        return e

    def load(self, st, ty, p, ins=None):
        t = self.m.resolve(ty)
        if t.k == "struct" or t.k == "arr":
            n = len(t.a) if t.k == "struct" else t.a
            out = []
            for i in range(n):
                ft = t.a[i] if t.k == "struct" else t.b
                fo = self.m.field_off(t, i) if t.k == "struct" else i * self.m.size(t.b)
                out.append(self.load(st, ft, p.plus(fo), ins))
            return Agg(out)
        n = self.m.size(t)
        p = self.deref(st, p, "read", ins)
        o = self.access(st, p, n, "read", ins)
        if o.kind == "map":
            if p.key is None or T.as_const(p.off) != 32 or t.k != "fp":
                raise Unsupported("raw access to a container")
            return self.select(st, o.x["val"], p.key, ins)
        if o.kind == "cells":
            off = T.as_const(p.off)
            if off is not None:
                c = o.cells.get(off)
                if c is None:
                    v = self._partial(o, off, n, t)
                    return v
                if c[0] == n:
                    return self.coerce(c[1], t, o)
                if c[0] > n and t.k == "int" and isinstance(c[1], T.Term) and c[1].sort == "I":
                    k = T.as_const(c[1])
                    if k is not None:
                        k = int(k) & ((1 << (8 * n)) - 1)
                        k = k - (1 << (8 * n)) if k >> (8 * n - 1) else k
                        return self.coerce(T.ic(k), t, o)
                    raise Unsupported("partial load")
                raise Unsupported("load width mismatch in " + o.name)
            sz = T.as_const(o.size)
            if sz is None:
                raise Unsupported("symbolic access to " + o.name)
            res = None
            miss = []
            for k, c in sorted((k, c) for k, c in o.cells.items() if isinstance(k, int)):
                if c[0] != n or k + n > sz:
                    continue
                cond = T.ieq(p.off, T.ic(k))
                if cond is T.FALSE:
                    continue
                if smt.check(st.pc, T.bnot(cond)).ok:
                    continue
                v = self.coerce(c[1], t, o)
                if not isinstance(v, T.Term):
                    raise Unsupported("symbolic access to " + o.name)
                miss.append(cond)
                if res is None:
                    res = v
                else:
                    res = self.ite(cond, v, res)
            if res is None:
                self.fail(st, "uninit", "read of uninitialised %s: %s" % (o.name, self.where(ins)))
                raise Dead()
            self.oblige(st, "uninit", T.bor(*miss), "read of initialised element of %s: %s" % (o.name, self.where(ins)))
            return res
        if o.kind == "buf":
            if n != o.esz:
                raise Unsupported("element size in " + o.name)
            v = self.select(st, o.layers, self.eidx(st, p, o), ins)
            return self.coerce(v, t, o)
        raise Unsupported("load from " + o.kind)

    def _partial(self, o, off, n, t):
        for k, c in o.cells.items():
            if isinstance(k, int) and k < off + n and off < k + c[0]:
                raise Unsupported("overlapping load in " + o.name)
        return UNDEF

    def coerce(self, v, t, o):
        if v is UNDEF:
            return v
        if t.k == "fp":
            if isinstance(v, T.Term) and v.sort == "R":
                return v
            if isinstance(v, T.Term) and v.sort == "I" and T.as_const(v) == 0:
                return T.R0
            raise Unsupported("type pun load in %s" % o.name)
        if t.k == "int":
            if v is T.R0:
                return T.ic(0)
            if isinstance(v, T.Term) and v.sort in ("I", "B"):
                return v
            if isinstance(v, (Ptr, FnPtr)):
                return v
            raise Unsupported("type pun load in %s" % o.name)
        if t.k == "ptr":
            if isinstance(v, (Ptr, FnPtr, Special)):
                return v
            if isinstance(v, T.Term) and v.sort == "I" and T.as_const(v) == 0:
                return NULL
            raise Unsupported("type pun load in %s" % o.name)
        return v

    def ite(self, c, a, b):
        if c is T.TRUE:
            return a
        if c is T.FALSE:
            return b
        if a is b:
            return a
        if isinstance(a, T.Term) and isinstance(b, T.Term):
            if a.sort == "R":
                return T.rite(c, a, b)
            if a.sort == "B" and b.sort == "B":
                return T.bite(c, a, b)
            return T.iite(c, as_int(a), as_int(b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.key is b.key:
            return Ptr(a.o, T.iite(c, a.off, b.off), a.key)
        raise Unsupported("merge of %r and %r" % (a, b))

    def store(self, st, ty, v, p, ins=None):
        t = self.m.resolve(ty)
        if t.k in ("struct", "arr"):
            n = len(t.a) if t.k == "struct" else t.a
            for i in range(n):
                ft = t.a[i] if t.k == "struct" else t.b
                fo = self.m.field_off(t, i) if t.k == "struct" else i * self.m.size(t.b)
                vv = UNDEF if v is UNDEF else v.v[i]
                self.store(st, ft, vv, p.plus(fo), ins)
            return
        n = self.m.size(t)
        p = self.deref(st, p, "write", ins)
        self.access(st, p, n, "write", ins, True)
        o = st.w(p.o)
        if o.kind == "map":
            if p.key is None or T.as_const(p.off) != 32 or t.k != "fp":
                raise Unsupported("raw access to a container")
            x = dict(o.x)
            x["val"] = self.push_store(x["val"], p.key, v)
            o.x = x
            return
        if o.kind == "cells":
            off = T.as_const(p.off)
            if off is not None:
                self.put(o, off, n, v)
                return
            sz = T.as_const(o.size)
            if sz is None:
                raise Unsupported("symbolic store to " + o.name)
            hit = []
            for k in range(0, sz - n + 1, n):
                base = self.align_base(o, n)
                kk = k + base
                if kk + n > sz:
                    continue
                cond = T.ieq(p.off, T.ic(kk))
                if cond is T.FALSE or smt.check(st.pc, T.bnot(cond)).ok:
                    continue
                hit.append((kk, cond))
            if not hit:
                raise Unsupported("symbolic store to " + o.name)
            if not smt.check(st.pc, T.bor(*[c for _, c in hit])).ok:
                raise Unsupported("symbolic store to " + o.name)
            for kk, cond in hit:
                old = o.cells.get(kk)
                if old is None and len(hit) > 1:
                    raise Unsupported("conditional store to uninitialised " + o.name)
                self.put(o, kk, n, v if len(hit) == 1 else self.ite(cond, v, old[1]))
            return
        if o.kind == "buf":
            if n != o.esz:
                raise Unsupported("element size in " + o.name)
            e = self.eidx(st, p, o)
            o.layers = self.push_store(o.layers, e, v)
            return
        raise Unsupported("store to " + o.kind)

    def align_base(self, o, n):
        return 0

    def push_store(self, layers, e, v):
        # overwrite of the same index by the newest stores
        k = len(layers) - 1
        while k >= 0 and layers[k][0] == "store":
            d = T.as_const(T.isub(layers[k][1], e))
            if d == 0:
                return layers[:k] + layers[k + 1:] + (("store", e, v),)
            if d is None:
                break
            k -= 1
        return layers + (("store", e, v),)

    def put(self, o, off, n, v):
        c = o.cells.get(off)
        if c is None or c[0] != n:
            for k in [k for k, c in o.cells.items() if isinstance(k, int) and k < off + n and off < k + c[0]]:
                del o.cells[k]
        if v is UNDEF:
            o.cells.pop(off, None)
        else:
            o.cells[off] = (n, v)

    # ------------------------------------------------------------ arrays
    def select(self, st, layers, e, ins=None):
        k = len(layers) - 1
        while k >= 0:
            L = layers[k]
            if L[0] == "store":
                d = T.isub(e, L[1])
                c = T.as_const(d)
                if c == 0:
                    return L[2]
                if c is not None or len(d.a) == 0:
                    k -= 1
                    continue
                eq = T.ieq(e, L[1])
                if eq is T.FALSE or smt.check(st.pc, T.bnot(eq)).ok:
                    k -= 1
                    continue
                if smt.check(st.pc, eq).ok:
                    return L[2]
                return self.merge_sel(st, eq, L[2], layers[:k], e, ins)
            if L[0] == "bulk":
                r = self.bulk_member(st, L, e)
                if r == "no":
                    k -= 1
                    continue
                sub, cond = r
                val = self.subst_val(L[4], sub)
                if cond is T.TRUE:
                    return val
                return self.merge_sel(st, cond, val, layers[:k], e, ins)
            if L[0] == "copy":
                _, lo, ln, src, slo, whole = L
                if whole:
                    return self.select(st, src, T.iadd(T.isub(e, lo), slo), ins)
                inn = T.band(T.ile(lo, e), T.ilt(e, T.iadd(lo, ln)))
                if inn is T.TRUE or smt.check(st.pc, inn).ok:
                    return self.select(st, src, T.iadd(T.isub(e, lo), slo), ins)
                if smt.check(st.pc, T.bnot(inn)).ok:
                    k -= 1
                    continue
                s2 = st.clone()
                s2.assume(inn)
                val = self.select(s2, src, T.iadd(T.isub(e, lo), slo), ins)
                return self.merge_sel(st, inn, val, layers[:k], e, ins)
            if L[1:] and L[1] in self.carry and L[0] in ("havoc", "bbase"):
                # contents before the loop: right if no earlier iteration writes this element (checked when the writes are known)
                pre, base, pend = self.carry[L[1]]
                pend.append((e, [c for c in st.pc if c not in base and c not in self.facts]))
                return self.select(st, pre, e, ins)
            if L[0] == "base" or L[0] == "havoc":
                return T.rsel(L[1], e)
            if L[0] == "ibase":
                return T.iatom(T.mk("I", "iapp", L[1], e))
            if L[0] == "bbase":
                return T.bsel(L[1], e)
            if L[0] == "const":
                return L[1]
            if L[0] == "undef":
                return UNDEF
            raise Unsupported("layer " + L[0])
        return UNDEF

    def merge_sel(self, st, cond, val, rest_layers, e, ins):
        s2 = st.clone()
        s2.assume(T.bnot(cond))
        rest = self.select(s2, rest_layers, e, ins)
        if rest is UNDEF and val is UNDEF:
            return UNDEF
        if rest is UNDEF:
            self.oblige(st, "uninit", cond, "element is initialised: " + self.where(ins))
            return val
        if val is UNDEF:
            self.oblige(st, "uninit", T.bnot(cond), "element is initialised: " + self.where(ins))
            return rest
        return self.ite(cond, val, rest)

    def subst_val(self, v, sub):
        if isinstance(v, T.Term):
            return T.subst(v, sub)
        if isinstance(v, Ptr):
            return Ptr(v.o, T.subst(v.off, sub), None if v.key is None else T.subst(v.key, sub))
        return v

    # ------------------------------------------------------------ families: one object per iteration of a loop
    def deref(self, st, p, what="access", ins=None):
        """pointer into a member of a family: the object that stands for this member"""
        if not isinstance(p, Ptr) or p.o is None:
            return p
        o = st.mem.get(p.o)
        if o is None or o.kind != "fam":
            return p
        self.member(st, o, p, what, ins)
        vs = st.ghost.get(("views", p.o), ())
        for k, oid in vs:
            if k is p.key:
                return Ptr(oid, p.off)
        for k, oid in vs:
            if not self.pristine(st.mem[oid]) and not smt.check(st.pc, T.bnot(T.ieq(k, p.key))).ok:
                raise Unsupported("members of a family may alias")
        x = o.x
        sub = {("iv", x["tau"]): p.key}
        v = Obj(x["okind"], None if x["size"] is None else T.subst(x["size"], sub), "%s{%s}" % (o.name, p.key), True)
        v.esz = x["esz"]
        v.cells = {k: (n, self.subst_val(c, sub)) for k, (n, c) in x["cells"].items()}
        v.layers = self.subst_layers(x["layers"], sub)
        v.x = ("view", v.layers, dict(v.cells))
        oid = st.new(v)
        st.ghost[("views", p.o)] = vs + ((p.key, oid),)
        return Ptr(oid, p.off)

    def pristine(self, v):
        return v.alive and v.layers is v.x[1] and v.cells == v.x[2]

    def member(self, st, o, p, what, ins):
        g = T.band(T.ile(T.ic(0), p.key), T.ilt(p.key, o.x["N"]))
        self.oblige(st, "bounds", g, "%s of an existing object of %s: %s" % (what, o.name, self.where(ins)))
        d = self.select(st, o.x["freed"], p.key, ins)
        self.oblige(st, "lifetime", T.bnot(d), "%s after free of %s: %s" % (what, o.name, self.where(ins)))
        if d is T.TRUE:
            raise Dead()

    def subst_layers(self, layers, sub):
        out = []
        for L in layers:
            if L[0] == "store":
                L = ("store", T.subst(L[1], sub), self.subst_val(L[2], sub))
            elif L[0] == "bulk":
                L = ("bulk", L[1], tuple(T.subst(g, sub) for g in L[2]), T.subst(L[3], sub), self.subst_val(L[4], sub))
            elif L[0] == "copy":
                L = ("copy", T.subst(L[1], sub), T.subst(L[2], sub), self.subst_layers(L[3], sub), T.subst(L[4], sub), L[5])
            elif L[0] == "const":
                L = ("const", self.subst_val(L[1], sub))
            out.append(L)
        return tuple(out)

    def free_member(self, st, p):
        o = st.mem[p.o]
        self.member(st, o, p, "free", None)
        for k, oid in st.ghost.get(("views", p.o), ()):
            if k is p.key:
                st.w(oid).alive = False
            elif not self.pristine(st.mem[oid]) and not smt.check(st.pc, T.bnot(T.ieq(k, p.key))).ok:
                raise Unsupported("members of a family may alias")
        o = st.w(p.o)
        x = dict(o.x)
        x["freed"] = self.push_store(x["freed"], p.key, T.TRUE)
        o.x = x

    def haspointers(self, layers):
        return any(L[0] in ("store", "bulk", "const") and isinstance(L[-1], Ptr) or L[0] == "copy" and self.haspointers(L[3]) for L in layers)

    def bulk_member(self, st, L, e):
        """'no' or (substitution, condition)"""
        _, params, guards, idx, val = L
        key = None
        if idx.sort == "I":
            # key-typed parameter: idx is the parameter itself
            at = T.as_atom(idx)
            if len(params) == 1 and at is not None and at.op == "iv" and at.a[0] == params[0]:
                sub = {("iv", params[0]): e}
                g = T.band(*[T.subst(x, sub) for x in guards])
                return self._decide(st, sub, g)
        # records of an array: one parameter with a constant stride
        if len(params) == 1 and not self._inside(idx, params[0]):
            x = T.as_atom(T.iv(params[0]))
            cf = T.coeffs_in(idx, x)
            c = T.as_const(cf[1]) if len(cf) == 2 else None
            if c is not None and abs(c) > 1:
                d = T.isub(e, cf[0])
                sol = T.iscale(d, Fraction(1, c))
                if T.integer_valued(sol):
                    sub = {("iv", params[0]): sol}
                    return self._decide(st, sub, T.band(*[T.subst(g, sub) for g in guards]))
                k0 = dict(d.a).get((), 0)
                if k0 % c != 0 and T.integer_valued(T.iscale(T.isub(d, T.ic(k0)), Fraction(1, c))):
                    return "no"
        # choose an inner parameter that occurs linearly with coefficient +-1
        cands = []
        for p in params:
            x = T.as_atom(T.iv(p))
            cf = T.coeffs_in(idx, x)
            if len(cf) == 2 and T.as_const(cf[1]) in (1, -1) and not self._inside(idx, p):
                cands.append((p, T.as_const(cf[1])))
        if not cands:
            pool = self.pool(st, e)
            pool += [T.isub(x, y) for x in pool[:5] for y in pool[:5] if x is not y and T.as_const(T.isub(x, y)) is None]
            pool += [T.ic(k) for k in (1, 2) if T.ic(k) not in pool]
            for asg in self._assign(params, pool):
                sub = {("iv", q): v for q, v in zip(params, asg)}
                if T.as_const(T.isub(T.subst(idx, sub), e)) != 0:
                    continue
                g = T.band(*[T.subst(x, sub) for x in guards])
                if g is T.TRUE or g is not T.FALSE and smt.check(st.pc, g).ok:
                    return sub, T.TRUE
            if self._not_member(st, L, e):
                return "no"
            raise Unsupported("cannot solve bulk index %s = %s" % (idx, e))
        # prefer the innermost parameter (first in list order)
        if len(params) == 1:
            p, c = cands[0]
            rest = T.subst(idx, {("iv", p): T.ic(0)})
            sol = T.iscale(T.isub(e, rest), c)
            sub = {("iv", p): sol}
            g = T.band(*[T.subst(x, sub) for x in guards])
            return self._decide(st, sub, g)
        pool = self.pool(st, e)
        for p, c in cands:
            others = [q for q in params if q != p]
            for asg in self._assign(others, pool):
                sub0 = {("iv", q): v for q, v in zip(others, asg)}
                rest = T.subst(T.subst(idx, {("iv", p): T.ic(0)}), sub0)
                sol = T.iscale(T.isub(e, rest), c)
                if not T.integer_valued(sol) or len(sol.a) > 4:
                    continue
                if any(T.degree_in(sol, x) > 1 for x in T.atoms_of(sol)) or any(len(m) > 1 for m, _ in sol.a):
                    continue
                sub = dict(sub0)
                sub[("iv", p)] = sol
                g = T.band(*[T.subst(x, sub) for x in guards])
                if g is T.FALSE:
                    continue
                if g is T.TRUE or smt.check(st.pc, g).ok:
                    return sub, T.TRUE
        if self._not_member(st, L, e):
            return "no"
        raise Unsupported("cannot decide membership of %s in bulk %s" % (e, idx))

    def _inside(self, poly, p):
        for a in T.atoms_of(poly):
            if a.op != "iv" and ("iv", p) in T.fv(a):
                return True
        return False

    def _assign(self, others, pool):
        import itertools
        return itertools.product(pool, repeat=len(others))

    def pool(self, st, e):
        out = []
        for c in self.cand:
            if c not in out:
                out.append(c)
        ats = [T.iatom(a) for a in T.atoms_of(e)]
        for a in ats:
            if a not in out:
                out.append(a)
        for a in list(out)[:6]:
            for k in (-1, 1):
                b = T.iadd(a, T.ic(k))
                if b not in out:
                    out.append(b)
        z = T.ic(0)
        if z not in out:
            out.append(z)
        return out

    def _decide(self, st, sub, g):
        if g is T.FALSE:
            return "no"
        if g is T.TRUE or smt.check(st.pc, g).ok:
            return sub, T.TRUE
        if smt.check(st.pc, T.bnot(g)).ok:
            return "no"
        return sub, g

    def _not_member(self, st, L, e):
        _, params, guards, idx, val = L
        ren = {("iv", p): T.ifresh(p.split("!")[0]) for p in params}
        return self.apart(list(st.pc) + [T.subst(g, ren) for g in guards], T.subst(idx, ren), e)

    def apart(self, hyp, x, y):
        """prove x != y: directly, or by splitting on the order of the rows of a packed matrix / the columns of a full one"""
        hyp = list(hyp) + [T.ieq(x, y)]
        if smt.trivially_false(hyp):
            return True
        ax, ay = T.atoms_of(x), T.atoms_of(y)
        qs = [T.iatom(a) for a in ax if a not in ay and a.op == "iv" and T.degree_in(x, a) > 1]
        rs = [T.iatom(a) for a in ay if a not in ax and a.op == "iv" and T.degree_in(y, a) > 1]
        pairs = [(q, r) for q in qs for r in rs]
        for a in ax:
            if a.op == "iv" and a in ay:
                c1, c2 = T.coeffs_in(x, a), T.coeffs_in(y, a)
                if len(c1) == 2 and len(c2) == 2 and T.as_const(T.isub(c1[1], c2[1])) is None:
                    pairs.append((c1[1], c2[1]))
        for q, r in pairs:
            if self.debug: print("APART", T.show(x), T.show(y), "|", T.show(q), T.show(r), [smt.linear_unsat(hyp + [h]) for h in (T.ilt(q, r), T.ieq(q, r), T.ilt(r, q))], [T.show(h) for h in hyp])
            if all(smt.linear_unsat(hyp + [h]) for h in (T.ilt(q, r), T.ieq(q, r), T.ilt(r, q))):
                return True
        r = smt.check(hyp, T.FALSE)
        self.last_backend = r.backend
        return r.ok

    # ------------------------------------------------------------ constants and operands
    def const(self, st, ty, v):
        k = v[0]
        if k == "int":
            t = self.m.resolve(ty)
            if t.k == "int" and t.a == 1:
                return T.bc(v[1] != 0)
            return T.ic(v[1])
        if k == "flt":
            if isinstance(v[1], tuple):
                return T.rspecial(v[1][1])
            return T.rc(v[1])
        if k == "null":
            return NULL
        if k == "undef":
            return UNDEF
        if k == "zero":
            return self.zero_of(ty)
        if k == "glob":
            return self.glob(st, v[1])
        if k == "cgep":
            base = self.const(st, ir.PTR, v[2][0][1])
            off = T.ic(0)
            t = v[1]
            for i, (it, iv_) in enumerate(v[2][1:]):
                x = iv_[1]
                if i == 0:
                    off = T.iadd(off, T.ic(x * self.m.size(t)))
                else:
                    rt = self.m.resolve(t)
                    if rt.k == "struct":
                        off = T.iadd(off, T.ic(self.m.field_off(rt, x)))
                        t = rt.a[x]
                    else:
                        off = T.iadd(off, T.ic(x * self.m.size(rt.b)))
                        t = rt.b
            if isinstance(base, FnPtr):
                raise Unsupported("gep on function")
            return Ptr(base.o, T.iadd(base.off, off))
        if k == "agg":
            return Agg([self.const(st, t, x) for t, x in v[1]])
        if k == "ccast" and v[1] in ("ptrtoint", "inttoptr", "bitcast"):
            x = self.const(st, v[2], v[3])
            if isinstance(x, (FnPtr, Ptr)):
                return x
        raise Unsupported("constant %r" % (v,))

    def val(self, st, env, ty, v):
        if v[0] == "loc":
            return env[v[1]]
        return self.const(st, ty, v)

    # ------------------------------------------------------------ running
    def call(self, name, args, st):
        """returns outcomes [('ret',st,val)|('throw',st,info)|('abort',st,info)]"""
        name = self.m.aliases.get(name, name)
        d = self.dm.get(name) or demangle([name])[name]
        h = self._mc.get(name)
        if h is None:
            h = False
            for pat, f in self.models:
                if pat(name, d):
                    h = f
                    break
            self._mc[name] = h
        if h:
            r = h(self, st, name, d, args)
            if r is not None:
                return r
        c = self.contracts.get(name)
        if c is not None and name not in self.stack:
            r = c(self, st, args)
            if r is not None:
                self.ucontracts[name] = self.ucontracts.get(name, 0) + 1
                return r
        if name in self.m.fns:
            return self.inline(name, args, st)
        raise Unsupported("external function " + short(d))

    def inline(self, name, args, st):
        if self.stack.count(name) > 3 or len(self.stack) > 200:
            raise Unsupported("recursion in " + short(self.dm[name]))
        fn = self.m.body(self.m.fns[name])
        if fn.loops is None:
            ir.find_loops(fn)
        self.used[name] = self.used.get(name, 0) + 1
        env = {}
        for (t, nm, _), a in zip(fn.params, args):
            env[nm] = a
        if fn.varargs:
            raise Unsupported("varargs " + name)
        env["%al"] = []
        self.stack.append(name)
        try:
            outs = self.region(fn, fn.order[0], None, env, st, None, None)
        finally:
            self.stack.pop()
        return outs

    def region(self, fn, start, prev, env, st, body, header):
        outs = []
        work = [(start, prev, env, st, 0, True)]
        while work:
            blk, prev, env, st, i, fresh_entry = work.pop()
            try:
                self.block(fn, blk, prev, env, st, i, body, header, outs, work)
            except Dead:
                pass
        return outs

    def goto(self, fn, blk, frm, env, st, body, header, outs, work):
        if body is not None:
            if blk == header:
                outs.append(("back", env, st, frm))
                return
            if blk not in body:
                outs.append(("exit", env, st, blk, frm))
                return
        if blk in fn.loops and frm not in fn.loops[blk]:
            for o in self.loop(fn, blk, frm, env, st):
                if o[0] == "exit":
                    self.goto(fn, o[3], o[4], o[1], o[2], body, header, outs, work)
                else:
                    outs.append(o)
            return
        work.append((blk, frm, env, st, 0, True))

    def block(self, fn, blk, prev, env, st, i, body, header, outs, work):
        ins_list = fn.blocks[blk]
        n = len(ins_list)
        if i == 0:
            # phis are evaluated in parallel
            upd = []
            while i < n and ins_list[i].op == "phi":
                x = ins_list[i]
                for v, lb in x.x:
                    if lb == prev or (lb.isdigit() and prev == "%entry%"):
                        upd.append((x.res, self.val(st, env, x.ty, v)))
                        break
                else:
                    raise Unsupported("phi")
                i += 1
            for r, v in upd:
                env[r] = v
        while i < n:
            x = ins_list[i]
            i += 1
            self.steps += 1
            if self.steps > self.budget:
                raise Unsupported("step budget exceeded")
            op = x.op
            if op == "load":
                env[x.res] = self.load(st, x.ty, self.val(st, env, ir.PTR, x.args[0]), x)
            elif op == "store":
                self.store(st, x.ty, self.val(st, env, x.ty, x.args[0]), self.val(st, env, ir.PTR, x.args[1]), x)
            elif op == "alloca":
                if x.x is not None:
                    raise Unsupported("dynamic alloca")
                oid = st.new(Obj("cells", T.ic(self.m.size(x.ty)), "%" + x.res))
                env["%al"].append(oid)
                env[x.res] = Ptr(oid, T.ic(0))
            elif op == "getelementptr":
                env[x.res] = self.gep(st, env, x)
            elif op in ("call", "invoke"):
                callee, lab = x.x
                if callee[0] == "glob":
                    cname = callee[1]
                else:
                    fp = self.val(st, env, ir.PTR, callee)
                    if not isinstance(fp, FnPtr):
                        raise Unsupported("indirect call")
                    cname = fp.name
                if cname.startswith("llvm.dbg") or cname.startswith("llvm.lifetime"):
                    continue
                args = []
                for at, av, pa in x.args:
                    if at.k == "metadata":
                        args.append(UNDEF)
                        continue
                    a = self.val(st, env, at, av)
                    if pa is not None and pa[0] == "byval":
                        n2 = self.m.size(pa[1])
                        oid = st.new(Obj("cells", T.ic(n2), "byval"))
                        env["%al"].append(oid)
                        self.memcpy(st, Ptr(oid, T.ic(0)), a, T.ic(n2), x)
                        a = Ptr(oid, T.ic(0))
                    args.append(a)
                self.curins = x
                rs = self.call(cname, args, st)
                many = len(rs) > 1
                for r in rs:
                    if r[0] != "ret":
                        outs.append(r)
                        continue
                    e2 = env
                    if many:
                        e2 = dict(env)
                        e2["%al"] = list(env["%al"])
                    if x.res is not None:
                        e2[x.res] = r[2]
                    if op == "invoke":
                        self.goto(fn, lab[0], blk, e2, r[1], body, header, outs, work)
                    elif many:
                        work.append((blk, prev, e2, r[1], i, False))
                    else:
                        st = r[1]
                if op == "invoke" or many or not rs or rs[0][0] != "ret":
                    return
            elif op == "br":
                c = self.val(st, env, ir.INT(1), x.args[0])
                c = self.defined(st, c, x)
                c = self.as_bool(c)
                if c is T.TRUE:
                    return self.goto(fn, x.x[0], blk, env, st, body, header, outs, work)
                if c is T.FALSE:
                    return self.goto(fn, x.x[1], blk, env, st, body, header, outs, work)
                nc = T.bnot(c)
                ct = not smt.check(st.pc, nc).ok
                cf = not smt.check(st.pc, c).ok if ct else True
                if ct and cf:
                    s2 = st.clone()
                    e2 = dict(env)
                    e2["%al"] = list(env["%al"])
                    s2.assume(nc)
                    st.assume(c)
                    self.goto(fn, x.x[1], blk, e2, s2, body, header, outs, work)
                    return self.goto(fn, x.x[0], blk, env, st, body, header, outs, work)
                if ct:
                    return self.goto(fn, x.x[0], blk, env, st, body, header, outs, work)
                return self.goto(fn, x.x[1], blk, env, st, body, header, outs, work)
            elif op == "jmp":
                return self.goto(fn, x.x, blk, env, st, body, header, outs, work)
            elif op == "ret":
                v = None
                if x.args:
                    v = self.val(st, env, x.ty, x.args[0])
                for oid in env["%al"]:
                    st.mem.pop(oid, None)
                outs.append(("ret", st, v))
                return
            elif op == "switch":
                v = as_int(self.val(st, env, x.ty, x.args[0]))
                rest = st
                for cv, lb in x.x[1]:
                    c = T.ieq(v, T.ic(cv))
                    if c is T.FALSE:
                        continue
                    if not smt.check(rest.pc, T.bnot(c)).ok:
                        s2 = rest.clone()
                        s2.assume(c)
                        e2 = dict(env)
                        e2["%al"] = list(env["%al"])
                        self.goto(fn, lb, blk, e2, s2, body, header, outs, work)
                    rest = rest.clone()
                    rest.assume(T.bnot(c))
                    if c is T.TRUE:
                        return
                if smt.sat(rest.pc):
                    self.goto(fn, x.x[0], blk, env, rest, body, header, outs, work)
                return
            elif op == "unreachable":
                self.fail(st, "unreachable", "unreachable executed: " + self.where(x))
                return
            elif op in ("landingpad", "resume"):
                raise Unsupported("exception handler reached")
            else:
                env[x.res] = self.compute(st, env, x)

    def defined(self, st, v, ins):
        if v is UNDEF:
            self.fail(st, "uninit", "use of an uninitialised value: " + self.where(ins))
            raise Dead()
        return v

    def as_bool(self, v):
        if isinstance(v, T.Term):
            if v.sort == "B":
                return v
            if v.sort == "I":
                return T.bnot(T.ieq(v, T.ic(0)))
        raise Unsupported("boolean expected")

    def gep(self, st, env, x):
        p = self.defined(st, self.val(st, env, ir.PTR, x.args[0]), x)
        if not isinstance(p, Ptr):
            raise Unsupported("gep base")
        off = p.off
        t = x.ty
        for i, (it, iv_) in enumerate(x.x):
            v = self.defined(st, self.val(st, env, it, iv_), x)
            v = as_int(v)
            if i == 0:
                off = T.iadd(off, T.iscale(v, self.m.size(t)))
            else:
                rt = self.m.resolve(t)
                if rt.k == "struct":
                    k = T.as_const(v)
                    off = T.iadd(off, T.ic(self.m.field_off(rt, k)))
                    t = rt.a[k]
                else:
                    off = T.iadd(off, T.iscale(v, self.m.size(rt.b)))
                    t = rt.b
        return p.at(off)

    # ------------------------------------------------------------ arithmetic
    def compute(self, st, env, x):
        op = x.op
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
            a = self.defined(st, self.val(st, env, x.ty, x.args[0]), x)
            if op == "fneg":
                return T.rneg(a)
            b = self.defined(st, self.val(st, env, x.ty, x.args[1]), x)
            if op == "fadd":
                return T.radd(a, b)
            if op == "fsub":
                return T.rsub(a, b)
            if op == "fmul":
                return T.rmul(a, b)
            self.oblige(st, "div", T.bnot(T.fcmp("oeq", b, T.R0)), "divisor is nonzero: " + self.where(x))
            return T.rdiv(a, b)
        if op == "fcmp":
            a = self.defined(st, self.val(st, env, x.ty, x.args[0]), x)
            b = self.defined(st, self.val(st, env, x.ty, x.args[1]), x)
            return T.fcmp(x.x, a, b)
        if op == "icmp":
            return self.icmp(st, env, x)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            a = self.defined(st, self.val(st, env, x.ty, x.args[0]), x)
            b = self.defined(st, self.val(st, env, x.ty, x.args[1]), x)
            return self.iop(st, op, a, b, x)
        if op in ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr"):
            v = self.val(st, env, x.x, x.args[0])
            if v is UNDEF:
                return v
            if op == "ptrtoint" or op == "inttoptr":
                return v
            if op == "bitcast":
                return v
            t = self.m.resolve(x.ty)
            if isinstance(v, Ptr):
                return v
            if op == "sext":
                if v.sort == "B":
                    return T.iite(v, T.ic(-1), T.ic(0))
                return v
            if op == "zext":
                if v.sort == "B":
                    return T.iite(v, T.ic(1), T.ic(0))
                c = T.as_const(v)
                src = self.m.resolve(x.x)
                if c is not None:
                    return T.ic(c % (1 << src.a))
                if not self.nonneg(st, v):
                    raise Unsupported("zext of a possibly negative value")
                return v
            # trunc
            if t.a == 1:
                if v.sort == "B":
                    return v
                return T.bnot(T.ieq(v, T.ic(0)))
            c = T.as_const(v)
            if c is not None:
                c %= 1 << t.a
                return T.ic(c - (1 << t.a) if c >= 1 << (t.a - 1) else c)
            g = T.band(T.ile(T.ic(-(1 << (t.a - 1))), v), T.ilt(v, T.ic(1 << (t.a - 1))))
            if not smt.check(st.pc, g).ok:
                self.oblige(st, "overflow", g, "value fits the narrower type: " + self.where(x))
            return v
        if op in ("sitofp", "uitofp"):
            v = self.defined(st, self.val(st, env, x.x, x.args[0]), x)
            return T.i2r(as_int(v))
        if op in ("fptosi", "fptoui"):
            v = self.defined(st, self.val(st, env, x.x, x.args[0]), x)
            return T.r2i(v)
        if op in ("fpext", "fptrunc"):
            return self.val(st, env, x.x, x.args[0])
        if op == "select":
            c = self.as_bool(self.defined(st, self.val(st, env, ir.INT(1), x.args[0]), x))
            a = self.val(st, env, x.ty, x.args[1])
            b = self.val(st, env, x.ty, x.args[2])
            if c is T.TRUE:
                return a
            if c is T.FALSE:
                return b
            if a is UNDEF or b is UNDEF:
                raise Unsupported("select undef")
            return self.ite(c, a, b)
        if op == "extractvalue":
            v = self.val(st, env, x.ty, x.args[0])
            for k in x.x:
                if v is UNDEF:
                    return v
                v = v.v[k]
            return v
        if op == "insertvalue":
            v = self.val(st, env, x.ty, x.args[0])
            w = x.args[1]
            # type of inserted operand: find from aggregate type
            t = self.m.resolve(x.ty)
            for k in x.x:
                t = self.m.resolve(t.a[k] if t.k == "struct" else t.b)
            nv = self.val(st, env, t, w)
            return self.insert(v, x.ty, x.x, nv)
        if op == "freeze":
            return self.val(st, env, x.ty, x.args[0])
        raise Unsupported("instruction " + op)

    def insert(self, v, ty, path, nv):
        t = self.m.resolve(ty)
        n = len(t.a) if t.k == "struct" else t.a
        vs = [UNDEF] * n if v is UNDEF else list(v.v)
        k = path[0]
        if len(path) == 1:
            vs[k] = nv
        else:
            vs[k] = self.insert(vs[k], t.a[k] if t.k == "struct" else t.b, path[1:], nv)
        return Agg(vs)

    def nonneg(self, st, v):
        c = T.as_const(v)
        if c is not None:
            return c >= 0
        return smt.check(st.pc, T.ile(T.ic(0), v)).ok

    def iop(self, st, op, a, b, x):
        if isinstance(a, FnPtr) and op == "and" and isinstance(b, T.Term) and T.as_const(b) == 1:
            return T.ic(0)        # a pointer to a member function: not virtual
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o != b.o:
                    raise Unsupported("difference of unrelated pointers")
                return T.isub(a.off, b.off)
            if op == "sub" and isinstance(a, Ptr):
                return a.at(T.isub(a.off, as_int(b)))
            if op == "add":
                if isinstance(a, Ptr):
                    return a.at(T.iadd(a.off, as_int(b)))
                return b.at(T.iadd(b.off, as_int(a)))
            raise Unsupported("pointer arithmetic " + op)
        w = self.m.resolve(x.ty).a
        if w == 1 or (a.sort == "B" and b.sort == "B"):
            a, b = self.as_bool(a), self.as_bool(b)
            if op == "and":
                return T.band(a, b)
            if op == "or":
                return T.bor(a, b)
            if op in ("xor", "add", "sub"):
                return T.bite(a, T.bnot(b), b)
            raise Unsupported("i1 " + op)
        a, b = as_int(a), as_int(b)
        ca, cb = T.as_const(a), T.as_const(b)
        if op in ("add", "sub", "mul"):
            r = T.iadd(a, b) if op == "add" else T.isub(a, b) if op == "sub" else T.imul(a, b)
            c = T.as_const(r)
            if c is not None:
                if "nsw" not in (x.x or ()):
                    c %= 1 << w
                    if c >= 1 << (w - 1):
                        c -= 1 << w
                    return T.ic(c)
                if not -(1 << (w - 1)) <= c < 1 << (w - 1):
                    self.fail(st, "overflow", "signed overflow: " + self.where(x))
                    raise Dead()
            elif self.check_ovf and ("nsw" in (x.x or ()) or True):
                g = T.band(T.ile(T.ic(-(1 << (w - 1))), r), T.ilt(r, T.ic(1 << (w - 1))))
                self.oblige(st, "overflow", g, "no signed overflow: " + self.where(x))
            return r
        if op == "sdiv":
            if cb is None:
                # non-negative by positive: quotient and remainder
                if not smt.check(st.pc, T.band(T.ile(T.ic(0), a), T.ile(T.ic(1), b))).ok:
                    raise Unsupported("sdiv by non-constant")
                q = T.ifresh("quot")
                st.assume(T.ile(T.ic(0), q))
                st.assume(T.ile(q, a))
                st.assume(T.ile(T.imul(q, b), a))
                st.assume(T.ilt(a, T.imul(T.iadd(q, T.ic(1)), b)))
                return q
            if cb == 0:
                raise Unsupported("sdiv by zero")
            if ca is not None:
                q = abs(ca) // abs(cb)
                return T.ic(q if (ca < 0) == (cb < 0) else -q)
            q = T.idiv_exact(a, cb)
            if q is not None:
                return q
            if "exact" in (x.x or ()):
                raise Unsupported("exact sdiv not exact")
            if cb < 0:
                raise Unsupported("sdiv negative")
            if self.nonneg(st, a):
                return T.ifloordiv(a, cb)
            return T.iite(T.ile(T.ic(0), a), T.ifloordiv(a, cb), T.iscale(T.ifloordiv(T.iscale(a, -1), cb), -1))
        if op in ("udiv", "lshr"):
            if cb is None:
                raise Unsupported(op + " by non-constant")
            k = cb if op == "udiv" else 1 << cb
            if ca is not None:
                return T.ic((ca % (1 << w)) // k)
            if not self.nonneg(st, a):
                raise Unsupported(op + " of possibly negative value")
            return T.ifloordiv(a, k)
        if op == "ashr":
            if cb is None:
                raise Unsupported("ashr by non-constant")
            return T.ifloordiv(a, 1 << cb)
        if op == "shl":
            if cb is None:
                raise Unsupported("shl by non-constant")
            r = T.iscale(a, 1 << cb)
            c = T.as_const(r)
            if c is not None:
                c %= 1 << w
                return T.ic(c - (1 << w) if c >= 1 << (w - 1) else c)
            return r
        if op in ("urem", "srem"):
            if cb is None or cb <= 0:
                raise Unsupported(op + " by non-constant")
            if ca is not None:
                if op == "urem":
                    return T.ic((ca % (1 << w)) % cb)
                r = abs(ca) % cb
                return T.ic(r if ca >= 0 else -r)
            if not self.nonneg(st, a):
                raise Unsupported(op + " of possibly negative value")
            return T.isub(a, T.iscale(T.ifloordiv(a, cb), cb))
        if op in ("and", "or", "xor"):
            if ca is not None and cb is not None:
                m = (1 << w) - 1
                r = {"and": ca & cb, "or": ca | cb, "xor": ca ^ cb}[op]
                return T.ic(r)
            if op == "xor" and cb == -1:
                return T.isub(T.ic(-1), a)
            if op == "and" and cb is not None and cb >= 0 and (cb & (cb + 1)) == 0:
                return T.isub(a, T.iscale(T.ifloordiv(a, cb + 1), cb + 1))
            if op == "xor":
                # boolean xor on widened bits
                x1, x2 = T.as_atom(a), T.as_atom(b)
                if cb in (0, 1) and x1 is not None and x1.op == "ite":
                    c = T.bnot(T.ieq(a, T.ic(0)))
                    return T.iite(T.bnot(c), T.ic(1), T.ic(0)) if cb == 1 else a
            if op in ("and", "or"):
                x1, x2 = T.as_atom(a), T.as_atom(b)
                isb = lambda t, c: (c in (0, 1)) or (t is not None and t.op == "ite" and T.as_const(t.a[1]) in (0, 1) and T.as_const(t.a[2]) in (0, 1))
                if isb(x1, ca) and isb(x2, cb):
                    p, q = T.bnot(T.ieq(a, T.ic(0))), T.bnot(T.ieq(b, T.ic(0)))
                    return T.iite(T.band(p, q) if op == "and" else T.bor(p, q), T.ic(1), T.ic(0))
            raise Unsupported("bit operation " + op)
        raise Unsupported(op)

    def icmp(self, st, env, x):
        a = self.defined(st, self.val(st, env, x.ty, x.args[0]), x)
        b = self.defined(st, self.val(st, env, x.ty, x.args[1]), x)
        p = x.x
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                na = a.name if isinstance(a, FnPtr) else None
                nb = b.name if isinstance(b, FnPtr) else None
                if p in ("eq", "ne"):
                    return T.bc((na == nb) == (p == "eq"))
                raise Unsupported("function pointer comparison")
            if not isinstance(a, Ptr) or not isinstance(b, Ptr):
                raise Unsupported("pointer/int comparison")
            if a.o == b.o and a.key is not b.key and a.o is not None:
                raise Unsupported("comparison of pointers to members of a family")
            if a.o == b.o:
                a, b = a.off, b.off
            else:
                if p == "eq":
                    return T.FALSE
                if p == "ne":
                    return T.TRUE
                raise Unsupported("ordering of unrelated pointers")
        if a.sort == "B" or b.sort == "B":
            if p in ("eq", "ne") and a.sort == "B" and b.sort == "B":
                e = T.bite(a, b, T.bnot(b))
                return e if p == "eq" else T.bnot(e)
            a, b = as_int(a), as_int(b)
        if p == "eq":
            return T.ieq(a, b)
        if p == "ne":
            return T.bnot(T.ieq(a, b))
        if p in ("ugt", "ule") and T.as_const(b) == 0:
            return T.bnot(T.ieq(a, b)) if p == "ugt" else T.ieq(a, b)
        if p[0] == "u":
            w = self.m.resolve(x.ty)
            w = w.a if w.k == "int" else 64
            a = self.unsigned(st, a, w)
            b = self.unsigned(st, b, w)
        if p in ("slt", "ult"):
            return T.ilt(a, b)
        if p in ("sle", "ule"):
            return T.ile(a, b)
        if p in ("sgt", "ugt"):
            return T.ilt(b, a)
        return T.ile(b, a)

    def unsigned(self, st, a, w):
        c = T.as_const(a)
        if c is not None:
            return T.ic(c % (1 << w))
        if self.nonneg(st, a):
            return a
        if smt.check(st.pc, T.ilt(a, T.ic(0))).ok:
            return T.iadd(a, T.ic(1 << w))
        return T.iite(T.ile(T.ic(0), a), a, T.iadd(a, T.ic(1 << w)))

    # ------------------------------------------------------------ memory intrinsics
    def memcpy(self, st, d, s, n, ins):
        c = T.as_const(n)
        if c == 0:
            return
        s, d = self.deref(st, s, "read", ins), self.deref(st, d, "write", ins)
        so = self.access(st, s, n if c is None else c, "read", ins)
        self.access(st, d, n if c is None else c, "write", ins, True)
        so = st.mem[s.o]
        do = st.w(d.o)
        if so.kind == "cells" and do.kind == "cells":
            a, b = T.as_const(s.off), T.as_const(d.off)
            if c is None or a is None or b is None:
                raise Unsupported("symbolic memcpy between fixed objects")
            src = {k - a: v for k, v in so.cells.items() if isinstance(k, int) and a <= k and k + v[0] <= a + c}
            for k in [k for k, v in do.cells.items() if isinstance(k, int) and k < b + c and b < k + v[0]]:
                del do.cells[k]
            for k, v in src.items():
                do.cells[b + k] = v
            return
        if do.kind == "buf" and so.kind == "buf":
            ln = T.idiv_exact(n, 8)
            if ln is None:
                raise Unsupported("memcpy length")
            de, se = self.eidx(st, d, do), self.eidx(st, s, so)
            whole = T.as_const(de) == 0 and do.size is not None and T.as_const(T.isub(n, do.size)) == 0
            base = do.layers if not whole else ()
            do.layers = base + (("copy", de, ln, so.layers, se, whole),)
            return
        # element-wise between a fixed object and a symbolic buffer
        if c is not None and c % 8 == 0 and c <= 4096:
            for k in range(0, c, 8):
                v = None
                if so.kind == "cells":
                    off = T.as_const(s.off)
                    if off is None:
                        raise Unsupported("memcpy source")
                    cell = so.cells.get(off + k)
                    v = cell[1] if cell else UNDEF
                else:
                    v = self.select(st, so.layers, T.iadd(self.eidx(st, s, so), T.ic(k // 8)), ins)
                if do.kind == "cells":
                    off = T.as_const(d.off)
                    if off is None:
                        raise Unsupported("memcpy target")
                    self.put(do, off + k, 8, v)
                else:
                    do.layers = self.push_store(do.layers, T.iadd(self.eidx(st, d, do), T.ic(k // 8)), v)
            return
        raise Unsupported("memcpy")

    def memset(self, st, d, v, n, ins):
        c = T.as_const(n)
        if c == 0:
            return
        d = self.deref(st, d, "write", ins)
        self.access(st, d, n if c is None else c, "write", ins, True)
        o = st.w(d.o)
        bv = T.as_const(as_int(v))
        if bv != 0:
            raise Unsupported("memset value")
        if o.kind == "cells":
            off = T.as_const(d.off)
            if c is None or off is None:
                raise Unsupported("memset")
            for k in [k for k, w in o.cells.items() if isinstance(k, int) and k < off + c and off < k + w[0]]:
                del o.cells[k]
            for k in range(off, off + c - c % 8, 8):
                o.cells[k] = (8, T.ic(0))
            for k in range(off + c - c % 8, off + c):
                o.cells[k] = (1, T.ic(0))
            return
        ln = T.idiv_exact(n, 8)
        p = T.fresh("z")
        lo = self.eidx(st, d, o)
        o.layers = o.layers + (("bulk", (p,), (T.ile(T.ic(0), T.iv(p)), T.ilt(T.iv(p), ln)), T.iadd(lo, T.iv(p)), T.R0),)

    # ------------------------------------------------------------ loops
    def loop(self, fn, H, frm, env, st):
        body = fn.loops[H]
        save = (len(self.obls), self.steps)
        snap_env = dict(env)
        snap_env["%al"] = list(env["%al"])
        snap_st = st.clone()
        cur = [(env, st, frm)]
        done = []
        iters = 0
        ok = True
        while cur:
            iters += 1
            if iters > self.unroll_limit:
                ok = False
                break
            nxt = []
            for e, s, f in cur:
                s_sat = None
                outs = self.region(fn, H, f, e, s, body, H)
                kinds = {o[0] for o in outs}
                if "back" in kinds and "exit" in kinds:
                    ok = False
                    break
                for o in outs:
                    if o[0] == "back":
                        nxt.append((o[1], o[2], o[3]))
                    else:
                        done.append(o)
            if not ok:
                break
            if len(nxt) > 64:
                raise Unsupported("too many paths in loop")
            cur = nxt
        if ok:
            self.loops_unr += 1
            return done
        del self.obls[save[0]:]
        self.loops_sum += 1
        return self.summarise(fn, H, body, frm, snap_env, snap_st)

    def modified(self, s0, s1, allowed):
        """cells and buffers of objects in s0 whose contents differ in s1"""
        cells, bufs = set(), set()
        for oid, o in s0.mem.items():
            p = s1.mem.get(oid)
            if p is o:
                continue
            if p is None:
                continue
            if not p.alive and o.alive:
                raise Unsupported("loop frees an outer object")
            if o.kind == "fam":
                if p.x["freed"] != o.x["freed"]:
                    bufs.add((oid, "freed"))
            elif o.kind == "cells":
                for k in set(o.cells) | set(p.cells):
                    a, b = o.cells.get(k), p.cells.get(k)
                    if a is b:
                        continue
                    if a is not None and b is not None and a[0] == b[0] and same(a[1], b[1]):
                        continue
                    cells.add((oid, k))
            elif o.kind == "buf":
                if p.layers is not o.layers and p.layers != o.layers:
                    bufs.add(oid)
            elif o.kind == "map":
                if p.x is not o.x:
                    for part in ("dom", "val"):
                        if p.x[part] != o.x[part]:
                            bufs.add((oid, part))
                    if p.x["epoch"] != o.x["epoch"]:
                        bufs.add((oid, "epoch"))
        for oid, p in s1.mem.items():
            if oid not in s0.mem and isinstance(p.x, tuple) and p.x[0] == "view" and p.alive and not self.pristine(p):
                raise Unsupported("loop writes to members of a family")
        return cells, bufs

    def summarise(self, fn, H, body, frm, env0, st0):
        rec = self.recording
        tau = T.fresh("k")
        # ---- pass 1: find what the loop modifies
        try:
            self.recording = False
            try:
                cells, bufs, closed, reals, dead = self.discover(fn, H, body, frm, env0, st0, tau, False)
            except Unsupported:
                if self.debug: print("RETRY with guessed closed forms")
                cells, bufs, closed, reals, dead = self.discover(fn, H, body, frm, env0, st0, tau, True)
        finally:
            self.recording = rec
        # ---- trip count: run one generic iteration with closed forms
        n_cases = self.trip(fn, H, body, frm, env0, st0, cells, bufs, tau, closed)
        results = []
        for extra, N in n_cases:
            s_in = st0.clone()
            for c in extra:
                s_in.assume(c)
            if not smt.sat(s_in.pc):
                continue
            if N is None:
                # zero iterations
                e = dict(env0)
                e["%al"] = list(env0["%al"])
                outs = self.region(fn, H, frm, e, s_in, body, H)
                for o in outs:
                    if o[0] == "back":
                        raise Unsupported("loop entered although trip count is zero")
                    results.append(o)
                continue
            results.extend(self.finish(fn, H, body, frm, env0, s_in, cells, bufs, tau, closed, reals, dead, N))
        return results

    def discover(self, fn, H, body, frm, env0, st0, tau, guess):
        """what an arbitrary iteration modifies, and the closed forms of counters.  guess: the counters are guessed from the first
        iteration (start + step * iteration) and the guess must be preserved by an arbitrary iteration that starts from it"""
        tv = T.iv(tau)
        cells, bufs = set(), set()
        forms = {}
        for rnd in range(8):
            s, hv, hb = self.havoc(st0, cells, bufs, tau, forms)
            if guess and forms:
                s.assume(T.ile(T.ic(0), tv))
            base = s.clone()
            e = dict(env0)
            e["%al"] = list(env0["%al"])
            outs = self.region(fn, H, frm, e, s, body, H)
            backs = [o for o in outs if o[0] == "back"]
            if not backs:
                raise Unsupported("loop without back edge path")
            c2, b2 = set(cells), set(bufs)
            for o in backs:
                c, b = self.modified(base, o[2], None)
                for key in c - c2:
                    x, y = base.mem[key[0]].cells.get(key[1]), o[2].mem[key[0]].cells.get(key[1])
                    if not x or not y or x[0] != y[0] or not isinstance(x[1], (T.Term, Ptr)) or not self.sameshape(x[1], y[1]) or \
                            isinstance(x[1], T.Term) and x[1].sort != "I":
                        continue
                    d = T.as_const(T.isub(self.icomp(y[1])[0], self.icomp(x[1])[0]))
                    if d and isinstance(x[1], Ptr) and d % 8 == 0:
                        self.stride[(tau,) + key] = abs(int(d))
                    if d and guess:
                        forms[key] = (x[0], self.irebuild(x[1], T.iadd(self.icomp(x[1])[0], T.iscale(tv, d))))
                c2 |= c
                b2 |= b
            if c2 == cells and b2 == bufs:
                break
            cells, bufs = c2, b2
        else:
            raise Unsupported("loop modification set does not stabilise")
        for key, (n, v) in forms.items():
            want = T.subst(self.icomp(v)[0], {("iv", tau): T.iadd(tv, T.ic(1))})
            for o in backs:
                y = o[2].mem[key[0]].cells.get(key[1])
                if y is None or y[0] != n or not self.sameshape(v, y[1]) or T.as_const(T.isub(self.icomp(y[1])[0], want)) != 0:
                    raise Unsupported("guessed closed form is not preserved")
        closed, reals, dead = self.recurrences(st0, cells - set(forms), hv, backs, tau)
        closed.update(forms)
        return cells, bufs, closed, reals, dead

    def havoc(self, st0, cells, bufs, tau, closed):
        s = st0.clone()
        hv = {}
        hb = {}
        for oid, k in sorted(cells, key=lambda t: (t[0], str(t[1]))):
            o = s.w(oid)
            c = o.cells.get(k)
            nm = "h_%d_%s@%s" % (oid, k, tau)
            if (oid, k) in closed:
                o.cells[k] = (closed[(oid, k)][0], closed[(oid, k)][1])
                continue
            if c is None:
                # uninitialised before the loop, written in it: leave undefined
                hv[(oid, k)] = None
                o.cells.pop(k, None)
                continue
            v = c[1]
            if isinstance(v, T.Term):
                if v.sort == "I":
                    x = T.iv(nm)
                elif v.sort == "R":
                    x = T.rv(nm)
                else:
                    x = T.bv(nm)
            elif isinstance(v, Ptr):
                if v.o is None:
                    raise Unsupported("null pointer modified in loop")
                # the element stride is only a guess used while discovering the recurrences
                x = Ptr(v.o, T.iadd(v.off, T.iscale(T.iv(nm), self.stride.get((tau, oid, k), 8))), v.key)
            elif isinstance(v, Special) and v.k == "mapit":
                x = Special("mapit", (v.p[0], T.iv(nm)) + tuple(v.p[2:]))
            else:
                raise Unsupported("value modified in loop: %r" % (v,))
            hv[(oid, k)] = x
            o.cells[k] = (c[0], x)
        for b in bufs:
            nm = "H_%s@%s" % (str(b).replace(" ", ""), tau)
            hb[b] = nm
            if isinstance(b, tuple):
                o = s.w(b[0])
                x = dict(o.x)
                if b[1] == "epoch":
                    self.bump(x)
                else:
                    if b[1] == "freed":
                        self.carry[nm] = (x["freed"], set(s.pc), [])
                    x[b[1]] = (("bbase" if b[1] in ("dom", "freed") else "havoc", nm),)
                o.x = x
            else:
                o = s.w(b)
                if self.haspointers(o.layers):
                    self.carry[nm] = (o.layers, set(s.pc), [])
                o.layers = ((self.hkind(o), nm),)
        return s, hv, hb

    def bump(self, x):
        x["epoch"] = T.fresh("epoch")
        x["enum"] = None
        x["n"] = None

    def hkind(self, o):
        for L in o.layers:
            if L[0] == "ibase":
                return "ibase"
        return "havoc"

    def recurrences(self, st0, cells, hv, backs, tau):
        """closed forms in the iteration number for integer/pointer cells"""
        tv = T.iv(tau)
        ta = T.as_atom(tv)
        closed = {}
        reals = []
        dead = {}
        todo = {}
        for key in cells:
            h = hv.get(key)
            ends = []
            for o in backs:
                c = o[2].mem[key[0]].cells.get(key[1])
                ends.append(None if c is None else c[1])
            if h is None:
                dead[key] = ends
                continue
            if isinstance(h, T.Term) and h.sort == "R":
                reals.append(key)
                continue
            if isinstance(h, T.Term) and h.sort == "B":
                dead[key] = ends
                continue
            todo[key] = (h, ends)
        known = {}
        progress = True
        while todo and progress:
            progress = False
            for key in sorted(todo, key=str):
                h, ends = todo[key]
                hp, hs = self.icomp(h)
                vals = []
                bad = False
                for v in ends:
                    if v is None or not self.sameshape(h, v):
                        bad = True
                        break
                    vals.append(T.subst(self.icomp(v)[0], known))
                if bad:
                    continue
                v0 = vals[0]
                if any(v is not v0 for v in vals[1:]):
                    continue
                c0 = st0.mem[key[0]].cells[key[1]]
                start = self.icomp(c0[1])[0]
                isp = isinstance(h, Ptr)
                g = self.stride.get((tau,) + key, 8)
                hat = T.as_atom(T.iscale(T.isub(hp, start), Fraction(1, g)) if isp else hp)
                name = ("iv", hat.a[0])
                delta = T.isub(v0, hp)
                if isp:
                    delta = T.iscale(delta, Fraction(1, g))
                unk = [n for n in T.fv(delta) if n[0] == "iv" and n[1].endswith("@" + tau)] + \
                      [n for n in T.fv(delta) if n[0] == "arr" and n[1].endswith("@" + tau)]
                if unk:
                    continue
                try:
                    cf = polysum(delta, ta)
                except Unsupported:
                    continue
                if not isp:
                    cf = T.iadd(start, cf)
                known[name] = cf
                if isp:
                    cf = T.iadd(start, T.iscale(cf, g))
                closed[key] = (c0[0], self.irebuild(h, cf))
                del todo[key]
                progress = True
        for key in todo:
            dead[key] = todo[key][1]
        return closed, reals, dead

    def icomp(self, v):
        if isinstance(v, T.Term):
            return as_int(v), None
        if isinstance(v, Ptr):
            return v.off, v.o
        if isinstance(v, Special) and v.k == "mapit":
            return v.p[1], v.p[0]
        raise Unsupported("loop value")

    def irebuild(self, v, p):
        if isinstance(v, T.Term):
            return p
        if isinstance(v, Ptr):
            return v.at(p)
        return Special("mapit", (v.p[0], p) + tuple(v.p[2:]))

    def sameshape(self, a, b):
        if isinstance(a, T.Term):
            return isinstance(b, T.Term) and b.sort in ("I", "B")
        if isinstance(a, Ptr):
            return isinstance(b, Ptr) and a.o == b.o and a.key is b.key
        if isinstance(a, Special):
            return isinstance(b, Special) and a.k == b.k and a.p[0] == b.p[0]
        return False

    def trip(self, fn, H, body, frm, env0, st0, cells, bufs, tau, closed):
        """find and prove the trip count; returns [(extra pc, N or None)]"""
        tv = T.iv(tau)
        rec = self.recording
        self.recording = False
        try:
            s, hv, hb = self.havoc(st0, cells, bufs, tau, closed)
            s.assume(T.ile(T.ic(0), tv))
            base = set(s.pc)
            e = dict(env0)
            e["%al"] = list(env0["%al"])
            outs = self.region(fn, H, frm, e, s, body, H)
        finally:
            self.recording = rec
        exits = [[c for c in o[2].pc if c not in base and c not in self.facts] for o in outs if o[0] == "exit"]
        backs = [[c for c in o[2].pc if c not in base and c not in self.facts] for o in outs if o[0] == "back"]
        if not exits:
            raise Unsupported("loop without exit")
        ta = T.as_atom(tv)
        cands = []
        for ex in exits:
            for c in ex:
                if c.op == "eq0" or c.op == "le0" or (c.op == "not" and c.a[0].op == "eq0"):
                    p = c.a[0] if c.op != "not" else c.a[0].a[0]
                    cf = T.coeffs_in(p, ta)
                    if len(cf) == 2 and T.as_const(cf[1]) is not None:
                        k = T.as_const(cf[1])
                        # p = cf0 + k tau ; exit when p<=0 (k<0): tau >= cf0/(-k)
                        n = T.iscale(cf[0], Fraction(-1, k))
                        if T.integer_valued(n) and n not in cands:
                            cands.append(n)
        for N in cands:
            if ("iv", tau) in T.fv(N):
                continue
            inr = T.ilt(tv, N)
            if not all(smt.check(list(st0.pc) + [T.ile(T.ic(0), tv), inr] + ex, T.FALSE).ok for ex in exits):
                continue
            at = [T.subst(T.band(*b), {("iv", tau): N}) for b in backs]
            nn = T.ile(T.ic(0), N)
            if not all(smt.check(list(st0.pc) + [nn, a], T.FALSE).ok for a in at):
                continue
            if smt.check(st0.pc, nn).ok:
                return [((), N)]
            # N may be negative: then the loop is not entered at all (must follow from the guard)
            z = [T.subst(T.band(*b), {("iv", tau): T.ic(0)}) for b in backs]
            neg = T.ilt(N, T.ic(0))
            if all(smt.check(list(st0.pc) + [neg, a], T.FALSE).ok for a in z):
                return [((nn,), N), ((neg,), None)]
        if self.debug: print("TRIP", exits, backs, cands, closed)
        raise Unsupported("cannot determine the trip count of a loop in " + short(self.dm.get(fn.name, fn.name)))

    def finish(self, fn, H, body, frm, env0, st0, cells, bufs, tau, closed, reals, dead, N):
        tv = T.iv(tau)
        # generic iteration, obligations recorded
        s, hv, hb = self.havoc(st0, cells, bufs, tau, closed)
        s.assume(T.ile(T.ic(0), tv))
        s.assume(T.ilt(tv, N))
        base = set(s.pc)
        nobl = len(self.obls)
        e = dict(env0)
        e["%al"] = list(env0["%al"])
        if not smt.sat(s.pc):
            # the loop body is never executed: N <= 0
            outs = []
            backs = []
        else:
            outs = self.region(fn, H, frm, e, s, body, H)
            backs = [o for o in outs if o[0] == "back"]
            if any(o[0] == "exit" for o in outs):
                raise Unsupported("early exit")
        extra_outs = []
        if backs:
            # the obligations of the generic iteration must not mention unresolved loop symbols
            for o in outs:
                if o[0] in ("throw", "abort") and not self.recording:
                    continue        # the enclosing loop is still being explored; decided when its invariant is known
                if o[0] in ("throw", "abort", "ret"):
                    if self.debug:
                        print("LEAVE", o[0], o[2], [T.show(c) for c in o[1].pc])
                    raise Unsupported("loop body may leave the function")
        writes = {}
        epochs = [b for b in bufs if isinstance(b, tuple) and b[1] == "epoch"]
        bufs = {b for b in bufs if b not in epochs}
        for b in bufs:
            ws = []
            for o in backs:
                guard = [c for c in o[2].pc if c not in base and c not in self.facts]
                L = o[2].mem[b[0]].x[b[1]] if isinstance(b, tuple) else o[2].mem[b].layers
                if L[0][0] not in ("havoc", "ibase", "bbase") or L[0][1] != hb[b]:
                    raise Unsupported("loop replaces a whole buffer")
                for x in L[1:]:
                    if x[0] == "store":
                        ws.append(((), tuple(guard), x[1], x[2]))
                    elif x[0] == "bulk":
                        ws.append((x[1], tuple(guard) + x[2], x[3], x[4]))
                    else:
                        raise Unsupported("bulk copy inside a loop")
            writes[b] = ws
        pcg = list(st0.pc) + [T.ile(T.ic(0), tv), T.ilt(tv, N)]
        hnames = {nm: b for b, nm in hb.items()}
        reads_done = {}

        def resolve(t, guards):
            """replace reads of the loop-carried array by reads of its pre-loop contents"""
            if not isinstance(t, T.Term):
                if isinstance(t, Ptr):
                    return Ptr(t.o, resolve(t.off, guards), None if t.key is None else resolve(t.key, guards))
                if isinstance(t, Special):
                    raise Unsupported("special value stored in loop")
                return t
            if not any(k == "arr" and n in hnames or k == "fn" and n in hnames for k, n in T.fv(t)):
                return t
            # conditionals on the loop-carried array first: the branch not taken may read elements that do not exist
            for _ in range(8):
                nd = self.find_ite(t, hnames)
                if nd is None:
                    break
                c = resolve(nd.a[0], guards)
                hyp = pcg + list(guards)
                if c is T.TRUE or c is not T.FALSE and smt.check(hyp, c).ok:
                    br = nd.a[1]
                elif c is T.FALSE or smt.check(hyp, T.bnot(c)).ok:
                    br = nd.a[2]
                else:
                    br = self.ite(c, resolve(nd.a[1], list(guards) + [c]), resolve(nd.a[2], list(guards) + [T.bnot(c)]))
                t = br if nd is t else T.transform(t, lambda x: br if x is nd else None)
                if not isinstance(t, T.Term) or not any(n in hnames for k, n in T.fv(t)):
                    return t

            def f(x):
                if x.op in ("sel", "bsel") and x.a[0] in hnames:
                    b = hnames[x.a[0]]
                    e = x.a[1]
                    self.independent(pcg, tau, writes[b], e, guards)
                    ss = State()
                    ss.pc = pcg + list(guards)
                    pre = st0.mem[b[0]].x[b[1]] if isinstance(b, tuple) else st0.mem[b].layers
                    v = self.select(ss, pre, e)
                    if v is UNDEF:
                        self.fail(ss, "uninit", "loop reads uninitialised element")
                        raise Dead()
                    return v
                if x.op == "iapp" and x.a[0] in hnames:
                    raise Unsupported("integer array carried by a loop")
                return None
            return T.transform(t, f)

        for b, nm in hb.items():
            for e, g in (self.carry[nm][2] if nm in self.carry else ()):
                self.independent(pcg, tau, writes[b], e, g)
        fams = self.families(s, st0, tau, N, backs, hnames)
        newl = {}
        for b in bufs:
            bulks = []
            for params, guards, idx, val in writes[b]:
                g2 = []
                for g in guards:
                    g2.append(resolve(g, [x for x in guards if x is not g and not self.mentions(x, hnames)]))
                idx2 = resolve(idx, g2)
                val2 = resolve(self.tofam(val, fams, tv), g2)
                bulks.append((params, tuple(g2), idx2, val2))
            self.disjoint(pcg, st0, tau, N, bulks)
            out = []
            for params, guards, idx, val in bulks:
                # key-indexed containers: iterate over keys instead of positions
                rk = self.rekey(st0, tau, N, params, guards, idx, val)
                if rk is not None:
                    out.append(rk)
                    continue
                out.append(("bulk", tuple(params) + (tau,), tuple(guards) + (T.ile(T.ic(0), tv), T.ilt(tv, N)), idx, val))
            newl[b] = out
        # real accumulators
        rclosed = {}
        for key in reals:
            h = hv[key]
            ends = [o[2].mem[key[0]].cells.get(key[1]) for o in backs]
            if not backs:
                continue
            if any(x is None for x in ends):
                dead[key] = [None]
                continue
            gs = [[c for c in o[2].pc if c not in base and c not in self.facts] for o in backs]
            hn = ("rv", h.a[0])
            from . import ring
            # increments, path by path
            incs = []
            for x in ends:
                d = T.subst(x[1], {hn: T.R0}) if isinstance(x[1], T.Term) and x[1].sort == "R" else None
                if d is None or hn not in T.fv(x[1]) or not ring.equal(x[1], T.radd(h, d)):
                    incs = None
                    break
                incs.append(d)
            v = ends[0][1]
            e0 = incs[0] if incs else None
            for k in range(1, len(ends)):
                v = self.ite(T.band(*gs[k]), ends[k][1], v) if ends[k][1] is not v else v
                if incs and incs[k] is not e0:
                    e0 = self.ite(T.band(*gs[k]), incs[k], e0)
            if incs:
                e1 = resolve(e0, [])
                if any(n[0] in ("rv", "iv", "bv") and n[1].endswith("@" + tau) for n in T.fv(e1)):
                    raise Unsupported("accumulator depends on another loop value")
                start = st0.mem[key[0]].cells[key[1]]
                rclosed[key] = (start[0], T.radd(start[1], self.total(st0, tau, N, e1)))
            elif hn not in T.fv(v):
                dead[key] = [v]
            else:
                raise Unsupported("real recurrence is not a sum")
        # no loop symbol may leak into writes
        for b in bufs:
            for L in newl[b]:
                for t in list(L[2]) + [L[3], L[4]]:
                    if isinstance(t, T.Term):
                        self.noleak(t, tau)
                    elif isinstance(t, Ptr):
                        self.noleak(t.off, tau)
                        if t.key is not None:
                            self.noleak(t.key, tau)
                        if t.o is not None and t.o not in st0.mem and t.o not in [f for f, _ in fams.values()]:
                            raise Unsupported("pointer to an object of a single iteration")
        for ob in self.obls[nobl:]:
            if ob.goal is not T.TRUE:
                if any(n[1].endswith("@" + tau) and n[0] in ("iv", "rv", "bv") for n in T.fv(ob.goal)) and not ob.ok:
                    raise Unsupported("obligation on a loop value without closed form")
        # ---- state after the loop
        s = st0.clone()
        for f, o in fams.values():
            s.mem[f] = o
        for key, (n, v) in closed.items():
            o = s.w(key[0])
            p, _ = self.icomp(v)
            o.cells[key[1]] = (n, self.irebuild(v, T.subst(p, {("iv", tau): N})))
        for key, (n, v) in rclosed.items():
            s.w(key[0]).cells[key[1]] = (n, v)
        for key in dead:
            o = s.w(key[0])
            c = o.cells.get(key[1])
            if c is None:
                continue
            v = c[1]
            nm = T.fresh("dead")
            if isinstance(v, T.Term):
                nv = T.iv(nm) if v.sort == "I" else T.rv(nm) if v.sort == "R" else T.bv(nm)
            elif isinstance(v, Ptr):
                nv = UNDEF
            else:
                nv = UNDEF
            if nv is UNDEF:
                o.cells.pop(key[1])
            else:
                o.cells[key[1]] = (c[0], nv)
        for b in bufs:
            if isinstance(b, tuple):
                o = s.w(b[0])
                x = dict(o.x)
                x[b[1]] = x[b[1]] + tuple(newl[b])
                if b[1] == "dom":
                    self.bump(x)
                o.x = x
            else:
                o = s.w(b)
                o.layers = o.layers + tuple(newl[b])
        for b in epochs:
            o = s.w(b[0])
            x = dict(o.x)
            self.bump(x)
            o.x = x
        # leave through the header
        e = dict(env0)
        e["%al"] = list(env0["%al"])
        outs = self.region(fn, H, frm, e, s, body, H)
        res = []
        for o in outs:
            if o[0] == "back":
                raise Unsupported("loop continues after its trip count")
            res.append(o)
        return res

    def tofam(self, v, fams, key):
        if isinstance(v, Ptr) and v.o in fams:
            return Ptr(fams[v.o][0], v.off, key)
        return v

    def families(self, s, st0, tau, N, backs, hnames):
        """the objects allocated by an iteration that survive it: {object of the generic iteration: (id, family)}"""
        out = {}
        for o in backs:
            for oid, p in o[2].mem.items():
                if oid not in st0.mem and p.heap and p.alive and not (isinstance(p.x, tuple) and p.x[0] == "view"):
                    if len(backs) != 1:
                        raise Unsupported("allocations of a loop depend on the path")
                    if p.kind not in ("cells", "buf"):
                        raise Unsupported("loop allocates a container that survives the iteration")
                    out[oid] = None
        if out:
            tv = T.iv(tau)
            for oid in out:
                f = State.ctr
                State.ctr += 1
                out[oid] = (f, None)
            for oid in out:
                p = backs[0][2].mem[oid]
                q = Obj("fam", None, "family " + p.name, True)

                def chk(v):
                    v = self.tofam(v, out, tv)
                    if isinstance(v, Ptr) and v.o is not None and v.o not in st0.mem and v.o not in [f for f, _ in out.values()]:
                        raise Unsupported("pointer to an object of a single iteration")
                    for t in ([v] if isinstance(v, T.Term) else [v.off] + ([v.key] if v.key is not None else []) if isinstance(v, Ptr) else []):
                        if self.mentions(t, hnames):
                            raise Unsupported("contents of an allocation depend on a loop-carried array")
                        self.noleak(t, tau)
                    if not isinstance(v, (T.Term, Ptr)) and v is not UNDEF:
                        raise Unsupported("contents of an allocation of a loop")
                    return v

                def lay(ls):
                    r = []
                    for L in ls:
                        if L[0] in ("havoc", "bbase", "ibase") and L[1] in hnames:
                            raise Unsupported("copy of a loop-carried array")
                        if L[0] == "store":
                            L = ("store", chk(L[1]), chk(L[2]))
                        elif L[0] == "bulk":
                            L = ("bulk", L[1], tuple(chk(g) for g in L[2]), chk(L[3]), chk(L[4]))
                        elif L[0] == "copy":
                            L = ("copy", chk(L[1]), chk(L[2]), lay(L[3]), chk(L[4]), L[5])
                        elif L[0] == "const":
                            L = ("const", chk(L[1]))
                        r.append(L)
                    return tuple(r)
                q.x = {"tau": tau, "N": N, "okind": p.kind, "size": None if p.size is None else chk(p.size), "esz": p.esz,
                       "cells": {k: (n, chk(c)) for k, (n, c) in p.cells.items()}, "layers": lay(p.layers), "freed": (("const", T.FALSE),)}
                out[oid] = (out[oid][0], q)
        return out

    def total(self, st0, tau, N, e1):
        """sum of e1 over all iterations; over the keys if the loop runs over a container"""
        ens = set()

        def f(x):
            if x.op == "iapp" and x.a[0].startswith("enum") and T.as_const(T.isub(x.a[1], T.iv(tau))) == 0:
                ens.add(x)
                return T.iv("key*%")
            return None
        e2 = T.transform(e1, f)
        if len(ens) == 1 and ("iv", tau) not in T.fv(e2):
            ghost = st0.ghost.get(next(iter(ens)).a[0])
            if ghost is not None and (T.as_const(T.isub(ghost[1], N)) == 0 or smt.check(st0.pc, T.ieq(ghost[1], N)).ok):
                ss = State()
                ss.pc = list(st0.pc)
                return T.ksum("key*%", self.select(ss, ghost[0], T.iv("key*%")), e2)
        kv = T.fresh("t")
        return T.rsum(T.as_atom(T.iv(kv)), T.ic(0), N, T.subst(e1, {("iv", tau): T.iv(kv)}))

    def find_ite(self, t, names):
        """outermost conditional whose condition mentions one of the arrays"""
        seen, todo = set(), [t]
        while todo:
            x = todo.pop(0)
            if x in seen or not isinstance(x, T.Term):
                continue
            seen.add(x)
            if x.op == "ite" and isinstance(x.a[0], T.Term) and any(n in names for k, n in T.fv(x.a[0])):
                return x
            todo += T.children(x)
        return None

    def mentions(self, t, names):
        return any(n in names for k, n in T.fv(t))

    def noleak(self, t, tau):
        for k, n in T.fv(t):
            if n.endswith("@" + tau):
                raise Unsupported("loop value without closed form is used")

    def independent(self, pcg, tau, writes, e, guards):
        tv = T.iv(tau)
        t2 = T.fresh("k")
        for params, gs, idx, val in writes:
            ren = {("iv", p): T.ifresh("q") for p in params}
            ren[("iv", tau)] = T.iv(t2)
            gg = [T.subst(g, ren) for g in gs if not any(n.endswith("@" + tau) for _, n in T.fv(g))]
            if ("iv", tau) not in T.fv(idx) and not params and T.as_const(T.isub(idx, e)) == 0:
                raise Unsupported("loop-carried array element")
            hyp = pcg + [T.ile(T.ic(0), T.iv(t2)), T.ilt(T.iv(t2), tv)] + gg + list(guards)
            i2 = T.subst(idx, ren)
            if not self.apart(hyp + self.inj(hyp + [T.ieq(i2, e)]), i2, e):
                raise Unsupported("iteration reads what an earlier iteration may have written (%s / %s)" % (e, idx))

    def disjoint(self, pcg, st0, tau, N, bulks):
        t2 = T.fresh("k")
        tv = T.iv(tau)
        for a in bulks:
            for b in bulks:
                ren = {("iv", p): T.ifresh("q") for p in b[0]}
                ren[("iv", tau)] = T.iv(t2)
                if isinstance(a[3], T.Term) and a[3] is b[3] and not (T.fv(a[3]) & ({("iv", p) for p in a[0]} | {("iv", tau)})):
                    continue
                hyp = pcg + [T.ile(T.ic(0), T.iv(t2)), T.ilt(T.iv(t2), tv)] + list(a[1]) + [T.subst(g, ren) for g in b[1]]
                i2 = T.subst(b[2], ren)
                self.last_backend = "z3-lra"
                ok = self.apart(hyp + self.inj(hyp + [T.ieq(a[2], i2)]), a[2], i2)
                if self.recording:
                    self.obls.append(Obl("loop", "distinct iterations write distinct elements: " + self.where(), T.TRUE, ok, self.last_backend, hyp))
                if not ok:
                    if self.recording:
                        self.obls.pop()
                    raise Unsupported("iterations of a loop write overlapping elements")

    def inj(self, hyp):
        """injectivity instances of the enumeration functions enum_E (assumed contract of unordered_map iteration)"""
        out = []
        apps = {}
        seen = set()
        st = list(hyp)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "iapp" and x.a[0].startswith("enum"):
                apps.setdefault(x.a[0], set()).add(x)
            st.extend(T.children(x))
        for f, xs in apps.items():
            xs = sorted(xs)
            for i in range(len(xs)):
                for j in range(i + 1, len(xs)):
                    eqk = T.ieq(T.iatom(xs[i]), T.iatom(xs[j]))
                    eqp = T.ieq(xs[i].a[1], xs[j].a[1])
                    out.append(T.bor(T.bnot(eqk), eqp))
        return out

    def rekey(self, st0, tau, N, params, guards, idx, val):
        if params:
            return None
        at = T.as_atom(idx)
        if at is None or at.op != "iapp" or not at.a[0].startswith("enum"):
            return None
        if T.as_const(T.isub(at.a[1], T.iv(tau))) != 0:
            raise Unsupported("iteration order dependent container update")
        ghost = st0.ghost.get(at.a[0])     # (domain layers, size)
        if ghost is None:
            raise Unsupported("unknown enumeration")
        doml, n = ghost
        if T.as_const(T.isub(n, N)) != 0:
            if not smt.check(st0.pc, T.ieq(n, N)).ok:
                raise Unsupported("partial iteration over a container")
        kp = T.fresh("key")
        kv = T.iv(kp)

        def f(x):
            if x is at:
                return kv
            return None
        g2 = tuple(T.transform(g, f) for g in guards)
        v2 = T.transform(val, f) if isinstance(val, T.Term) else val
        for t in list(g2) + ([v2] if isinstance(v2, T.Term) else []):
            if ("iv", tau) in T.fv(t):
                raise Unsupported("iteration order dependent container update")
        ss = State()
        ss.pc = list(st0.pc)
        dom = self.select(ss, doml, kv)
        return ("bulk", (kp,), (dom,) + g2, kv, v2)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o == b.o and a.off is b.off and a.key is b.key
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, Special) and isinstance(b, Special):
        return a.k == b.k and a.p == b.p
    return False


_bern = {}


def faulhaber(k):
    """coefficients of S_k(n) = sum_{t=0}^{n-1} t^k as polynomial in n (list)"""
    if k in _bern:
        return _bern[k]
    # solve by interpolation on k+2 points
    pts = []
    s = Fraction(0)
    for n in range(k + 2):
        pts.append((Fraction(n), s))
        s += Fraction(n) ** k
    # Lagrange -> coefficients
    coef = [Fraction(0)] * (k + 2)
    for i, (xi, yi) in enumerate(pts):
        num = [Fraction(1)]
        den = Fraction(1)
        for j, (xj, _) in enumerate(pts):
            if j == i:
                continue
            num = [Fraction(0)] + num
            for d in range(len(num) - 1):
                num[d] -= xj * num[d + 1]
            den *= xi - xj
        for d in range(len(num)):
            coef[d] += yi * num[d] / den
    _bern[k] = coef
    return coef


def polysum(delta, ta):
    """sum_{t=0}^{tau-1} delta(t) as polynomial in tau"""
    for a in T.atoms_of(delta):
        if a is not ta and ("iv", ta.a[0]) in T.fv(a):
            raise Unsupported("non-polynomial step")
    cf = T.coeffs_in(delta, ta)
    out = T.ic(0)
    tp = T.iatom(ta)
    for k, c in enumerate(cf):
        f = faulhaber(k)
        p = T.ic(0)
        for d, q in enumerate(f):
            if q:
                p = T.iadd(p, T.iscale(T.ipow(tp, d), q))
        out = T.iadd(out, T.imul(c, p))
    return out


def short(d):
    d = re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>", "std::string", d)
    return d if len(d) < 160 else d[:157] + "..."
