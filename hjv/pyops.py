"""Contracts of the Python module: every documented name, called the way Python calls it, satisfies the contract of the operation it stands for.

The operations are the ones of specs.py and ops2.py (same precondition, postcondition, frame, numeric reference) with a body that goes through
the bindings of /repo/python/src (compiled unchanged against the contract of pybind11 in pymock/) instead of calling the header directly."""
import copy
from . import contracts as C
from . import ops2, smt, sx
from . import terms as T
from .ops2 import I0, XOp, coeffs, dl, must, obj, onehot, rejected, retv, unit
from .specs import OPS

HEAD = '#include "hjvpy.h"\n'
PARTS = {}
CUR = [1]
QT = "hjvpy::Q<T>"
PY = []


def clone(name, src, body, verify=None, **kw):
    """the contract of operation src for another way to call it"""
    o = copy.copy(OPS[src])
    o.name, o.body = name, body
    o.groups = {"py"}
    o.eigen = False
    if "verify" in o.__dict__:
        del o.__dict__["verify"]
    if verify:
        verify(o)
    for k, v in kw.items():
        setattr(o, k, v)
    OPS[name] = o
    return reg(o)


def reg(o):
    PARTS[o.name] = CUR[0]
    PY.append(o)
    return o


def part(o):
    """1: operators and functions, 2: construction and access, 3: copies, pickling, lists of variables"""
    return PARTS[o.name]


# ------------------------------------------------------------------ arithmetic
clone("py_neg", "neg", QT + '(r).j(a).m("__neg__").obj();')
for _n in ("add", "sub", "mul", "div"):
    _py = {"div": "truediv"}.get(_n, _n)
    _b = '.bin("__%s__", "__r%s__").obj();' % (_py, _py)
    clone("py_" + _n, _n, QT + "(r).j(a).j(b)" + _b)
    clone("py_%s_s" % _n, _n + "_s", QT + "(r).j(a).f(s)" + _b)
    clone("py_s_" + _n, "s_" + _n, QT + "(r).f(s).j(a)" + _b)
    clone("py_%s_int" % _n, _n + "_s", QT + "(r).j(a).i(i)" + _b, scal=0, idx=1)
    clone("py_int_" + _n, "s_" + _n, QT + "(r).i(i).j(a)" + _b, scal=0, idx=1)
    clone("py_i" + _n, "i" + _n, 'return %s().j(a).j(b).inp("__i%s__", "__%s__", "__r%s__").self();' % (QT, _py, _py, _py))
    # the name on the left refers to the result; whether it is a new object is left open
    clone("py_i%s_s" % _n, _n + "_s", 'T x(*a); %s(r).j(&x).f(s).inp("__i%s__", "__%s__", "__r%s__").any();' % (QT, _py, _py, _py))
clone("py_reciprocal", "reciprocal", QT + '(r).j(a).m("reciprocal").obj();')

# ------------------------------------------------------------------ functions
for _n, _names in (("sqrt", ("sqrt",)), ("cbrt", ("cbrt",)), ("cos", ("cos",)), ("sin", ("sin",)), ("tan", ("tan",)), ("acos", ("acos", "arccos")),
                   ("asin", ("asin", "arcsin")), ("atan", ("atan", "arctan")), ("cosh", ("cosh",)), ("sinh", ("sinh",)), ("tanh", ("tanh",)),
                   ("acosh", ("acosh", "arccosh")), ("asinh", ("asinh", "arcsinh")), ("atanh", ("atanh", "arctanh")), ("exp", ("exp",)), ("log", ("log",)),
                   ("log2", ("log2",)), ("log10", ("log10",))):
    for _p in _names:
        clone("py_" + _p, "m_" + _n, QT + '(r).j(a).m("%s").obj();' % _p)
clone("py_log_b", "log_b", QT + '(r).j(a).f(s).m("log").obj();')
clone("py_log_base", "log_b", QT + '(r).j(a).f(s, "base").m("log").obj();')
clone("py_pow", "m_pow", QT + '(r).j(a).f(s).m("__pow__").obj();')
clone("py_pow_i", "pow_i", QT + '(r).j(a).i(i).m("__pow__").obj();')
for _p in ("atan2", "arctan2"):
    clone("py_" + _p, "m_atan2", QT + '(r).j(a).j(b).m("%s").obj();' % _p)
clone("py_hypot2", "m_hypot2", QT + '(r).j(a).j(b).m("hypot").obj();')
clone("py_hypot3", "m_hypot3", QT + '(r).j(a).j(b).j(c).m("hypot").obj();')
clone("py_fn_hypot2", "m_hypot2", QT + '(r).j(a).j(b).fn("hypot").obj();', types="D")
clone("py_fn_hypot3", "m_hypot3", QT + '(r).j(a).j(b).j(c).fn("hypot").obj();', types="D")
clone("py_abs", "m_abs", QT + '(r).j(a).m("abs").obj();')
clone("py_abs_op", "m_abs", QT + '(r).j(a).m("__abs__").obj();')

# ------------------------------------------------------------------ comparisons (decided in IEEE arithmetic)
FP = []
for _n, _rn in (("eq", "eq"), ("ne", "ne"), ("lt", "gt"), ("gt", "lt"), ("le", "ge"), ("ge", "le")):
    _b = '.bin("__%s__", "__%s__").truth();' % (_n, _rn)
    FP += [clone("py_cmp_" + _n, "cmp_" + _n, "return " + QT + "().j(a).j(b)" + _b),
           clone("py_cmps_" + _n, "cmps_" + _n, "return " + QT + "().j(a).f(s)" + _b),
           clone("py_scmp_" + _n, "scmp_" + _n, "return " + QT + "().f(s).j(a)" + _b)]
FP = {o.name for o in FP}

# ------------------------------------------------------------------ construction
CUR[0] = 2
clone("py_ctor", "zero", QT + "(r).ctor().obj();")
clone("py_ctor_f", "ctor_f", QT + "(r).f(s).ctor().obj();")
clone("py_ctor_f_kw", "ctor_f", QT + '(r).f(s, "f").ctor().obj();')
clone("py_ctor_n", "constant_n", QT + "(r).f(s).i(i).ctor().obj();")
clone("py_ctor_n_kw", "constant_n", QT + '(r).i(i, "size").f(s, "f").ctor().obj();')
clone("py_ctor_size", "zero_n", QT + '(r).i(i, "size").ctor().obj();')
clone("py_constant", "constant", QT + '(r).f(s).st("constant").obj();')
clone("py_constant_kw", "constant", QT + '(r).f(s, "f").st("constant").obj();')
clone("py_constant_n", "constant_n", QT + '(r).f(s).i(i).st("constant").obj();')
clone("py_constant_n_kw", "constant_n", QT + '(r).i(i, "size").f(s, "f").st("constant").obj();')
clone("py_zero", "zero", QT + '(r).st("zero").obj();')
clone("py_zero_n", "zero_n", QT + '(r).i(i).st("zero").obj();')
clone("py_zero_n_kw", "zero_n", QT + '(r).i(i, "size").st("zero").obj();')
clone("py_empty", "empty", QT + '(r).st("empty").obj();')
clone("py_empty_n", "empty_n", QT + '(r).i(i).st("empty").obj();')
clone("py_empty_n_kw", "empty_n", QT + '(r).i(i, "size").st("empty").obj();')
clone("py_variable_n", "variable_n", QT + '(r).i(i).f(s).i(j).st("variable").obj();')
clone("py_variable_n_kw", "variable_n", QT + '(r).f(s, "f").i(j, "size").i(i, "i").st("variable").obj();')
clone("py_variable", "variable", QT + '(r).i(i).f(s).st("variable").obj();')
clone("py_variable_kw", "variable", QT + '(r).f(s, "f").i(i, "i").st("variable").obj();')
clone("py_variables", "variables", QT + '(r).elem(i).L(v).st("variables").item();')
clone("py_variables_kw", "variables", QT + '(r).elem(i).L(v, "values").st("variables").item();')
clone("py_variables_count", "variables_count", "return " + QT + '().L(v).st("variables").length();')
clone("py_data", "create", QT + "(r).L(v).ctor().obj();")
clone("py_data_kw", "create", QT + '(r).A(v->data(), v->size(), "data").ctor().obj();')
clone("py_data_s", "create_s", QT + "(r).L(v).ctor().obj();", verify=ops2.cd_verify)
clone("py_data_s_kw", "create_s", QT + '(r).A(v->data(), v->size(), "data").ctor().obj();', verify=ops2.cd_verify)
clone("py_data_any", "ctor_il", QT + "(r).L(v).ctor().obj();", dyn=False)
clone("py_from_gradient", "from_gradient", QT + "(r).f(s).A(v->data(), v->size()).ctor().obj();")
clone("py_from_gradient_kw", "from_gradient", QT + '(r).A(v->data(), v->size(), "g").f(s, "f").ctor().obj();')
FA = "auto n = (hyperjet::index)v->size() - i * j; "
clone("py_from_arrays", "from_arrays", FA + QT + "(r).f(s).A(v->data(), n).M(v->data() + n, i, j).ctor().obj();")
clone("py_from_arrays_kw", "from_arrays", FA + QT + '(r).M(v->data() + n, i, j, "hm").A(v->data(), n, "g").f(s, "f").ctor().obj();')
clone("py_s_ctor", "s_ctor_f", QT + "(r).f(s).ctor().obj();")
clone("py_s_ctor_kw", "s_ctor_f", QT + '(r).f(s, "f").ctor().obj();')
clone("py_s_dflt", "s_dflt", QT + "(r).ctor().obj();")
clone("py_s_ctor_d", "s_ctor_data", QT + "(r).f(s).N(&a->HJV_D).ctor().obj();")
clone("py_s_ctor_d_kw", "s_ctor_data", QT + '(r).N(&a->HJV_D, "d").f(s, "f").ctor().obj();')
clone("py_s_constant", "s_constant", QT + '(r).f(s).st("constant").obj();')
clone("py_s_constant_kw", "s_constant", QT + '(r).f(s, "value").st("constant").obj();')
clone("py_s_variable", "s_variable", QT + '(r).s((const std::string *)c).f(s).st("variable").obj();')
clone("py_s_variable_kw", "s_variable", QT + '(r).f(s, "value").s((const std::string *)c, "name").st("variable").obj();')

# ------------------------------------------------------------------ properties and methods
clone("py_f", "get_f", "return " + QT + '().j(a).get("f").num();')
clone("py_set_f", "set_f", QT + '().j(a).f(s).put("f").inone(); return a;')
clone("py_data_get", "adata_get", "return " + QT + '().j(a).get("data").view()[i];')
clone("py_data_set", "adata_set", QT + '().j(a).get("data").view()[i] = s; return a;')
clone("py_data_size", "adata_size", "return " + QT + '().j(a).get("data").vlen();')
clone("py_g_get", "ag_get", "return " + QT + '().j(a).get("g").view()[i];')
clone("py_g_set", "ag_set", QT + '().j(a).get("g").view()[i] = s; return a;')
clone("py_g_size", "ag_size", "return " + QT + '().j(a).get("g").vlen();')
clone("py_size", "size", "return " + QT + '().j(a).get("size").idx();')
clone("py_len", "size", "return " + QT + '().j(a).m("__len__").idx();')
clone("py_is_dynamic", "is_dynamic", "return " + QT + '().gst("is_dynamic").truth() ? 1 : 0;')
clone("py_order", "order", "return " + QT + '().gst("order").idx();')
clone("py_eval", "eval", "return " + QT + '().j(a).L(v).m("eval").num();')
clone("py_eval_kw", "eval", "return " + QT + '().j(a).A(v->data(), v->size(), "d").m("eval").num();')
clone("py_mm_eval", "mm_eval", "return " + QT + '().j(a).L(v).m("eval").num();')
clone("py_h", "get_hij", "return " + QT + '().j(a).i(i).i(j).m("h").num();')
clone("py_h_kw", "get_hij", "return " + QT + '().j(a).i(j, "col").i(i, "row").m("h").num();')
clone("py_set_h", "set_hij", QT + '().j(a).i(i).i(j).f(s).m("set_h").inone(); return a;')
clone("py_set_h_kw", "set_hij", QT + '().j(a).f(s, "value").i(j, "col").i(i, "row").m("set_h").inone(); return a;')
for _m, _arg in (("full", ""), ("full", '.s("full")'), ("full", '.s("full", "mode")'), ("zeros", '.s("zeros")'), ("zeros", '.s("zeros", "mode")')):
    _n = _m + ("" if not _arg else "_kw" if "mode" in _arg else "_pos")
    clone("py_hm_" + _n, "hm_" + _m, "return " + QT + '().elem(i, j).j(a)%s.m("hm").matrix();' % _arg)
    if _arg != '.s("full", "mode")':
        clone("py_hm_%s_all" % _n, "hm_%s_all" % _m, QT + ' q; q.out(v->data()).elem(i, j).j(a)%s.m("hm").matrix(); return a->size() ? q.c.r.d : 0.0;' % _arg)
        clone("py_hm_shape_" + _n, "hm_shape_" + _m, "return " + QT + '().j(a)%s.m("hm").shape();' % _arg)
clone("py_hm_bad", "hm_bad", QT + '().j(a).s((const std::string *)c).m("hm"); return 0;')
clone("py_set_hm", "set_hm", QT + '().j(a).M(v->data(), a->size(), a->size()).m("set_hm").inone(); return a;')
clone("py_set_hm_kw", "set_hm", QT + '().j(a).M(v->data(), a->size(), a->size(), "value").m("set_hm").inone(); return a;')
clone("py_set_hm_bad", "set_hm_bad", QT + '().j(a).M(v->data(), i, j).m("set_hm").inone(); return a;')
clone("py_resize", "resize", QT + '().j(a).i(i).m("resize").inone(); return a;')
clone("py_resize_kw", "resize", QT + '().j(a).i(i, "size").m("resize").inone(); return a;')
for _n in ("pad_right", "pad_left"):
    clone("py_" + _n, _n, QT + '(r).j(a).i(i).m("%s").obj();' % _n)
    clone("py_%s_kw" % _n, _n, QT + '(r).j(a).i(i, "new_size").m("%s").obj();' % _n)
    clone("py_mm_" + _n, "mm_" + _n, QT + '(r).j(a).i(i).m("%s").obj();' % _n)
for _n in ("add", "sub", "mul", "div"):
    _py = {"div": "truediv"}.get(_n, _n)
    PARTS[clone("py_mm_" + _n, "mm_" + _n, QT + '(r).j(a).j(b).bin("__%s__", "__r%s__").obj();' % (_py, _py)).name] = 1
    PARTS[clone("py_mm_i" + _n, "mm_i" + _n, 'return %s().j(a).j(b).inp("__i%s__", "__%s__", "__r%s__").self();' % (QT, _py, _py, _py)).name] = 1
for _c in (clone("py_mm_atan2", "mm_m_atan2", QT + '(r).j(a).j(b).m("atan2").obj();'),
           clone("py_mm_arctan2", "mm_m_atan2", QT + '(r).j(a).j(b).m("arctan2").obj();'),
           clone("py_mm_hypot2", "mm_m_hypot2", QT + '(r).j(a).j(b).m("hypot").obj();'),
           clone("py_mm_hypot3", "mm_m_hypot3", QT + '(r).j(a).j(b).j(c).m("hypot").obj();')):
    PARTS[_c.name] = 1
clone("py_s_f", "s_f", "return " + QT + '().j(a).get("f").num();')
clone("py_s_d", "s_d", "return " + QT + '().j(a).s((const std::string *)c).m("d").num();')
clone("py_s_d_kw", "s_d", "return " + QT + '().j(a).s((const std::string *)c, "variable").m("d").num();')
clone("py_s_eval", "s_eval", "return " + QT + '().j(a).N(&b->HJV_D).m("eval").num();')
clone("py_s_eval_kw", "s_eval", "return " + QT + '().j(a).N(&b->HJV_D, "d").m("eval").num();')

# ------------------------------------------------------------------ copies and serialization
CUR[0] = 3
clone("py_copy", "copy", QT + '(r).j(a).m("__copy__").obj();', types="D")
clone("py_deepcopy", "copy", 'pybind11::dict memo; %s q(r); q.j(a).c.other(&memo); q.m("__deepcopy__").obj();' % QT, types="D")
clone("py_deepcopy_kw", "copy", 'pybind11::dict memo; %s q(r); q.j(a).c.other(&memo, "memodict"); q.m("__deepcopy__").obj();' % QT, types="D")
clone("py_pickle", "copy", QT + ' g; g.j(a).m("__getstate__"); if (g.c.r.kind != pybind11::TUPLE) throw pybind11::type_error(); %s(r).v(g.c.r.state).setstate().obj();' % QT, types="D")

XOp("py_state", QT + ' g; g.j(a).m("__getstate__"); if (g.c.r.kind != pybind11::TUPLE) throw pybind11::type_error(); pybind11::tuple u((std::size_t)i); '
    "for (hyperjet::index k = 0; k < i; k++) u.cells().v[k] = ((pybind11::hjv_cells *)g.c.r.state.p)->v[0]; %s(r).v(u.hjv_v).setstate().obj();" % QT, "new", jets=1, idx=1,
    check=rejected, variants=lambda ty: ["a"], cases=lambda ty, v: [{"p": k} for k in (0, 2, 3)],
    gen=lambda rng, ty, case, v, n: case.update(i=rng.choice([0, 2, 3])), ref=lambda ty, c, v: {"status": ("throw",)} if c["i"] != 1 else None, groups=("py",))
reg(OPS["py_state"])


# ------------------------------------------------------------------ variables(values, order) of the module
def mv_range(ty):
    """numbers of values for which the module's function makes objects of this type"""
    if ty.dyn:
        return (16, 17)
    return (ty.size,) if 1 <= ty.size <= 15 else ()


class ModVars(XOp):
    def verify(self, m, ty, opname, variant, check_ovf=False, size=None, sizes=None, maxs=C.MAXS, fp=False):
        run = C.Run(m, "%s %s[%s]" % (ty, opname, variant), check_ovf, fp)
        todo = [{}] if ty.dyn and size is None else [{"n": n} for n in ([size] if ty.dyn else mv_range(ty))]
        if self.kind == "new":
            todo = [dict(f, p=i) for f in todo if f for i in range(f["n"])] or todo
        for f in todo:
            run.st = C.new_state(m)
            self.one(run, m, ty, variant, f.get("n") if ty.dyn else None, f, maxs)
        return run


def s_mv(e):
    """16 and more values make dynamic scalars"""
    if not e.ty.dyn:
        return []
    return [T.ile(T.ic(16), e.ns), T.ile(e.ns, T.ic(e.maxs)), T.ile(I0, e.p), T.ilt(e.p, e.ns)]


def g_mv(rng, ty, case, v, n):
    k = rng.choice(mv_range(ty)) if mv_range(ty) else 1
    case.update(vec=k, i=rng.randrange(k))


V_MV = lambda ty: ["ok"] if mv_range(ty) else []


def r_mv(ty, c, v):
    return ops2.r_vars(ty, c, "ok") if len(c["vec"]) in mv_range(ty) else None


for _o, _nm, _b in ((1, "py_mod_variables1", '.i(1)'), (1, "py_mod_variables1_kw", '.i(1, "order")'), (2, "py_mod_variables2", '.i(2)'), (2, "py_mod_variables2_dflt", "")):
    reg(ModVars(_nm, QT + ' q; q.elem(i).L(v%s)%s.fn("variables"); q.item(r);' % (', "values"' if "kw" in _nm else "", _b), "new", idx=1, vec=True, setup=s_mv, check=ops2.c_vars, ref=r_mv,
                      gen=g_mv, variants=V_MV, orders=(_o,), groups=("py",)))
    reg(ModVars(_nm + "_count", "return " + QT + '().L(v)%s.fn("variables").length();' % _b, "idx", vec=True, setup=s_mv, check=ops2.c_varcount,
                      ref=lambda ty, c, v: {"ret": len(c["vec"])} if len(c["vec"]) in mv_range(ty) else None, gen=lambda rng, ty, case, v, n: case.update(vec=rng.choice(mv_range(ty))),
                      variants=V_MV, orders=(_o,), groups=("py",)))


# order 0: the numbers themselves, whatever their number; other orders are rejected; no values: an empty list
def c_mv0(e, S, kind, val):
    if must(e, S, kind, val):
        retv(e, S, val, T.rsel("v", e.p))


class Once(XOp):
    """operations of the module, not of a class: checked once"""

    def applies(self, ty):
        return ty.tag == "D2x"


reg(Once("py_mod_variables0", QT + ' q; q.elem(i).L(v).i(0).fn("variables"); if (q.c.r.kind != pybind11::LIST || q.c.r.i != pybind11::FLOAT) throw pybind11::type_error(); return q.c.r.d;',
               "val", idx=1, vec=True, setup=lambda e: [T.ile(I0, e.p), T.ilt(e.p, e.ns), T.ile(e.ns, T.ic(2 ** 40))], check=c_mv0, variants=lambda ty: ["ok"],
               ref=lambda ty, c, v: {"ret": c["vec"][c["i"]]} if 0 <= c["i"] < len(c["vec"]) else None, gen=lambda rng, ty, case, v, n: case.update(vec=1 + n, i=rng.randrange(n + 1)), groups=("py",)))
reg(Once("py_mod_variables0_count", "return " + QT + '().L(v).i(0).fn("variables").length();', "idx", vec=True, setup=lambda e: [T.ile(e.ns, T.ic(2 ** 40))], check=ops2.c_varcount, variants=lambda ty: ["ok"],
               ref=lambda ty, c, v: {"ret": len(c["vec"])}, gen=lambda rng, ty, case, v, n: case.update(vec=n), groups=("py",)))
reg(Once("py_mod_variables_none", "return " + QT + '().L(v).i(i).fn("variables").length();', "idx", idx=1, vec=True, check=ops2.c_varcount, variants=lambda ty: ["ok"],
               cases=lambda ty, v: [{"n": 0, "p": k} for k in (0, 1, 2)], ref=lambda ty, c, v: {"ret": 0} if not c["vec"] and 0 <= c["i"] <= 2 else None,
               gen=lambda rng, ty, case, v, n: case.update(vec=0, i=rng.randrange(3)), groups=("py",)))
reg(Once("py_mod_variables_bad", "return " + QT + '().L(v).i(i).fn("variables").length();', "idx", idx=1, vec=True, check=rejected, variants=lambda ty: ["ok"],
               setup=lambda e: [T.bor(T.ilt(e.p, I0), T.ilt(T.ic(2), e.p)), T.ile(e.ns, T.ic(2 ** 40))],
               ref=lambda ty, c, v: {"status": ("throw",)} if not 0 <= c["i"] <= 2 else None,
               gen=lambda rng, ty, case, v, n: case.update(vec=n, i=rng.choice([-5, -2, -1, 3, 4, 7, 100])), groups=("py",)))
