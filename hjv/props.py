"""which functions, types and variants each property check puts under contract"""
from . import check as K
from . import contracts as C
from . import engine as E
from . import ops2
from . import pyops
from .specs import OPS

STATIC = list(range(0, 17))
NX = ["-DHYPERJET_NO_EXCEPTIONS"]
MEM = {"bounds", "lifetime", "uninit", "overflow", "ub", "unreachable"}


def tags(kind, tier, static=None):
    if kind == "S":
        return ["S"]
    out = []
    for o in (1, 2):
        out.append("D%dx" % o)
        out += ["D%d_%d" % (o, n) for n in (STATIC if static is None else static)]
    return out


def needs_eigen(op, ty):
    return not ty.sparse and bool(getattr(op, "eigen", False))


def fits(op, ty):
    return op.applies(ty) if hasattr(op, "applies") else ty.kind in op.types


def variants(op, ty):
    return op.variants(ty) if hasattr(op, "variants") else C.alias_patterns(op.jets)


def add(p, key, tag, ops, head="", defs=(), kinds=None, conf=True, conf_sizes=(0, 1, 2, 3, 5, 8), **opts):
    ty = E.types_by_tag()[tag]
    ops = [o for o in ops if fits(o, ty)]
    # the operations that need Eigen live in units of their own
    eig = [o for o in ops if needs_eigen(o, ty)]
    if eig and not key.endswith("eig"):
        add(p, key + "eig", tag, eig, ops2.EIGEN + head, defs, kinds, conf, conf_sizes, **opts)
        ops = [o for o in ops if o not in eig]
    if not ops:
        return
    old = p.units.get((key, tag), ([], head, list(defs)))[0]
    p.units[(key, tag)] = (old + [o for o in ops if o not in old], head, list(defs))
    for o in ops:
        for v in variants(o, ty):
            j = E.Job(key, tag, o.name, v, **opts)
            j.kinds = kinds
            p.jobs.append(j)
            if not conf or (hasattr(o, "_ref") and o._ref is None):
                continue
            for n in (conf_sizes if ty.dyn else [ty.size or 0]):
                p.conf.append((key, tag, o.name, v, n))


def group(*gs):
    return [o for o in OPS.values() if o.groups & set(gs)]


def split_nx(ops):
    return [o for o in ops if not o.name.endswith("_nx")], [o for o in ops if o.name.endswith("_nx")]


def ops_plan(groups, kind, tier, ops=None, static=None, p=None, head="", key="ops", **opts):
    p = p or K.Plan()
    ops = ops or group(*groups)
    a, b = split_nx(ops)
    for tag in tags(kind, tier, static):
        if a:
            add(p, key, tag, a, head, **opts)
        if b:
            add(p, key + "nx", tag, b, head, NX, **opts)
    return p


def plan(pid, tier):
    return globals()["plan_" + pid](tier)


def plan_C01(tier):
    return ops_plan(("arith",), "D", tier)


def plan_C02(tier):
    return ops_plan(("inplace",), "D", tier)


def plan_C03(tier):
    return ops_plan(("elem",), "D", tier)


def plan_C04(tier):
    return ops_plan(("multi",), "D", tier)


def plan_C05(tier):
    return ops_plan(("arith", "inplace"), "S", tier)


def plan_C06(tier):
    return ops_plan(("elem", "multi"), "S", tier)


def plan_C07(tier):
    p = ops_plan(("make",), "D", tier, head=ops2.HELPERS)
    ops_plan(("make",), "S", tier, head=ops2.HELPERS, p=p)
    return p


def plan_C08(tier):
    p = ops_plan(("layout",), "D", tier, head=ops2.HELPERS)
    return ops_plan(("layout",), "S", tier, head=ops2.HELPERS, p=p)


def plan_C09(tier):
    return ops_plan(("mismatch",), "D", tier, head=ops2.HELPERS, static=[])


ALLG = ("arith", "inplace", "elem", "multi", "cmp", "abs", "make", "layout", "pad", "eval", "copy", "mismatch", "eigen")
SOME = [0, 1, 2, 3, 4, 5, 8]


def plan_C10(tier):
    p = K.Plan()
    h = ops2.HELPERS
    for k in ("D", "S"):
        ops_plan(ALLG, k, tier, p=p, head=h, static=SOME, kinds=MEM, check_ovf=True, conf_sizes=(0, 1, 3))
    ops_plan(("index",), "D", tier, p=p, head=h, static=SOME)
    p.conf_mode = "asan"
    p.conf_per = 2
    return p


def plan_C11(tier):
    return ops_plan(("pad",), "D", tier, head=ops2.HELPERS, static=[])


def plan_C12(tier):
    p = ops_plan(("eval",), "D", tier, head=ops2.HELPERS)
    return ops_plan(("eval",), "S", tier, p=p, head=ops2.HELPERS)


def plan_C13(tier):
    p = ops_plan(("cmp",), "D", tier, fp=True)
    ops_plan(("cmp",), "S", tier, p=p, fp=True)
    ops_plan(("abs",), "D", tier, p=p)
    return ops_plan(("abs",), "S", tier, p=p)


def plan_C14(tier):
    return ops_plan(("eigen",), "D", tier, head=ops2.HELPERS)


def plan_C15(tier):
    p = K.Plan()
    h = ops2.HELPERS
    for k in ("D", "S"):
        ops_plan(("copy",), k, tier, p=p, head=h, static=SOME)
        ops_plan(tuple(g for g in ALLG if g != "copy"), k, tier, p=p, head=h, static=[0, 1, 2, 3, 5], kinds={"frame"}, conf_sizes=(0, 1, 3))
    p.conf_per = 2
    return p


PYCONF = {"D1x", "D2x", "D1_0", "D2_0", "D1_2", "D2_1", "D2_3", "D1_16", "D2_7", "S"}


def py_plan(ops):
    p = K.Plan()
    h = ops2.EIGEN + ops2.HELPERS + pyops.HEAD
    for tag in tags("D", None) + ["S"]:
        for fp in (False, True):
            os_ = [o for o in ops if (o.name in pyops.FP) == fp]
            if os_:
                add(p, "py", tag, os_, h, E.PYDEFS, conf=tag in PYCONF, conf_sizes=(0, 1, 3, 5), **({"fp": True} if fp else {}))
    p.conf_per = 2
    return p


def plan_C16(tier):
    return py_plan([o for o in pyops.PY if pyops.part(o) == 1])


def plan_C17(tier):
    return py_plan([o for o in pyops.PY if pyops.part(o) == 2])


def plan_C18(tier):
    return py_plan([o for o in pyops.PY if pyops.part(o) == 3])
