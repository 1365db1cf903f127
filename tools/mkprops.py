"""writes /verif/properties.jsonl and /verif/MANIFEST.json (the two lists are kept in step here)"""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "include/hyperjet/hyperjet.h"
B = "python/src/common.h"


def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}}


STATE = [("m_size, m_data", "number of variables; value, gradient and packed upper triangle of the Hessian", H + " class DDScalar")]
SST = [("m_f, m_d", "value; derivative by variable name", H + " class SScalar")]

PROPS = [
    P("C01", "Dense arithmetic carries exact values, gradients and Hessians",
      "Adding, subtracting, multiplying, dividing and negating dense hyper-dual scalars, with each other or with plain numbers on either side, yields "
      "the mathematically exact value, gradient and Hessian of the result as a function of the seed variables (in exact arithmetic). This holds for "
      "first and second order, for every number of variables, fixed or dynamic, and also when both operands are the same object.",
      ["inputs", "configurations"], "all coefficient values, all numbers of variables, both orders, fixed and dynamic sizes, every aliasing of the operands",
      "Tests compare a handful of fixed numbers for sizes 2 to 4; the coefficient formulas must be right for every real input and every index pair of every size.",
      [H], [("operator+ - * / and their scalar forms", H + " DDScalar arithmetic section"), ("binary, unary", H + " DDScalar private helpers")],
      ["value, gradient, Hessian of the returned object"], STATE),
    P("C02", "Dense in-place arithmetic equals out-of-place arithmetic, even on itself",
      "a op= b leaves in a exactly the value, gradient and Hessian of a op b, leaves b unchanged and yields a itself, for a scalar or a number on the right. "
      "This includes the cases where the right-hand side is the modified object itself or a reference to one of its own coefficients.",
      ["inputs", "configurations"], "all coefficient values, all sizes, both orders, fixed and dynamic, right operand distinct from or identical to the left",
      "The in-place operators are separate code from the binary ones; tests exercise one sample of each with distinct operands and never self-assignment forms.",
      [H], [("operator+= -= *= /=", H + " DDScalar"), ("binary", H + " DDScalar private helper")], ["coefficients of the left operand after the call"], STATE),
    P("C03", "Dense elementary functions obey the chain rule to second order",
      "Each one-argument function (power, roots, reciprocal, trigonometric, hyperbolic and inverse, exponential, logarithms) applied to a dense scalar returns "
      "f(x), f'(x) times the gradient, and f'(x) times the Hessian plus f''(x) times the outer product of the gradient. It does so for every x in the open domain "
      "of the function, and member and free-function forms agree.",
      ["inputs", "configurations"], "every x in the open domain of each function, all gradients and Hessians, all sizes, both orders, fixed and dynamic",
      "Tests check one point per function; a wrong second derivative that agrees at this point, or on one side of a sign change, passes.",
      [H], [("pow, sqrt, cbrt, reciprocal, cos, sin, tan, acos, asin, atan, cosh, sinh, tanh, acosh, asinh, atanh, exp, log, log2, log10", H + " DDScalar"),
            ("unary", H + " DDScalar private helper"), ("free functions", H + " namespace hyperjet")], ["coefficients of the returned object"], STATE),
    P("C04", "Dense functions of two and three arguments carry all mixed derivatives",
      "atan2 and the two- and three-argument hypot of dense scalars return the exact value, gradient and Hessian by the multivariate chain rule including every "
      "mixed second derivative. This holds for all arguments away from the origin, all quadrants and all sizes, also when arguments are the same object.",
      ["inputs", "configurations"], "all argument values off the origin, all coefficients, sizes, orders, fixed and dynamic, every aliasing of the arguments",
      "Tests check one point per function; the six second derivatives of the three-argument form and all sign combinations are out of reach of samples.",
      [H], [("atan2, hypot", H + " DDScalar"), ("binary, ternary", H + " DDScalar private helpers")], ["coefficients of the returned object"], STATE),
    P("C05", "Sparse arithmetic is exact over the union of the variable names",
      "Arithmetic on sparse scalars, out-of-place and in-place and with plain numbers, yields the exact value and, for every variable name, the exact derivative, "
      "where a name an operand does not mention counts as derivative zero. The result mentions exactly the names of the operands, also when both operands are the same object.",
      ["inputs", "configurations"], "all values, all finite sets of names in each operand (disjoint, overlapping, equal, empty), all derivatives, operand aliasing",
      "Tests use two or three fixed names; merging of arbitrary name sets and self-operations is not sampled.",
      [H], [("SScalar operators", H + " SScalar"), ("unary, binary", H + " SScalar private helpers")], ["f(), d(name), size() of the result"], SST),
    P("C06", "Sparse elementary functions obey the chain rule for every name",
      "Each elementary function of one, two or three sparse scalars returns the function value and, for every variable name, the chain-rule derivative, missing names "
      "counting as zero. This holds on the open domain of each function and for any overlap or aliasing of the arguments' names.",
      ["inputs", "configurations"], "all values in the open domain, all name sets and derivatives, every aliasing of the arguments",
      "One sample per function is tested, with one or two names.",
      [H], [("SScalar elementary functions", H + " SScalar"), ("unary, binary, ternary", H + " SScalar private helpers")], ["f(), d(name) of the result"], SST),
    P("C07", "Every way of making a scalar gives a consistent one or is rejected",
      "Constructors and factories (constant, variable, variables, zero, empty, from data, resize) give an object whose number of coefficients matches its number of "
      "variables, with the seeded value, unit derivative in its own variable and zeros elsewhere. A size or data length that no such object can have is rejected with an "
      "exception, or by a failed assertion when exceptions are disabled, and never accepted.",
      ["inputs", "configurations"], "all sizes including negative, all data lengths, all values and variable indices, both orders, fixed and dynamic, exceptions on and off",
      "Tests build a few small objects; invalid lengths, sizes and the build without exceptions are not exercised.",
      [H], [("constructors, create, empty, zero, constant, variable, variables, resize", H + " DDScalar"),
            ("size_from_data_length, data_length_from_size, check_valid_size", H + " DDScalar"), ("SScalar constructors, constant, variable", H + " SScalar")],
      ["size, coefficients, exception"], STATE + SST),
    P("C08", "Accessors and the documented packed layout agree for every index",
      "Reading and writing value, gradient entries and Hessian entries by linear index or by row and column addresses exactly the documented packed storage, symmetric in "
      "row and column, and a write changes that entry and nothing else. Size, order and number of coefficients are reported consistently.",
      ["inputs", "configurations"], "every valid index and index pair of every size, all values, both orders, fixed and dynamic",
      "Tests check all entries of one size; the index arithmetic must be a bijection for every size.",
      [H], [("f, g, h, set_f, set_g, set_h, ptr, data, size, data_length, order", H + " DDScalar"), ("data_length_from_size, size_from_data_length", H)],
      ["accessor return values and storage"], STATE),
    P("C09", "Operations on scalars of different sizes are rejected without effect",
      "Combining dynamic scalars with different numbers of variables, in any two- or three-argument operation, in evaluation or padding, raises an exception, and fails an "
      "assertion in the build without exceptions. No operand is modified and no memory outside the operands is touched before the rejection.",
      ["inputs", "configurations"], "all pairs and triples of different sizes, all coefficients, both orders, exceptions on and off",
      "Tests try one mismatching pair for some of the operators.",
      [H], [("check_equal_size, check_padded_size", H + " DDScalar"), ("operators, atan2, hypot, eval, pad_left, pad_right", H + " DDScalar")],
      ["exception or abort, operands afterwards"], STATE),
    P("C10", "No operation reads or writes outside its operands, or overflows an index",
      "For valid arguments every operation stays inside the storage of its operands and result, reads no uninitialised coefficient, and computes every index and length without integer overflow. "
      "An index outside the range of an accessor is stopped by an assertion in builds that have assertions.",
      ["inputs", "configurations"], "all operations, all sizes up to 2^29 variables, all coefficients and indices, every aliasing of the arguments",
      "Memory errors at particular sizes or index combinations stay invisible to value comparisons on small samples.",
      [H], [("loops over coefficients, packed index arithmetic", H + " DDScalar"), ("iteration over name maps", H + " SScalar")], ["memory accesses"], STATE + SST),
    P("C11", "Padding embeds a scalar in a larger variable space unchanged",
      "Padding on the left or right to a larger number of variables keeps the value and moves every gradient and Hessian entry to the shifted variables, with zeros for the "
      "new ones. Padding to the same size returns an equal scalar.",
      ["inputs", "configurations"], "every old and new size, all coefficients, both orders",
      "Tests pad one scalar of one size; the packed layout changes with both sizes.",
      [H], [("pad_left, pad_right", H + " DDScalar")], ["coefficients of the returned object"], STATE),
    P("C12", "Taylor evaluation returns the exact quadratic or linear model",
      "Evaluating a dense scalar at an increment returns value plus gradient times increment plus, at second order, half the increment's quadratic form of the symmetric Hessian. "
      "Evaluating a sparse scalar returns the sum over the names it shares with the increments of derivative times increment.",
      ["inputs", "configurations"], "all sizes, coefficients and increments, both orders; all name sets of sparse scalar and increments",
      "Tests evaluate one 2-variable sample; the walk over the packed lower triangle depends on the size.",
      [H], [("eval", H + " DDScalar, SScalar")], ["returned number"], STATE + SST),
    P("C13", "Comparisons and absolute value look at the value only",
      "The six comparisons between scalars and between scalars and numbers, on either side, return exactly the IEEE comparison of the values, whatever the derivatives, NaN and signed zeros included. "
      "The absolute value has value |x| and derivatives multiplied by the sign of x wherever x is not zero.",
      ["inputs", "configurations"], "all values including NaN, infinities and signed zeros, all derivatives, all sizes, sparse and dense",
      "Tests compare a few finite numbers; equal values with different derivatives, NaN and mirrored forms are not covered.",
      [H], [("comparison operators and abs", H + " DDScalar, SScalar")], ["returned truth value, coefficients"], STATE + SST),
    P("C14", "Matrix and vector import and export preserve every derivative",
      "Exporting the Hessian gives the symmetric matrix, or its upper triangle with zeros below, according to the mode, and any other mode is rejected; importing a matrix or building from value, gradient and "
      "matrix stores its upper triangle. Export after import is the identity on symmetric matrices and matrices of the wrong shape are rejected.",
      ["inputs", "configurations"], "all sizes, all coefficients, all matrices, all mode strings",
      "Tests round-trip one small matrix.",
      [H], [("hm, set_hm, ag, adata, from_gradient, from_arrays", H + " DDScalar")], ["matrix entries, coefficients, exception"], STATE),
    P("C15", "Operations are pure: arguments are untouched and results independent",
      "No operation other than an in-place operator, setter or resize modifies any of its arguments, and what these modify is the left operand only. Results and copies own separate storage, so that "
      "later changes to one object never show in another.",
      ["inputs", "histories"], "all operations and copies, all sizes and coefficients, every aliasing of the arguments",
      "A shared buffer or a modified argument only shows in a later use of another object, which tests do not look at.",
      [H], [("value semantics of m_data, m_d; const members", H + " DDScalar, SScalar")], ["operands and copies after the call"], STATE + SST),
    P("C16", "Python operators and functions deliver the same exact derivatives",
      "Every operator, comparison and mathematical function of the Python module, called on any of its dense or sparse classes as Python calls it (method, numpy-style alias, reflected or "
      "in-place operator, int or float on either side, keyword or default arguments), returns the exact value and derivatives of the mathematical operation. It leaves its arguments unchanged, except the left operand of an in-place operator. "
      "Dense operands with different numbers of variables raise an exception and stay unchanged.",
      ["inputs", "configurations"], "all values and derivatives, every class of the module (fixed sizes 0 to 16, dynamic, sparse, both orders), every operand order and call form",
      "The bindings repeat every operation for 35 classes; tests call one form on two or three of them with fixed numbers, and an alias bound to the wrong function or a reflected operator with swapped operands is right on other forms.",
      [B, "python/src/bind_sscalar.cpp", H], [("bind<T>: methods and operators", B), ("bind_sscalar", "python/src/bind_sscalar.cpp"), ("operators, functions", H)],
      ["value and derivatives of the returned Python object, truth values"], STATE + SST),
    P("C17", "Python objects are built, read, written and resized as their arguments say",
      "Constructors, static factories, properties and methods of the Python classes take their documented keyword arguments in any order and act like the C++ member they stand for: exact coefficients, "
      "views g and data that share storage with the object, Hessian access by row and column, hm and set_hm, eval, resize and padding. Data, sizes and shapes that fit no object raise an exception and leave existing objects unchanged.",
      ["inputs", "configurations"], "all values, lengths, indices, shapes and modes, every class of the module, positional and keyword forms",
      "Keyword names, default values and overload order act together and per class; tests use one positional form on small objects.",
      [B, "python/src/bind_sscalar.cpp", H], [("bind<T>: constructors, properties, static methods, methods", B), ("bind_sscalar", "python/src/bind_sscalar.cpp"), ("members called by the bindings", H)],
      ["Python objects, numbers, arrays and exceptions"], STATE + SST),
    P("C18", "Python copies, pickles and variable lists preserve every coefficient",
      "copy, deepcopy and unpickling of the pickled state return an independent object of the same class with equal size and coefficients, and a state of the wrong form is rejected. The module function variables(values, order) returns, "
      "for every number of values and order 0, 1 or 2, the list of seeded variables in order, as plain numbers, fixed-size or dynamic scalars, and rejects other orders.",
      ["inputs", "configurations", "histories"], "all coefficients, every class of the module, all numbers of values, all orders",
      "Tests pickle one object; the function variables has one branch per number of values and order, of which tests take a few.",
      [B, "python/src/main.cpp", H], [("py::pickle, __copy__, __deepcopy__", B), ("variables", "python/src/main.cpp"), ("variables, size_from_data_length", H)],
      ["restored object, list of objects, exceptions"], STATE),
]

NOT_CLAIMED = [
]


def main():
    claims = json.load(open(os.path.join(ROOT, "tools", "claims.json")))
    ids = [p["id"] for p in PROPS]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        c = claims.get(p["id"])
        if c is None or "reason" in c:
            na.append({"property": p["id"], "reason": c["reason"] if c else "its check is not built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3-vt -m hjv.check %s quick" % p["id"],
                       "thorough_cmd": "python3-vt -m hjv.check %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": c.get("technique", "deductive verification of contracts on the real code (VC generation over clang IR of /repo's headers; ring normaliser and z3 discharge every obligation)"),
                       "level": "proof", "level_note": c["note"]})
    m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q hjv", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. The commits in /repo are fix: commits, listed in known_findings.json."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in PROPS:
        jsonschema.validate(p, sch)


main()
