// Calls from Python: the contracts of the Python module are stated for these (not part of the verified text).
#pragma once
#include <pybind11/pybind11.h>
#include <hyperjet/hyperjet.h>

extern "C" void hjv_py_init(pybind11::module_ &);

namespace hjvpy {
using namespace pybind11;

extern "C" module_ *hjv_py_module;
inline module_ &mod() {
    if (!hjv_py_module) { hjv_py_module = new module_; hjv_py_init(*hjv_py_module); }
    return *hjv_py_module;
}

// documented names of the classes
template <class T> struct Name;
template <hyperjet::index N> struct Names {
    static const char *d() {
        static const char *const n[] = {"D0Scalar", "D1Scalar", "D2Scalar", "D3Scalar", "D4Scalar", "D5Scalar", "D6Scalar", "D7Scalar", "D8Scalar", "D9Scalar", "D10Scalar",
                                        "D11Scalar", "D12Scalar", "D13Scalar", "D14Scalar", "D15Scalar", "D16Scalar"};
        return N < 0 ? "DScalar" : n[N < 0 ? 0 : N];
    }
    static const char *dd() {
        static const char *const n[] = {"DD0Scalar", "DD1Scalar", "DD2Scalar", "DD3Scalar", "DD4Scalar", "DD5Scalar", "DD6Scalar", "DD7Scalar", "DD8Scalar", "DD9Scalar", "DD10Scalar",
                                        "DD11Scalar", "DD12Scalar", "DD13Scalar", "DD14Scalar", "DD15Scalar", "DD16Scalar"};
        return N < 0 ? "DDScalar" : n[N < 0 ? 0 : N];
    }
};
template <hyperjet::index O, hyperjet::index N> struct Name<hyperjet::DDScalar<O, double, N>> { static const char *go() { return O == 1 ? Names<N>::d() : Names<N>::dd(); } };
template <> struct Name<hyperjet::SScalar<double>> { static const char *go() { return "SScalar"; } };

template <class T> struct Q {
    Call c;
    Q() : c(mod()) {}
    explicit Q(void *slot) : c(mod()) { c.r.slot = slot; c.r.slot_type = &Id<T>::x; }
    // arguments
    Q &j(const T *p, const char *kw = nullptr) { c.jet(p, &Id<T>::x, kw); return *this; }
    Q &f(double x, const char *kw = nullptr) { c.f(x, kw); return *this; }
    Q &i(hyperjet::index x, const char *kw = nullptr) { c.i(x, kw); return *this; }
    Q &s(const std::string *x, const char *kw = nullptr) { c.s(x, kw); return *this; }
    Q &s(const char *x, const char *kw = nullptr) { c.s(new std::string(x), kw); return *this; }
    Q &L(const std::vector<double> *v, const char *kw = nullptr) { c.list(v->data(), (std::ptrdiff_t)v->size(), kw); return *this; }
    Q &A(const double *p, hyperjet::index n, const char *kw = nullptr) { c.arr(p, n, kw); return *this; }
    Q &M(const double *p, hyperjet::index n, hyperjet::index m, const char *kw = nullptr) { c.mat(p, n, m, kw); return *this; }
    Q &N(const std::unordered_map<std::string, double> *x, const char *kw = nullptr) { c.names(x, kw); return *this; }
    Q &v(const Val &x) { c.arg(x); return *this; }
    Q &elem(hyperjet::index p, hyperjet::index q = 0) { c.r.elem = p; c.r.elem2 = q; return *this; }
    Q &out(const double *p) { c.r.out = const_cast<double *>(p); return *this; }
    // what is called
    Q &m(const char *n) { c.of(c.a[0].type); c.method(n); return *this; }
    Q &get(const char *n) { c.of(c.a[0].type); c.get(n); return *this; }
    Q &put(const char *n) { c.of(c.a[0].type); c.put(n); return *this; }
    Q &st(const char *n) { c.cls(Name<T>::go()); c.method(n); return *this; }
    Q &gst(const char *n) { c.cls(Name<T>::go()); c.other(nullptr); c.getstatic(n); return *this; }
    Q &ctor() { c.cls(Name<T>::go()); c.init(); return *this; }
    Q &fn(const char *n) { c.function(n); return *this; }
    Q &setstate() { c.cls(Name<T>::go()); c.setstate(); return *this; }
    // binary operators: the method of the left operand, then the reflected method of the right operand if that is of another type
    bool tryb(const char *n, const char *rn) {
        if (c.a[0].kind == JET) {
            c.of(c.a[0].type);
            if (c.attempt(c.c->first, n, 0, 0) == 2) return true;
        }
        if (c.a[1].kind == JET && (c.a[0].kind != JET || c.a[0].type != c.a[1].type)) {
            Val t = c.a[0];
            c.a[0] = c.a[1];
            c.a[1] = t;
            c.of(c.a[0].type);
            if (c.attempt(c.c->first, rn, 0, 0) == 2) return true;
        }
        return false;
    }
    Q &bin(const char *n, const char *rn) { if (!tryb(n, rn)) throw type_error(); return *this; }
    Q &inp(const char *in, const char *n, const char *rn) {
        c.of(c.a[0].type);
        if (c.attempt(c.c->first, in, 0, 0) == 2) return *this;
        return bin(n, rn);
    }
    // the result
    void obj() {
        if (c.r.kind != JET || !c.r.built) throw type_error();
        if (c.r.ref) for (int k = 0; k < c.n; k++) if (c.r.p == c.a[k].p) throw type_error();      // an argument itself instead of a new object
    }
    void any() { if (c.r.kind != JET || !c.r.built) throw type_error(); }
    void item() { if (c.r.kind != LIST || c.r.i != JET || !c.r.built) throw type_error(); }
    void inone() { if (c.r.kind != NONE) throw type_error(); }
    double num() { if (c.r.kind != FLOAT) throw type_error(); return c.r.d; }
    hyperjet::index idx() { if (c.r.kind != INT) throw type_error(); return c.r.i; }
    hyperjet::index length() { if (c.r.kind != LIST) throw type_error(); return c.r.n; }
    bool truth() { if (c.r.kind != BOOL) throw type_error(); return c.r.i != 0; }
    const void *self() { if (c.r.kind != JET || !c.r.ref) throw type_error(); return c.r.p; }
    // a writable view of numbers
    double *view() { if (c.r.kind != ARRAY1 || !c.r.rw) throw type_error(); return (double *)c.r.p; }
    hyperjet::index vlen() { if (c.r.kind != ARRAY1 || (c.r.n != 1 && c.r.m != 1)) throw type_error(); return c.r.n * c.r.m; }
    double matrix() { if (c.r.kind != ARRAY2) throw type_error(); return c.r.d; }
    hyperjet::index shape() { if (c.r.kind != ARRAY2) throw type_error(); return c.r.n == c.r.m ? c.r.n : -1; }
    // element k of a list of objects made by the module's functions
    void item(void *slot) {
        if (c.r.kind != LIST || c.r.i != JET || c.r.state.type != &Id<T>::x) throw type_error();
        new (slot) T(((const T *)c.r.p)[c.r.state.i]);
    }
};
} // namespace hjvpy
