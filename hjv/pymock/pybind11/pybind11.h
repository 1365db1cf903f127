// Contract of pybind11 used when the Python bindings are verified (an assumed contract of a dependency).
//
// The sources of the Python module are compiled unchanged against this header instead of the real pybind11.  It records every
// binding (class, name, parameters, defaults, callee) exactly as they are registered and resolves a call from Python the way
// pybind11 2.11 documents it: by name, in order of registration, first without and then with conversion of the arguments, by position,
// keyword and default.  What a binding does is the code of the repository and of the header it calls.
#pragma once
#include <array>
#include <cstddef>
#include <initializer_list>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <Eigen/Core>

#define PYBIND11_VERSION_MAJOR 2
#define PYBIND11_VERSION_MINOR 11
#define PYBIND11_VERSION_PATCH 1

namespace pybind11 {

using ssize_t = std::ptrdiff_t;
using size_t = std::size_t;

// ------------------------------------------------------------------ Python values
enum Kind { NONE = 0, JET, FLOAT, INT, BOOL, STR, FLOATS, ARRAY1, ARRAY2, NAMES, TUPLE, LIST, OTHER };

template <typename T> struct Id { static const char x; };
template <typename T> const char Id<T>::x = 0;

struct Val {
    int kind;
    const char *kw;               // keyword, or nullptr for a positional argument
    const void *type;             // JET: type of the object
    const void *p;                // the object
    double d;
    std::ptrdiff_t i;             // INT/BOOL; ARRAY1: length; ARRAY2: rows; FLOATS: length
    std::ptrdiff_t j;             // ARRAY2: columns
    void set(int k, const char *w = nullptr) { kind = k; kw = w; type = nullptr; p = nullptr; d = 0; i = 0; j = 0; }
};

// what the caller wants to know about the result of a call
struct Ret {
    void *slot = nullptr;               // storage for a returned object
    const void *slot_type = nullptr;
    std::ptrdiff_t elem = 0, elem2 = 0; // element of a returned list or array
    int kind = NONE;
    const void *p = nullptr;            // object returned by reference, data of an array
    double d = 0;
    std::ptrdiff_t i = 0, n = 0, m = 0;
    bool built = false, rw = false;
    bool ref = false;                   // the object is returned by reference
    double *out = nullptr;              // the elements of a returned matrix, column by column
    Val state;                          // TUPLE
    Ret() { state.set(NONE); }
};

struct type_error : std::runtime_error { type_error() : std::runtime_error("TypeError") {} };
struct attribute_error : std::runtime_error { attribute_error() : std::runtime_error("AttributeError") {} };
struct cast_error : std::runtime_error { cast_error() : std::runtime_error("Unable to cast") {} cast_error(const std::string &s) : std::runtime_error(s) {} };
struct error_already_set : std::runtime_error { error_already_set() : std::runtime_error("error") {} };
struct value_error : std::runtime_error { value_error(const char *s = "") : std::runtime_error(s) {} value_error(const std::string &s) : std::runtime_error(s) {} };
struct index_error : std::runtime_error { index_error(const char *s = "") : std::runtime_error(s) {} index_error(const std::string &s) : std::runtime_error(s) {} };

struct object;
inline void hjv_take(Val &v, const object &o);
template <typename T> void hjv_take(Val &v, const std::vector<T> &x);
inline void hjv_take(Val &v, const std::vector<double> &x) {
    double *q = (double *)::operator new(sizeof(double) * (x.size() + 1));
    for (std::size_t k = 0; k < x.size(); k++) q[k] = x[k];
    v.set(FLOATS); v.p = q; v.i = (std::ptrdiff_t)x.size();
}
template <std::size_t N> void hjv_take(Val &v, const std::array<double, N> &x) {
    double *q = (double *)::operator new(sizeof(double) * (N + 1));
    for (std::size_t k = 0; k < N; k++) q[k] = x[k];
    v.set(FLOATS); v.p = q; v.i = (std::ptrdiff_t)N;
}
inline void hjv_take(Val &v, double x) { v.set(FLOAT); v.d = x; }
inline void hjv_take(Val &v, float x) { v.set(FLOAT); v.d = x; }
inline void hjv_take(Val &v, int x) { v.set(INT); v.i = x; }
inline void hjv_take(Val &v, long x) { v.set(INT); v.i = x; }
inline void hjv_take(Val &v, long long x) { v.set(INT); v.i = x; }
inline void hjv_take(Val &v, unsigned x) { v.set(INT); v.i = x; }
inline void hjv_take(Val &v, unsigned long x) { v.set(INT); v.i = (std::ptrdiff_t)x; }
inline void hjv_take(Val &v, bool x) { v.set(BOOL); v.i = x; }
inline void hjv_take(Val &v, const char *x) { v.set(STR); v.p = new std::string(x); }
inline void hjv_take(Val &v, const std::string &x) { v.set(STR); v.p = new std::string(x); }
template <typename T> void hjv_take(Val &v, const T &x) { v.set(JET); v.type = &Id<T>::x; v.p = new T(x); }

struct handle {};

struct object : handle {
    Val hjv_v;
    object() { hjv_v.set(NONE); }
    object(const Val &v) : hjv_v(v) {}
    template <typename T> T cast() const;
    bool is_none() const { return hjv_v.kind == NONE; }
};
inline void hjv_take(Val &v, const object &o) { v = o.hjv_v; }

struct none : object {};
struct str : object { str() = default; str(const char *x) { hjv_take(hjv_v, x); } str(const std::string &x) { hjv_take(hjv_v, x); } };
struct float_ : object { float_() = default; float_(double x) { hjv_take(hjv_v, x); } };
struct int_ : object { int_() = default; int_(long x) { hjv_take(hjv_v, x); } };

// ------------------------------------------------------------------ containers
struct hjv_cells { Val *v; std::ptrdiff_t n; };

struct tuple : object {
    tuple() { init(0); }
    explicit tuple(std::size_t n) { init((std::ptrdiff_t)n); }
    tuple(const object &o) : object(o) {}
    void init(std::ptrdiff_t n) { hjv_v.kind = TUPLE; hjv_cells *c = new hjv_cells; c->v = (Val *)::operator new(sizeof(Val) * (std::size_t)(n + 1)); for (std::ptrdiff_t k = 0; k < n; k++) c->v[k].set(NONE); c->n = n; hjv_v.p = c; }
    hjv_cells &cells() const { return *(hjv_cells *)hjv_v.p; }
    std::size_t size() const { return (std::size_t)cells().n; }
    bool empty() const { return size() == 0; }
    object operator[](std::size_t k) const { if (k >= size()) throw error_already_set(); return object(cells().v[k]); }
};

template <typename... A> tuple make_tuple(A &&...a) {
    tuple t(sizeof...(A));
    std::size_t k = 0;
    (hjv_take(t.cells().v[k++], a), ...);
    return t;
}

// a list made by extending with containers: the elements are copied
struct hjv_chunk { int kind; const void *type; const void *p; std::ptrdiff_t n; hjv_chunk *next; };
struct hjv_chunks { hjv_chunk *first, *last; };

template <typename E> void hjv_add(hjv_chunks *c, const E *x, std::ptrdiff_t n) {
    hjv_chunk *k = new hjv_chunk;
    k->n = n; k->next = nullptr;
    if constexpr (std::is_same_v<E, double>) { k->kind = FLOAT; k->type = nullptr; } else { k->kind = JET; k->type = &Id<E>::x; }
    E *q = (E *)::operator new(sizeof(E) * (std::size_t)(n + 1));
    for (std::ptrdiff_t m = 0; m < n; m++) new ((void *)(q + m)) E(x[m]);
    k->p = q;
    if (c->last) c->last->next = k; else c->first = k;
    c->last = k;
}

struct hjv_extend : object {
    hjv_chunks *c = nullptr;
    bool one = false;
    template <typename E> object operator()(const std::vector<E> &v) const { hjv_add<E>(c, v.data(), (std::ptrdiff_t)v.size()); return object(); }
    template <typename E, std::size_t N> object operator()(const std::array<E, N> &v) const { hjv_add<E>(c, v.data(), (std::ptrdiff_t)N); return object(); }
};

struct list : object {
    list() { hjv_v.kind = LIST; hjv_chunks *c = new hjv_chunks; c->first = c->last = nullptr; hjv_v.p = c; }
    hjv_chunks *chunks() const { return (hjv_chunks *)hjv_v.p; }
    hjv_extend attr(const char *) const { hjv_extend e; e.c = chunks(); return e; }
    template <typename T> void append(const T &x) { hjv_add<T>(chunks(), &x, 1); }
    std::size_t size() const { std::size_t n = 0; for (hjv_chunk *k = chunks()->first; k; k = k->next) n += (std::size_t)k->n; return n; }
};

struct hjv_any { template <typename T> hjv_any &operator=(const T &) { return *this; } };
struct dict : object {
    template <typename K> hjv_any operator[](const K &) { return hjv_any(); }
    template <typename K> bool contains(const K &) const { return false; }
};
struct args : tuple {};
struct kwargs : dict {};
struct buffer : object {};
struct array : object {};
template <typename T, int F = 0> struct array_t : array {};
struct type : object {};
struct function : object { template <typename... A> object operator()(const A &...) const { return object(); } };
struct cpp_function : function { cpp_function() = default; template <typename F, typename... E> cpp_function(F, const E &...) {} };

struct hjv_noattr { template <typename T> const hjv_noattr &operator=(const T &) const { return *this; } };

// ------------------------------------------------------------------ annotations
struct arg_v;
struct arg {
    const char *name;
    bool flag_noconvert = false;
    constexpr explicit arg(const char *n = nullptr) : name(n) {}
    arg &noconvert(bool f = true) { flag_noconvert = f; return *this; }
    arg &none(bool = true) { return *this; }
    template <typename T> arg_v operator=(T &&v) const;
};
struct arg_v : arg {
    Val def;
    template <typename T> arg_v(const char *n, T &&v, const char * = nullptr) : arg(n) { hjv_take(def, v); }
    template <typename T> arg_v(const arg &a, T &&v) : arg(a) { hjv_take(def, v); }
};
template <typename T> arg_v arg::operator=(T &&v) const { return arg_v(*this, std::forward<T>(v)); }
struct kw_only {};
struct pos_only {};
struct doc { const char *s; doc(const char *x) : s(x) {} };
struct is_operator {};
struct is_method { template <typename T> is_method(const T &) {} };
struct sibling { template <typename T> sibling(const T &) {} };
struct name { const char *s; name(const char *x) : s(x) {} };
struct scope { template <typename T> scope(const T &) {} };
struct module_local { module_local(bool = true) {} };
struct dynamic_attr {};
struct prepend {};
struct gil_scoped_release {};
template <typename... T> struct call_guard {};
template <std::size_t, std::size_t> struct keep_alive {};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

namespace literals {
constexpr arg operator"" _a(const char *n, std::size_t) { return arg(n); }
inline str operator"" _s(const char *s, std::size_t) { return str(s); }
}

template <typename... A> struct overload_cast_impl {
    template <typename R> constexpr auto operator()(R (*p)(A...)) const noexcept -> decltype(p) { return p; }
    template <typename R, typename C> constexpr auto operator()(R (C::*p)(A...), std::false_type = {}) const noexcept -> decltype(p) { return p; }
    template <typename R, typename C> constexpr auto operator()(R (C::*p)(A...) const, std::true_type) const noexcept -> decltype(p) { return p; }
};
template <typename... A> static constexpr overload_cast_impl<A...> overload_cast = {};
static constexpr auto const_ = std::true_type{};

// ------------------------------------------------------------------ conversion of arguments
template <typename T> struct is_eig : std::false_type {};
template <typename M, int O, typename S> struct is_eig<Eigen::Ref<M, O, S>> : std::true_type {};

template <typename T, typename = void> struct Caster {
    // an object of a bound class
    static bool ok(const Val &v, bool) { return v.kind == JET && v.type == &Id<T>::x; }
    static T &get(const Val &v) { return *(T *)v.p; }
};
template <> struct Caster<bool> {
    static bool ok(const Val &v, bool) { return v.kind == BOOL; }
    static bool get(const Val &v) { return v.i != 0; }
};
template <typename T> struct Caster<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    static bool ok(const Val &v, bool convert) { return v.kind == FLOAT || (convert && (v.kind == INT || v.kind == BOOL)); }
    static T get(const Val &v) { return v.kind == FLOAT ? (T)v.d : (T)v.i; }
};
template <typename T> struct Caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    static bool ok(const Val &v, bool) { return v.kind == INT || v.kind == BOOL; }
    static T get(const Val &v) { return (T)v.i; }
};
template <> struct Caster<std::string> {
    static bool ok(const Val &v, bool) { return v.kind == STR; }
    static std::string get(const Val &v) { return *(const std::string *)v.p; }
};
template <> struct Caster<std::vector<double>> {
    static bool ok(const Val &v, bool) { return v.kind == FLOATS || v.kind == ARRAY1; }
    static std::vector<double> get(const Val &v) { return std::vector<double>((const double *)v.p, (const double *)v.p + v.i); }
};
template <std::size_t N> struct Caster<std::array<double, N>> {
    static bool ok(const Val &v, bool) { return (v.kind == FLOATS || v.kind == ARRAY1) && v.i == (std::ptrdiff_t)N; }
    static std::array<double, N> get(const Val &v) {
        std::array<double, N> r;
        for (std::size_t k = 0; k < N; k++) r[k] = ((const double *)v.p)[k];
        return r;
    }
};
template <> struct Caster<std::unordered_map<std::string, double>> {
    static bool ok(const Val &v, bool) { return v.kind == NAMES; }
    static const std::unordered_map<std::string, double> &get(const Val &v) { return *(const std::unordered_map<std::string, double> *)v.p; }
};
// arrays of numbers: an array of the right shape (numpy arrays of doubles; also a list where conversion is allowed)
template <typename M, int O, typename S> struct Caster<Eigen::Ref<M, O, S>> {
    using P = std::remove_const_t<M>;
    static bool fits(std::ptrdiff_t have, std::ptrdiff_t want) { return want == Eigen::Dynamic || have == want; }
    static bool ok(const Val &v, bool convert) {
        if constexpr (P::IsVectorAtCompileTime) {
            if (v.kind == ARRAY2) return fits(v.i, P::RowsAtCompileTime) && fits(v.j, P::ColsAtCompileTime);
            return (v.kind == ARRAY1 || (v.kind == FLOATS && convert && std::is_const_v<M>)) && fits(v.i, P::SizeAtCompileTime);
        } else {
            return v.kind == ARRAY2 && fits(v.i, P::RowsAtCompileTime) && fits(v.j, P::ColsAtCompileTime);
        }
    }
    // row-major storage, as numpy creates it, for a column-major constant reference means a copy: the values are the same
    static auto get(const Val &v) {
        if constexpr (P::IsVectorAtCompileTime) {
            const std::ptrdiff_t n = v.kind == ARRAY2 ? v.i * v.j : v.i;
            if constexpr (std::is_const_v<M>) return Eigen::Map<const P>((const double *)v.p, n);
            else return Eigen::Map<P>((double *)v.p, n);
        } else {
            if constexpr (std::is_const_v<M>) return Eigen::Map<const P>((const double *)v.p, v.i, v.j);
            else return Eigen::Map<P>((double *)v.p, v.i, v.j);
        }
    }
};
template <> struct Caster<object> { static bool ok(const Val &, bool) { return true; } static object get(const Val &v) { return object(v); } };
template <> struct Caster<handle> { static bool ok(const Val &, bool) { return true; } static handle get(const Val &) { return handle(); } };
template <> struct Caster<tuple> { static bool ok(const Val &v, bool) { return v.kind == TUPLE; } static tuple get(const Val &v) { return tuple(object(v)); } };
template <> struct Caster<dict> { static bool ok(const Val &v, bool) { return v.kind == OTHER; } static dict get(const Val &) { return dict(); } };

// how an argument reaches a parameter declared as A
template <typename A> struct Pass {
    using D = std::remove_cv_t<std::remove_reference_t<A>>;
    static bool ok(const Val &v, bool c) { return Caster<D>::ok(v, c); }
    static decltype(auto) get(const Val &v) { return Caster<D>::get(v); }
};
// non-const references to converted values
template <> struct Pass<dict &> {
    static bool ok(const Val &v, bool c) { return v.kind == OTHER; }
    static dict &get(const Val &v) { return *(dict *)v.p; }
};

template <typename T> T object::cast() const {
    using D = std::remove_cv_t<std::remove_reference_t<T>>;
    if (!Caster<D>::ok(hjv_v, true)) throw cast_error();
    return Caster<D>::get(hjv_v);
}

// ------------------------------------------------------------------ results
template <typename R> struct Result {
    using D = std::remove_cv_t<std::remove_reference_t<R>>;
    template <typename X> static void put(Ret &r, X &&x) {
        if constexpr (std::is_same_v<D, bool>) { r.kind = BOOL; r.i = x; }
        else if constexpr (std::is_floating_point_v<D>) { r.kind = FLOAT; r.d = x; }
        else if constexpr (std::is_integral_v<D>) { r.kind = INT; r.i = (std::ptrdiff_t)x; }
        else if constexpr (std::is_same_v<D, std::string>) { r.kind = STR; }
        else if constexpr (std::is_base_of_v<tuple, D>) { r.kind = TUPLE; r.state = x.hjv_v; }
        else if constexpr (std::is_base_of_v<list, D>) { list_(r, x); }
        else if constexpr (std::is_base_of_v<object, D>) { r.kind = OTHER; }
        else array_or_object(r, x);
    }
    static void list_(Ret &r, const list &x) {
        std::ptrdiff_t k = r.elem;
        r.kind = LIST;
        r.n = 0;
        for (hjv_chunk *c = x.chunks()->first; c; c = c->next) {
            if (0 <= k && k < c->n) hjv_elem(r, c->kind, c->type, c->p, k);
            k -= c->n;
            r.n += c->n;
        }
    }
    static void hjv_elem(Ret &r, int kind, const void *type, const void *p, std::ptrdiff_t k) {
        r.i = kind;
        if (kind == FLOAT) r.d = ((const double *)p)[k];
        else { r.p = p; r.state.type = type; r.state.i = k; }
    }
    template <typename X> static void array_or_object(Ret &r, X &x) { dispatch(r, x); }
    // list of objects or of numbers
    template <typename E> static void seq(Ret &r, const E *p, std::ptrdiff_t n) {
        r.kind = LIST; r.n = n;
        if constexpr (std::is_same_v<E, double>) { r.i = FLOAT; if (0 <= r.elem && r.elem < n) r.d = p[r.elem]; }
        else {
            r.i = JET;
            r.state.type = &Id<E>::x;
            if (0 <= r.elem && r.elem < n && r.slot && r.slot_type == &Id<E>::x) { new (r.slot) E(p[r.elem]); r.built = true; }
        }
    }
    template <typename E> static void dispatch(Ret &r, const std::vector<E> &x) { seq<E>(r, x.data(), (std::ptrdiff_t)x.size()); }
    template <typename E, std::size_t N> static void dispatch(Ret &r, const std::array<E, N> &x) { seq<E>(r, x.data(), (std::ptrdiff_t)N); }
    template <typename M, int O, typename S> static void dispatch(Ret &r, const Eigen::Ref<M, O, S> &x) {
        r.kind = ARRAY1; r.p = x.data(); r.n = x.rows(); r.m = x.cols(); r.rw = !std::is_const_v<M>;
    }
    template <typename M, int O, typename S> static void dispatch(Ret &r, const Eigen::Map<M, O, S> &x) {
        r.kind = ARRAY1; r.p = x.data(); r.n = x.rows(); r.m = x.cols(); r.rw = !std::is_const_v<M>;
    }
    // a matrix by value: numpy takes over a copy
    template <typename S, int A, int B, int C, int E, int F> static void dispatch(Ret &r, const Eigen::Matrix<S, A, B, C, E, F> &x) {
        r.kind = ARRAY2; r.n = x.rows(); r.m = x.cols();
        if (0 <= r.elem && r.elem < r.n && 0 <= r.elem2 && r.elem2 < r.m) r.d = x(r.elem, r.elem2);
        if (r.out) for (std::ptrdiff_t j = 0; j < r.m; j++) for (std::ptrdiff_t i = 0; i < r.n; i++) r.out[i + j * r.n] = x(i, j);
    }
    // an object of a bound class: a reference to an object that Python holds is that object, everything else is a new object
    template <typename X> static void dispatch(Ret &r, const X &x) {
        r.kind = JET; r.state.type = &Id<X>::x; r.p = &x;
        if (r.slot && r.slot_type == &Id<X>::x) { new (r.slot) X(x); r.built = true; }
    }
};
// operators in place: the reference to the left operand is recognised as the Python object it belongs to
template <typename X> struct Result<X &> {
    static void put(Ret &r, X &x) {
        if constexpr (std::is_arithmetic_v<std::remove_const_t<X>> || std::is_same_v<std::remove_const_t<X>, std::string>) Result<std::remove_const_t<X>>::put(r, x);
        else { Result<std::remove_const_t<X>>::put(r, x); r.ref = true; }
    }
};

// ------------------------------------------------------------------ callees
enum { MAXARG = 6 };
// an annotated parameter
struct Spec { int k; const char *name; bool noconv, hasdef; Val def; Spec *next; };
struct Rec {
    const char *nm = nullptr;
    int what = 0;                 // 0 method or function, 1 static method, 2 constructor, 3 getter, 4 setter, 5 static getter, 6 __setstate__
    int nargs = 0;
    int nnamed = 0;
    Spec *specs = nullptr;
    bool (*invoke)(Rec *, Val *, bool, Ret &) = nullptr;
    Rec *next = nullptr;
    alignas(16) unsigned char fn[32];
    Spec *spec(int k) const { for (Spec *s = specs; s; s = s->next) if (s->k == k) return s; return nullptr; }
    bool noconv(int k) const { Spec *s = spec(k); return s && s->noconv; }
};

template <typename F, typename R, typename... A> struct Invoker {
    template <std::size_t... I> static bool go(Rec *rec, Val *a, bool convert, Ret &r, std::index_sequence<I...>) {
        if (!(... && Pass<A>::ok(a[I], convert && !rec->noconv(I)))) return false;
        F &f = *(F *)(void *)rec->fn;
        if constexpr (std::is_void_v<R>) { f(Pass<A>::get(a[I])...); r.kind = NONE; }
        else Result<R>::put(r, f(Pass<A>::get(a[I])...));
        return true;
    }
    static bool run(Rec *rec, Val *a, bool convert, Ret &r) { return go(rec, a, convert, r, std::index_sequence_for<A...>{}); }
};
template <typename F, typename R, typename C, typename... A> struct MInvoker {
    template <std::size_t... I> static bool go(Rec *rec, Val *a, bool convert, Ret &r, std::index_sequence<I...>) {
        if (!Caster<C>::ok(a[0], convert) || !(... && Pass<A>::ok(a[I + 1], convert && !rec->noconv(I + 1)))) return false;
        F &f = *(F *)(void *)rec->fn;
        C &self = Caster<C>::get(a[0]);
        if constexpr (std::is_void_v<R>) { (self.*f)(Pass<A>::get(a[I + 1])...); r.kind = NONE; }
        else Result<R>::put(r, (self.*f)(Pass<A>::get(a[I + 1])...));
        return true;
    }
    static bool run(Rec *rec, Val *a, bool convert, Ret &r) { return go(rec, a, convert, r, std::index_sequence_for<A...>{}); }
};

template <typename F> void put_fn(Rec *rec, const F &f) {
    static_assert(sizeof(F) <= 32, "callee too large");
    new ((void *)rec->fn) F(f);
}
template <typename R, typename... A> void bind_fn(Rec *rec, R (*f)(A...)) { rec->nargs = sizeof...(A); rec->invoke = &Invoker<R (*)(A...), R, A...>::run; put_fn(rec, f); }
template <typename C, typename R, typename B, typename... A> void bind_mem(Rec *rec, R (B::*f)(A...)) {
    rec->nargs = 1 + sizeof...(A); rec->invoke = &MInvoker<R (B::*)(A...), R, C, A...>::run; put_fn(rec, f);
}
template <typename C, typename R, typename B, typename... A> void bind_mem(Rec *rec, R (B::*f)(A...) const) {
    rec->nargs = 1 + sizeof...(A); rec->invoke = &MInvoker<R (B::*)(A...) const, R, C, A...>::run; put_fn(rec, f);
}
template <typename F, typename R, typename... A> void bind_lambda(Rec *rec, const F &f, R (F::*)(A...) const) { rec->nargs = sizeof...(A); rec->invoke = &Invoker<F, R, A...>::run; put_fn(rec, f); }
template <typename F, typename R, typename... A> void bind_lambda(Rec *rec, const F &f, R (F::*)(A...)) { rec->nargs = sizeof...(A); rec->invoke = &Invoker<F, R, A...>::run; put_fn(rec, f); }
template <typename C, typename F> void bind_any(Rec *rec, const F &f) {
    if constexpr (std::is_member_function_pointer_v<F>) bind_mem<C>(rec, f);
    else if constexpr (std::is_pointer_v<F>) bind_fn(rec, f);
    else bind_lambda(rec, f, &F::operator());
}

inline Spec *annotate(Rec *rec, const arg &a, int self) {
    Spec *s = new Spec;
    s->k = self + rec->nnamed++;
    s->name = a.name; s->noconv = a.flag_noconvert; s->hasdef = false; s->next = rec->specs;
    rec->specs = s;
    return s;
}
inline void annotate(Rec *rec, const arg_v &a, int self) {
    Spec *s = annotate(rec, static_cast<const arg &>(a), self);
    s->hasdef = true; s->def = a.def;
}
template <typename X> void annotate(Rec *, const X &, int) {}

struct Cls {
    const char *nm;
    const void *type;
    Rec *first = nullptr, *last = nullptr;
    Cls *next = nullptr;
};
inline void append(Rec *&first, Rec *&last, Rec *r) { if (last) last->next = r; else first = r; last = r; }

inline bool same(const char *a, const char *b) {
    while (*a && *a == *b) { a++; b++; }
    return *a == *b;
}
inline const char *keep(const char *s) {
    std::size_t n = 0;
    while (s[n]) n++;
    char *q = new char[n + 1];
    for (std::size_t k = 0; k <= n; k++) q[k] = s[k];
    return q;
}

struct module_ : object {
    Cls *classes = nullptr, *lastc = nullptr;
    Rec *first = nullptr, *last = nullptr;
    const char *nm = "";
    str &doc() { static str s; return *new str(); }
    hjv_noattr attr(const char *) const { return hjv_noattr(); }
    template <typename F, typename... E> module_ &def(const char *n, F &&f, const E &...e) {
        Rec *r = new Rec;
        r->nm = n;
        bind_any<void>(r, (std::decay_t<F>)f);
        (annotate(r, e, 0), ...);
        append(first, last, r);
        return *this;
    }
    static object import(const char *) { return object(); }
    module_ def_submodule(const char *, const char * = "") { return module_(); }
};
using module = module_;
template <typename... A> object eval(const A &...) { return object(); }
template <typename... A> void exec(const A &...) {}

// ------------------------------------------------------------------ constructors and serialization
template <typename... A> struct init_args {};
template <typename F> struct init_factory { F f; };
template <typename... A> init_args<A...> init() { return {}; }
template <typename F> init_factory<std::decay_t<F>> init(F &&f) { return {f}; }
template <typename G, typename S> struct pickle_factory { G get; S set; };
template <typename G, typename S> pickle_factory<std::decay_t<G>, std::decay_t<S>> pickle(G &&g, S &&s) { return {g, s}; }

// ------------------------------------------------------------------ operators
struct self_t {};
static const self_t self = self_t();
struct undefined_t {};
template <int O, bool Rv, typename X> struct op_ {};
enum { ADD, SUB, MUL, DIV, EQ, NE, LT, GT, LE, GE, IADD, ISUB, IMUL, IDIV, NEG, POS, ABS };

#define HJV_BIN(O, S) \
    inline op_<O, false, self_t> operator S(const self_t &, const self_t &) { return {}; } \
    template <typename X> op_<O, false, X> operator S(const self_t &, const X &) { return {}; } \
    template <typename X> op_<O, true, X> operator S(const X &, const self_t &) { return {}; }
HJV_BIN(ADD, +) HJV_BIN(SUB, -) HJV_BIN(MUL, *) HJV_BIN(DIV, /) HJV_BIN(EQ, ==) HJV_BIN(NE, !=) HJV_BIN(LT, <) HJV_BIN(GT, >) HJV_BIN(LE, <=) HJV_BIN(GE, >=)
#undef HJV_BIN
#define HJV_INP(O, S) \
    inline op_<O, false, self_t> operator S(const self_t &, const self_t &) { return {}; } \
    template <typename X> op_<O, false, X> operator S(const self_t &, const X &) { return {}; }
HJV_INP(IADD, +=) HJV_INP(ISUB, -=) HJV_INP(IMUL, *=) HJV_INP(IDIV, /=)
#undef HJV_INP
inline op_<NEG, false, undefined_t> operator-(const self_t &) { return {}; }
inline op_<POS, false, undefined_t> operator+(const self_t &) { return {}; }
inline op_<ABS, false, undefined_t> abs(const self_t &) { return {}; }

template <typename T, typename X> using operand = std::conditional_t<std::is_same_v<X, self_t>, T, X>;
// the documented names: the left operand is self, or, for the reflected operators, the right operand is self
#define HJV_DEF(O, NAME, RNAME, EXPR) \
    template <typename T, typename X> void def_op(Rec *r, op_<O, false, X>) { using B = operand<T, X>; r->nm = NAME; bind_fn(r, +[](const T &l, const B &q) { return EXPR; }); } \
    template <typename T, typename X> void def_op(Rec *r, op_<O, true, X>) { r->nm = RNAME; bind_fn(r, +[](const T &q, const X &l) { return EXPR; }); }
HJV_DEF(ADD, "__add__", "__radd__", l + q)
HJV_DEF(SUB, "__sub__", "__rsub__", l - q)
HJV_DEF(MUL, "__mul__", "__rmul__", l * q)
HJV_DEF(DIV, "__truediv__", "__rtruediv__", l / q)
HJV_DEF(EQ, "__eq__", "__eq__", l == q)
HJV_DEF(NE, "__ne__", "__ne__", l != q)
HJV_DEF(LT, "__lt__", "__gt__", l < q)
HJV_DEF(GT, "__gt__", "__lt__", l > q)
HJV_DEF(LE, "__le__", "__ge__", l <= q)
HJV_DEF(GE, "__ge__", "__le__", l >= q)
#undef HJV_DEF
#define HJV_DEF(O, NAME, OP) \
    template <typename T, typename X> void def_op(Rec *r, op_<O, false, X>) { using B = operand<T, X>; r->nm = NAME; bind_fn(r, +[](T &l, const B &q) -> T & { return l OP q; }); }
HJV_DEF(IADD, "__iadd__", +=)
HJV_DEF(ISUB, "__isub__", -=)
HJV_DEF(IMUL, "__imul__", *=)
HJV_DEF(IDIV, "__itruediv__", /=)
#undef HJV_DEF
template <typename T> void def_op(Rec *r, op_<NEG, false, undefined_t>) { r->nm = "__neg__"; bind_fn(r, +[](const T &l) { return -l; }); }
template <typename T> void def_op(Rec *r, op_<POS, false, undefined_t>) { r->nm = "__pos__"; bind_fn(r, +[](const T &l) { return +l; }); }
template <typename T> void def_op(Rec *r, op_<ABS, false, undefined_t>) { r->nm = "__abs__"; bind_fn(r, +[](const T &l) { return abs(l); }); }

// ------------------------------------------------------------------ classes
template <typename T, typename... O> struct class_ : object {
    Cls *c;
    template <typename... E> class_(module_ &m, const char *n, const E &...) {
        c = new Cls;
        c->nm = keep(n);
        c->type = &Id<T>::x;
        if (m.lastc) m.lastc->next = c; else m.classes = c;
        m.lastc = c;
    }
    Rec *rec(const char *n, int what) {
        Rec *r = new Rec;
        r->nm = n;
        r->what = what;
        append(c->first, c->last, r);
        return r;
    }
    template <typename F, typename... E> class_ &def(const char *n, F &&f, const E &...e) {
        Rec *r = rec(n, 0);
        bind_any<T>(r, (std::decay_t<F>)f);
        (annotate(r, e, 1), ...);
        return *this;
    }
    template <typename F, typename... E> class_ &def_static(const char *n, F &&f, const E &...e) {
        Rec *r = rec(n, 1);
        bind_any<T>(r, (std::decay_t<F>)f);
        (annotate(r, e, 0), ...);
        return *this;
    }
    template <typename F, typename... E> class_ &def(const init_factory<F> &f, const E &...e) {
        Rec *r = rec("__init__", 2);
        bind_any<T>(r, f.f);
        (annotate(r, e, 0), ...);
        return *this;
    }
    template <typename... A, typename... E> class_ &def(const init_args<A...> &, const E &...e) {
        Rec *r = rec("__init__", 2);
        bind_fn(r, +[](A... a) { return T(std::forward<A>(a)...); });
        (annotate(r, e, 0), ...);
        return *this;
    }
    template <typename G, typename S, typename... E> class_ &def(const pickle_factory<G, S> &f, const E &...) {
        bind_any<T>(rec("__getstate__", 0), f.get);
        bind_any<T>(rec("__setstate__", 6), f.set);
        return *this;
    }
    template <int P, bool Rv, typename X, typename... E> class_ &def(const op_<P, Rv, X> &o, const E &...) {
        def_op<T>(rec("", 0), o);
        return *this;
    }
    template <typename G> class_ &getter(const char *n, const G &g, int what) {
        if constexpr (!std::is_same_v<G, std::nullptr_t>) bind_any<T>(rec(n, what), g);
        return *this;
    }
    template <typename G, typename... E> class_ &def_property_readonly(const char *n, const G &g, const E &...) { return getter(n, g, 3); }
    template <typename G, typename S, typename... E> class_ &def_property(const char *n, const G &g, const S &s, const E &...) { getter(n, g, 3); return getter(n, s, 4); }
    template <typename G, typename... E> class_ &def_property_readonly_static(const char *n, const G &g, const E &...) { return getter(n, g, 5); }
    template <typename X, typename D, typename... E> class_ &def_readwrite(const char *n, D X::*m, const E &...) {
        getter(n, [m](const T &s) { return s.*m; }, 3);
        return getter(n, [m](T &s, const D &v) { s.*m = v; }, 4);
    }
    template <typename X, typename D, typename... E> class_ &def_readonly(const char *n, D X::*m, const E &...) { return getter(n, [m](const T &s) { return s.*m; }, 3); }
    hjv_noattr attr(const char *) const { return hjv_noattr(); }
};

// ------------------------------------------------------------------ a call from Python
struct Call {
    module_ &m;
    Cls *c = nullptr;
    Val a[MAXARG];
    int n = 0;
    Ret r;
    explicit Call(module_ &x) : m(x) {}
    Call &cls(const char *n_) {
        for (c = m.classes; c; c = c->next) if (same(c->nm, n_)) return *this;
        throw attribute_error();
    }
    // the class of an object
    Call &of(const void *type) {
        for (c = m.classes; c; c = c->next) if (c->type == type) return *this;
        throw type_error();
    }
    Call &arg(const Val &v) { a[n++] = v; return *this; }
    Call &jet(const void *p, const void *type, const char *kw = nullptr) { Val &v = a[n++]; v.set(JET, kw); v.p = p; v.type = type; return *this; }
    Call &f(double x, const char *kw = nullptr) { Val &v = a[n++]; v.set(FLOAT, kw); v.d = x; return *this; }
    Call &i(std::ptrdiff_t x, const char *kw = nullptr) { Val &v = a[n++]; v.set(INT, kw); v.i = x; return *this; }
    Call &s(const std::string *x, const char *kw = nullptr) { Val &v = a[n++]; v.set(STR, kw); v.p = x; return *this; }
    Call &list(const double *x, std::ptrdiff_t len, const char *kw = nullptr) { Val &v = a[n++]; v.set(FLOATS, kw); v.p = x; v.i = len; return *this; }
    Call &arr(const double *x, std::ptrdiff_t len, const char *kw = nullptr) { Val &v = a[n++]; v.set(ARRAY1, kw); v.p = x; v.i = len; return *this; }
    Call &mat(const double *x, std::ptrdiff_t rows, std::ptrdiff_t cols, const char *kw = nullptr) { Val &v = a[n++]; v.set(ARRAY2, kw); v.p = x; v.i = rows; v.j = cols; return *this; }
    Call &names(const std::unordered_map<std::string, double> *x, const char *kw = nullptr) { Val &v = a[n++]; v.set(NAMES, kw); v.p = x; return *this; }
    Call &other(const void *p, const char *kw = nullptr) { Val &v = a[n++]; v.set(OTHER, kw); v.p = p; return *this; }

    bool take(Rec *rec, bool convert) {
        Val b[MAXARG];
        bool set[MAXARG];
        for (int q = 0; q < MAXARG; q++) set[q] = false;
        int npos = 0;
        if (n > rec->nargs) return false;
        for (int k = 0; k < n; k++) {
            if (a[k].kw) {
                int q = 0;
                for (; q < rec->nargs; q++) { Spec *s = rec->spec(q); if (s && s->name && same(s->name, a[k].kw)) break; }
                if (q == rec->nargs || set[q]) return false;
                b[q] = a[k];
                set[q] = true;
            } else {
                b[npos] = a[k];
                set[npos++] = true;
            }
        }
        for (int q = 0; q < rec->nargs; q++) {
            if (!set[q]) {
                Spec *s = rec->spec(q);
                if (!s || !s->hasdef) return false;
                b[q] = s->def;
            }
        }
        return rec->invoke(rec, b, convert, r);
    }
    // 0 no such name, 1 no matching overload, 2 done
    int attempt(Rec *first, const char *n_, int lo, int hi) {
        int found = 0;
        for (int pass = 0; pass < 2; pass++)
            for (Rec *q = first; q; q = q->next)
                if (lo <= q->what && q->what <= hi && same(q->nm, n_)) {
                    found = 1;
                    if (take(q, pass == 1)) return 2;
                }
        return found;
    }
    Call &finish(int k) {
        if (k == 0) throw attribute_error();
        if (k == 1) throw type_error();
        return *this;
    }
    Call &method(const char *n_) { return finish(attempt(c->first, n_, 0, 1)); }
    Call &init() { return finish(attempt(c->first, "__init__", 2, 2)); }
    Call &get(const char *n_) { return finish(attempt(c->first, n_, 3, 3)); }
    Call &put(const char *n_) { return finish(attempt(c->first, n_, 4, 4)); }
    Call &getstatic(const char *n_) { return finish(attempt(c->first, n_, 5, 5)); }
    Call &setstate() { return finish(attempt(c->first, "__setstate__", 6, 6)); }
    Call &function(const char *n_) { return finish(attempt(m.first, n_, 0, 0)); }
};

} // namespace pybind11

#define PYBIND11_MODULE(nm, var) extern "C" void hjv_py_init(::pybind11::module_ &var)
#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_NAMESPACE pybind11
