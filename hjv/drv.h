// driver for the replay of counterexamples on the real code (not part of the verified text)
#pragma once
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
// names of variables and modes: short, long, empty, differing in one character, in case, in a trailing blank or after a zero byte
static const std::vector<std::string> &hjv_names() {
    static const std::vector<std::string> n = {"x", "", "y", "x1", "X", std::string("x\0a", 3), std::string("x\0b", 3), "x ", " x", "a name longer than sixteen characters 0",
        "a name longer than sixteen characters 1", "ful", "fully", "Full", "FULL", "full ", " full", "zero", "zeross", "Zeros", "zeros ", "z", "f", "upper", "lower", "none",
        std::string("full\0", 5), std::string("zeros\0", 6), std::string("full\0x", 6), "fulk", "eros", "ull", "0"};
    return n;
}
static std::string hjv_name(long k) { auto &n = hjv_names(); return k >= 0 && k < (long)n.size() ? n[k] : "k" + std::to_string(k); }
static long hjv_id(const std::string &s) { auto &n = hjv_names(); for (size_t k = 0; k < n.size(); k++) if (n[k] == s) return k; return s.size() > 1 && s[0] == 'k' ? std::stol(s.substr(1)) : -99; }
struct Case {
    long size[3];          // number of variables (dense) or number of names (sparse)
    double *data[3];       // coefficients (dense) or value followed by the derivatives (sparse)
    long *keys[3];         // sparse: name ids
    long same[3];          // index of the object this argument is (aliasing)
    double s, t;
    long i, j;
    long vlen;
    double *vec;
    // results
    long status;           // 0 returned, 1 threw, 2 threw something else than std::exception
    char what[200];
    double rd;
    long ri;
    long rsize, rlen;      // result object
    double *rout;
    long *rkeys;
    long asize[3], alen[3];
    double *aout[3];
    long *akeys[3];
    long cap;
    long shared;           // result shares storage with an argument
};
static jmp_buf hjv_jb;
static volatile int hjv_armed = 0;
static void hjv_abrt(int) { if (hjv_armed) { hjv_armed = 0; siglongjmp(hjv_jb, 1); } }
template <typename T> struct Io;
template <hyperjet::index O, typename S, hyperjet::index N> struct Io<hyperjet::DDScalar<O, S, N>> {
    using T = hyperjet::DDScalar<O, S, N>;
    static T *make(Case *c, int k) {
        if constexpr (N == hyperjet::Dynamic) {
            long n = O == 1 ? 1 + c->size[k] : (c->size[k] + 1) * (c->size[k] + 2) / 2;
            return new T(typename T::Data(c->data[k], c->data[k] + n), c->size[k]);
        } else {
            typename T::Data d;
            for (size_t q = 0; q < d.size(); q++) d[q] = c->data[k][q];
            return new T(d);
        }
    }
    static void read(const T &x, long cap, long &size, long &len, double *out, long *) {
        size = x.size();
        len = (long)x.HJV_DATA.size();
        for (long q = 0; q < len && q < cap; q++) out[q] = x.HJV_DATA[q];
    }
    static const void *mem(const T &x) { return x.HJV_DATA.data(); }
};
template <typename S> struct Io<hyperjet::SScalar<S>> {
    using T = hyperjet::SScalar<S>;
    static T *make(Case *c, int k) {
        typename T::Data d;
        for (long q = 0; q < c->size[k]; q++) d[hjv_name(c->keys[k][q])] = c->data[k][1 + q];
        return new T(c->data[k][0], d);
    }
    static void read(const T &x, long cap, long &size, long &len, double *out, long *keys) {
        size = x.size();
        out[0] = x.f();
        len = 1;
        for (auto &e : x.HJV_D) {
            if (len < cap) { keys[len - 1] = hjv_id(e.first); out[len] = e.second; }
            len++;
        }
    }
    static const void *mem(const T &x) { return &x.HJV_D; }
};
template <typename T, typename R>
void go(R (*w)(T *, T *, T *, T *, double, double, hyperjet::index, hyperjet::index, const std::vector<double> *), Case *c, int jets, int kind) {
    T *a[3] = {nullptr, nullptr, nullptr};
    for (int k = 0; k < jets; k++) a[k] = c->same[k] == k ? Io<T>::make(c, k) : a[c->same[k]];
    alignas(T) static unsigned char raw[sizeof(T)];
    std::memset(raw, 0xA5, sizeof raw);
    T *r = reinterpret_cast<T *>(raw);
    static std::string skey; skey = hjv_name(c->i);
    if (!a[2]) a[2] = (T *)(void *)&skey;
    static std::vector<double> vec; vec.assign(c->vec, c->vec + c->vlen);
    c->status = 0; c->what[0] = 0; c->rsize = c->rlen = -1; c->shared = 0;
    bool built = false;
    signal(SIGABRT, hjv_abrt);
    hjv_armed = 1;
    if (sigsetjmp(hjv_jb, 1)) { c->status = 3; snprintf(c->what, sizeof c->what, "abort"); }
    else try {
        if constexpr (std::is_void_v<R>) { w(r, a[0], a[1], a[2], c->s, c->t, c->i, c->j, &vec); built = kind == 0; }
        else if constexpr (std::is_same_v<R, bool>) c->ri = w(r, a[0], a[1], a[2], c->s, c->t, c->i, c->j, &vec);
        else if constexpr (std::is_same_v<R, double>) c->rd = w(r, a[0], a[1], a[2], c->s, c->t, c->i, c->j, &vec);
        else if constexpr (std::is_pointer_v<R>) { const void *p = (const void *)w(r, a[0], a[1], a[2], c->s, c->t, c->i, c->j, &vec); c->ri = p == a[0]; }
        else c->ri = (long)w(r, a[0], a[1], a[2], c->s, c->t, c->i, c->j, &vec);
    } catch (const std::exception &e) { c->status = 1; snprintf(c->what, sizeof c->what, "%s", e.what()); }
    catch (...) { c->status = 2; }
    hjv_armed = 0;
    if (built) {
        Io<T>::read(*r, c->cap, c->rsize, c->rlen, c->rout, c->rkeys);
        for (int k = 0; k < jets; k++) if (Io<T>::mem(*r) == Io<T>::mem(*a[k]) && c->rlen > 0) c->shared = 1;
    }
    for (int k = 0; k < jets; k++) Io<T>::read(*a[k], c->cap, c->asize[k], c->alen[k], c->aout[k], c->akeys[k]);
    if (built) r->~T();
    for (int k = 0; k < jets; k++) if (c->same[k] == k) delete a[k];
}
