// Symbolic replacement of `double`: a concrete double, or a handle to a Python object (a symx.core.S)
// whose arithmetic and comparisons are performed by the Python engine (comparisons fork the execution).
#pragma once
#ifdef SYMXOMP
#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)
#include <Python.h>
// out of line: the reference counts are not part of the engine
inline __attribute__((noinline)) void symx_incref(PyObject *o) { Py_INCREF(o); }
inline __attribute__((noinline)) void symx_decref(PyObject *o) { Py_DECREF(o); }
#pragma clang attribute pop
#undef Py_INCREF
#undef Py_DECREF
#define Py_INCREF(o) symx_incref((PyObject *)(o))
#define Py_DECREF(o) symx_decref((PyObject *)(o))
extern "C" { bool symx_rt_in_fiber(); [[noreturn]] void symx_rt_abort_fiber(); }
#define SYMX_UNWIND() do { if (symx_rt_in_fiber()) symx_rt_abort_fiber(); throw symx::Abort{}; } while (0)
#else
#include <Python.h>
#define SYMX_UNWIND() throw symx::Abort{}
#endif
#include <bits/stdc++.h>

namespace symx {
extern PyObject *arena;        // keeps the symbolic values of the current path alive
extern PyObject *env;          // Python object with .real(lo, hi) and .pick(n): the random environment
extern PyTypeObject *S_type, *SB_type;
extern bool dead;              // an exception (path cut, time limit...) is pending: unwind
extern unsigned long nops;
struct Abort {};               // translated back into the pending Python exception
extern PyObject *ptype, *pval, *ptb;

[[noreturn]] inline void fail() {
    if (!dead) {
        dead = true;
        Py_XDECREF(ptype); Py_XDECREF(pval); Py_XDECREF(ptb);
        PyErr_Fetch(&ptype, &pval, &ptb);
    } else {
        PyErr_Clear();
    }
    SYMX_UNWIND();
}
inline void tick() {
    if (dead) SYMX_UNWIND();
    if ((++nops & 0xfff) == 0 && PyErr_CheckSignals() != 0) fail();
}
}

struct SymD {
    double c;
    PyObject *o;                // borrowed from the arena; nullptr = concrete
    SymD() = default;
    SymD(const SymD &) = default;
    SymD &operator=(const SymD &) = default;
    template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value || std::is_enum<T>::value>>
    constexpr SymD(T x) : c((double)x), o(nullptr) {}
    // takes a new reference
    static SymD take(PyObject *r) {
        if (!r) symx::fail();
        SymD d(0.0);
        if (PyFloat_CheckExact(r)) { d.c = PyFloat_AS_DOUBLE(r); Py_DECREF(r); return d; }
        PyTypeObject *t = Py_TYPE(r);
        if (t == symx::S_type || t == symx::SB_type) {
            PyList_Append(symx::arena, r);
            Py_DECREF(r);
            d.o = r;
            return d;
        }
        double v = PyFloat_AsDouble(r);
        Py_DECREF(r);
        if (v == -1.0 && PyErr_Occurred()) symx::fail();
        d.c = v;
        return d;
    }
    PyObject *py() const {      // new reference
        if (o) { Py_INCREF(o); return o; }
        return PyFloat_FromDouble(c);
    }
    template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value || std::is_enum<T>::value>>
    explicit operator T() const {
        symx::tick();
        if constexpr (std::is_same<T, bool>::value) {
            if (!o) return c != 0.0;
            int r = PyObject_IsTrue(o);
            if (r < 0) symx::fail();
            return r != 0;
        } else {
            if (!o) return (T)c;
            if constexpr (std::is_floating_point<T>::value) {
                PyObject *f = PyNumber_Float(o);
                if (!f) symx::fail();
                double v = PyFloat_AsDouble(f);
                Py_DECREF(f);
                return (T)v;
            } else {
                PyObject *t = PyNumber_Long(o);     // truncation: forks over the feasible values
                if (!t) symx::fail();
                long long v = PyLong_AsLongLong(t);
                Py_DECREF(t);
                if (v == -1 && PyErr_Occurred()) symx::fail();
                return (T)v;
            }
        }
    }
    SymD operator-() const {
        symx::tick();
        if (!o) return SymD(-c);
        return take(PyNumber_Negative(o));
    }
    SymD operator+() const { return *this; }
    SymD &operator+=(SymD b);
    SymD &operator-=(SymD b);
    SymD &operator*=(SymD b);
    SymD &operator/=(SymD b);
    SymD &operator++();
    SymD operator++(int);
    SymD &operator--();
    SymD operator--(int);
};

namespace symx {
inline SymD bin(SymD a, SymD b, PyObject *(*f)(PyObject *, PyObject *)) {
    tick();
    PyObject *x = a.py(), *y = b.py();
    PyObject *r = f(x, y);
    Py_DECREF(x); Py_DECREF(y);
    return SymD::take(r);
}
inline bool cmp(SymD a, SymD b, int op) {
    tick();
    PyObject *x = a.py(), *y = b.py();
    PyObject *r = PyObject_RichCompare(x, y, op);
    Py_DECREF(x); Py_DECREF(y);
    if (!r) fail();
    int t = PyObject_IsTrue(r);
    Py_DECREF(r);
    if (t < 0) fail();
    return t != 0;
}
}
#define SYMX_OP(OP, FN) \
    inline SymD operator OP(SymD a, SymD b) { if (!a.o && !b.o) { symx::tick(); return SymD(a.c OP b.c); } return symx::bin(a, b, FN); } \
    template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> inline SymD operator OP(SymD a, T b) { return a OP SymD(b); } \
    template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> inline SymD operator OP(T a, SymD b) { return SymD(a) OP b; } \
    inline SymD &SymD::operator OP##=(SymD b) { *this = *this OP b; return *this; }
SYMX_OP(+, PyNumber_Add)
SYMX_OP(-, PyNumber_Subtract)
SYMX_OP(*, PyNumber_Multiply)
#undef SYMX_OP
#define SYMX_CMP(OP, K) \
    inline bool operator OP(SymD a, SymD b) { if (!a.o && !b.o) { symx::tick(); return a.c OP b.c; } return symx::cmp(a, b, K); } \
    template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> inline bool operator OP(SymD a, T b) { return a OP SymD(b); } \
    template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> inline bool operator OP(T a, SymD b) { return SymD(a) OP b; }
SYMX_CMP(<, Py_LT)
SYMX_CMP(<=, Py_LE)
SYMX_CMP(>, Py_GT)
SYMX_CMP(>=, Py_GE)
SYMX_CMP(==, Py_EQ)
SYMX_CMP(!=, Py_NE)
#undef SYMX_CMP
inline SymD operator/(SymD a, SymD b) {
    if (!a.o && !b.o) { symx::tick(); return SymD(a.c / b.c); }
    if (b == SymD(0.0)) {                        // IEEE: x/0 is an infinity or nan
        if (a > SymD(0.0)) return SymD(std::numeric_limits<double>::infinity());
        if (a < SymD(0.0)) return SymD(-std::numeric_limits<double>::infinity());
        return SymD(std::numeric_limits<double>::quiet_NaN());
    }
    return symx::bin(a, b, PyNumber_TrueDivide);
}
template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> inline SymD operator/(SymD a, T b) { return a / SymD(b); }
template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> inline SymD operator/(T a, SymD b) { return SymD(a) / b; }
inline SymD &SymD::operator/=(SymD b) { *this = *this / b; return *this; }
inline SymD &SymD::operator++() { *this = *this + SymD(1); return *this; }
inline SymD SymD::operator++(int) { SymD r = *this; ++*this; return r; }
inline SymD &SymD::operator--() { *this = *this - SymD(1); return *this; }
inline SymD SymD::operator--(int) { SymD r = *this; --*this; return r; }
inline bool operator!(SymD a) { return !(bool)a; }
inline std::ostream &operator<<(std::ostream &os, SymD a) { if (a.o) return os << "<symbolic>"; return os << a.c; }

namespace symx {
inline SymD fl(SymD a, const char *m, double (*f)(double)) {
    if (!a.o) { tick(); return SymD(f(a.c)); }
    tick();
    return SymD::take(PyObject_CallMethod(a.o, m, nullptr));
}
}
namespace std {
inline SymD fabs(SymD a) { if (!a.o) return SymD(::fabs(a.c)); symx::tick(); return SymD::take(PyObject_CallMethod(symx::env, "fabs", "O", a.o)); }
inline SymD abs(SymD a) { return fabs(a); }
inline SymD floor(SymD a) { return symx::fl(a, "floor", ::floor); }
inline SymD ceil(SymD a) { return symx::fl(a, "ceil", ::ceil); }
inline SymD round(SymD a) { if (!a.o) return SymD(::round(a.c)); return a >= SymD(0.0) ? floor(a + SymD(0.5)) : -floor(-a + SymD(0.5)); }
inline SymD trunc(SymD a) { return a >= SymD(0.0) ? floor(a) : -floor(-a); }
inline SymD sqrt(SymD a) { return symx::fl(a, "sqrt", ::sqrt); }
inline SymD fmax(SymD a, SymD b) { return a < b ? b : a; }
inline SymD fmin(SymD a, SymD b) { return b < a ? b : a; }
inline SymD fmod(SymD a, SymD b) { return a - b * trunc(a / b); }
inline bool isinf(SymD a) { return !a.o && __builtin_isinf(a.c); }
inline bool isnan(SymD a) { return !a.o && __builtin_isnan(a.c); }
inline bool isfinite(SymD a) { return a.o || __builtin_isfinite(a.c); }
template <class T, class = enable_if_t<is_arithmetic<T>::value>> inline SymD max(SymD a, T b) { return a < SymD(b) ? SymD(b) : a; }
template <class T, class = enable_if_t<is_arithmetic<T>::value>> inline SymD max(T a, SymD b) { return SymD(a) < b ? b : SymD(a); }
template <class T, class = enable_if_t<is_arithmetic<T>::value>> inline SymD min(SymD a, T b) { return SymD(b) < a ? SymD(b) : a; }
template <class T, class = enable_if_t<is_arithmetic<T>::value>> inline SymD min(T a, SymD b) { return b < SymD(a) ? b : SymD(a); }
inline string to_string(SymD a) { return a.o ? string("<symbolic>") : to_string(a.c); }
inline SymD clamp(SymD x, SymD a, SymD b) { return x < a ? a : b < x ? b : x; }
inline SymD pow(SymD a, int n) { SymD r(1.0); for (int i = 0; i < (n < 0 ? -n : n); i++) r = r * a; return n < 0 ? SymD(1.0) / r : r; }
inline SymD pow(SymD a, SymD b) { return !b.o && b.c == (double)(int)b.c && ::fabs(b.c) < 20 ? pow(a, (int)b.c) : SymD(::pow((double)a, (double)b)); }
inline SymD exp(SymD a) { return SymD(::exp((double)a)); }
inline SymD log(SymD a) { return SymD(::log((double)a)); }
inline SymD hypot(SymD a, SymD b) { return sqrt(a * a + b * b); }
inline long lround(SymD a) { return (long)round(a); }
inline long long llround(SymD a) { return (long long)round(a); }
inline bool signbit(SymD a) { return a < SymD(0.0); }
template <class It> inline auto accumulate(It a, It b, double z) -> enable_if_t<is_same<typename iterator_traits<It>::value_type, SymD>::value, SymD> {
    SymD s(z); for (; a != b; ++a) s = s + *a; return s; }
template <> struct numeric_limits<SymD> {
    static constexpr bool is_specialized = true, is_signed = true, is_integer = false, has_infinity = true, has_quiet_NaN = true;
    static SymD infinity() { return SymD(numeric_limits<double>::infinity()); }
    static SymD quiet_NaN() { return SymD(numeric_limits<double>::quiet_NaN()); }
    static SymD max() { return SymD(numeric_limits<double>::max()); }
    static SymD min() { return SymD(numeric_limits<double>::min()); }
    static SymD lowest() { return SymD(numeric_limits<double>::lowest()); }
    static SymD epsilon() { return SymD(numeric_limits<double>::epsilon()); }
};
template <> struct common_type<SymD, SymD> { using type = SymD; };
template <class T> struct common_type<SymD, T> { using type = SymD; };
template <class T> struct common_type<T, SymD> { using type = SymD; };
namespace chrono { template <> struct treat_as_floating_point<SymD> : true_type {}; }
template <> struct hash<SymD> { size_t operator()(SymD a) const { return hash<double>()((double)a); } };
}
using std::fabs; using std::abs; using std::floor; using std::ceil; using std::round; using std::trunc; using std::sqrt; using std::fmax; using std::fmin; using std::fmod;
using std::pow; using std::exp; using std::log; using std::hypot; using std::lround; using std::llround; using std::isinf; using std::isnan; using std::isfinite;
