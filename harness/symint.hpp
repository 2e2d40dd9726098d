// Integers of the code under test as solver variables.
// A translation unit of the code is included with "int" standing for SInt, a
// wrapper of a double that carries an integer-valued term.  Wherever the code
// needs an actual machine integer (a size, an index, a loop bound in a library
// call) the value is made concrete by forking over all feasible values.
#ifndef VERIF_SYMINT_HPP
#define VERIF_SYMINT_HPP
#include <math.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <algorithm>
#include <iostream>
#include <string>
#include <stdexcept>
#include <type_traits>
#include <valarray>
#include <vector>
#include "../engine/sym.h"

struct SInt {
    double v;
    SInt() = default;
    template <class T, class = typename std::enable_if<std::is_integral<T>::value>::type> SInt(T x) : v((double)x) {}
    SInt(double x) : v(trunc(x)) {}
    static SInt raw(double x) { SInt s; s.v = x; return s; }
    operator double() const { return v; }
    operator bool() const { return v != 0.0; }
    template <class T, class = typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
    operator T() const { return (T)c(); }      // concretises
    long c() const { return sym_concrete(v); }
    SInt& operator+=(SInt o) { v = v + o.v; return *this; }
    SInt& operator-=(SInt o) { v = v - o.v; return *this; }
    SInt& operator*=(SInt o) { v = v * o.v; return *this; }
    SInt& operator/=(SInt o) { v = (double)(c() / o.c()); return *this; }
    SInt& operator%=(SInt o) { v = (double)(c() % o.c()); return *this; }
    SInt& operator++() { v = v + 1.0; return *this; }
    SInt& operator--() { v = v - 1.0; return *this; }
    SInt operator++(int) { SInt o = *this; v = v + 1.0; return o; }
    SInt operator--(int) { SInt o = *this; v = v - 1.0; return o; }
    SInt operator-() const { return raw(-v); }
    SInt operator+() const { return *this; }
    bool operator!() const { return v == 0.0; }
};
template <class T> struct is_sint_arg : std::integral_constant<bool, std::is_integral<T>::value> {};
#define SI_ARITH(op, body)                                                                                              \
    inline SInt operator op(SInt a, SInt b) { body }                                                                    \
    template <class T, class = typename std::enable_if<is_sint_arg<T>::value>::type> inline SInt operator op(SInt a, T t) { SInt b(t); body } \
    template <class T, class = typename std::enable_if<is_sint_arg<T>::value>::type> inline SInt operator op(T t, SInt b) { SInt a(t); body }
SI_ARITH(+, return SInt::raw(a.v + b.v);)
SI_ARITH(-, return SInt::raw(a.v - b.v);)
SI_ARITH(*, return SInt::raw(a.v * b.v);)
SI_ARITH(/, return SInt::raw((double)(a.c() / b.c()));)
SI_ARITH(%, return SInt::raw((double)(a.c() % b.c()));)
#define SI_FARITH(op)                                                     \
    inline double operator op(SInt a, double b) { return a.v op b; }      \
    inline double operator op(double a, SInt b) { return a op b.v; }
SI_FARITH(+) SI_FARITH(-) SI_FARITH(*) SI_FARITH(/)
#define SI_CMP(op)                                                                                                      \
    inline bool operator op(SInt a, SInt b) { return a.v op b.v; }                                                      \
    inline bool operator op(SInt a, double b) { return a.v op b; }                                                      \
    inline bool operator op(double a, SInt b) { return a op b.v; }                                                      \
    template <class T, class = typename std::enable_if<is_sint_arg<T>::value>::type> inline bool operator op(SInt a, T t) { return a.v op (double)t; } \
    template <class T, class = typename std::enable_if<is_sint_arg<T>::value>::type> inline bool operator op(T t, SInt b) { return (double)t op b.v; }
SI_CMP(<) SI_CMP(<=) SI_CMP(>) SI_CMP(>=) SI_CMP(==) SI_CMP(!=)
inline SInt abs(SInt a) { return a < 0 ? -a : a; }
namespace std {
using ::abs;
inline SInt max(const SInt& a, int b) { return a < b ? SInt(b) : a; }
inline SInt max(int a, const SInt& b) { return b > a ? b : SInt(a); }
inline SInt min(const SInt& a, int b) { return b < a ? SInt(b) : a; }
inline SInt min(int a, const SInt& b) { return b < a ? b : SInt(a); }
}
#endif
