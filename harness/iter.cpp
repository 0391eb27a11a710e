#include "all_std.hpp"
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
#include "elem.hpp"
using E = Elem;
using D = std::ptrdiff_t;
using AI = ptl::array<E, 3>::iterator;
using AC = ptl::array<E, 3>::const_iterator;
using RI = ptl::array_ref<E>::iterator;
using RC = ptl::array_ref<E>::const_iterator;
using VI = ptl::vector<E>::iterator;
using VC = ptl::vector<E>::const_iterator;
using SI = ptl::string::iterator;
using SC = ptl::string::const_iterator;
using TC = ptl::string_ref::const_iterator;
#define CMP(n, op, A, B) bool n(const A & a, const B & b) { return a op b; }
#define CMPS(n, A, B) CMP(n##_eq, ==, A, B) CMP(n##_ne, !=, A, B) CMP(n##_lt, <, A, B) CMP(n##_gt, >, A, B) CMP(n##_le, <=, A, B) CMP(n##_ge, >=, A, B)
#define OPS(n, T) \
void n##_ctor(void * p) { new(p) T; } \
void n##_init(void * p) { new(p) T{}; } \
void n##_copy(void * p, const T & o) { new(p) T(o); } \
T * n##_assign(T & a, const T & o) { return &(a = o); } \
T * n##_inc(T & a) { return &++a; } \
T * n##_dec(T & a) { return &--a; } \
void n##_pinc(void * p, T & a) { new(p) T(a++); } \
void n##_pdec(void * p, T & a) { new(p) T(a--); } \
auto * n##_deref(const T & a) { return &*a; } \
auto * n##_arrow(const T & a) { return a.operator->(); } \
auto * n##_index(const T & a, D i) { return &a[i]; } \
T * n##_adda(T & a, D i) { return &(a += i); } \
T * n##_suba(T & a, D i) { return &(a -= i); } \
void n##_add(void * p, const T & a, D i) { new(p) T(a + i); } \
void n##_radd(void * p, const T & a, D i) { new(p) T(i + a); } \
void n##_sub(void * p, const T & a, D i) { new(p) T(a - i); } \
D n##_diff(const T & a, const T & b) { return a - b; } \
void n##_swap(T & a, T & b) { std::swap(a, b); } \
CMPS(n, T, T)
#define MIX(n, M, C) \
void n##_conv(void * p, const M & a) { new(p) C(a); } \
C * n##_assign(C & a, const M & o) { return &(a = o); } \
D n##_diff(const M & a, const C & b) { return a - b; } \
D n##r_diff(const C & a, const M & b) { return a - b; } \
CMPS(n, M, C) CMPS(n##r, C, M)
extern "C" {
OPS(ai, AI) OPS(ac, AC) MIX(ax, AI, AC)
OPS(ri, RI) OPS(rc, RC) MIX(rx, RI, RC)
OPS(vi, VI) OPS(vc, VC) MIX(vx, VI, VC)
OPS(si, SI) OPS(sc, SC) MIX(sx, SI, SC)
OPS(tc, TC)
}
