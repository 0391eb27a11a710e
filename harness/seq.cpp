#include "all_std.hpp"
#include <tuple>
#include <ptl/array.hpp>
#include <ptl/tuple.hpp>
#include "elem.hpp"
#ifdef TRIVIAL      // elements without special members
using E = int;
#else
using E = Elem;
#endif
using Z = std::size_t;
#ifndef ASIZE
#define ASIZE 3
#endif
using A = ptl::array<E, ASIZE>;
using U = ptl::array<E, 1>;
using N = ptl::array<E, 0>;
using I = ptl::array<int, 3>;
using std::get;
template<typename T, typename X> constexpr bool category{std::is_same_v<T, X>};
extern "C" {
// ---- array
void y_ctor(void * p) { new(p) A; }
void y_ctor_0(void * p) { new(p) A{}; }
void y_ctor_1(void * p, const E & x) { new(p) A(x); }
#if ASIZE == 3
void y_ctor_3(void * p, const E & x, E & y, const E & z) { new(p) A(x, std::move(y), z); }
void y_ctor_b(void * p, const E & x, const E & y, const E & z) { new(p) A{x, y, z}; }
#endif
void y_ctor_n(void * p) { new(p) N; }
void y_ctor_u(void * p, E & x) { new(p) U(std::move(x)); }
void y_ctor_i(void * p, int x, short y, unsigned char z) { new(p) I{x, y, z}; }
void y_ctor_i2(void * p, int x, const int & y) { new(p) I{x, y}; }
void y_copy(void * p, const A & o) { new(p) A(o); }
void y_copy_m(void * p, A & o) { new(p) A(o); }
void y_move(void * p, A & o) { new(p) A(std::move(o)); }
A * y_assign(A & a, const A & o) { return &(a = o); }
A * y_assign_m(A & a, A & o) { return &(a = std::move(o)); }
void y_dtor(A & a) { a.~A(); }
const E * y_data_c(const A & a) { return a.data(); }
E * y_data(A & a) { return a.data(); }
Z y_size(const A & a) { return a.size(); }
Z y_max(const A & a) { return a.max_size(); }
bool y_empty(const A & a) { return a.empty(); }
Z y_size_n(const N & a) { return a.size(); }
bool y_empty_n(const N & a) { return a.empty(); }
const E * y_front_c(const A & a) { return &a.front(); }
E * y_front(A & a) { return &a.front(); }
const E * y_back_c(const A & a) { return &a.back(); }
E * y_back(A & a) { return &a.back(); }
const E * y_index_c(const A & a, Z i) { return &a[i]; }
E * y_index(A & a, Z i) { return &a[i]; }
const E * y_at_c(const A & a, Z i) { return &a.at(i); }
E * y_at(A & a, Z i) { return &a.at(i); }
const E * y_at_n(const N & a, Z i) { return &a.at(i); }
#if ASIZE == 3
#define GET(i) \
const E * y_get_cl_##i(const A & a) { return &get<i>(a); } \
E * y_get_l_##i(A & a) { return &get<i>(a); } \
const E * y_get_cr_##i(const A & a) { auto && x{get<i>(std::move(a))}; static_assert(category<decltype(x), const E &&>); return &x; } \
E * y_get_r_##i(A & a) { auto && x{get<i>(std::move(a))}; static_assert(category<decltype(x), E &&>); return &x; }
GET(0) GET(1) GET(2)
const E * y_bind_0(const A & a) { auto & [x, y, z]{a}; return &x; }
const E * y_bind_1(const A & a) { auto & [x, y, z]{a}; return &y; }
E * y_bind_2(A & a) { auto & [x, y, z]{a}; return &z; }
#endif
void y_fill(A & a, const E & x) { a.fill(x); }
void y_fill_n(N & a, const E & x) { a.fill(x); }
void y_fill_i(I & a, int x) { a.fill(x); }
void y_begin(void * p, A & a) { new(p) A::iterator(a.begin()); }
void y_begin_c(void * p, const A & a) { new(p) A::const_iterator(a.begin()); }
void y_cbegin(void * p, A & a) { new(p) A::const_iterator(a.cbegin()); }
void y_end(void * p, A & a) { new(p) A::iterator(a.end()); }
void y_end_c(void * p, const A & a) { new(p) A::const_iterator(a.end()); }
void y_cend(void * p, A & a) { new(p) A::const_iterator(a.cend()); }
void y_rbegin(void * p, A & a) { new(p) A::reverse_iterator(a.rbegin()); }
void y_rbegin_c(void * p, const A & a) { new(p) A::const_reverse_iterator(a.rbegin()); }
void y_crbegin(void * p, A & a) { new(p) A::const_reverse_iterator(a.crbegin()); }
void y_rend(void * p, A & a) { new(p) A::reverse_iterator(a.rend()); }
void y_rend_c(void * p, const A & a) { new(p) A::const_reverse_iterator(a.rend()); }
void y_crend(void * p, A & a) { new(p) A::const_reverse_iterator(a.crend()); }
void y_begin_n(void * p, N & a) { new(p) N::iterator(a.begin()); }
void y_end_n(void * p, N & a) { new(p) N::iterator(a.end()); }
void y_swap(A & a, A & b) { a.swap(b); }
void y_swap_free(A & a, A & b) { swap(a, b); }
void y_swap_std(A & a, A & b) { std::swap(a, b); }
void y_swap_n(N & a, N & b) { a.swap(b); }
#define CMP(n, op) \
bool y_##n(const A & a, const A & b) { return a op b; } \
bool y_##n##_n(const N & a, const N & b) { return a op b; }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(gt, >) CMP(le, <=) CMP(ge, >=)
}
#if ASIZE == 3
// ---- tuple
using P = Opaque<1, 24>;
#ifdef TRIVIAL
using Q = int;
using S = char;
#else
using Q = Opaque<2, 8>;
using S = Opaque<1003, 16>;
#endif
using T = ptl::tuple<P, Q, S>;
using O = ptl::tuple<P>;
extern "C" {
void t_ctor(void * p, const P & x, const Q & y, const S & z) { new(p) T(x, y, z); }
void t_ctor_m(void * p, P & x, Q & y, S & z) { new(p) T(std::move(x), std::move(y), std::move(z)); }
void t_ctor_x(void * p, const P & x, Q & y, const S & z) { new(p) T{x, std::move(y), z}; }
void t_ctor_1(void * p, const P & x) { new(p) O(x); }
void t_copy(void * p, const T & o) { new(p) T(o); }
void t_copy_m(void * p, T & o) { new(p) T(o); }
void t_copy_1(void * p, O & o) { new(p) O(o); }
void t_move(void * p, T & o) { new(p) T(std::move(o)); }
T * t_assign(T & a, const T & o) { return &(a = o); }
T * t_assign_m(T & a, T & o) { return &(a = std::move(o)); }
void t_dtor(T & a) { a.~T(); }
#define TGET(i, X) \
const X * t_get_cl_##i(const T & a) { return &a.get<i>(); } \
X * t_get_l_##i(T & a) { return &a.get<i>(); } \
const X * t_get_cr_##i(const T & a) { auto && x{std::move(a).get<i>()}; static_assert(category<decltype(x), const X &&>); return &x; } \
X * t_get_r_##i(T & a) { auto && x{std::move(a).get<i>()}; static_assert(category<decltype(x), X &&>); return &x; }
TGET(0, P) TGET(1, Q) TGET(2, S)
const P * t_bind_0(const T & a) { auto & [x, y, z]{a}; return &x; }
const Q * t_bind_1(const T & a) { auto & [x, y, z]{a}; return &y; }
S * t_bind_2(T & a) { auto & [x, y, z]{a}; return &z; }
void t_swap(T & a, T & b) { a.swap(b); }
void t_swap_free(T & a, T & b) { swap(a, b); }
void t_swap_std(T & a, T & b) { std::swap(a, b); }
#define TCMP(n, op) bool t_##n(const T & a, const T & b) { return a op b; }
TCMP(eq, ==) TCMP(ne, !=) TCMP(lt, <) TCMP(gt, >) TCMP(le, <=) TCMP(ge, >=)
}
#endif
