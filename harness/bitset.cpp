#include "all_std.hpp"
#include <ptl/bitset.hpp>
#include "elem.hpp"
#ifndef N
#define N 17
#endif
using Z = std::size_t;
struct tag {};
template<> inline constexpr bool ptl::enable_bitset_operator_bool<tag>{true};
using B = ptl::bitset<N>;
using T = ptl::bitset<N, tag>;
using std::get;
#if N > 0
template class ptl::bitset<N>;
#endif
extern "C" {
void b_ctor(void * p) { new(p) B; }
void b_ctor_v(void * p, Z v) { new(p) B(v); }
void b_copy(void * p, const B & b) { new(p) B(b); }
B * b_assign(B & a, const B & b) { return &(a = b); }
bool b_index_c(const B & a, Z i) { return a[i]; }
bool b_index(B & a, Z i) { return a[i]; }
bool b_index_cat(const B & a, Z i) { return a.at(i); }
bool b_index_at(B & a, Z i) { return a.at(i); }
bool b_test(const B & a, Z i) { return a.test(i); }
bool b_ref_not(B & a, Z i) { return ~a[i]; }
bool b_ref_read_c(B & a, Z i) { const auto r{a[i]}; return r; }
bool b_ref_not_c(B & a, Z i) { const auto r{a[i]}; return ~r; }
void b_ref_set(B & a, Z i, bool v) { a[i] = v; }
void b_ref_copy(B & a, Z i, B & b, Z j) { a[i] = b[j]; }
void b_ref_flip(B & a, Z i) { a[i].flip(); }
void b_ref_swap(B & a, Z i, B & b, Z j) { auto x{a[i]}, y{b[j]}; x.swap(y); }
void b_ref_swapf(B & a, Z i, B & b, Z j) { swap(a[i], b[j]); }
bool b_all(const B & a) { return a.all(); }
bool b_any(const B & a) { return a.any(); }
bool b_none(const B & a) { return a.none(); }
Z b_count(const B & a) { return a.count(); }
Z b_size() { return B::size(); }
bool b_empty() { return B::empty(); }
Z b_max_size() { return B::max_size(); }
B * b_and(B & a, const B & b) { return &(a &= b); }
B * b_or(B & a, const B & b) { return &(a |= b); }
B * b_xor(B & a, const B & b) { return &(a ^= b); }
void b_vand(void * p, const B & a, const B & b) { new(p) B(a & b); }
void b_vor(void * p, const B & a, const B & b) { new(p) B(a | b); }
void b_vxor(void * p, const B & a, const B & b) { new(p) B(a ^ b); }
void b_not(void * p, const B & a) { new(p) B(~a); }
B * b_shl(B & a, Z n) { return &(a <<= n); }
B * b_shr(B & a, Z n) { return &(a >>= n); }
void b_vshl(void * p, const B & a, Z n) { new(p) B(a << n); }
void b_vshr(void * p, const B & a, Z n) { new(p) B(a >> n); }
B * b_set(B & a) { return &a.set(); }
B * b_set_i(B & a, Z i) { return &a.set(i); }
B * b_set_iv(B & a, Z i, bool v) { return &a.set(i, v); }
B * b_reset(B & a) { return &a.reset(); }
B * b_reset_i(B & a, Z i) { return &a.reset(i); }
B * b_flip(B & a) { return &a.flip(); }
B * b_flip_i(B & a, Z i) { return &a.flip(i); }
bool b_bool(const T & a) { return static_cast<bool>(a); }
void * b_out(std::ostream & os, const B & a) { return &(os << a); }
void * b_in(std::istream & is, B & a) { return &(is >> a); }
void b_swap(B & a, B & b) { a.swap(b); }
void b_swap_free(B & a, B & b) { swap(a, b); }
void b_std_swap(B & a, B & b) { using std::swap; swap(a, b); }
bool b_eq(const B & a, const B & b) { return a == b; }
bool b_ne(const B & a, const B & b) { return a != b; }
Z b_hash(const B & a) { return std::hash<B>{}(a); }
#if N > 0
bool b_get_0(const B & a) { return get<0>(a); }
bool b_get_l(const B & a) { return get<N - 1>(a); }
bool b_get_m(const B & a) { return get<N / 2>(a); }
#endif
}
