#include "all_std.hpp"
#include <ptl/array_ref.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
#include <ptl/string.hpp>
#include "elem.hpp"
#ifdef TRIVIAL      // elements without special members
using E = TRIVIAL;
#else
using E = Elem;
#endif
using Z = std::size_t;
using R = ptl::array_ref<E>;
using C = ptl::array_ref<const E>;
using S = ptl::string_ref;
using SV = std::string_view;
template class ptl::array_ref<E>;
template class ptl::array_ref<const E>;
extern "C" {
// ---- array_ref
void a_ctor(void * p) { new(p) R; }
void a_ctor_pp(void * p, E * f, E * l) { new(p) R(f, l); }
void a_ctor_pn(void * p, E * f, Z n) { new(p) R(f, n); }
void a_copy(void * p, const R & o) { new(p) R(o); }
void a_move(void * p, R & o) { new(p) R(std::move(o)); }
void a_conv(void * p, const R & o) { new(p) C(o); }
R * a_assign(R & a, const R & o) { return &(a = o); }
R * a_assign_m(R & a, R & o) { return &(a = std::move(o)); }
void a_dtor(R & a) { a.~R(); }
void a_from_arr(void * p, E (& a)[5]) { new(p) R(a); }
void a_from_arr_c(void * p, const E (& a)[5]) { new(p) C(a); }
void a_from_stdarr(void * p, std::array<E, 5> & a) { new(p) R(a); }
void a_from_ptlarr(void * p, ptl::array<E, 5> & a) { new(p) R(a); }
void a_from_ptlarr_c(void * p, const ptl::array<E, 5> & a) { new(p) C(a); }
void a_from_vec(void * p, ptl::vector<E> & v) { new(p) R(v); }
void a_from_vec_c(void * p, const ptl::vector<E> & v) { new(p) C(v); }
void a_from_il(void * p, std::initializer_list<E> & v) { new(p) C(v); }
E * a_data(const R & a) { return a.data(); }
Z a_size(const R & a) { return a.size(); }
bool a_empty(const R & a) { return a.empty(); }
E * a_front(const R & a) { return &a.front(); }
E * a_back(const R & a) { return &a.back(); }
E * a_index(const R & a, Z i) { return &a[i]; }
E * a_at(const R & a, Z i) { return &a.at(i); }
const E * a_at_c(const C & a, Z i) { return &a.at(i); }
void a_first(void * p, const R & a, Z n) { new(p) R(a.first(n)); }
void a_last(void * p, const R & a, Z n) { new(p) R(a.last(n)); }
void a_sub(void * p, const R & a, Z o) { new(p) R(a.subrange(o)); }
void a_sub2(void * p, const R & a, Z o, Z n) { new(p) R(a.subrange(o, n)); }
void a_begin(void * p, R & a) { new(p) R::iterator(a.begin()); }
void a_begin_c(void * p, const R & a) { new(p) R::const_iterator(a.begin()); }
void a_cbegin(void * p, R & a) { new(p) R::const_iterator(a.cbegin()); }
void a_end(void * p, R & a) { new(p) R::iterator(a.end()); }
void a_end_c(void * p, const R & a) { new(p) R::const_iterator(a.end()); }
void a_cend(void * p, R & a) { new(p) R::const_iterator(a.cend()); }
void a_rbegin(void * p, R & a) { new(p) R::reverse_iterator(a.rbegin()); }
void a_rbegin_c(void * p, const R & a) { new(p) R::const_reverse_iterator(a.rbegin()); }
void a_crbegin(void * p, R & a) { new(p) R::const_reverse_iterator(a.crbegin()); }
void a_rend(void * p, R & a) { new(p) R::reverse_iterator(a.rend()); }
void a_rend_c(void * p, const R & a) { new(p) R::const_reverse_iterator(a.rend()); }
void a_crend(void * p, R & a) { new(p) R::const_reverse_iterator(a.crend()); }
// ---- string_ref
void r_ctor(void * p) { new(p) S; }
void r_ctor_s(void * p, const char * s) { new(p) S(s); }
void r_ctor_sn(void * p, const char * s, Z n) { new(p) S(s, n); }
void r_ctor_sv(void * p, const SV & v) { new(p) S(v); }
void r_copy(void * p, const S & o) { new(p) S(o); }
void r_move(void * p, S & o) { new(p) S(std::move(o)); }
S * r_assign(S & a, const S & o) { return &(a = o); }
void r_dtor(S & a) { a.~S(); }
void r_lit(void * p, const char * s, Z n) { new(p) S(ptl::literals::operator""_sr(s, n)); }
void r_sv(void * p, const S & a) { new(p) SV(static_cast<SV>(a)); }
const char * r_data(const S & a) { return a.data(); }
Z r_size(const S & a) { return a.size(); }
Z r_max(const S & a) { return a.max_size(); }
bool r_empty(const S & a) { return a.empty(); }
const char * r_front(const S & a) { return &a.front(); }
const char * r_back(const S & a) { return &a.back(); }
const char * r_index(const S & a, Z i) { return &a[i]; }
const char * r_at(const S & a, Z i) { return &a.at(i); }
void r_prefix(S & a, Z n) { a.remove_prefix(n); }
void r_suffix(S & a, Z n) { a.remove_suffix(n); }
void r_sub(void * p, const S & a, Z o) { new(p) S(a.substr(o)); }
void r_sub2(void * p, const S & a, Z o, Z n) { new(p) S(a.substr(o, n)); }
void r_begin(void * p, const S & a) { new(p) S::iterator(a.begin()); }
void r_cbegin(void * p, const S & a) { new(p) S::const_iterator(a.cbegin()); }
void r_end(void * p, const S & a) { new(p) S::iterator(a.end()); }
void r_cend(void * p, const S & a) { new(p) S::const_iterator(a.cend()); }
void r_rbegin(void * p, const S & a) { new(p) S::reverse_iterator(a.rbegin()); }
void r_crbegin(void * p, const S & a) { new(p) S::const_reverse_iterator(a.crbegin()); }
void r_rend(void * p, const S & a) { new(p) S::reverse_iterator(a.rend()); }
void r_crend(void * p, const S & a) { new(p) S::const_reverse_iterator(a.crend()); }
#define CMP(n, op) \
bool r_##n(const S & a, const S & b) { return a op b; } \
bool r_##n##_rv(const S & a, const SV & b) { return a op S(b); } \
bool r_##n##_rs(const S & a, const ptl::string & b) { return a op S(b); }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(gt, >) CMP(le, <=) CMP(ge, >=)
bool r_hash(const S & a) { return std::hash<S>{}(a) == std::hash<SV>{}(SV(a.data(), a.size())); }
bool r_hash_same(const S & a, const S & b) { return std::hash<S>{}(a) == std::hash<S>{}(b); }
std::ostream * r_out(std::ostream & os, const S & a) { return &(os << a); }
}
