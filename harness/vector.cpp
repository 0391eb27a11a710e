#include "all_std.hpp"
#include <ptl/vector.hpp>
#include "elem.hpp"
#ifdef TRIVIAL      // elements without special members
using E = TRIVIAL;
using A0 = E;
#define ARGS x
#else
#ifndef ELEM
#define ELEM Opaque<0, 24>
#endif
using E = ELEM;
using A0 = int;
#define ARGS x, y
#endif
using V = ptl::vector<E>;
using It = V::iterator;
using CIt = V::const_iterator;
using Z = std::size_t;
template class ptl::vector<E>;
extern "C" {
void v_ctor(void * p) { new(p) V; }
void v_copy(void * p, const V & o) { new(p) V(o); }
void v_move(void * p, V & o) { new(p) V(std::move(o)); }
void v_ctor_range(void * p, const E * f, const E * l) { new(p) V(f, l); }
void v_ctor_throwit(void * p, ThrowIt<E> f, ThrowIt<E> l) { new(p) V(f, l); }
void v_ctor_init(void * p, InIt<E> f, InIt<E> l) { new(p) V(f, l); }
void v_ctor_n(void * p, Z n) { new(p) V(n); }
void v_ctor_nx(void * p, Z n, const E & x) { new(p) V(n, x); }
void v_ctor_il(void * p, std::initializer_list<E> il) { new(p) V(il); }
V * v_assign_copy(V & a, const V & b) { return &(a = b); }
V * v_assign_move(V & a, V & b) { return &(a = std::move(b)); }
V * v_assign_il(V & a, std::initializer_list<E> il) { return &(a = il); }
void v_dtor(V & a) { a.~V(); }
const E * v_index_c(const V & a, Z i) { return &a[i]; }
E * v_index(V & a, Z i) { return &a[i]; }
const E * v_at_c(const V & a, Z i) { return &a.at(i); }
E * v_at(V & a, Z i) { return &a.at(i); }
const E * v_front_c(const V & a) { return &a.front(); }
E * v_front(V & a) { return &a.front(); }
const E * v_back_c(const V & a) { return &a.back(); }
E * v_back(V & a) { return &a.back(); }
const E * v_data_c(const V & a) { return a.data(); }
E * v_data(V & a) { return a.data(); }
bool v_empty(const V & a) { return a.empty(); }
Z v_size(const V & a) { return a.size(); }
Z v_capacity(const V & a) { return a.capacity(); }
Z v_max_size() { return V::max_size(); }
E * v_push_back_c(V & a, const E & x) { return &a.push_back(x); }
E * v_push_back_m(V & a, E & x) { return &a.push_back(std::move(x)); }
E * v_emplace_back(V & a, A0 x, [[maybe_unused]] int y) { return &a.emplace_back(ARGS); }
void v_pop_back(V & a) { a.pop_back(); }
void v_reserve(V & a, Z n) { a.reserve(n); }
void v_resize(V & a, Z n) { a.resize(n); }
void v_resize_x(V & a, Z n, const E & x) { a.resize(n, x); }
void v_shrink(V & a) { a.shrink_to_fit(); }
void v_clear(V & a) { a.clear(); }
void v_assign_range(V & a, const E * f, const E * l) { a.assign(f, l); }
void v_assign_throwit(V & a, ThrowIt<E> f, ThrowIt<E> l) { a.assign(f, l); }
void v_assign_init(V & a, InIt<E> f, InIt<E> l) { a.assign(f, l); }
void v_assign_ilist(V & a, std::initializer_list<E> il) { a.assign(il); }
void v_assign_n(V & a, Z n, const E & x) { a.assign(n, x); }
E * v_erase1(V & a, Z i) { return &*a.erase(a.cbegin() + i); }
E * v_erase(V & a, Z i, Z j) { return &*a.erase(a.cbegin() + i, a.cbegin() + j); }
E * v_insert_range(V & a, Z i, const E * f, const E * l) { return &*a.insert(a.cbegin() + i, f, l); }
E * v_insert_throwit(V & a, Z i, ThrowIt<E> f, ThrowIt<E> l) { return &*a.insert(a.cbegin() + i, f, l); }
E * v_insert_init(V & a, Z i, InIt<E> f, InIt<E> l) { return &*a.insert(a.cbegin() + i, f, l); }
E * v_insert_il(V & a, Z i, std::initializer_list<E> il) { return &*a.insert(a.cbegin() + i, il); }
E * v_insert_c(V & a, Z i, const E & x) { return &*a.insert(a.cbegin() + i, x); }
E * v_insert_m(V & a, Z i, E & x) { return &*a.insert(a.cbegin() + i, std::move(x)); }
E * v_insert_n(V & a, Z i, Z n, const E & x) { return &*a.insert(a.cbegin() + i, n, x); }
E * v_emplace(V & a, Z i, A0 x, [[maybe_unused]] int y) { return &*a.emplace(a.cbegin() + i, ARGS); }
E * v_begin(V & a) { return &*a.begin(); }
const E * v_begin_c(const V & a) { return &*a.begin(); }
const E * v_cbegin(const V & a) { return &*a.cbegin(); }
E * v_end(V & a) { return &*a.end(); }
const E * v_end_c(const V & a) { return &*a.end(); }
const E * v_cend(const V & a) { return &*a.cend(); }
E * v_rbegin(V & a) { return &*a.rbegin().base(); }
const E * v_rbegin_c(const V & a) { return &*a.rbegin().base(); }
const E * v_crbegin(const V & a) { return &*a.crbegin().base(); }
E * v_rend(V & a) { return &*a.rend().base(); }
const E * v_rend_c(const V & a) { return &*a.rend().base(); }
const E * v_crend(const V & a) { return &*a.crend().base(); }
void v_swap(V & a, V & b) { a.swap(b); }
void v_swap_free(V & a, V & b) { swap(a, b); }
void v_std_swap(V & a, V & b) { using std::swap; swap(a, b); }
bool v_eq(const V & a, const V & b) { return a == b; }
bool v_ne(const V & a, const V & b) { return a != b; }
bool v_lt(const V & a, const V & b) { return a < b; }
bool v_gt(const V & a, const V & b) { return a > b; }
bool v_le(const V & a, const V & b) { return a <= b; }
bool v_ge(const V & a, const V & b) { return a >= b; }
}
