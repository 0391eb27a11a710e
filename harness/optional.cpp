#include "all_std.hpp"
#include <ptl/optional.hpp>
#include "elem.hpp"
#ifdef TRIVIAL      // a value without special members
using E = TRIVIAL;
using A0 = E;
#define ARGS x
#else
#ifndef ELEM
#define ELEM Opaque<0, 24>
#endif
using E = ELEM;
using A0 = int;
#define ARGS x, y
#endif
using O = ptl::optional<E>;
template class ptl::optional<E>;
extern "C" {
void o_ctor(void * p) { new(p) O; }
void o_ctor_null(void * p) { new(p) O(std::nullopt); }
void o_copy(void * p, const O & o) { new(p) O(o); }
void o_move(void * p, O & o) { new(p) O(std::move(o)); }
void o_ctor_c(void * p, const E & x) { new(p) O(x); }
void o_ctor_m(void * p, E & x) { new(p) O(std::move(x)); }
void o_ctor_args(void * p, A0 x, [[maybe_unused]] int y) { new(p) O(std::in_place, ARGS); }
void o_ctor_def(void * p) { new(p) O(std::in_place); }
void o_ctor_ipc(void * p, const E & x) { new(p) O(std::in_place, x); }
void o_ctor_ipm(void * p, E & x) { new(p) O(std::in_place, std::move(x)); }
O * o_assign_null(O & a) { return &(a = std::nullopt); }
O * o_assign_copy(O & a, const O & b) { return &(a = b); }
O * o_assign_move(O & a, O & b) { return &(a = std::move(b)); }
O * o_assign_c(O & a, const E & x) { return &(a = x); }
O * o_assign_m(O & a, E & x) { return &(a = std::move(x)); }
void o_dtor(O & a) { a.~O(); }
const E * o_arrow_c(const O & a) { return a.operator->(); }
E * o_arrow(O & a) { return a.operator->(); }
const E * o_deref_cl(const O & a) { return &*a; }
E * o_deref_l(O & a) { return &*a; }
const E * o_deref_cr(const O & a) { const E && r = *std::move(a); return &r; }
E * o_deref_r(O & a) { E && r = *std::move(a); return &r; }
bool o_bool(const O & a) { return static_cast<bool>(a); }
bool o_has(const O & a) { return a.has_value(); }
const E * o_value_cl(const O & a) { return &a.value(); }
E * o_value_l(O & a) { return &a.value(); }
const E * o_value_cr(const O & a) { const E && r = std::move(a).value(); return &r; }
E * o_value_r(O & a) { E && r = std::move(a).value(); return &r; }
void o_or_lc(void * p, const O & a, const E & d) { new(p) E(a.value_or(d)); }
void o_or_lm(void * p, const O & a, E & d) { new(p) E(a.value_or(std::move(d))); }
void o_or_rc(void * p, O & a, const E & d) { new(p) E(std::move(a).value_or(d)); }
void o_or_rm(void * p, O & a, E & d) { new(p) E(std::move(a).value_or(std::move(d))); }
void o_reset(O & a) { a.reset(); }
E * o_emplace(O & a, A0 x, [[maybe_unused]] int y) { return &a.emplace(ARGS); }
E * o_emplace_d(O & a) { return &a.emplace(); }
E * o_emplace_c(O & a, const E & x) { return &a.emplace(x); }
E * o_emplace_m(O & a, E & x) { return &a.emplace(std::move(x)); }
void o_swap(O & a, O & b) { a.swap(b); }
void o_swap_free(O & a, O & b) { swap(a, b); }
void o_std_swap(O & a, O & b) { using std::swap; swap(a, b); }
#define CMP(n, op) \
bool o_##n(const O & a, const O & b) { return a op b; } \
bool o_##n##_on(const O & a) { return a op std::nullopt; } \
bool o_##n##_no(const O & a) { return std::nullopt op a; } \
bool o_##n##_ov(const O & a, const E & x) { return a op x; } \
bool o_##n##_vo(const O & a, const E & x) { return x op a; }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(gt, >) CMP(le, <=) CMP(ge, >=)
}
