#include "all_std.hpp"
#include <ptl/variant.hpp>
#include "elem.hpp"
#ifdef TRIVIAL      // some alternatives have no special members
using A = int;
using B = Opaque<2, 8>;
using C = char;
#else
using A = Opaque<1, 24>;
using B = Opaque<2, 8>;
using C = Opaque<1003, 40>;
#endif
using D = Opaque<7777, 16>;
// f(arguments an alternative is constructed from)
template<typename T, typename F>
auto args(F f, int x, [[maybe_unused]] int y) { if constexpr(std::is_constructible_v<T, int, int>) return f(x, y); else return f(static_cast<T>(x)); }
#ifdef PADS         // that many other alternatives in front of D: positions that no longer fit into a signed byte
template<int I> struct Pad {
	char c;
	friend auto operator==(Pad, Pad) noexcept -> bool;
	friend auto operator!=(Pad, Pad) noexcept -> bool;
};
template<int... I> auto pads(std::integer_sequence<int, I...>) -> ptl::variant<A, B, C, Pad<I>..., D>;
using V = decltype(pads(std::make_integer_sequence<int, PADS>{}));
extern "C" {
void x_ctor_c_A(void * p, const A & x) { new(p) V(x); }
void x_ctor_c_D(void * p, const D & x) { new(p) V(x); }
void x_dtor(V & a) { a.~V(); }
bool x_holds_A(const V & a) { return a.holds<A>(); }
bool x_holds_D(const V & a) { return a.holds<D>(); }
D * x_getif_D(V & a) { return a.get_if<D>(); }
}
#else
using V = ptl::variant<A, B, C, D>;
template class ptl::variant<A, B, C, D>;
struct Seen { const void * ptr; int calls; };
// one overload per alternative and value category
struct Vis {
	Seen * s;
	auto see(const void * p, int code) const -> int { s->ptr = p; ++s->calls; may_throw(p); return code; }
	auto operator()(const A & x) -> int { return see(&x, 10); }
	auto operator()(A & x) -> int { return see(&x, 11); }
	auto operator()(const A && x) -> int { return see(&x, 12); }
	auto operator()(A && x) -> int { return see(&x, 13); }
	auto operator()(const B & x) -> int { return see(&x, 20); }
	auto operator()(B & x) -> int { return see(&x, 21); }
	auto operator()(const B && x) -> int { return see(&x, 22); }
	auto operator()(B && x) -> int { return see(&x, 23); }
	auto operator()(const C & x) -> int { return see(&x, 30); }
	auto operator()(C & x) -> int { return see(&x, 31); }
	auto operator()(const C && x) -> int { return see(&x, 32); }
	auto operator()(C && x) -> int { return see(&x, 33); }
	auto operator()(const D & x) -> int { return see(&x, 40); }
	auto operator()(D & x) -> int { return see(&x, 41); }
	auto operator()(const D && x) -> int { return see(&x, 42); }
	auto operator()(D && x) -> int { return see(&x, 43); }
};
struct Ref { // result is a reference
	auto operator()(const A & x) const -> const void *const & { return p; }
	auto operator()(const B & x) const -> const void *const & { return p; }
	auto operator()(const C & x) const -> const void *const & { return p; }
	auto operator()(const D & x) const -> const void *const & { return p; }
	const void * const & p;
};
extern "C" {
void x_ctor(void * p) { new(p) V; }
void x_copy(void * p, const V & o) { new(p) V(o); }
void x_move(void * p, V & o) { new(p) V(std::move(o)); }
#define ALT(T, I) \
void x_ctor_c_##T(void * p, const T & x) { new(p) V(x); } \
void x_ctor_m_##T(void * p, T & x) { new(p) V(std::move(x)); } \
void x_ctor_l_##T(void * p, T & x) { new(p) V(x); } \
void x_ipi_c_##T(void * p, const T & x) { new(p) V(std::in_place_index<I>, x); } \
void x_ipi_a_##T(void * p, int x, int y) { args<T>([p](auto... a) { new(p) V(std::in_place_index<I>, a...); }, x, y); } \
void x_ipi_d_##T(void * p) { new(p) V(std::in_place_index<I>); } \
void x_ipt_c_##T(void * p, const T & x) { new(p) V(std::in_place_type<T>, x); } \
void x_ipt_m_##T(void * p, T & x) { new(p) V(std::in_place_type<T>, std::move(x)); } \
void x_ipt_a_##T(void * p, int x, int y) { args<T>([p](auto... a) { new(p) V(std::in_place_type<T>, a...); }, x, y); } \
V * x_assign_c_##T(V & a, const T & x) { return &(a = x); } \
V * x_assign_m_##T(V & a, T & x) { return &(a = std::move(x)); } \
T * x_empt_a_##T(V & a, int x, int y) { return args<T>([&](auto... v) { return &a.emplace<T>(v...); }, x, y); } \
T * x_empt_c_##T(V & a, const T & x) { return &a.emplace<T>(x); } \
T * x_empt_m_##T(V & a, T & x) { return &a.emplace<T>(std::move(x)); } \
T * x_empt_d_##T(V & a) { return &a.emplace<T>(); } \
T * x_empi_a_##T(V & a, int x, int y) { return args<T>([&](auto... v) { return &a.emplace<I>(v...); }, x, y); } \
T * x_empi_c_##T(V & a, const T & x) { return &a.emplace<I>(x); } \
bool x_holds_##T(const V & a) { return a.holds<T>(); } \
const T * x_getif_c_##T(const V & a) { return a.get_if<T>(); } \
T * x_getif_##T(V & a) { return a.get_if<T>(); } \
const T * x_get_cl_##T(const V & a) { return &a.get<T>(); } \
T * x_get_l_##T(V & a) { return &a.get<T>(); } \
const T * x_get_cr_##T(const V & a) { const T && r = std::move(a).get<T>(); return &r; } \
T * x_get_r_##T(V & a) { T && r = std::move(a).get<T>(); return &r; }
ALT(A, 0) ALT(B, 1) ALT(C, 2) ALT(D, 3)
V * x_assign_copy(V & a, const V & b) { return &(a = b); }
V * x_assign_move(V & a, V & b) { return &(a = std::move(b)); }
void x_dtor(V & a) { a.~V(); }
int x_visit_cl(const V & a, Seen * s) { return a.visit(Vis{s}); }
int x_visit_l(V & a, Seen * s) { return a.visit(Vis{s}); }
int x_visit_cr(const V & a, Seen * s) { return std::move(a).visit(Vis{s}); }
int x_visit_r(V & a, Seen * s) { return std::move(a).visit(Vis{s}); }
int x_visit_lv(V & a, Seen * s) { Vis v{s}; return a.visit(v); }
int x_visits_cl(const V & a, Seen * s) { return a.visit([s](const A & x) { return Vis{s}(x); }, [s](const B & x) { return Vis{s}(x); }, [s](const C & x) { return Vis{s}(x); }, [s](const D & x) { return Vis{s}(x); }); }
int x_visits_l(V & a, Seen * s) { return a.visit([s](A & x) { return Vis{s}(x); }, [s](B & x) { return Vis{s}(x); }, [s](C & x) { return Vis{s}(x); }, [s](D & x) { return Vis{s}(x); }); }
int x_visits_r(V & a, Seen * s) { return std::move(a).visit([s](A && x) { return Vis{s}(std::move(x)); }, [s](B && x) { return Vis{s}(std::move(x)); }, [s](C && x) { return Vis{s}(std::move(x)); }, [s](D && x) { return Vis{s}(std::move(x)); }); }
const void * x_visit_ref(const V & a, const void * const & p) { return &a.visit(Ref{p}); }
void x_swap(V & a, V & b) { a.swap(b); }
void x_swap_free(V & a, V & b) { swap(a, b); }
void x_std_swap(V & a, V & b) { using std::swap; swap(a, b); }
bool x_eq(const V & a, const V & b) { return a == b; }
bool x_ne(const V & a, const V & b) { return a != b; }
bool x_lt(const V & a, const V & b) { return a < b; }
bool x_gt(const V & a, const V & b) { return a > b; }
bool x_le(const V & a, const V & b) { return a <= b; }
bool x_ge(const V & a, const V & b) { return a >= b; }
}
#endif
