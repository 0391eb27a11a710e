#include "all_std.hpp"
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/variant_ref.hpp>
#include "elem.hpp"
using E = Elem;
using Z = std::size_t;
// ---- function_ref: callables are declared only, the analysis sees the calls to them
#define PARAMS int, E &, const E &, E &&, E
struct Fun { // tells apart how it is called
	auto operator()(PARAMS) -> int;
	auto operator()(PARAMS) const -> int;
	long raw;
};
struct FunC { auto operator()(PARAMS) const -> int; long raw; };
struct FunM { auto operator()(PARAMS) -> int; long raw; };
struct FunN {
	auto operator()(PARAMS) noexcept -> int;
	auto operator()(PARAMS) const noexcept -> int;
	long raw;
};
struct FunR { auto operator()() -> E &; auto operator()() const -> const E &; long raw; };
struct FunX { auto operator()() -> E &&; auto operator()() const -> E &&; long raw; };
struct FunV { auto operator()() -> E; auto operator()() const -> E; long raw; };
struct FunB { auto operator()(int) -> bool; long raw; };
struct FunO { auto operator()(E &) -> int; auto operator()(const E &) -> int; auto operator()(E &&) -> int; auto operator()(const E &&) -> int; long raw; };
struct FunP { auto operator()(E) -> int; long raw; };
struct FunQ { auto operator()(int) & -> int; auto operator()(int) const & -> int; auto operator()(int) && -> int; auto operator()(int) const && -> int; long raw; };
struct alignas(8) FunE { auto operator()(int) const -> int; auto operator&() const -> int *; };
auto plain(PARAMS) -> int;
auto nplain(PARAMS) noexcept -> int;
auto rplain() -> E &;
auto vplain() -> E;
auto bplain(int) -> bool;
template<typename S> using FR = ptl::function_ref<S>;
using SI = int(PARAMS);
using SIc = int(PARAMS) const;
using SIn = int(PARAMS) noexcept;
using SIcn = int(PARAMS) const noexcept;
extern "C" {
#define ARGS int x, E & a, const E & b, E & c, E & d
#define PASS x, a, b, std::move(c), std::move(d)
#define MAKE(n, S, F) \
void f_make_##n(void * p, F f) { new(p) FR<S>(f); } \
int f_call_##n(F f, ARGS) { FR<S> r{f}; return r(PASS); } \
int f_ccall_##n(F f, ARGS) { const FR<S> r{f}; return r(PASS); } \
int f_copycall_##n(F f, F g, ARGS) { FR<S> r{f}; FR<S> q{g}; FR<S> t{r}; q = t; FR<S> u{std::move(q)}; return u(PASS); }
MAKE(m, SI, Fun &) MAKE(c, SI, const Fun &) MAKE(mc, SIc, Fun &) MAKE(cc, SIc, const Fun &)
MAKE(oc, SI, FunC &) MAKE(occ, SIc, FunC &) MAKE(om, SI, FunM &)
MAKE(n, SIn, FunN &) MAKE(nc, SIcn, FunN &) MAKE(ncc, SIcn, const FunN &) MAKE(nn, SI, FunN &)
MAKE(pn, SI, decltype(nplain) &)
void f_make_p(void * p) { new(p) FR<SI>(plain); }
void f_make_pp(void * p) { new(p) FR<SI>(&plain); }
int f_call_p(ARGS) { FR<SI> r{plain}; return r(PASS); }
int f_call_pc(ARGS) { FR<SIc> r{plain}; return r(PASS); }
int f_call_np(ARGS) { FR<SIn> r{nplain}; return r(PASS); }
int f_call_ncp(ARGS) { FR<SIcn> r{&nplain}; return r(PASS); }
int f_copycall_p(ARGS) { FR<SI> r{plain}; FR<SI> q{nplain}; q = r; return q(PASS); }
int f_assign_p(ARGS) { FR<SI> r{nplain}; r = plain; return r(PASS); }
int f_temp(ARGS) { return FR<SI>{Fun{}}(PASS); }
const E * f_ref(FunR & f) { FR<const E &()> r{f}; return &r(); }
const E * f_ref_c(const FunR & f) { FR<const E &() const> r{f}; return &r(); }
E * f_ref_m(FunR & f) { FR<E &()> r{f}; return &r(); }
E * f_ref_p() { FR<E &()> r{rplain}; return &r(); }
E * f_rref(FunX & f) { FR<E &&()> r{f}; E && x = r(); return &x; }
void f_val(void * p, FunV & f) { FR<E()> r{f}; new(p) E(r()); }
void f_val_c(void * p, const FunV & f) { FR<E() const> r{f}; new(p) E(r()); }
void f_val_p(void * p) { FR<E()> r{vplain}; new(p) E(r()); }
void f_void(FunB & f, int x) { FR<void(int)> r{f}; r(x); }
void f_void_p(int x) { FR<void(int)> r{bplain}; r(x); }
bool f_bool(FunB & f, int x) { FR<bool(int)> r{f}; return r(x); }
// value categories of the arguments and of the target
int f_over_v(FunO & f, E & d) { FR<int(E)> r{f}; return r(std::move(d)); }
int f_over_l(FunO & f, E & d) { FR<int(E &)> r{f}; return r(d); }
int f_over_c(FunO & f, const E & d) { FR<int(const E &)> r{f}; return r(d); }
int f_over_r(FunO & f, E & d) { FR<int(E &&)> r{f}; return r(std::move(d)); }
int f_over_cr(FunO & f, const E & d) { FR<int(const E &&)> r{f}; return r(std::move(d)); }
int f_byval_v(FunP & f, E & d) { FR<int(E)> r{f}; return r(std::move(d)); }
int f_byval_r(FunP & f, E & d) { FR<int(E &&)> r{f}; return r(std::move(d)); }
int f_byval_l(FunP & f, E & d) { FR<int(E &)> r{f}; return r(d); }
int f_byval_c(FunP & f, const E & d) { FR<int(const E &)> r{f}; return r(d); }
int f_lv(FunQ & f, int x) { FR<int(int)> r{f}; return r(x); }
int f_lv_c(const FunQ & f, int x) { FR<int(int) const> r{f}; return r(x); }
int f_lv_mc(FunQ & f, int x) { FR<int(int) const> r{f}; return r(x); }
int f_addr(FunE & f, int x) { FR<int(int)> r{f}; return r(x); }
// representation: target and dispatch function made elsewhere
void f_copy(void * p, const FR<SI> & o) { new(p) FR<SI>(o); }
void f_move(void * p, FR<SI> & o) { new(p) FR<SI>(std::move(o)); }
FR<SI> * f_assign(FR<SI> & a, const FR<SI> & o) { return &(a = o); }
FR<SI> * f_assign_m(FR<SI> & a, FR<SI> & o) { return &(a = std::move(o)); }
void f_dtor(FR<SI> & a) { a.~FR<SI>(); }
void f_swap(FR<SI> & a, FR<SI> & b) { std::swap(a, b); }
int f_invoke(const FR<SI> & r, ARGS) { return r(PASS); }
int f_invoke_c(const FR<SIc> & r, ARGS) { return r(PASS); }
int f_invoke_n(const FR<SIn> & r, ARGS) { return r(PASS); }
int f_invoke_cn(const FR<SIcn> & r, ARGS) { return r(PASS); }
E * f_invoke_r(const FR<E &()> & r) { return &r(); }
void f_invoke_v(void * p, const FR<E()> & r) { new(p) E(r()); }
}
// ---- variant_ref
using A = Opaque<1, 24>;
using B = Opaque<2, 8>;
using D = Opaque<3, 16>;
using V = ptl::variant_ref<A, const A, B, const D>;
struct Seen { const void * ptr; int calls; };
struct Vis {
	Seen * s;
	auto see(const void * p, int code) const -> int { s->ptr = p; ++s->calls; may_throw(p); return code; }
	auto operator()(A & x) -> int { return see(&x, 10); }
	auto operator()(const A & x) -> int { return see(&x, 20); }
	auto operator()(B & x) -> int { return see(&x, 30); }
	auto operator()(const B & x) -> int { return see(&x, 39); }
	auto operator()(const D & x) -> int { return see(&x, 40); }
	auto operator()(D & x) -> int { return see(&x, 49); }
};
struct Ref {
	auto operator()(const A & x) const -> const void *const & { return p; }
	auto operator()(const B & x) const -> const void *const & { return p; }
	auto operator()(const D & x) const -> const void *const & { return p; }
	const void * const & p;
};
extern "C" {
void w_ctor_A(void * p, A & x) { new(p) V(x); }
void w_ctor_cA(void * p, const A & x) { new(p) V(x); }
void w_ctor_rA(void * p, A & x) { new(p) V(std::move(x)); }
void w_ctor_crA(void * p, const A & x) { new(p) V(std::move(x)); }
void w_ctor_B(void * p, B & x) { new(p) V(x); }
void w_ctor_D(void * p, D & x) { new(p) V(x); }
void w_ctor_cD(void * p, const D & x) { new(p) V(x); }
void w_ctor_rD(void * p, D & x) { new(p) V(std::move(x)); }
void w_copy(void * p, const V & o) { new(p) V(o); }
void w_copy_m(void * p, V & o) { new(p) V(o); }
void w_move(void * p, V & o) { new(p) V(std::move(o)); }
V * w_assign(V & a, const V & b) { return &(a = b); }
V * w_assign_m(V & a, V & b) { return &(a = std::move(b)); }
V * w_assign_A(V & a, A & x) { return &(a = x); }
V * w_assign_D(V & a, const D & x) { return &(a = x); }
void w_swap(V & a, V & b) { std::swap(a, b); }
void w_dtor(V & a) { a.~V(); }
#define ALT(n, T) \
bool w_holds_##n(const V & a) { return a.holds<T>(); } \
T * w_getif_##n(const V & a) { return a.get_if<T>(); } \
T * w_get_##n(const V & a) { return &a.get<T>(); }
ALT(A, A) ALT(cA, const A) ALT(B, B) ALT(cD, const D)
int w_visit(const V & a, Seen * s) { return a.visit(Vis{s}); }
int w_visit_l(V & a, Seen * s) { Vis v{s}; return a.visit(v); }
int w_visits(const V & a, Seen * s) { return a.visit([s](A & x) { return Vis{s}(x); }, [s](const A & x) { return Vis{s}(x); }, [s](B & x) { return Vis{s}(x); }, [s](const D & x) { return Vis{s}(x); }); }
const void * w_visit_ref(const V & a, const void * const & p) { return &a.visit(Ref{p}); }
}
// ---- optional_ref
#ifdef TRIVIAL      // a value without special members
using X = TRIVIAL;
#else
using X = E;
#endif
using O = ptl::optional_ref<X>;
using C = ptl::optional_ref<const X>;
template class ptl::optional_ref<X>;
extern "C" {
void q_ctor(void * p) { new(p) O; }
void q_ctor_null(void * p) { new(p) O(std::nullopt); }
void q_ctor_v(void * p, X & x) { new(p) O(x); }
void q_ctor_cv(void * p, const X & x) { new(p) C(x); }
void q_ctor_o(void * p, ptl::optional<X> & x) { new(p) O(x); }
void q_ctor_co(void * p, const ptl::optional<X> & x) { new(p) C(x); }
void q_ctor_so(void * p, std::optional<X> & x) { new(p) O(x); }
void q_ctor_cso(void * p, const std::optional<X> & x) { new(p) C(x); }
void q_ctor_p(void * p, X *& x) { new(p) O(x); }
void q_ctor_u(void * p, std::unique_ptr<X> & x) { new(p) O(x); }
void q_copy(void * p, const O & o) { new(p) O(o); }
void q_copy_m(void * p, O & o) { new(p) O(o); }
void q_move(void * p, O & o) { new(p) O(std::move(o)); }
void q_conv(void * p, O & o) { new(p) C(o); }
O * q_assign(O & a, const O & b) { return &(a = b); }
O * q_assign_m(O & a, O & b) { return &(a = std::move(b)); }
O * q_assign_v(O & a, X & x) { return &(a = x); }
O * q_assign_null(O & a) { return &(a = std::nullopt); }
O * q_assign_o(O & a, ptl::optional<X> & x) { return &(a = x); }
void q_swap(O & a, O & b) { std::swap(a, b); }
void q_dtor(O & a) { a.~O(); }
X * q_arrow(const O & a) { return a.operator->(); }
X * q_deref(const O & a) { return &*a; }
bool q_bool(const O & a) { return static_cast<bool>(a); }
bool q_has(const O & a) { return a.has_value(); }
X * q_value(const O & a) { return &a.value(); }
const X * q_value_c(const C & a) { return &a.value(); }
void q_or_c(void * p, const O & a, const X & d) { new(p) X(a.value_or(d)); }
void q_or_m(void * p, const O & a, X & d) { new(p) X(a.value_or(std::move(d))); }
}
