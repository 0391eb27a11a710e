// @props C04,C33
#include "types.hpp"
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
// every operation a type meeting the stated requirements has to support; instantiated per element type below
namespace u {
// admitted element types with an unusual interface
struct amp { int i; void operator&() const =delete; };
struct comma { int i; template<typename T> friend void operator,(const comma &, T &&) =delete; template<typename T> friend void operator,(T &&, const comma &) =delete; };
struct fin final { int i; };
struct empty {};
struct from_any { from_any() =default; template<typename T, typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, from_any>>> explicit from_any(T &&) {} int i; };
struct agg { int a; char b; };
struct ilist { ilist() noexcept; ilist(std::initializer_list<int>); ilist(const ilist &); ilist(ilist &&) noexcept; auto operator=(const ilist &) -> ilist &; auto operator=(ilist &&) noexcept -> ilist &; ~ilist(); int i; };
struct bits { int i; explicit operator bool() const =delete; auto operator!() const -> bool =delete; };
struct eq { int i; friend auto operator==(const eq &, const eq &) noexcept -> bool; };
struct lt { int i; friend auto operator==(const lt &, const lt &) noexcept -> bool; friend auto operator<(const lt &, const lt &) noexcept -> bool; };
struct all { int i; friend auto operator==(const all &, const all &) noexcept -> bool; friend auto operator!=(const all &, const all &) noexcept -> bool; friend auto operator<(const all &, const all &) noexcept -> bool; friend auto operator>(const all &, const all &) noexcept -> bool; friend auto operator<=(const all &, const all &) noexcept -> bool; friend auto operator>=(const all &, const all &) noexcept -> bool; };
enum class tag : char { x };
template<typename T> void vector_(const T & c, T & m) {
	using V = ptl::vector<T>;
	V v; V w{v}; V x{std::move(w)}; v = x; v = std::move(x); V y(3); V z(2, c); V q(std::as_const(v).begin(), std::as_const(v).end()); V il({c, c}); v = {c, c};
	v.assign(2, c); v.assign({c}); v.assign(z.begin(), z.end()); v.reserve(4); v.shrink_to_fit(); v.resize(3); v.resize(5, c); v.clear();
	(void)v.push_back(c); (void)v.push_back(std::move(m)); v.pop_back(); (void)v.emplace_back(c); (void)v.emplace(v.begin(), c); (void)v.emplace_back();
	(void)v.insert(v.begin(), c); (void)v.insert(v.begin(), std::move(m)); (void)v.insert(v.begin(), 2, c); (void)v.insert(v.begin(), {c, c}); (void)v.insert(v.begin(), z.begin(), z.end());
	(void)v.erase(v.begin()); (void)v.erase(v.begin(), v.end()); v.swap(z); swap(v, z);
	(void)v.at(0); (void)std::as_const(v).at(0); (void)v[0]; (void)v.front(); (void)v.back(); (void)v.data(); (void)*v.begin(); (void)v.rbegin(); (void)v.size();
}
template<typename T> void optional_(const T & c, T & m) {
	using O = ptl::optional<T>;
	O o; O n{std::nullopt}; O a{c}; O b{std::move(m)}; O d{o}; O e{std::move(d)}; O f{std::in_place}; O g{std::in_place, c};
	o = std::nullopt; o = c; o = std::move(m); o = e; o = std::move(e); (void)o.emplace(c); (void)o.emplace(); o.reset(); o.swap(a); swap(o, a);
	(void)*o; (void)*std::as_const(o); (void)o.operator->(); (void)std::as_const(o).operator->(); (void)o.value(); (void)std::move(o).value(); (void)std::as_const(o).value(); (void)o.value_or(c); (void)std::move(o).value_or(c);
	(void)(o == std::nullopt); (void)(std::nullopt != o); (void)static_cast<bool>(o); (void)o.has_value();
}
template<typename T> void optional_ref_(const T & c, T & m) {
	using O = ptl::optional_ref<T>; using C = ptl::optional_ref<const T>;
	O o; O n{std::nullopt}; O a{m}; C k{c}; C j{a}; ptl::optional<T> po{c}; std::optional<T> so{c}; O b{po}; O d{so}; o = a; o = m; o = std::nullopt; std::swap(o, a);
	(void)*o; (void)o.operator->(); (void)k.operator->(); (void)o.value(); (void)o.value_or(c); (void)static_cast<bool>(o);
}
struct vis { template<typename T> auto operator()(T &&) -> int; };
template<typename T> void variant_(const T & c, T & m) {
	using V = ptl::variant<T, long *, short>; using U = ptl::variant<long *, T>;
	V v; V a{c}; V b{std::move(m)}; V d{a}; V e{std::move(d)}; V f{std::in_place_index<0>, c}; V g{std::in_place_type<T>, c}; U u{c}; V h{std::in_place_index<0>}; U i{std::in_place_type<T>};
	v = c; v = std::move(m); v = e; v = std::move(e); (void)v.template emplace<T>(c); (void)v.template emplace<0>(c); (void)u.template emplace<1>(c); (void)u.template emplace<T>(); (void)v.template emplace<short>(short{}); v.swap(a); swap(v, a);
	(void)v.template holds<T>(); (void)v.template get_if<T>(); (void)std::as_const(v).template get_if<T>(); (void)v.template get<T>(); (void)std::move(v).template get<T>(); (void)std::as_const(u).template get<T>();
	vis w; (void)v.visit(w); (void)std::as_const(v).visit(w); (void)std::move(u).visit(w); (void)v.visit(vis{});
}
template<typename T> void variant_ref_(const T & c, T & m) {
	using V = ptl::variant_ref<T, long *, const short>; using C = ptl::variant_ref<long *, const T>;
	V v{m}; C k{c}; V w{v}; v = w; v = m; std::swap(v, w);
	(void)v.template holds<T>(); (void)v.template get_if<T>(); (void)v.template get<T>(); (void)k.template get_if<const T>(); (void)k.template get<const T>();
	vis x; (void)v.visit(x); (void)k.visit(vis{}); (void)std::as_const(v).visit(x);
}
template<typename T> void array_(const T & c, T & m) {
	using A = ptl::array<T, 3>;
	A a; A b{a}; A d{std::move(b)}; a = d; a = std::move(d); a.fill(c); a.swap(d); swap(a, d); A e{c, c, m}; ptl::array<T, 0> z; z.fill(c); z.swap(z); ptl::array<T, 1> o{c};
	(void)a.at(0); (void)std::as_const(a).at(0); (void)a[0]; (void)a.front(); (void)a.back(); (void)a.data(); (void)get<1>(a); (void)get<1>(std::move(a)); (void)*a.begin(); (void)a.rbegin();
}
template<typename T> void array_ref_(const T & c, T & m) {
	using R = ptl::array_ref<T>; using C = ptl::array_ref<const T>;
	T arr[2]{}; R r{arr}; C k{r}; ptl::vector<T> v; R s{v}; C t{std::as_const(v)}; R w{s}; w = s; R e; std::swap(r, s);
	(void)r.at(0); (void)r[0]; (void)r.front(); (void)r.back(); (void)r.data(); (void)r.first(1); (void)k.last(1); (void)r.subrange(0); (void)r.subrange(0, 1); (void)*r.begin(); (void)r.rbegin(); (void)c; (void)m;
}
template<typename T> void tuple_(const T & c, T & m) {
	using U = ptl::tuple<T, int>; using W = ptl::tuple<int, T>;
	U a{c, 1}; W b{1, std::move(m)}; U d{a}; U e{std::move(d)}; a = e; a = std::move(e); a.swap(d); swap(b, b);
	(void)a.template get<0>(); (void)std::as_const(b).template get<1>(); (void)std::move(a).template get<0>();
}
template<typename T> auto equal_(const T & a, const T & b) -> bool { return a == b; }
template<typename T> auto unequal_(const T & a, const T & b) -> bool { return a != b; }
template<typename T> auto less_(const T & a, const T & b) -> bool { return a < b; }
template<typename T> auto order_(const T & a, const T & b) -> bool { return a < b || a > b || a <= b || a >= b; }
}
#define CR const T & c = *static_cast<const T *>(nullptr)
#define ARGS *static_cast<const T *>(nullptr) COMMA *static_cast<T *>(nullptr)
// @props C04,C07,C33
A(vector.amp, using T = u::amp; u::vector_<T>(ARGS);)
A(vector.comma, using T = u::comma; u::vector_<T>(ARGS);)
A(vector.final, using T = u::fin; u::vector_<T>(ARGS);)
A(vector.empty, using T = u::empty; u::vector_<T>(ARGS);)
A(vector.from_any, using T = u::from_any; u::vector_<T>(ARGS);)
A(vector.ilist, using T = u::ilist; u::vector_<T>(ARGS);)
A(vector.bits, using T = u::bits; u::vector_<T>(ARGS);)
A(vector.agg, using T = u::agg; u::vector_<T>(ARGS); ptl::vector<T> v; (void)v.emplace_back(1 COMMA 'c'); (void)v.emplace(v.begin() COMMA 1 COMMA 'c'); (void)v.emplace_back(1);)
A(vector.scalars, u::vector_<int *>(nullptr COMMA *static_cast<int **>(nullptr)); u::vector_<bool>(true COMMA *static_cast<bool *>(nullptr)); u::vector_<u::tag>(u::tag::x COMMA *static_cast<u::tag *>(nullptr)); u::vector_<double>(1. COMMA *static_cast<double *>(nullptr));)
A(vector.nested, using T = ptl::vector<ptl::optional<ptl::string>>; u::vector_<T>(ARGS);)
A(vector.views, using T = ptl::array_ref<int>; u::vector_<T>(ARGS); u::vector_<ptl::string_ref>(ptl::string_ref{} COMMA *static_cast<ptl::string_ref *>(nullptr)); u::vector_<ptl::optional_ref<int>>(ptl::optional_ref<int>{} COMMA *static_cast<ptl::optional_ref<int> *>(nullptr));)
// @props C04,C13,C16,C33
A(optional.amp, using T = u::amp; u::optional_<T>(ARGS);)
A(optional.comma, using T = u::comma; u::optional_<T>(ARGS);)
A(optional.final, using T = u::fin; u::optional_<T>(ARGS);)
A(optional.empty, using T = u::empty; u::optional_<T>(ARGS);)
A(optional.bits, using T = u::bits; u::optional_<T>(ARGS);)
A(optional.agg, using T = u::agg; u::optional_<T>(ARGS); ptl::optional<T> o{std::in_place COMMA 1 COMMA 'c'}; (void)o.emplace(1 COMMA 'c'); (void)o.emplace(1);)
A(optional.scalars, u::optional_<int *>(nullptr COMMA *static_cast<int **>(nullptr)); u::optional_<u::tag>(u::tag::x COMMA *static_cast<u::tag *>(nullptr)); u::optional_<bool>(true COMMA *static_cast<bool *>(nullptr));)
A(optional.nested, using T = ptl::vector<ptl::string>; u::optional_<T>(ARGS); using S = ptl::variant<int COMMA ptl::string>; ptl::optional<S> o{S{1}}; o = S{ptl::string{"a"}};)
// @props C04,C14,C15,C33
A(variant.amp, using T = u::amp; u::variant_<T>(ARGS);)
A(variant.comma, using T = u::comma; u::variant_<T>(ARGS);)
A(variant.final, using T = u::fin; u::variant_<T>(ARGS);)
A(variant.empty, using T = u::empty; u::variant_<T>(ARGS);)
A(variant.bits, using T = u::bits; u::variant_<T>(ARGS);)
A(variant.agg, using T = u::agg; u::variant_<T>(ARGS); ptl::variant<int * COMMA T> v{std::in_place_index<1> COMMA 1 COMMA 'c'}; ptl::variant<int * COMMA T> w{std::in_place_type<T> COMMA 1 COMMA 'c'}; (void)v.emplace<T>(1 COMMA 'c'); (void)v.emplace<1>(1 COMMA 'c'); (void)v.emplace<T>(1);)
A(variant.ilist, using T = u::ilist; u::variant_<T>(ARGS);)
A(variant.nested, using T = ptl::optional<ptl::string>; u::variant_<T>(ARGS);)
// @props C04,C34,C33
A(array.amp, using T = u::amp; u::array_<T>(ARGS);)
A(array.comma, using T = u::comma; u::array_<T>(ARGS);)
A(array.final, using T = u::fin; u::array_<T>(ARGS);)
A(array.empty, using T = u::empty; u::array_<T>(ARGS);)
A(array.agg, using T = u::agg; u::array_<T>(ARGS);)
A(array.scalars, u::array_<int *>(nullptr COMMA *static_cast<int **>(nullptr)); u::array_<bool>(true COMMA *static_cast<bool *>(nullptr)); u::array_<u::tag>(u::tag::x COMMA *static_cast<u::tag *>(nullptr));)
A(array.nested, using T = ptl::vector<ptl::string>; u::array_<T>(ARGS);)
A(tuple.amp, using T = u::amp; u::tuple_<T>(ARGS);)
A(tuple.comma, using T = u::comma; u::tuple_<T>(ARGS);)
A(tuple.final, using T = u::fin; u::tuple_<T>(ARGS);)
A(tuple.empty, using T = u::empty; u::tuple_<T>(ARGS);)
A(tuple.agg, using T = u::agg; u::tuple_<T>(ARGS);)
A(tuple.nested, using T = ptl::optional<ptl::string>; u::tuple_<T>(ARGS);)
// comparison needs the operators it forwards to and no others
// @props C21,C04,C33
A(compare.vector, (void)u::equal_<ptl::vector<u::eq>>; (void)u::unequal_<ptl::vector<u::eq>>; (void)u::less_<ptl::vector<u::lt>>; (void)u::order_<ptl::vector<u::lt>>;)
A(compare.array, (void)u::equal_<ptl::array<u::eq COMMA 2>>; (void)u::unequal_<ptl::array<u::eq COMMA 2>>; (void)u::order_<ptl::array<u::lt COMMA 2>>;)
A(compare.tuple, (void)u::equal_<ptl::tuple<u::eq COMMA int>>; (void)u::unequal_<ptl::tuple<u::eq COMMA int>>; (void)u::order_<ptl::tuple<u::lt COMMA int>>;)
A(compare.optional, (void)u::equal_<ptl::optional<u::eq>>; (void)u::less_<ptl::optional<u::lt>>; (void)u::order_<ptl::optional<u::all>>; (void)u::unequal_<ptl::optional<u::all>>;)
A(compare.variant, (void)u::equal_<ptl::variant<u::eq COMMA int>>; (void)u::less_<ptl::variant<u::lt COMMA int>>; (void)u::order_<ptl::variant<u::all COMMA int>>; (void)u::unequal_<ptl::variant<u::all COMMA int>>;)
// @props C03,C27,C33
A(optional_ref.amp, using T = u::amp; u::optional_ref_<T>(ARGS);)
A(optional_ref.agg, using T = u::agg; u::optional_ref_<T>(ARGS);)
A(optional_ref.abstract, struct B { virtual void f() =0; }; B * p = nullptr; ptl::optional_ref<B> o{*p}; (void)*o; (void)o.operator->(); (void)o.value(); ptl::optional_ref<const B> c{o};)
A(optional_ref.noncopy, struct B { B() =default; B(const B &) =delete; int i; }; B b; ptl::optional_ref<B> o{b}; (void)o->i; (void)o.value().i;)
A(optional_ref.incomplete, struct B; ptl::optional_ref<B> * o = nullptr; static_assert(sizeof(*o) == sizeof(void *)); (void)static_cast<bool>(*o);)
A(variant_ref.amp, using T = u::amp; u::variant_ref_<T>(ARGS);)
A(variant_ref.agg, using T = u::agg; u::variant_ref_<T>(ARGS);)
A(variant_ref.noncopy, struct B { B() =default; B(const B &) =delete; int i; }; B b; ptl::variant_ref<int COMMA B> o{b}; (void)o.get<B>().i; (void)o.visit([](auto &) { return 1; });)
// @props C24,C33
A(array_ref.amp, using T = u::amp; u::array_ref_<T>(ARGS);)
A(array_ref.comma, using T = u::comma; u::array_ref_<T>(ARGS);)
A(array_ref.agg, using T = u::agg; u::array_ref_<T>(ARGS);)
A(array_ref.noncopy, struct B { B() =default; B(const B &) =delete; int i; }; B b[2]; ptl::array_ref<B> r{b}; (void)r[0].i; (void)r.first(1); (void)r.begin();)
// @props C15,C33
A(variant.visit.mutable, ptl::variant<int COMMA char> v{1}; int n{0}; (void)v.visit([n](int &) mutable { return ++n; } COMMA [n](char &) mutable { return --n; }); (void)std::as_const(v).visit([n](const int &) mutable { return ++n; } COMMA [n](const char &) mutable { return --n; });)
A(variant.visit.moveonly.multi, ptl::variant<int COMMA char> v{1}; (void)v.visit([p = std::unique_ptr<int>{}](int &) { return 1; } COMMA [p = std::unique_ptr<int>{}](char &) { return 2; });)
A(variant.visit.const_visitor, ptl::variant<int COMMA char> v{1}; const auto f{[](auto &) { return 1; }}; (void)v.visit(f); (void)std::as_const(v).visit(f);)
// @props C27,C33
A(variant_ref.visit.mutable, int i{1}; ptl::variant_ref<int COMMA char> v{i}; int n{0}; (void)v.visit([n](int &) mutable { return ++n; } COMMA [n](char &) mutable { return --n; });)
A(variant_ref.visit.moveonly.multi, int i{1}; ptl::variant_ref<int COMMA char> v{i}; (void)v.visit([p = std::unique_ptr<int>{}](int &) { return 1; } COMMA [p = std::unique_ptr<int>{}](char &) { return 2; });)
A(variant_ref.visit.const_visitor, int i{1}; const ptl::variant_ref<int COMMA char> v{i}; const auto f{[](auto &) { return 1; }}; (void)v.visit(f);)
// @props C25,C26,C19
struct throwing_conv { operator int() const noexcept(false); };
struct nothrow_conv { operator int() const noexcept; };
struct gives_throwing { auto operator()(int) const noexcept -> throwing_conv; };
struct gives_nothrow { auto operator()(int) const noexcept -> nothrow_conv; };
auto plain_throwing(int) noexcept -> throwing_conv;
auto plain_nothrow(int) noexcept -> nothrow_conv;
W(function_ref.result.throwing, !std::is_convertible_v<gives_throwing &, ptl::function_ref<int(int) noexcept>> && !std::is_convertible_v<gives_throwing &, ptl::function_ref<int(int) const noexcept>> && std::is_convertible_v<gives_throwing &, ptl::function_ref<int(int)>> && std::is_convertible_v<gives_nothrow &, ptl::function_ref<int(int) noexcept>> && std::is_convertible_v<gives_nothrow &, ptl::function_ref<int(int) const noexcept>>);
W(function_ref.result.throwing.plain, !std::is_constructible_v<ptl::function_ref<int(int) noexcept>, decltype(&plain_throwing)> && !std::is_constructible_v<ptl::function_ref<int(int) const noexcept>, decltype(&plain_throwing)>);
// @props C35,C34
W(element.tuple.const, std::is_same_v<std::tuple_element_t<0, ptl::tuple<int *, char>>, int *> && std::is_same_v<std::tuple_element_t<1, ptl::tuple<int *, const char *>>, const char *> && std::is_same_v<std::tuple_element_t<0, const ptl::tuple<int *, char>>, int * const>);
// @props C15,C33
A(variant.visit.lvalue.multi, ptl::variant<int COMMA char> v{1}; auto f{[](int &) { return 1; }}; const auto g{[](char &) { return 2; }}; (void)v.visit(f COMMA g); auto h{[](const int &) { return 1; }}; (void)std::as_const(v).visit(h COMMA [](const char &) { return 2; }); (void)std::move(v).visit([](int &&) { return 1; } COMMA [](char &&) { return 2; });)
// @props C27,C33
A(variant_ref.visit.lvalue.multi, int i{1}; ptl::variant_ref<int COMMA char> v{i}; auto f{[](int &) { return 1; }}; const auto g{[](char &) { return 2; }}; (void)v.visit(f COMMA g); (void)v.visit(f COMMA [](char &) { return 2; });)
// @props C34,C07,C13,C14
struct any_ { any_() noexcept; any_(const any_ &) noexcept; any_(any_ &&) noexcept; auto operator=(const any_ &) noexcept -> any_ &; auto operator=(any_ &&) noexcept -> any_ &; template<typename T, typename = std::enable_if_t<!std::is_same_v<std::decay_t<T>, any_>>> any_(T &&) noexcept(false); int i; };
W(any.array, std::is_nothrow_constructible_v<ptl::array<any_ COMMA 1>, ptl::array<any_ COMMA 1> &> && std::is_nothrow_constructible_v<ptl::array<any_ COMMA 2>, ptl::array<any_ COMMA 2> &> && std::is_nothrow_move_constructible_v<ptl::array<any_ COMMA 1>>);
W(any.optional, std::is_nothrow_move_constructible_v<ptl::optional<any_>>);
W(any.variant, std::is_nothrow_move_constructible_v<ptl::variant<any_ COMMA int>>);
W(any.vector, std::is_nothrow_move_constructible_v<ptl::vector<any_>>);
// @props C22,C33
template<typename T, typename H = std::hash<T>> constexpr bool hashes{std::is_same_v<decltype(std::declval<const H &>()(std::declval<const T &>())), std::size_t> && std::is_default_constructible_v<H> && std::is_copy_assignable_v<H> && std::is_nothrow_swappable_v<H>};
W(hash.string, hashes<ptl::string>);
W(hash.string_ref, hashes<ptl::string_ref>);
W(hash.bitset, hashes<ptl::bitset<9>> && hashes<ptl::bitset<70>>);
