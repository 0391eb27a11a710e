// @props C15
#include "types.hpp"
#include <ptl/array_ref.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
using std::is_same_v;
template<typename T> auto l() noexcept -> T &;
template<typename T> auto c() noexcept -> const T &;
template<typename T> auto r() noexcept -> T &&;
template<typename T> auto k() noexcept -> const T &&;
using VA = ptl::variant<int, w::ok>;
// reports the exact type it was called with
struct probe { template<typename T> auto operator()(T &&) const -> list_<T &&>; };
struct mut_ref { auto operator()(int &) -> int &; auto operator()(w::ok &) -> int &; };
struct only_const { auto operator()(const int &) -> char; auto operator()(const w::ok &) -> char; };
struct only_rvalue { auto operator()(int &&) -> short; auto operator()(w::ok &&) -> short; };
struct only_int { auto operator()(int &) -> int; };
struct gives_ref { auto operator()(const int &) -> const long &; auto operator()(const w::ok &) -> const long &; };
struct gives_void { auto operator()(const int &) -> void; auto operator()(const w::ok &) -> void; };
struct gives_rref { auto operator()(const int &) -> w::ok &&; auto operator()(const w::ok &) -> w::ok &&; };
template<typename V, typename F, typename = void> struct visits_ : std::false_type {};
template<typename V, typename F> struct visits_<V, F, std::void_t<decltype(val<V>().visit(val<F>()))>> : std::true_type {};
template<typename V, typename T, typename = void> struct gets_ : std::false_type {};
template<typename V, typename T> struct gets_<V, T, std::void_t<decltype(val<V>().template get<T>())>> : std::true_type {};
template<typename V, typename T, typename = void> struct getsif_ : std::false_type {};
template<typename V, typename T> struct getsif_<V, T, std::void_t<decltype(val<V>().template get_if<T>())>> : std::true_type {};
template<typename V, typename T, typename = void> struct holds_ : std::false_type {};
template<typename V, typename T> struct holds_<V, T, std::void_t<decltype(val<V>().template holds<T>())>> : std::true_type {};
W(variant.get, is_same_v<decltype(l<VA>().get<int>()), int &> && is_same_v<decltype(c<VA>().get<int>()), const int &> && is_same_v<decltype(r<VA>().get<int>()), int &&> && is_same_v<decltype(k<VA>().get<int>()), const int &&> && is_same_v<decltype(l<VA>().get<w::ok>()), w::ok &> && is_same_v<decltype(r<VA>().get<w::ok>()), w::ok &&>);
W(variant.get_if, is_same_v<decltype(l<VA>().get_if<int>()), int *> && is_same_v<decltype(c<VA>().get_if<int>()), const int *> && is_same_v<decltype(c<VA>().get_if<w::ok>()), const w::ok *>);
W(variant.holds, is_same_v<decltype(c<VA>().holds<int>()), bool>);
W(variant.unlisted, !gets_<VA &, short>::value && !getsif_<VA &, short>::value && !holds_<VA &, short>::value && gets_<VA &, int>::value && getsif_<VA &, int>::value && holds_<const VA &, w::ok>::value);
W(variant.visit.result, is_same_v<decltype(l<VA>().visit(l<mut_ref>())), int &> && is_same_v<decltype(c<VA>().visit(l<only_const>())), char> && is_same_v<decltype(r<VA>().visit(l<only_rvalue>())), short> && is_same_v<decltype(c<VA>().visit(l<gives_ref>())), const long &> && is_same_v<decltype(c<VA>().visit(l<gives_void>())), void> && is_same_v<decltype(c<VA>().visit(l<gives_rref>())), w::ok &&>);
W(variant.visit.probe, is_same_v<decltype(l<ptl::variant<int>>().visit(l<probe>())), list_<int &>> && is_same_v<decltype(c<ptl::variant<int>>().visit(l<probe>())), list_<const int &>> && is_same_v<decltype(r<ptl::variant<int>>().visit(l<probe>())), list_<int &&>> && is_same_v<decltype(k<ptl::variant<int>>().visit(l<probe>())), list_<const int &&>>);
A(variant.visit.multi, VA v{1}; (void)v.visit([](int & x) -> long { return x; } COMMA [](w::ok &) -> long { return 0; }); (void)std::as_const(v).visit([](const int & x) -> long { return x; } COMMA [](const w::ok &) -> long { return 0; }); (void)std::move(v).visit([](int && x) -> long { return x; } COMMA [](w::ok &&) -> long { return 0; });)
A(variant.visit.moveonly, VA v{1}; (void)v.visit([p = std::unique_ptr<int>{}](const auto &) { return 1; });)
R(variant.visit.incomplete, ptl::variant<int COMMA char> v{1}; v.visit([](int &) {} COMMA [](w::ok &) {});, ptl::variant<int COMMA char> v{1}; v.visit([](int &) {} COMMA [](char &) {});)
R(variant.visit.const, const VA v{1}; v.visit([](int &) {} COMMA [](w::ok &) {});, VA v{1}; v.visit([](int &) {} COMMA [](w::ok &) {});)
R(variant.visit.rvalue, VA v{1}; v.visit([](int &&) {} COMMA [](w::ok &&) {});, VA v{1}; std::move(v).visit([](int &&) {} COMMA [](w::ok &&) {});)
R(variant.get.unlisted, VA v{1}; (void)v.get<short>();, VA v{1}; (void)v.get<int>();)
R(variant.get_if.unlisted, VA v{1}; (void)v.get_if<char>();, VA v{1}; (void)v.get_if<int>();)
R(variant.get.const, const VA v{1}; v.get<int>() = 2;, VA v{1}; v.get<int>() = 2;)
R(variant.get_if.const, const VA v{1}; *v.get_if<int>() = 2;, VA v{1}; *v.get_if<int>() = 2;)
// @props C16
using O = ptl::optional<w::ok>;
using OR = ptl::optional_ref<int>;
using OC = ptl::optional_ref<const int>;
W(optional.star, is_same_v<decltype(*l<O>()), w::ok &> && is_same_v<decltype(*c<O>()), const w::ok &> && is_same_v<decltype(*r<O>()), w::ok &&> && is_same_v<decltype(*k<O>()), const w::ok &&>);
W(optional.arrow, is_same_v<decltype(l<O>().operator->()), w::ok *> && is_same_v<decltype(c<O>().operator->()), const w::ok *>);
W(optional.value, is_same_v<decltype(l<O>().value()), w::ok &> && is_same_v<decltype(c<O>().value()), const w::ok &> && is_same_v<decltype(r<O>().value()), w::ok &&> && is_same_v<decltype(k<O>().value()), const w::ok &&>);
W(optional.value_or, is_same_v<decltype(c<ptl::optional<int>>().value_or(1)), int> && is_same_v<decltype(r<ptl::optional<int>>().value_or('c')), int> && is_same_v<decltype(l<O>().value_or(w::ok{})), w::ok>);
W(optional.has, is_same_v<decltype(c<O>().has_value()), bool> && is_same_v<decltype(static_cast<bool>(c<O>())), bool>);
W(optional_ref.star, is_same_v<decltype(*c<OR>()), int &> && is_same_v<decltype(*l<OR>()), int &> && is_same_v<decltype(*r<OR>()), int &> && is_same_v<decltype(*l<OC>()), const int &>);
W(optional_ref.arrow, is_same_v<decltype(c<OR>().operator->()), int *> && is_same_v<decltype(l<OC>().operator->()), const int *>);
W(optional_ref.value, is_same_v<decltype(c<OR>().value()), int &> && is_same_v<decltype(l<OC>().value()), const int &>);
W(optional_ref.value_or, is_same_v<std::remove_cv_t<decltype(c<OR>().value_or(1))>, int> && is_same_v<decltype(c<OR>().value_or('c')), int>);
R(optional.const, const ptl::optional<int> o{1}; *o = 2;, ptl::optional<int> o{1}; *o = 2;)
R(optional.value.const, const ptl::optional<int> o{1}; o.value() = 2;, ptl::optional<int> o{1}; o.value() = 2;)
R(optional.value_or.type, ptl::optional<int> o{1}; (void)o.value_or(w::ok{});, ptl::optional<int> o{1}; (void)o.value_or('c');)
R(optional_ref.const, OC o{}; *o = 2;, OR o{}; *o = 2;)
// @props C26
template<typename S> using FR = ptl::function_ref<S>;
template<typename F, typename... A> using call = decltype(std::declval<F>()(std::declval<A>()...));
W(function_ref.result, is_same_v<call<FR<int()>>, int> && is_same_v<call<const FR<int &()> &>, int &> && is_same_v<call<FR<const w::ok &()>>, const w::ok &> && is_same_v<call<FR<w::ok &&()>>, w::ok &&> && is_same_v<call<FR<void()>>, void> && is_same_v<call<FR<w::ok()>>, w::ok>);
W(function_ref.result.const, is_same_v<call<FR<int &() const>>, int &> && is_same_v<call<FR<int &() const noexcept>>, int &> && is_same_v<call<FR<int &() noexcept>>, int &>);
W(function_ref.args, std::is_invocable_v<FR<void(int &)>, int &> && !std::is_invocable_v<FR<void(int &)>, int> && !std::is_invocable_v<FR<void(int &)>, const int &> && std::is_invocable_v<FR<void(int &&)>, int> && !std::is_invocable_v<FR<void(int &&)>, int &> && std::is_invocable_v<FR<void(const int &)>, const int &> && std::is_invocable_v<FR<void(std::unique_ptr<int>)>, std::unique_ptr<int>> && !std::is_invocable_v<FR<void(std::unique_ptr<int>)>, std::unique_ptr<int> &>);
W(function_ref.arity, !std::is_invocable_v<FR<void(int)>> && !std::is_invocable_v<FR<void(int)>, int, int> && !std::is_invocable_v<FR<void()>, int> && std::is_invocable_v<const FR<void(int, char)> &, int, char>);
A(function_ref.moveonly, auto f{[](std::unique_ptr<int> p) { return p; }}; FR<std::unique_ptr<int>(std::unique_ptr<int>)> g{f}; (void)g(std::make_unique<int>(1));)
A(function_ref.void, auto f{[](int) { return 3; }}; FR<void(int)> g{f}; g(1);)
A(function_ref.mutable, auto f{[i = 0]() mutable { return ++i; }}; FR<int()> g{f}; (void)g();)
R(function_ref.mutable.const, auto f{[i = 0]() mutable { return ++i; }}; FR<int() const> g{f}; (void)g();, auto f{[i = 0]() { return i; }}; FR<int() const> g{f}; (void)g();)
// @props C27
using VR = ptl::variant_ref<int, const char, w::ok>;
W(variant_ref.get, is_same_v<decltype(c<VR>().get<int>()), int &> && is_same_v<decltype(c<VR>().get<const char>()), const char &> && is_same_v<decltype(l<VR>().get<w::ok>()), w::ok &>);
W(variant_ref.get_if, is_same_v<decltype(c<VR>().get_if<int>()), int *> && is_same_v<decltype(c<VR>().get_if<const char>()), const char *>);
W(variant_ref.holds, is_same_v<decltype(c<VR>().holds<int>()), bool>);
W(variant_ref.unlisted, !gets_<VR &, short>::value && !gets_<VR &, char>::value && !gets_<VR &, const int>::value && !getsif_<VR &, char>::value && !holds_<VR &, const int>::value && gets_<VR &, const char>::value);
W(variant_ref.visit.probe, is_same_v<decltype(c<ptl::variant_ref<int>>().visit(l<probe>())), list_<int &>> && is_same_v<decltype(c<ptl::variant_ref<const int>>().visit(l<probe>())), list_<const int &>>);
struct vr_ref { auto operator()(int &) -> int &; auto operator()(const char &) -> int &; auto operator()(w::ok &) -> int &; };
struct vr_void { auto operator()(int &) -> void; auto operator()(const char &) -> void; auto operator()(w::ok &) -> void; };
W(variant_ref.visit.result, is_same_v<decltype(c<VR>().visit(l<vr_ref>())), int &> && is_same_v<decltype(c<VR>().visit(l<vr_void>())), void>);
A(variant_ref.visit.multi, int i{1}; VR v{i}; (void)v.visit([](int & x) -> long { return x; } COMMA [](const char &) -> long { return 1; } COMMA [](w::ok &) -> long { return 0; });)
R(variant_ref.visit.incomplete, int i{1}; VR v{i}; v.visit([](int &) {} COMMA [](w::ok &) {} COMMA [](short *) {});, int i{1}; VR v{i}; v.visit([](int &) {} COMMA [](const char &) {} COMMA [](w::ok &) {});)
R(variant_ref.visit.const, char i{1}; VR v{i}; v.visit([](int &) {} COMMA [](char &) {} COMMA [](w::ok &) {});, char i{1}; VR v{i}; v.visit([](int &) {} COMMA [](const char &) {} COMMA [](w::ok &) {});)
W(optional_ref.rebind, std::is_trivially_copy_assignable_v<OR> && std::is_assignable_v<OR &, int &> && std::is_assignable_v<OR &, std::nullopt_t>);
// @props C24
W(array_ref.sub, is_same_v<decltype(c<ptl::array_ref<int>>().first(1)), ptl::array_ref<int>> && is_same_v<decltype(c<ptl::array_ref<const int>>().last(1)), ptl::array_ref<const int>> && is_same_v<decltype(c<ptl::array_ref<int>>().subrange(1)), ptl::array_ref<int>> && is_same_v<decltype(c<ptl::array_ref<int>>().subrange(1, 1)), ptl::array_ref<int>> && is_same_v<decltype(c<ptl::array_ref<int>>().size()), std::size_t>);
W(string_ref.sub, is_same_v<decltype(c<ptl::string_ref>().substr(1)), ptl::string_ref> && is_same_v<decltype(c<ptl::string_ref>().substr(1, 1)), ptl::string_ref> && is_same_v<decltype(static_cast<std::string_view>(c<ptl::string_ref>())), std::string_view>);
W(string.sub, std::is_convertible_v<decltype(c<ptl::string>().substr(1, 1)), std::string_view>);
