// @props C25
#include "types.hpp"
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
using std::is_convertible_v;
using std::is_constructible_v;
using std::is_assignable_v;
template<typename T> using AR = ptl::array_ref<T>;
template<typename T> using OR = ptl::optional_ref<T>;
template<typename... T> using VR = ptl::variant_ref<T...>;
template<typename S> using FR = ptl::function_ref<S>;
// both ways of asking agree and nothing is a hard error
template<typename From, typename To> constexpr bool conv{is_convertible_v<From, To> && is_constructible_v<To, From>};
template<typename From, typename To> constexpr bool never{!is_convertible_v<From, To> && !is_constructible_v<To, From>};
// ---- array_ref
W(array_ref.carray, conv<int(&)[3], AR<int>> && conv<int(&)[3], AR<const int>> && conv<const int(&)[3], AR<const int>>);
W(array_ref.carray.const, never<const int(&)[3], AR<int>>);
W(array_ref.std_array, conv<std::array<int, 3> &, AR<int>> && conv<std::array<int, 3> &, AR<const int>> && conv<const std::array<int, 3> &, AR<const int>>);
W(array_ref.std_array.const, never<const std::array<int, 3> &, AR<int>>);
W(array_ref.std_vector, conv<std::vector<int> &, AR<int>> && conv<std::vector<int> &, AR<const int>> && conv<const std::vector<int> &, AR<const int>>);
W(array_ref.std_vector.const, never<const std::vector<int> &, AR<int>>);
W(array_ref.ptl_vector, conv<ptl::vector<int> &, AR<int>> && conv<ptl::vector<int> &, AR<const int>> && conv<const ptl::vector<int> &, AR<const int>> && never<const ptl::vector<int> &, AR<int>>);
W(array_ref.ptl_array, conv<ptl::array<int, 2> &, AR<int>> && conv<ptl::array<int, 2> &, AR<const int>> && conv<const ptl::array<int, 2> &, AR<const int>> && never<const ptl::array<int, 2> &, AR<int>>);
W(array_ref.std_string, conv<std::string &, AR<char>> && conv<const std::string &, AR<const char>> && never<const std::string &, AR<char>> && never<std::string_view &, AR<char>> && conv<std::string_view &, AR<const char>>);
W(array_ref.ptl_string, conv<ptl::string &, AR<char>> && conv<const ptl::string &, AR<const char>> && never<const ptl::string &, AR<char>> && never<ptl::string_ref &, AR<char>> && conv<ptl::string_ref &, AR<const char>>);
W(array_ref.other, conv<AR<int> &, AR<const int>> && conv<AR<int>, AR<const int>> && never<AR<const int> &, AR<int>> && never<AR<const int>, AR<int>> && never<const AR<const int> &, AR<int>>);
W(array_ref.init_list, conv<std::initializer_list<int> &, AR<const int>> && never<std::initializer_list<int> &, AR<int>>);
W(array_ref.element, never<std::vector<short> &, AR<int>> && never<std::vector<int> &, AR<long>> && never<std::vector<int> &, AR<unsigned>> && never<std::vector<int> &, AR<short>> && never<int(&)[3], AR<unsigned>> && never<std::vector<float> &, AR<double>>);
W(array_ref.derived, never<std::vector<w::derived> &, AR<w::base>> && never<w::derived(&)[2], AR<w::base>> && never<std::vector<w::base> &, AR<w::derived>> && never<std::vector<w::derived> &, AR<const w::base>> && never<ptl::vector<w::derived> &, AR<const w::base>>);
W(array_ref.pointers, never<std::vector<int *> &, AR<const int *>> && conv<std::vector<int *> &, AR<int * const>> && conv<std::vector<int *> &, AR<const int * const>> && never<std::vector<int *> &, AR<void *>> && never<std::vector<void *> &, AR<int *>>);
W(array_ref.volatile, conv<int(&)[3], AR<volatile int>> && never<volatile int(&)[3], AR<int>> && never<volatile int(&)[3], AR<const int>>);
W(array_ref.noncontiguous, never<std::list<int> &, AR<int>> && never<std::deque<int> &, AR<int>> && never<std::map<int, int> &, AR<int>> && never<std::vector<bool> &, AR<bool>>);
W(array_ref.nonrange, never<int, AR<int>> && never<int &, AR<int>> && never<int *, AR<int>> && never<std::nullptr_t, AR<int>> && never<w::ok &, AR<w::ok>> && never<void *, AR<int>> && never<double, AR<const double>> && never<std::optional<int> &, AR<int>>);
W(array_ref.pointers.ctor, is_constructible_v<AR<int>, int *, int *> && is_constructible_v<AR<const int>, int *, int *> && is_constructible_v<AR<const int>, const int *, std::size_t> && !is_constructible_v<AR<int>, const int *, const int *> && !is_constructible_v<AR<int>, const int *, std::size_t> && !is_constructible_v<AR<int>, short *, std::size_t> && !is_constructible_v<AR<w::derived>, w::base *, std::size_t>);
W(array_ref.temporary, never<std::vector<int>, AR<short>> && never<const std::vector<int>, AR<int>>);
// ---- string_ref, string
W(string_ref.from, conv<const char *, ptl::string_ref> && conv<std::string_view, ptl::string_ref> && is_constructible_v<ptl::string_ref, ptl::string &> && conv<const char(&)[4], ptl::string_ref>);
W(string_ref.to, conv<ptl::string_ref, std::string_view> && conv<const ptl::string_ref &, std::string_view> && conv<ptl::string &, std::string_view> && conv<const ptl::string &, std::string_view>);
W(string_ref.not, never<int, ptl::string_ref> && never<char, ptl::string_ref> && never<const wchar_t *, ptl::string_ref> && never<std::vector<char> &, ptl::string_ref> && never<const unsigned char *, ptl::string_ref>);
// ---- optional_ref
W(optional_ref.value, conv<int &, OR<int>> && conv<int &, OR<const int>> && conv<const int &, OR<const int>> && never<const int &, OR<int>>);
W(optional_ref.optional, conv<std::optional<int> &, OR<int>> && conv<std::optional<int> &, OR<const int>> && conv<const std::optional<int> &, OR<const int>> && never<const std::optional<int> &, OR<int>>);
W(optional_ref.ptl, conv<ptl::optional<int> &, OR<int>> && conv<ptl::optional<int> &, OR<const int>> && conv<const ptl::optional<int> &, OR<const int>> && never<const ptl::optional<int> &, OR<int>>);
W(optional_ref.pointer, conv<int *&, OR<int>> && conv<int *&, OR<const int>> && conv<const int *&, OR<const int>> && never<const int *&, OR<int>> && conv<std::unique_ptr<int> &, OR<int>> && conv<const std::shared_ptr<int> &, OR<int>>);
W(optional_ref.nullopt, conv<std::nullopt_t, OR<int>> && conv<const std::nullopt_t &, OR<const int>>);
W(optional_ref.other, conv<OR<int> &, OR<const int>> && never<OR<const int> &, OR<int>> && never<const OR<const int> &, OR<int>>);
W(optional_ref.element, never<short &, OR<int>> && never<std::optional<short> &, OR<int>> && never<std::optional<int> &, OR<long>> && never<long *&, OR<int>> && never<w::ok &, OR<int>> && never<std::string &, OR<char>>);
W(optional_ref.temporary, never<int, OR<int>> && never<std::optional<int>, OR<int>> && never<ptl::optional<int>, OR<int>> && never<w::ok, OR<w::ok>>);
// ---- variant_ref
W(variant_ref.listed, conv<int &, VR<int, char>> && conv<char &, VR<int, char>> && conv<int &, VR<char, int>> && conv<w::ok &, VR<int, w::ok>>);
W(variant_ref.unlisted, never<short &, VR<int, char>> && never<short, VR<int, char>> && never<const short &, VR<int, char>> && never<w::ok &, VR<int, char>> && never<int *, VR<int, char>> && never<w::derived &, VR<w::base>> && never<w::base &, VR<w::derived>>);
W(variant_ref.const, never<const int &, VR<int, char>> && conv<const int &, VR<const int, char>> && conv<int &, VR<const int, char>> && conv<const int &, VR<int, const int>> && conv<int &, VR<const int, int>>);
W(variant_ref.temporary, never<int, VR<int, char>> && conv<int, VR<const int, char>> && never<const int, VR<int, char>> && never<w::ok, VR<w::ok>> && conv<w::ok, VR<const w::ok>>);
W(variant_ref.no_derived, never<w::derived &, VR<const w::base, int>>);
// ---- function_ref
W(function_ref.plain, conv<int(&)(int), FR<int(int)>> && conv<int(*)(int), FR<int(int)>> && conv<int(&)(int) noexcept, FR<int(int)>> && conv<int(*)(int) noexcept, FR<int(int)>> && conv<int(*)(int) noexcept, FR<int(int) noexcept>> && conv<int(*)(int), FR<int(int) const>>);
W(function_ref.plain.throwing, never<int(*)(int), FR<int(int) noexcept>> && never<int(&)(int), FR<int(int) noexcept>> && never<int(*)(int), FR<int(int) const noexcept>>);
W(function_ref.functor, conv<w::fn &, FR<int(int)>> && conv<w::cfn &, FR<int(int)>> && conv<const w::cfn &, FR<int(int)>> && conv<w::nfn &, FR<int(int)>> && conv<w::fn, FR<int(int)>> && conv<w::cfn, FR<int(int) const>>);
W(function_ref.functor.const, never<const w::fn &, FR<int(int)>> && never<w::fn &, FR<int(int) const>> && never<const w::fn &, FR<int(int) const>> && conv<w::cfn &, FR<int(int) const>> && conv<const w::cfn &, FR<int(int) const>> && never<w::nfn &, FR<int(int) const noexcept>> && conv<w::cnfn &, FR<int(int) const noexcept>> && conv<const w::cnfn &, FR<int(int) noexcept>>);
W(function_ref.functor.throwing, never<w::fn &, FR<int(int) noexcept>> && never<w::cfn &, FR<int(int) noexcept>> && never<w::cfn &, FR<int(int) const noexcept>> && conv<w::nfn &, FR<int(int) noexcept>> && conv<w::cnfn &, FR<int(int) noexcept>>);
W(function_ref.signature, never<int(*)(int), FR<int(int, int)>> && never<int(*)(int), FR<int()>> && never<int(*)(w::ok), FR<int(int)>> && never<w::ok(*)(int), FR<int(int)>> && never<void(*)(int), FR<int(int)>> && conv<int(*)(int), FR<void(int)>> && conv<short(*)(long), FR<int(int)>> && never<int(*)(int &), FR<int(const int &)>> && never<int(*)(int &), FR<int(int)>> && conv<int(*)(const int &), FR<int(int &)>>);
W(function_ref.member, never<int w::base::*, FR<int(w::base &)>> && never<int(w::ok::*)(), FR<int(w::ok &)>> && never<int(w::ok::*)() const, FR<int(const w::ok &)>> && never<int(w::ok::*&)(), FR<int(w::ok &)>>);
W(function_ref.unrelated, never<int, FR<int(int)>> && never<int *, FR<int(int)>> && never<std::nullptr_t, FR<int(int)>> && never<w::ok &, FR<void()>> && never<void *, FR<void()>>);
W(function_ref.assign, is_assignable_v<FR<int(int)> &, const FR<int(int)> &> && !is_assignable_v<FR<int(int)> &, w::fn> && !is_assignable_v<FR<int(int)> &, int> && is_assignable_v<FR<int(int)> &, int(*)(int)> && is_assignable_v<FR<int(int)> &, int(&)(int)>);
// ---- array
W(array.args, is_constructible_v<ptl::array<int, 3>, int, int, int> && is_constructible_v<ptl::array<double, 2>, int, float> && !is_constructible_v<ptl::array<int, 2>, w::ok, int> && !is_constructible_v<ptl::array<int, 2>, int, const char *> && !is_constructible_v<ptl::array<w::ok, 1>, int>);
W(array.explicit, !is_constructible_v<ptl::array<std::vector<int>, 1>, int> && !is_constructible_v<ptl::array<int *, 1>, double>);
W(array.other, never<ptl::array<int, 2> &, ptl::array<int, 3>> && never<ptl::array<int, 2>, ptl::array<double, 2>> && conv<ptl::array<int, 2> &, ptl::array<int, 2>> && conv<const ptl::array<w::ok, 2> &, ptl::array<w::ok, 2>>);
// ---- tuple
W(tuple.args, is_constructible_v<ptl::tuple<int, char>, int, char> && !is_constructible_v<ptl::tuple<int, char>, int> && !is_constructible_v<ptl::tuple<int, char>, int, char, int> && !is_constructible_v<ptl::tuple<int>, int, int>);
W(tuple.copy, conv<ptl::tuple<int> &, ptl::tuple<int>> && conv<const ptl::tuple<int> &, ptl::tuple<int>> && conv<ptl::tuple<int, char> &, ptl::tuple<int, char>> && never<ptl::tuple<int, char> &, ptl::tuple<int, int>>);
// ---- optional, variant
W(optional.from, conv<int, ptl::optional<int>> && conv<const int &, ptl::optional<int>> && conv<std::nullopt_t, ptl::optional<int>> && never<w::ok, ptl::optional<int>> && never<ptl::optional<int>, int> && never<ptl::optional<w::ok>, w::ok> && never<std::nullptr_t, ptl::optional<int>>);
W(optional.bool, is_constructible_v<bool, ptl::optional<int>> && !is_convertible_v<ptl::optional<int>, bool> && is_constructible_v<bool, OR<int>> && !is_convertible_v<OR<int>, bool>);
W(optional.in_place, is_constructible_v<ptl::optional<w::ok>, std::in_place_t> && !is_convertible_v<std::in_place_t, ptl::optional<w::ok>>);
W(variant.from, conv<int, ptl::variant<int, char>> && conv<char &, ptl::variant<int, char>> && conv<const char &, ptl::variant<int, char>> && never<short, ptl::variant<int, char>> && never<w::ok, ptl::variant<int, char>> && never<const char *, ptl::variant<bool, ptl::string>>);
W(variant.assign, is_assignable_v<ptl::variant<int, char> &, int> && is_assignable_v<ptl::variant<int, char> &, const char &> && !is_assignable_v<ptl::variant<int, char> &, short> && !is_assignable_v<ptl::variant<int, char> &, w::ok>);
W(bitset.from, is_constructible_v<ptl::bitset<9>, std::size_t> && !is_convertible_v<std::size_t, ptl::bitset<9>> && never<ptl::bitset<8>, ptl::bitset<9>>);
struct t1 {}; struct t2 {};
W(bitset.tag, never<ptl::bitset<9, t1>, ptl::bitset<9, t2>> && never<ptl::bitset<9>, ptl::bitset<9, t1>> && !is_constructible_v<bool, ptl::bitset<9>>);
W(vector.from, is_constructible_v<ptl::vector<int>, std::initializer_list<int>> && never<std::vector<int> &, ptl::vector<int>>);
W(string.from, is_constructible_v<ptl::string, const char *> && is_constructible_v<ptl::string, std::string_view> && is_constructible_v<ptl::string, ptl::string_ref> && never<int, ptl::string>);
