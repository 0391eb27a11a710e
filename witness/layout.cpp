// @props C01
#include "types.hpp"
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
constexpr std::size_t P{sizeof(void *)};
template<std::size_t N> using BS = ptl::bitset<N>;
struct a_tag {};
template<typename T, std::size_t N> constexpr bool same_as_array{sizeof(ptl::array<T, N>) == sizeof(T[N]) && alignof(ptl::array<T, N>) == alignof(T)};
template<typename T> constexpr bool opt_size{sizeof(ptl::optional<T>) == sizeof(T) + 1 && alignof(ptl::optional<T>) == 1};
template<typename... T> constexpr std::size_t max_{0};
template<typename H, typename... T> constexpr std::size_t max_<H, T...>{sizeof(H) > max_<T...> ? sizeof(H) : max_<T...>};
template<typename... T> constexpr bool var_size{sizeof(ptl::variant<T...>) == max_<T...> + 1 && alignof(ptl::variant<T...>) == 1};
template<std::size_t N> constexpr bool bits_size{sizeof(BS<N>) == (N == 0 ? 1 : (N + 7) / 8) && alignof(BS<N>) == 1};
template<std::size_t... N> constexpr auto all_bits(std::index_sequence<N...>) -> bool { return (bits_size<N> && ...); }
template<typename T> constexpr bool vec_size{sizeof(ptl::vector<T>) == 4 * P && alignof(ptl::vector<T>) == alignof(void *)};
W(array.int, same_as_array<int, 1> && same_as_array<int, 7>);
W(array.char, same_as_array<char, 1> && same_as_array<char, 3> && same_as_array<w::triv, 5>);
W(array.double, same_as_array<double, 2> && same_as_array<long double, 3>);
W(array.class, same_as_array<w::ok, 4> && same_as_array<w::over, 2> && same_as_array<ptl::array<char, 3>, 3>);
W(array.zero, sizeof(ptl::array<int, 0>) == P && sizeof(ptl::array<w::over, 0>) == P && alignof(ptl::array<char, 0>) == alignof(void *));
W(array_ref, sizeof(ptl::array_ref<int>) == 2 * P && sizeof(ptl::array_ref<const w::ok>) == 2 * P && sizeof(ptl::array_ref<char>) == 2 * P && alignof(ptl::array_ref<char>) == alignof(void *) && sizeof(ptl::array_ref<w::over>) == 2 * P);
W(array_ref.iterator, sizeof(ptl::array_ref<int>::iterator) == P && sizeof(ptl::array_ref<int>::const_iterator) == P && alignof(ptl::array_ref<int>::iterator) == alignof(void *));
W(array.iterator, sizeof(ptl::array<int, 3>::iterator) == P && sizeof(ptl::array<int, 3>::const_iterator) == P);
W(vector.iterator, sizeof(ptl::vector<int>::iterator) == P && sizeof(ptl::vector<int>::const_iterator) == P);
W(string.iterator, sizeof(ptl::string::iterator) == P && sizeof(ptl::string::const_iterator) == P && sizeof(ptl::string_ref::iterator) == P);
W(string_ref, sizeof(ptl::string_ref) == 2 * P && alignof(ptl::string_ref) == alignof(void *));
W(string, sizeof(ptl::string) == 4 * P && alignof(ptl::string) == alignof(void *));
W(vector, vec_size<int> && vec_size<char> && vec_size<w::ok> && vec_size<w::over> && vec_size<ptl::string> && vec_size<ptl::vector<int>>);
W(optional.scalar, opt_size<char> && opt_size<short> && opt_size<int> && opt_size<long> && opt_size<double> && opt_size<void *> && opt_size<bool> && opt_size<long double>);
W(optional.class, opt_size<w::ok> && opt_size<w::triv> && opt_size<w::over> && opt_size<w::no_default> && opt_size<ptl::string> && opt_size<ptl::optional<int>>);
W(optional.empty, sizeof(ptl::optional<w::fn>) == sizeof(w::fn) + 1);
W(variant.one, var_size<int> && var_size<char> && var_size<w::ok> && var_size<w::over>);
W(variant.many, var_size<int, char> && var_size<char, int> && var_size<char, int, double> && var_size<double, char, int> && var_size<w::triv, short, w::ok> && var_size<ptl::string, int, ptl::vector<int>> && var_size<w::over, char>);
W(variant.padded, var_size<w::triv, short> && var_size<short, w::triv> && var_size<ptl::optional<ptl::string>, long *> && var_size<long *, char, ptl::optional<int>> && var_size<ptl::array<char, 9>, int>);
W(variant.big, var_size<w::num<0>, w::num<1>, w::num<2>, w::num<3>, w::num<4>, w::num<5>, w::num<6>, w::num<7>, w::num<8>, w::num<9>, w::num<10>, w::num<11>, w::num<12>, w::num<13>, w::num<14>, w::num<15>, w::num<16>>);
W(bitset, all_bits(std::make_index_sequence<200>{}));
W(bitset.big, bits_size<1024> && bits_size<1025> && bits_size<4096>);
W(bitset.tag, sizeof(ptl::bitset<17, a_tag>) == 3 && sizeof(ptl::bitset<64, a_tag>) == 8);
W(optional_ref, sizeof(ptl::optional_ref<int>) == P && sizeof(ptl::optional_ref<const w::ok>) == P && alignof(ptl::optional_ref<char>) == alignof(void *));
W(variant_ref, sizeof(ptl::variant_ref<int>) == 2 * P && sizeof(ptl::variant_ref<int, const int, char>) == 2 * P && sizeof(ptl::variant_ref<w::ok, w::over, w::triv, char, short>) == 2 * P && alignof(ptl::variant_ref<char>) == alignof(void *));
W(function_ref, sizeof(ptl::function_ref<void()>) == 2 * P && sizeof(ptl::function_ref<int(int) const>) == 2 * P && sizeof(ptl::function_ref<int(int) noexcept>) == 2 * P && sizeof(ptl::function_ref<w::ok &(w::ok &, int, char) const noexcept>) == 2 * P && alignof(ptl::function_ref<void()>) == alignof(void *));
W(tuple, sizeof(ptl::tuple<char, int>) == 5 && sizeof(ptl::tuple<int, char>) == 5 && sizeof(ptl::tuple<char, double, short>) == 11 && sizeof(ptl::tuple<int>) == 4);
W(bitset.reference, sizeof(ptl::bitset<8>::reference) == 2 * P);
// @props C03
template<typename T> constexpr bool view{std::is_trivially_copy_constructible_v<T> && std::is_trivially_copy_assignable_v<T> && std::is_trivially_destructible_v<T> && std::is_trivially_copyable_v<T> && std::is_trivially_move_constructible_v<T> && std::is_trivially_move_assignable_v<T> && sizeof(T) <= 2 * P};
template<typename T> constexpr bool sl{std::is_standard_layout_v<T> && !std::is_polymorphic_v<T> && !std::has_virtual_destructor_v<T>};
W(view.array_ref, view<ptl::array_ref<int>> && view<ptl::array_ref<const w::ok>> && view<ptl::array_ref<ptl::string>>);
W(view.string_ref, view<ptl::string_ref>);
W(view.optional_ref, view<ptl::optional_ref<int>> && view<ptl::optional_ref<const w::ok>>);
W(view.function_ref, view<ptl::function_ref<void()>> && view<ptl::function_ref<int(int) const>> && view<ptl::function_ref<void(w::ok) noexcept>> && view<ptl::function_ref<w::ok(int &&) const noexcept>>);
W(view.variant_ref.dtor, std::is_trivially_destructible_v<ptl::variant_ref<int, char>> && std::is_trivially_destructible_v<ptl::variant_ref<w::ok, const w::ok>>);
W(view.iterators, view<ptl::vector<int>::iterator> && view<ptl::vector<int>::const_iterator> && view<ptl::array<int, 2>::iterator> && view<ptl::array<int, 2>::const_iterator> && view<ptl::array_ref<int>::iterator> && view<ptl::array_ref<int>::const_iterator> && view<ptl::string::iterator> && view<ptl::string::const_iterator> && view<ptl::string_ref::iterator>);
W(sl.array, sl<ptl::array<int, 3>> && sl<ptl::array<w::ok, 3>> && sl<ptl::array<char, 0>>);
W(sl.vector, sl<ptl::vector<int>> && sl<ptl::vector<w::ok>> && sl<ptl::vector<ptl::string>>);
W(sl.string, sl<ptl::string> && sl<ptl::string_ref>);
W(sl.optional, sl<ptl::optional<int>> && sl<ptl::optional<w::ok>> && sl<ptl::optional<ptl::string>> && sl<ptl::optional_ref<w::ok>>);
W(sl.variant, sl<ptl::variant<int>> && sl<ptl::variant<w::ok, char>> && sl<ptl::variant<ptl::string, int>> && sl<ptl::variant_ref<int, w::ok>>);
W(sl.bitset, sl<ptl::bitset<0>> && sl<ptl::bitset<9>> && sl<ptl::bitset<64>>);
W(sl.views, sl<ptl::array_ref<int>> && sl<ptl::function_ref<void()>> && sl<ptl::function_ref<int(char) const noexcept>>);
W(triv.array, std::is_trivially_copyable_v<ptl::array<int, 3>> && std::is_trivially_copyable_v<ptl::array<w::triv, 2>> && std::is_trivially_destructible_v<ptl::array<int, 0>>);
W(triv.bitset, std::is_trivially_copyable_v<ptl::bitset<1>> && std::is_trivially_copyable_v<ptl::bitset<100>> && std::is_trivially_copyable_v<ptl::bitset<0>>);
W(final, std::is_final_v<ptl::vector<int>> && std::is_final_v<ptl::string> && std::is_final_v<ptl::optional<int>> && std::is_final_v<ptl::variant<int>> && std::is_final_v<ptl::bitset<3>> && std::is_final_v<ptl::array<int, 2>> && std::is_final_v<ptl::array_ref<int>> && std::is_final_v<ptl::string_ref> && std::is_final_v<ptl::optional_ref<int>> && std::is_final_v<ptl::variant_ref<int>> && std::is_final_v<ptl::function_ref<void()>>);
W(view.default, std::is_nothrow_default_constructible_v<ptl::array_ref<int>> && std::is_nothrow_default_constructible_v<ptl::string_ref> && std::is_nothrow_default_constructible_v<ptl::optional_ref<int>> && !std::is_default_constructible_v<ptl::function_ref<void()>> && !std::is_default_constructible_v<ptl::variant_ref<int>>);
