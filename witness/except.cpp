// @props C19
#include "types.hpp"
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
template<typename T> constexpr bool owner{std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T> && std::is_nothrow_swappable_v<T> && std::is_nothrow_destructible_v<T>};
template<typename T> constexpr bool copies{owner<T> && std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_copy_assignable_v<T>};
#define N(...) noexcept(__VA_ARGS__)
using V = ptl::vector<w::throw_copy>;
using S = ptl::string;
using O = ptl::optional<w::throw_copy>;
using X = ptl::variant<w::throw_copy, int>;
using B = ptl::bitset<9>;
using A3 = ptl::array<int, 3>;
using AR = ptl::array_ref<int>;
using SR = ptl::string_ref;
template<typename T> auto l() noexcept -> T &;
template<typename T> auto c() noexcept -> const T &;
W(vector.special, owner<V> && owner<ptl::vector<int>> && owner<ptl::vector<S>> && std::is_nothrow_default_constructible_v<V> && !std::is_nothrow_copy_constructible_v<V>);
W(vector.queries, N(c<V>().size()) && N(c<V>().capacity()) && N(c<V>().empty()) && N(c<V>().max_size()) && N(c<V>().data()) && N(l<V>().data()) && N(c<V>()[0]) && N(l<V>()[0]) && N(c<V>().front()) && N(l<V>().front()) && N(c<V>().back()) && N(l<V>().back()));
W(vector.iter, N(c<V>().begin()) && N(l<V>().begin()) && N(c<V>().cbegin()) && N(c<V>().end()) && N(l<V>().end()) && N(c<V>().cend()) && N(c<V>().rbegin()) && N(l<V>().rbegin()) && N(c<V>().crbegin()) && N(c<V>().rend()) && N(l<V>().rend()) && N(c<V>().crend()));
W(vector.removal, N(l<V>().clear()) && N(l<V>().pop_back()) && N(l<V>().erase(c<V>().begin())) && N(l<V>().erase(c<V>().begin(), c<V>().end())) && N(l<V>().shrink_to_fit()) && N(l<V>().swap(l<V>())) && N(swap(l<V>(), l<V>())));
W(string.special, owner<S> && std::is_nothrow_default_constructible_v<S>);
W(string.queries, N(c<S>().size()) && N(c<S>().capacity()) && N(c<S>().empty()) && N(c<S>().max_size()) && N(c<S>().data()) && N(l<S>().data()) && N(c<S>().c_str()) && N(c<S>()[0]) && N(l<S>()[0]) && N(c<S>().front()) && N(l<S>().back()) && N(static_cast<std::string_view>(c<S>())));
W(string.iter, N(c<S>().begin()) && N(l<S>().begin()) && N(c<S>().cbegin()) && N(c<S>().end()) && N(l<S>().end()) && N(c<S>().cend()) && N(c<S>().rbegin()) && N(l<S>().rend()));
W(string.removal, N(l<S>().clear()) && N(l<S>().pop_back()) && N(l<S>().erase(c<S>().begin())) && N(l<S>().erase(c<S>().begin(), c<S>().end())) && N(l<S>().shrink_to_fit()) && N(l<S>().swap(l<S>())) && N(swap(l<S>(), l<S>())));
W(optional.special, owner<O> && owner<ptl::optional<int>> && owner<ptl::optional<S>> && std::is_nothrow_default_constructible_v<O> && std::is_nothrow_constructible_v<O, std::nullopt_t> && std::is_nothrow_constructible_v<O, w::throw_copy &&>);
W(optional.queries, N(c<O>().has_value()) && N(static_cast<bool>(c<O>())) && N(*c<O>()) && N(*l<O>()) && N(c<O>().operator->()) && N(l<O>().operator->()) && N(*std::move(l<O>())) && N(*std::move(c<O>())));
W(optional.removal, N(l<O>().reset()) && N(l<O>() = std::nullopt) && N(l<O>() = std::declval<w::throw_copy &&>()) && N(l<O>().swap(l<O>())) && N(swap(l<O>(), l<O>())));
W(variant.special, owner<X> && owner<ptl::variant<int>> && owner<ptl::variant<S, V>> && owner<ptl::variant<w::throw_default>>);
W(variant.queries, N(c<X>().holds<int>()) && N(c<X>().get_if<int>()) && N(l<X>().get_if<int>()) && N(l<X>().swap(l<X>())) && N(swap(l<X>(), l<X>())));
W(bitset.special, copies<B> && std::is_nothrow_default_constructible_v<B> && std::is_nothrow_constructible_v<B, std::size_t>);
W(bitset.ops, N(c<B>().count()) && N(c<B>().all()) && N(c<B>().any()) && N(c<B>().none()) && N(c<B>().size()) && N(c<B>()[0]) && N(l<B>()[0]) && N(l<B>().set()) && N(l<B>().reset()) && N(l<B>().flip()) && N(l<B>() <<= 1) && N(l<B>() >>= 1) && N(c<B>() << 1) && N(~c<B>()) && N(l<B>() &= c<B>()) && N(l<B>() |= c<B>()) && N(l<B>() ^= c<B>()) && N(c<B>() == c<B>()) && N(l<B>().swap(l<B>())));
W(bitset.checked, !N(c<B>().test(0)) && !N(l<B>().set(0)) && !N(l<B>().reset(0)) && !N(l<B>().flip(0)) && !N(c<B>().at(0)));
W(array.special, owner<A3> && owner<ptl::array<S, 2>> && owner<ptl::array<w::throw_copy, 2>>);
W(array.queries, N(c<A3>().size()) && N(c<A3>().empty()) && N(c<A3>().data()) && N(l<A3>().data()) && N(c<A3>()[0]) && N(l<A3>()[0]) && N(c<A3>().front()) && N(l<A3>().back()) && N(c<A3>().begin()) && N(l<A3>().end()) && N(c<A3>().rbegin()) && N(l<A3>().swap(l<A3>())) && N(get<0>(c<A3>())) && N(get<0>(l<A3>())));
W(array_ref, copies<AR> && N(c<AR>().size()) && N(c<AR>().empty()) && N(c<AR>().data()) && N(c<AR>()[0]) && N(c<AR>().front()) && N(c<AR>().back()) && N(c<AR>().first(0)) && N(c<AR>().last(0)) && N(c<AR>().subrange(0)) && N(c<AR>().subrange(0, 0)) && N(c<AR>().begin()) && N(l<AR>().begin()) && N(c<AR>().end()) && N(c<AR>().rbegin()) && N(c<AR>().crend()) && std::is_nothrow_constructible_v<AR, int *, int *> && std::is_nothrow_constructible_v<AR, int *, std::size_t>);
W(string_ref, copies<SR> && N(c<SR>().size()) && N(c<SR>().empty()) && N(c<SR>().data()) && N(c<SR>()[0]) && N(c<SR>().front()) && N(c<SR>().substr(0)) && N(c<SR>().substr(0, 0)) && N(l<SR>().remove_prefix(0)) && N(l<SR>().remove_suffix(0)) && N(c<SR>().begin()) && N(c<SR>().rend()) && N(static_cast<std::string_view>(c<SR>())) && std::is_nothrow_constructible_v<SR, const char *> && std::is_nothrow_constructible_v<SR, std::string_view>);
W(optional_ref, copies<ptl::optional_ref<int>> && N(*c<ptl::optional_ref<int>>()) && N(c<ptl::optional_ref<int>>().has_value()) && N(static_cast<bool>(c<ptl::optional_ref<int>>())) && std::is_nothrow_constructible_v<ptl::optional_ref<int>, int &> && !N(c<ptl::optional_ref<int>>().value()));
W(function_ref, copies<ptl::function_ref<int(int)>> && std::is_nothrow_constructible_v<ptl::function_ref<int(int)>, w::fn &> && std::is_nothrow_constructible_v<ptl::function_ref<int(int)>, int(*)(int)> && noexcept(c<ptl::function_ref<int(int) noexcept>>()(1)) && !noexcept(c<ptl::function_ref<int(int)>>()(1)) && noexcept(c<ptl::function_ref<int(int) const noexcept>>()(1)) && !noexcept(c<ptl::function_ref<int(int) const>>()(1)));
W(variant_ref, std::is_nothrow_destructible_v<ptl::variant_ref<int>> && std::is_nothrow_constructible_v<ptl::variant_ref<int, char>, int &> && N(c<ptl::variant_ref<int, char>>().holds<int>()) && N(c<ptl::variant_ref<int, char>>().get_if<int>()));
template<typename T> constexpr bool compares{N(c<T>() == c<T>()) && N(c<T>() != c<T>()) && N(c<T>() < c<T>()) && N(c<T>() <= c<T>()) && N(c<T>() > c<T>()) && N(c<T>() >= c<T>())};
W(compare, compares<ptl::vector<int>> && compares<S> && compares<SR> && compares<ptl::optional<int>> && compares<ptl::variant<int, char>> && compares<A3> && compares<ptl::tuple<int, char>> && N(c<B>() == c<B>()) && N(c<B>() != c<B>()));
W(hash, N(std::hash<S>{}(c<S>())) && N(std::hash<SR>{}(c<SR>())) && N(std::hash<B>{}(c<B>())));
template<typename I> constexpr bool iter{copies<I> && std::is_nothrow_default_constructible_v<I> && compares<I> && N(++l<I>()) && N(l<I>()++) && N(--l<I>()) && N(l<I>()--) && N(*c<I>()) && N(c<I>().operator->()) && N(c<I>()[0]) && N(l<I>() += 1) && N(l<I>() -= 1) && N(c<I>() + 1) && N(1 + c<I>()) && N(c<I>() - 1) && N(c<I>() - c<I>())};
template<typename T> constexpr bool iters{iter<typename T::iterator> && iter<typename T::const_iterator> && std::is_nothrow_constructible_v<typename T::const_iterator, typename T::iterator>};
template<typename T> constexpr bool ranges{N(c<T>().begin()) && N(l<T>().begin()) && N(c<T>().cbegin()) && N(c<T>().end()) && N(l<T>().end()) && N(c<T>().cend()) && N(c<T>().rbegin()) && N(l<T>().rbegin()) && N(c<T>().crbegin()) && N(c<T>().rend()) && N(l<T>().rend()) && N(c<T>().crend())};
W(iterators, iters<V> && iters<S> && iters<A3> && iters<AR> && iters<SR> && iters<ptl::array_ref<const int>>);
W(ranges, ranges<V> && ranges<S> && ranges<A3> && ranges<AR> && ranges<SR> && ranges<ptl::array<int, 0>>);
W(string.data, N(l<S>().front()) && N(c<S>().back()) && N(c<SR>().back()) && N(c<SR>().max_size()) && std::is_nothrow_swappable_v<SR>);
W(array.more, N(c<A3>().max_size()) && N(c<A3>().back()) && N(l<A3>().front()) && N(swap(l<A3>(), l<A3>())) && N(get<0>(std::move(l<A3>()))) && N(get<0>(std::move(c<A3>()))));
W(tuple, owner<ptl::tuple<int, S>> && N(swap(l<ptl::tuple<int, S>>(), l<ptl::tuple<int, S>>())) && N(c<ptl::tuple<int, S>>().get<0>()) && N(l<ptl::tuple<int, S>>().get<1>()) && N(std::move(l<ptl::tuple<int, S>>()).get<1>()));
W(optional_ref.more, N(c<ptl::optional_ref<int>>().operator->()) && std::is_nothrow_default_constructible_v<ptl::optional_ref<int>> && std::is_nothrow_constructible_v<ptl::optional_ref<int>, std::nullopt_t> && std::is_nothrow_constructible_v<ptl::optional_ref<int>, ptl::optional<int> &>);
W(views.more, std::is_nothrow_swappable_v<AR> && std::is_nothrow_constructible_v<AR, ptl::array<int, 2> &> && std::is_nothrow_constructible_v<AR, int(&)[2]>);
W(bitset.more, N(c<B>() & c<B>()) && N(c<B>() | c<B>()) && N(c<B>() ^ c<B>()) && N(c<B>() >> 1) && N(l<B>()[0] = true) && N(l<B>()[0].flip()) && N(~l<B>()[0]) && N(static_cast<bool>(l<B>()[0])) && N(swap(l<B>(), l<B>())));
W(function_ref.more, std::is_nothrow_swappable_v<ptl::function_ref<int(int)>> && std::is_nothrow_swappable_v<ptl::function_ref<int(int) const noexcept>>);
W(variant_ref.more, std::is_nothrow_swappable_v<ptl::variant_ref<int, char>> && std::is_nothrow_copy_constructible_v<ptl::variant_ref<int, char>> && std::is_nothrow_copy_assignable_v<ptl::variant_ref<int, char>>);
W(const_iter.mixed, N(l<V>().begin() == c<V>().begin()) && N(c<S>().end() - l<S>().begin()));
template<typename A, typename C> constexpr bool compares2{N(c<A>() == c<C>()) && N(c<A>() != c<C>()) && N(c<A>() < c<C>()) && N(c<A>() <= c<C>()) && N(c<A>() > c<C>()) && N(c<A>() >= c<C>()) && N(c<C>() == c<A>()) && N(c<C>() != c<A>()) && N(c<C>() < c<A>()) && N(c<C>() <= c<A>()) && N(c<C>() > c<A>()) && N(c<C>() >= c<A>())};
W(compare.optional.nullopt, compares2<ptl::optional<int>, std::nullopt_t> && compares2<ptl::optional<S>, std::nullopt_t>);
W(compare.optional.value, compares2<ptl::optional<int>, int> && compares2<ptl::optional<S>, S>);
W(compare.string.view, compares2<S, std::string_view> && compares2<S, const char *>);
W(string.substr.rvalue, N(l<S>().size()) && noexcept(std::declval<S>().substr(0)) && noexcept(std::declval<S>().substr(0, 0)) && !N(c<S>().substr(0)));
W(bitset.reference, N(l<B>()[0] = l<B>()[1]) && N(swap(l<B>()[0], l<B>()[1])) && N(l<B>()[0].swap(l<typename B::reference>())) && std::is_nothrow_destructible_v<typename B::reference>);
W(bitset.size, N(B::size()) && N(B::empty()) && N(B::max_size()) && N(c<B>().empty()) && N(c<B>().max_size()));
W(string_ref.more, std::is_nothrow_constructible_v<SR, const char *, std::size_t> && std::is_nothrow_default_constructible_v<SR> && std::is_nothrow_default_constructible_v<AR> && N(ptl::literals::operator""_sr("", 0)));
W(tuple.get.const_rvalue, noexcept(std::declval<const ptl::tuple<int, S> &&>().get<0>()) && noexcept(std::declval<const ptl::tuple<int, S> &&>().get<1>()) && N(l<ptl::tuple<int, S>>().swap(l<ptl::tuple<int, S>>())));
