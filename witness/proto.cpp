// @props C35
#include "types.hpp"
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
using std::is_same_v;
template<typename T> auto l() noexcept -> T &;
template<typename T> auto c() noexcept -> const T &;
template<typename T> auto r() noexcept -> T &&;
template<typename T> auto k() noexcept -> const T &&;
using A3 = ptl::array<char, 3>;
using T3 = ptl::tuple<int, char, w::ok>;
W(ctad.array, is_same_v<decltype(ptl::array{1, 2, 3}), ptl::array<int, 3>> && is_same_v<decltype(ptl::array{'a'}), ptl::array<char, 1>> && is_same_v<decltype(ptl::array{1.0, 2.f}), ptl::array<double, 2>> && is_same_v<decltype(ptl::array{c<int>(), l<int>()}), ptl::array<int, 2>> && is_same_v<decltype(ptl::array{w::ok{}, w::ok{}}), ptl::array<w::ok, 2>>);
W(ctad.array.copy, is_same_v<decltype(ptl::array{c<ptl::array<int, 3>>()}), ptl::array<int, 3>>);
W(ctad.array_ref.carray, is_same_v<decltype(ptl::array_ref{l<int[3]>()}), ptl::array_ref<int>> && is_same_v<decltype(ptl::array_ref{l<const int[3]>()}), ptl::array_ref<const int>>);
W(ctad.array_ref.range, is_same_v<decltype(ptl::array_ref{l<std::vector<int>>()}), ptl::array_ref<int>> && is_same_v<decltype(ptl::array_ref{c<std::vector<int>>()}), ptl::array_ref<const int>> && is_same_v<decltype(ptl::array_ref{l<ptl::vector<w::ok>>()}), ptl::array_ref<w::ok>> && is_same_v<decltype(ptl::array_ref{c<ptl::array<char, 2>>()}), ptl::array_ref<const char>>);
W(ctad.array_ref.pointers, is_same_v<decltype(ptl::array_ref{val<int *>(), val<int *>()}), ptl::array_ref<int>> && is_same_v<decltype(ptl::array_ref{val<const int *>(), std::size_t{}}), ptl::array_ref<const int>>);
W(ctad.array_ref.copy, is_same_v<decltype(ptl::array_ref{l<ptl::array_ref<int>>()}), ptl::array_ref<int>> && is_same_v<decltype(ptl::array_ref{c<ptl::array_ref<int>>()}), ptl::array_ref<int>>);
W(ctad.optional_ref, is_same_v<decltype(ptl::optional_ref{l<ptl::optional<int>>()}), ptl::optional_ref<int>> && is_same_v<decltype(ptl::optional_ref{c<ptl::optional<int>>()}), ptl::optional_ref<const int>> && is_same_v<decltype(ptl::optional_ref{l<std::optional<w::ok>>()}), ptl::optional_ref<w::ok>> && is_same_v<decltype(ptl::optional_ref{c<std::optional<w::ok>>()}), ptl::optional_ref<const w::ok>>);
W(ctad.optional_ref.pointer, is_same_v<decltype(ptl::optional_ref{l<int *>()}), ptl::optional_ref<int>> && is_same_v<decltype(ptl::optional_ref{l<const int *>()}), ptl::optional_ref<const int>> && is_same_v<decltype(ptl::optional_ref{l<std::unique_ptr<int>>()}), ptl::optional_ref<int>>);
W(ctad.function_ref, is_same_v<decltype(ptl::function_ref{w::plain}), ptl::function_ref<int(int)>> && is_same_v<decltype(ptl::function_ref{&w::plain}), ptl::function_ref<int(int)>> && is_same_v<decltype(ptl::function_ref{&w::nplain}), ptl::function_ref<int(int) noexcept>>);
W(ctad.tuple, is_same_v<decltype(ptl::tuple{1, 'c', 2.0}), ptl::tuple<int, char, double>> && is_same_v<decltype(ptl::tuple{c<int>()}), ptl::tuple<int>> && is_same_v<decltype(ptl::tuple{l<w::ok>(), "x"}), ptl::tuple<w::ok, const char *>>);
W(ctad.vector, is_same_v<decltype(ptl::vector{1, 2, 3}), ptl::vector<int>> && is_same_v<decltype(ptl::vector(val<int *>(), val<int *>())), ptl::vector<int>> && is_same_v<decltype(ptl::vector(val<std::list<w::ok>::iterator>(), val<std::list<w::ok>::iterator>())), ptl::vector<w::ok>> && is_same_v<decltype(ptl::vector(val<std::istream_iterator<char>>(), val<std::istream_iterator<char>>())), ptl::vector<char>>);
W(ctad.vector.copy, is_same_v<decltype(ptl::vector(l<ptl::vector<int>>())), ptl::vector<int>> && is_same_v<decltype(ptl::vector(std::size_t{3}, 'c')), ptl::vector<char>>);
W(ctad.vector.const_iter, is_same_v<decltype(ptl::vector(val<const int *>(), val<const int *>())), ptl::vector<int>>);
W(ctad.optional, is_same_v<decltype(ptl::optional{1}), ptl::optional<int>> && is_same_v<decltype(ptl::optional{w::ok{}}), ptl::optional<w::ok>>);
W(size.array, std::tuple_size_v<ptl::array<int, 3>> == 3 && std::tuple_size_v<ptl::array<w::ok, 1>> == 1 && std::tuple_size_v<ptl::array<int, 0>> == 0 && std::tuple_size_v<const ptl::array<int, 4>> == 4);
W(size.tuple, std::tuple_size_v<ptl::tuple<int>> == 1 && std::tuple_size_v<T3> == 3 && std::tuple_size_v<const T3> == 3);
W(size.bitset, std::tuple_size_v<ptl::bitset<9>> == 9 && std::tuple_size_v<ptl::bitset<0>> == 0 && std::tuple_size_v<ptl::bitset<64, w::base>> == 64);
W(element.array, is_same_v<std::tuple_element_t<0, A3>, char> && is_same_v<std::tuple_element_t<2, A3>, char> && is_same_v<std::tuple_element_t<1, const A3>, const char>);
W(element.tuple, is_same_v<std::tuple_element_t<0, T3>, int> && is_same_v<std::tuple_element_t<1, T3>, char> && is_same_v<std::tuple_element_t<2, T3>, w::ok> && is_same_v<std::tuple_element_t<2, const T3>, const w::ok>);
using TC = ptl::tuple<const long, char, const int, volatile short>;
W(element.tuple.qualified, is_same_v<std::tuple_element_t<0, TC>, const long> && is_same_v<std::tuple_element_t<1, TC>, char> && is_same_v<std::tuple_element_t<2, TC>, const int> && is_same_v<std::tuple_element_t<3, TC>, volatile short> && is_same_v<std::tuple_element_t<0, ptl::tuple<const w::ok>>, const w::ok>);
W(element.tuple.const_object, is_same_v<std::tuple_element_t<1, const TC>, const char> && is_same_v<std::tuple_element_t<3, const TC>, const volatile short> && is_same_v<std::tuple_element_t<0, const T3>, const int>);
W(element.bitset, is_same_v<std::tuple_element_t<0, ptl::bitset<9>>, bool> && is_same_v<std::tuple_element_t<8, ptl::bitset<9>>, bool>);
// @props C35,C34
W(get.array, is_same_v<decltype(get<1>(l<A3>())), char &> && is_same_v<decltype(get<1>(c<A3>())), const char &> && is_same_v<decltype(get<1>(r<A3>())), char &&> && is_same_v<decltype(get<1>(k<A3>())), const char &&>);
W(get.tuple, is_same_v<decltype(l<T3>().get<1>()), char &> && is_same_v<decltype(c<T3>().get<1>()), const char &> && is_same_v<decltype(r<T3>().get<1>()), char &&> && is_same_v<decltype(k<T3>().get<1>()), const char &&> && is_same_v<decltype(l<T3>().get<2>()), w::ok &> && is_same_v<decltype(l<T3>().get<0>()), int &>);
W(get.tuple.qualified, is_same_v<decltype(l<TC>().get<0>()), const long &> && is_same_v<decltype(l<TC>().get<1>()), char &> && is_same_v<decltype(r<TC>().get<2>()), const int &&> && is_same_v<decltype(c<TC>().get<3>()), const volatile short &>);
W(copy.tuple.qualified, std::is_copy_constructible_v<ptl::tuple<const long, char>> && std::is_constructible_v<ptl::tuple<const long, char>, int, char>);
W(get.bitset, is_same_v<decltype(get<1>(c<ptl::bitset<9>>())), bool>);
W(get.noexcept, noexcept(get<1>(l<A3>())) && noexcept(get<1>(r<A3>())) && noexcept(l<T3>().get<1>()) && noexcept(r<T3>().get<1>()) && noexcept(get<1>(c<ptl::bitset<9>>())));
W(access.array, is_same_v<decltype(l<A3>()[0]), char &> && is_same_v<decltype(c<A3>()[0]), const char &> && is_same_v<decltype(l<A3>().at(0)), char &> && is_same_v<decltype(c<A3>().at(0)), const char &> && is_same_v<decltype(l<A3>().front()), char &> && is_same_v<decltype(c<A3>().back()), const char &> && is_same_v<decltype(l<A3>().data()), char *> && is_same_v<decltype(c<A3>().data()), const char *>);
A(bind.array, ptl::array<int COMMA 2> a{1 COMMA 2}; auto & [x COMMA y]{a}; static_assert(is_same_v<decltype((x)) COMMA int &>); const auto & [p COMMA q]{a}; static_assert(is_same_v<decltype((q)) COMMA const int &>); auto && [u COMMA v]{std::move(a)}; (void)x; (void)y; (void)p; (void)q; (void)u; (void)v;)
A(bind.tuple, ptl::tuple<int COMMA char> a{1 COMMA 'c'}; auto & [x COMMA y]{a}; static_assert(is_same_v<decltype((y)) COMMA char &>); const auto & [p COMMA q]{a}; static_assert(is_same_v<decltype((q)) COMMA const char &>); (void)x; (void)y; (void)p; (void)q;)
A(bind.bitset, ptl::bitset<3> a; auto [x COMMA y COMMA z]{a}; static_assert(is_same_v<decltype(y) COMMA bool>); (void)x; (void)y; (void)z;)
