// @props C23
#include "types.hpp"
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
using std::is_same_v;
using std::is_convertible_v;
using std::is_constructible_v;
using std::is_assignable_v;
template<typename T> auto l() noexcept -> T &;
template<typename T> auto c() noexcept -> const T &;
template<typename I> using TR = std::iterator_traits<I>;
template<typename I, typename V, typename R, typename P> constexpr bool traits{is_same_v<typename TR<I>::value_type, V> && is_same_v<typename TR<I>::reference, R> && is_same_v<typename TR<I>::pointer, P> && is_same_v<typename TR<I>::difference_type, std::ptrdiff_t> && std::is_base_of_v<std::random_access_iterator_tag, typename TR<I>::iterator_category>};
// mutable iterator of V elements / constant iterator of V elements
template<typename I, typename V> constexpr bool mut{traits<I, V, V &, V *>};
template<typename I, typename V> constexpr bool con{traits<I, V, const V &, const V *>};
template<typename I> constexpr bool regular{std::is_nothrow_default_constructible_v<I> && std::is_nothrow_copy_constructible_v<I> && std::is_nothrow_move_constructible_v<I> && std::is_nothrow_copy_assignable_v<I> && std::is_nothrow_move_assignable_v<I> && std::is_nothrow_destructible_v<I> && std::is_nothrow_swappable_v<I>};
template<typename I> constexpr bool randacc{is_same_v<decltype(++l<I>()), I &> && is_same_v<decltype(--l<I>()), I &> && is_same_v<decltype(l<I>()++), I> && is_same_v<decltype(l<I>()--), I> && is_same_v<decltype(l<I>() += 1), I &> && is_same_v<decltype(l<I>() -= 1), I &> && is_same_v<decltype(c<I>() + 1), I> && is_same_v<decltype(1 + c<I>()), I> && is_same_v<decltype(c<I>() - 1), I> && is_same_v<decltype(c<I>() - c<I>()), std::ptrdiff_t> && is_same_v<decltype(*c<I>()), typename TR<I>::reference> && is_same_v<decltype(c<I>()[0]), typename TR<I>::reference> && is_same_v<decltype(c<I>().operator->()), typename TR<I>::pointer>};
template<typename I, typename J> constexpr bool compares{is_same_v<decltype(c<I>() == c<J>()), bool> && is_same_v<decltype(c<I>() != c<J>()), bool> && is_same_v<decltype(c<I>() < c<J>()), bool> && is_same_v<decltype(c<I>() > c<J>()), bool> && is_same_v<decltype(c<I>() <= c<J>()), bool> && is_same_v<decltype(c<I>() >= c<J>()), bool>};
template<typename M, typename C> constexpr bool oneway{is_convertible_v<M, C> && is_convertible_v<const M &, C> && is_assignable_v<C &, M> && !is_constructible_v<M, C> && !is_convertible_v<C, M> && !is_assignable_v<M &, C> && !is_assignable_v<M &, const C &>};
template<typename S> using It = typename S::iterator;
template<typename S> using Ci = typename S::const_iterator;
// every way of obtaining an iterator, from a mutable and from a constant object
template<typename S> constexpr bool from_mutable{is_same_v<decltype(l<S>().begin()), It<S>> && is_same_v<decltype(l<S>().end()), It<S>> && is_same_v<decltype(l<S>().rbegin()), std::reverse_iterator<It<S>>> && is_same_v<decltype(l<S>().rend()), std::reverse_iterator<It<S>>>};
template<typename S> constexpr bool from_const{is_same_v<decltype(c<S>().begin()), Ci<S>> && is_same_v<decltype(c<S>().end()), Ci<S>> && is_same_v<decltype(c<S>().rbegin()), std::reverse_iterator<Ci<S>>> && is_same_v<decltype(c<S>().rend()), std::reverse_iterator<Ci<S>>> && is_same_v<decltype(l<S>().cbegin()), Ci<S>> && is_same_v<decltype(l<S>().cend()), Ci<S>> && is_same_v<decltype(l<S>().crbegin()), std::reverse_iterator<Ci<S>>> && is_same_v<decltype(l<S>().crend()), std::reverse_iterator<Ci<S>>> && is_same_v<decltype(c<S>().cbegin()), Ci<S>> && is_same_v<decltype(c<S>().cend()), Ci<S>> && is_same_v<decltype(c<S>().crbegin()), std::reverse_iterator<Ci<S>>> && is_same_v<decltype(c<S>().crend()), std::reverse_iterator<Ci<S>>>};
template<typename S> constexpr bool names{is_same_v<typename S::reverse_iterator, std::reverse_iterator<It<S>>> && is_same_v<typename S::const_reverse_iterator, std::reverse_iterator<Ci<S>>> && is_same_v<typename S::difference_type, std::ptrdiff_t> && is_same_v<typename S::size_type, std::size_t>};
// constant objects hand out constant access only
template<typename S, typename V> constexpr bool access{is_same_v<decltype(l<S>()[0]), V &> && is_same_v<decltype(c<S>()[0]), const V &> && is_same_v<decltype(l<S>().at(0)), V &> && is_same_v<decltype(c<S>().at(0)), const V &> && is_same_v<decltype(l<S>().front()), V &> && is_same_v<decltype(c<S>().front()), const V &> && is_same_v<decltype(l<S>().back()), V &> && is_same_v<decltype(c<S>().back()), const V &> && is_same_v<decltype(l<S>().data()), V *> && is_same_v<decltype(c<S>().data()), const V *>};
template<typename S, typename V> constexpr bool sequence{mut<It<S>, V> && con<Ci<S>, V> && regular<It<S>> && regular<Ci<S>> && randacc<It<S>> && randacc<Ci<S>>};
template<typename S> constexpr bool mixed{compares<It<S>, It<S>> && compares<Ci<S>, Ci<S>> && compares<It<S>, Ci<S>> && compares<Ci<S>, It<S>> && is_same_v<decltype(c<It<S>>() - c<Ci<S>>()), std::ptrdiff_t> && is_same_v<decltype(c<Ci<S>>() - c<It<S>>()), std::ptrdiff_t>};
using A = ptl::array<int, 3>;
using AO = ptl::array<w::ok, 2>;
using V = ptl::vector<int>;
using VO = ptl::vector<w::ok>;
using S = ptl::string;
using R = ptl::string_ref;
using Q = ptl::array_ref<int>;
using QC = ptl::array_ref<const int>;
W(array.traits, sequence<A, int> && sequence<AO, w::ok>);
W(array.compare, mixed<A> && mixed<AO>);
W(array.oneway, oneway<It<A>, Ci<A>> && oneway<It<AO>, Ci<AO>>);
W(array.begin, from_mutable<A> && from_const<A> && from_mutable<AO> && from_const<AO> && names<A>);
W(array.access, access<A, int> && access<AO, w::ok>);
W(vector.traits, sequence<V, int> && sequence<VO, w::ok> && sequence<ptl::vector<ptl::string>, ptl::string>);
W(vector.compare, mixed<V> && mixed<VO>);
W(vector.oneway, oneway<It<V>, Ci<V>> && oneway<It<VO>, Ci<VO>>);
W(vector.begin, from_mutable<V> && from_const<V> && from_mutable<VO> && from_const<VO> && names<V>);
W(vector.access, access<V, int> && access<VO, w::ok>);
W(string.traits, sequence<S, char>);
W(string.compare, mixed<S>);
W(string.oneway, oneway<It<S>, Ci<S>>);
W(string.begin, from_mutable<S> && from_const<S> && names<S>);
W(string.access, access<S, char>);
W(string_ref.traits, con<It<R>, char> && is_same_v<It<R>, Ci<R>> && regular<It<R>> && randacc<It<R>> && compares<It<R>, It<R>>);
W(string_ref.begin, from_mutable<R> && from_const<R> && names<R>);
W(string_ref.access, is_same_v<decltype(l<R>()[0]), const char &> && is_same_v<decltype(l<R>().at(0)), const char &> && is_same_v<decltype(l<R>().front()), const char &> && is_same_v<decltype(l<R>().back()), const char &> && is_same_v<decltype(l<R>().data()), const char *>);
W(array_ref.traits, sequence<Q, int> && sequence<ptl::array_ref<w::ok>, w::ok>);
W(array_ref.traits.const, con<It<QC>, int> && con<Ci<QC>, int> && randacc<It<QC>> && randacc<Ci<QC>>);
W(array_ref.compare, mixed<Q> && mixed<QC>);
W(array_ref.oneway, oneway<It<Q>, Ci<Q>>);
W(array_ref.begin, from_mutable<Q> && from_const<Q> && from_mutable<QC> && from_const<QC> && names<Q>);
W(array_ref.access, is_same_v<decltype(c<Q>()[0]), int &> && is_same_v<decltype(c<Q>().data()), int *> && is_same_v<decltype(c<Q>().front()), int &> && is_same_v<decltype(c<Q>().back()), int &> && is_same_v<decltype(c<Q>().at(0)), int &>);
W(array_ref.access.const, is_same_v<decltype(l<QC>()[0]), const int &> && is_same_v<decltype(l<QC>().data()), const int *> && is_same_v<decltype(l<QC>().front()), const int &> && is_same_v<decltype(l<QC>().back()), const int &> && is_same_v<decltype(l<QC>().at(0)), const int &>);
W(foreign, !is_convertible_v<It<V>, It<ptl::vector<short>>> && !is_convertible_v<It<VO>, Ci<ptl::vector<w::ok2>>> && !is_constructible_v<It<Q>, It<V>> && !is_convertible_v<It<A>, It<V>>);
A(algorithms, V v; std::sort(v.begin() COMMA v.end()); std::reverse(v.begin() COMMA v.end()); (void)std::distance(v.cbegin() COMMA v.cend()); (void)std::find(v.rbegin() COMMA v.rend() COMMA 1); for(auto & x : v) x = 1; for(const auto & x : std::as_const(v)) (void)x; (void)std::lower_bound(v.begin() COMMA v.end() COMMA 3);)
A(algorithms.array, A a{1 COMMA 2 COMMA 3}; std::sort(a.begin() COMMA a.end()); (void)std::accumulate(a.rbegin() COMMA a.rend() COMMA 0); for(auto & x : a) x = 1; for(const auto & x : std::as_const(a)) (void)x;)
A(algorithms.views, S s; std::sort(s.begin() COMMA s.end()); std::reverse(s.rbegin() COMMA s.rend()); R r{"abc"}; (void)std::count(r.begin() COMMA r.end() COMMA 'a'); int x[3]{}; Q q{x}; std::sort(q.begin() COMMA q.end()); for(auto & y : q) y = 1; for(auto & y : QC{q}) (void)y;)
R(const.vector, const V v; *v.begin() = 1;, V v; *v.begin() = 1;)
R(const.array, const A v{1 COMMA 2 COMMA 3}; *v.begin() = 1;, A v{1 COMMA 2 COMMA 3}; *v.begin() = 1;)
R(const.string, const S v{}; *v.begin() = 'a';, S v{}; *v.begin() = 'a';)
R(const.string_ref, R v{"a"}; *v.begin() = 'a';, R v{"a"}; (void)*v.begin();)
R(const.array_ref, QC v{}; *v.begin() = 1;, Q v{}; *v.begin() = 1;)
R(pointer.vector, V v; int * p; decltype(v.cbegin()) i{p}; *i = 3;, V v; int * p; decltype(v.begin()) i{v.begin()}; *i = 3; (void)p;)
