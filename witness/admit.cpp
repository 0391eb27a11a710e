// @props C04
#include "types.hpp"
#include <ptl/array.hpp>
#include <ptl/bitset.hpp>
#include <ptl/optional.hpp>
#include <ptl/string.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
#include <ptl/function_ref.hpp>
template<int> struct number { char c; };
template<typename> struct variants_ {};
template<int... I> struct variants_<std::integer_sequence<int, I...>> { using type = ptl::variant<number<I>...>; };
template<int N> using variants = variants_<std::make_integer_sequence<int, N>>;
A(vector.ok, ptl::vector<w::ok> a; ptl::vector<int> b; ptl::vector<ptl::string> c; ptl::vector<w::throw_copy> d; ptl::vector<w::throw_default> e; ptl::vector<ptl::vector<int>> f; ptl::vector<void *> g; ptl::vector<w::color> h; ptl::vector<w::agg> i; ptl::vector<bool> j; ptl::vector<ptl::optional<int>> k; ptl::vector<ptl::variant<int, char>> l; ptl::vector<ptl::bitset<9>> m;)
A(optional.ok, ptl::optional<w::ok> a; ptl::optional<int> b; ptl::optional<ptl::string> c; ptl::optional<w::throw_copy> d; ptl::optional<w::no_default> e; ptl::optional<ptl::vector<int>> f; ptl::optional<ptl::optional<int>> g; ptl::optional<w::over> h;)
A(variant.ok, ptl::variant<w::ok> a; ptl::variant<int, char> b; ptl::variant<ptl::string, ptl::vector<int>> c; ptl::variant<w::throw_copy, int> d; ptl::variant<w::throw_default, int> e; ptl::variant<int, w::no_default> f; ptl::variant<w::no_assign, int> g; ptl::variant<w::num<0>, w::num<1>, w::num<2>> h;)
A(array.ok, ptl::array<w::ok, 2> a; ptl::array<int, 3> b; ptl::array<ptl::string, 2> c; ptl::array<int, 0> d; ptl::array<w::throw_copy, 1> e; ptl::array<ptl::array<int, 2>, 2> f;)
A(tuple.ok, ptl::tuple<w::ok, int> a{w::ok{}, 1}; ptl::tuple<ptl::string, char> b{"", 'c'}; ptl::tuple<w::throw_copy> c{w::throw_copy{}};)
A(variant_ref.ok, int i{0}; char c{0}; const int j{0}; ptl::variant_ref<int, char, const int> a{i}; ptl::variant_ref<int, char, const int> b{j}; ptl::variant_ref<int, char> d{c};)
R(vector.throw_move, ptl::vector<w::throw_move> x;, ptl::vector<w::ok> x;)
R(vector.throw_assign, ptl::vector<w::throw_assign> x;, ptl::vector<w::ok> x;)
R(vector.throw_dtor, ptl::vector<w::throw_dtor> x;, ptl::vector<w::ok> x;)
R(vector.throw_swap, ptl::vector<w::throw_swap> x;, ptl::vector<w::ok> x;)
R(vector.no_copy, ptl::vector<w::no_copy> x;, ptl::vector<w::ok> x;)
R(vector.no_copy_assign, ptl::vector<w::no_copy_assign> x;, ptl::vector<w::ok> x;)
R(vector.no_default, ptl::vector<w::no_default> x;, ptl::vector<w::ok> x;)
R(vector.virtual, ptl::vector<w::virt> x;, ptl::vector<w::base> x;)
R(vector.mixed, ptl::vector<w::mixed> x;, ptl::vector<w::base> x;)
R(vector.const, ptl::vector<const int> x;, ptl::vector<int> x;)
R(vector.reference, ptl::vector<int &> x;, ptl::vector<int *> x;)
R(vector.std_string, ptl::vector<std::list<int>> x;, ptl::vector<ptl::string> x;)
R(optional.throw_move, ptl::optional<w::throw_move> x;, ptl::optional<w::ok> x;)
R(optional.throw_assign, ptl::optional<w::throw_assign> x;, ptl::optional<w::ok> x;)
R(optional.throw_dtor, ptl::optional<w::throw_dtor> x;, ptl::optional<w::ok> x;)
R(optional.throw_swap, ptl::optional<w::throw_swap> x;, ptl::optional<w::ok> x;)
R(optional.no_copy, ptl::optional<w::no_copy> x;, ptl::optional<w::ok> x;)
R(optional.no_copy_assign, ptl::optional<w::no_copy_assign> x;, ptl::optional<w::ok> x;)
R(optional.virtual, ptl::optional<w::virt> x;, ptl::optional<w::base> x;)
R(optional.mixed, ptl::optional<w::mixed> x;, ptl::optional<w::base> x;)
R(optional.const, ptl::optional<const int> x;, ptl::optional<int> x;)
R(optional.reference, ptl::optional<int &> x;, ptl::optional<int *> x;)
R(variant.throw_move, using V = ptl::variant<int, w::throw_move>; V x;, using V = ptl::variant<int, w::ok>; V x;)
R(variant.throw_move.first, using V = ptl::variant<w::throw_move, int>; V x;, using V = ptl::variant<w::ok, int>; V x;)
R(variant.throw_dtor, using V = ptl::variant<int, w::throw_dtor>; V x;, using V = ptl::variant<int, w::ok>; V x;)
R(variant.throw_dtor.last, using V = ptl::variant<int, char, w::throw_dtor>; V x;, using V = ptl::variant<int, char, w::ok>; V x;)
R(variant.throw_swap, using V = ptl::variant<int, w::throw_swap>; V x;, using V = ptl::variant<int, w::ok>; V x;)
R(variant.no_copy, using V = ptl::variant<int, w::no_copy>; V x;, using V = ptl::variant<int, w::ok>; V x;)
R(variant.virtual, using V = ptl::variant<int, w::virt>; V x;, using V = ptl::variant<int, w::base>; V x;)
R(variant.mixed, using V = ptl::variant<int, w::mixed>; V x;, using V = ptl::variant<int, w::base>; V x;)
R(variant.dup.adjacent, using V = ptl::variant<int, int>; V x;, using V = ptl::variant<int, char>; V x;)
R(variant.dup.ends, using V = ptl::variant<int, char, int>; V x;, using V = ptl::variant<int, char, short>; V x;)
R(variant.dup.tail, using V = ptl::variant<char, short, int, int>; V x;, using V = ptl::variant<char, short, int, long>; V x;)
R(variant.too_many, variants<256>::type x;, variants<200>::type x;)
R(variant.reference, using V = ptl::variant<int, int &>; V x;, using V = ptl::variant<int, int *>; V x;)
R(variant.empty, using V = ptl::variant<>; V x;, using V = ptl::variant<int>; V x;)
R(array.throw_move, using V = ptl::array<w::throw_move, 2>; V x;, using V = ptl::array<w::ok, 2>; V x;)
R(array.throw_assign, using V = ptl::array<w::throw_assign, 2>; V x;, using V = ptl::array<w::ok, 2>; V x;)
R(array.throw_dtor, using V = ptl::array<w::throw_dtor, 2>; V x;, using V = ptl::array<w::ok, 2>; V x;)
R(array.throw_swap, using V = ptl::array<w::throw_swap, 2>; V x;, using V = ptl::array<w::ok, 2>; V x;)
R(array.no_copy, using V = ptl::array<w::no_copy, 2>; V x;, using V = ptl::array<w::ok, 2>; V x;)
R(array.no_copy_assign, using V = ptl::array<w::no_copy_assign, 2>; V x;, using V = ptl::array<w::ok, 2>; V x;)
R(array.no_default, using V = ptl::array<w::no_default, 1>; V x{w::no_default{1}};, using V = ptl::array<w::base, 1>; V x{w::base{}};)
R(array.virtual, using V = ptl::array<w::virt, 2>; V x;, using V = ptl::array<w::base, 2>; V x;)
R(array.const, using V = ptl::array<const int, 2>; V x{1 COMMA 2};, using V = ptl::array<int, 2>; V x{1 COMMA 2};)
R(tuple.throw_move, ptl::tuple<w::throw_move> x{w::throw_move{}};, ptl::tuple<w::ok> x{w::ok{}};)
R(tuple.throw_dtor, ptl::tuple<w::throw_dtor> x{w::throw_dtor{}};, ptl::tuple<w::ok> x{w::ok{}};)
R(tuple.virtual, ptl::tuple<w::virt> x{w::virt{}};, ptl::tuple<w::base> x{w::base{}};)
R(tuple.second, ptl::tuple<int COMMA w::throw_move> x{1 COMMA w::throw_move{}};, ptl::tuple<int COMMA w::ok> x{1 COMMA w::ok{}};)
R(variant_ref.dup, int i{0}; ptl::variant_ref<int COMMA int> x{i};, int i{0}; ptl::variant_ref<int COMMA char> x{i};)
R(variant_ref.dup.ends, int i{0}; ptl::variant_ref<int COMMA char COMMA int> x{i};, int i{0}; ptl::variant_ref<int COMMA char COMMA const int> x{i};)
R(array.get.range, ptl::array<int COMMA 2> x{1 COMMA 2}; get<2>(x);, ptl::array<int COMMA 2> x{1 COMMA 2}; get<1>(x);)
R(array.get.range.const, const ptl::array<int COMMA 2> x{1 COMMA 2}; get<2>(x);, const ptl::array<int COMMA 2> x{1 COMMA 2}; get<1>(x);)
R(array.get.range.rvalue, get<2>(ptl::array<int COMMA 2>{1 COMMA 2});, get<1>(ptl::array<int COMMA 2>{1 COMMA 2});)
R(array.get.range.crvalue, const ptl::array<int COMMA 2> x{1 COMMA 2}; get<2>(std::move(x));, const ptl::array<int COMMA 2> x{1 COMMA 2}; get<1>(std::move(x));)
R(bitset.get.range, ptl::bitset<9> x; get<9>(x);, ptl::bitset<9> x; get<8>(x);)
R(tuple.get.range, ptl::tuple<int COMMA char> x{1 COMMA 'c'}; x.get<2>();, ptl::tuple<int COMMA char> x{1 COMMA 'c'}; x.get<1>();)
R(variant.emplace.range, ptl::variant<int COMMA char> x; x.emplace<2>('c');, ptl::variant<int COMMA char> x; x.emplace<1>('c');)
R(variant.in_place.range, ptl::variant<int COMMA char> x{std::in_place_index<2> COMMA 'c'};, ptl::variant<int COMMA char> x{std::in_place_index<1> COMMA 'c'};)
R(variant.in_place.type, ptl::variant<int COMMA char> x{std::in_place_type<short> COMMA 'c'};, ptl::variant<int COMMA char> x{std::in_place_type<char> COMMA 'c'};)
R(variant.get.unlisted, ptl::variant<int COMMA char> x; x.get<short>();, ptl::variant<int COMMA char> x; x.get<char>();)
R(variant.get_if.unlisted, ptl::variant<int COMMA char> x; x.get_if<short>();, ptl::variant<int COMMA char> x; x.get_if<char>();)
R(variant.holds.unlisted, ptl::variant<int COMMA char> x; x.holds<short>();, ptl::variant<int COMMA char> x; x.holds<char>();)
R(variant_ref.get.unlisted, int i{0}; ptl::variant_ref<int COMMA char> x{i}; x.get<short>();, int i{0}; ptl::variant_ref<int COMMA char> x{i}; x.get<char>();)
R(variant_ref.get.const, int i{0}; ptl::variant_ref<int COMMA char> x{i}; x.get<const int>();, int i{0}; ptl::variant_ref<int COMMA const int> x{i}; x.get<const int>();)
DETECT(emplaces, std::declval<T &>().template emplace<U>());
W(variant.emplace.type, emplaces<ptl::variant<int, char>, char> && !emplaces<ptl::variant<int, char>, short>);
