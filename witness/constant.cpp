// @props C40
#include "types.hpp"
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/variant.hpp>
#include <ptl/optional.hpp>
#include <ptl/tuple.hpp>
#include <ptl/vector.hpp>
#include <ptl/string.hpp>
using A3 = ptl::array<int, 3>;
using A0 = ptl::array<int, 0>;
using B = ptl::bitset<19>;
using SR = ptl::string_ref;
using AR = ptl::array_ref<const int>;
namespace w {
inline constexpr A3 a{1, 2, 3};
inline constexpr A3 b{1, 2, 4};
inline constexpr int one[1]{7};
inline constexpr int five[5]{5, 6, 7, 8, 9};
inline constexpr SR text{"hello"};
inline constexpr AR view{five};
inline constexpr int seven{7};
struct on {};
constexpr auto twice(int i) -> int { return 2 * i; }
constexpr auto sum(AR r) -> int { int s{0}; for(auto x : r) s += x; return s; }
constexpr auto written() -> int { A3 x{1, 2, 3}; x[1] = 5; x.front() = 4; x.back() = 6; x.at(1) += 10; *x.begin() += 100; x.data()[2] += 200; *x.rbegin() += 1000; return x[0] * 10000000 + x[1] * 10000 + x[2]; }
}
template<> inline constexpr bool ptl::enable_bitset_operator_bool<w::on>{true};
W(array.access, w::a[0] == 1 && w::a.at(2) == 3 && w::a.front() == 1 && w::a.back() == 3 && w::a.data()[1] == 2 && w::a.size() == 3 && w::a.max_size() == 3 && !w::a.empty() && get<0>(w::a) == 1 && get<2>(w::a) == 3 && get<1>(A3{4, 5, 6}) == 5);
W(array.iterate, *w::a.begin() == 1 && w::a.begin() + 3 == w::a.end() && w::a.cend() - w::a.cbegin() == 3 && *w::a.rbegin() == 3 && *--w::a.rend() == 1 && *w::a.crbegin() == 3 && w::a.begin()[2] == 3 && *(w::a.end() - 1) == 3 && w::a.begin() < w::a.end() && w::a.end() >= w::a.begin() && *++w::a.begin() == 2 && *w::a.begin()++ == 1);
W(array.modify, w::written() == 104 * 10000000 + 15 * 10000 + 1206);
W(array.empty, A0{}.size() == 0 && A0{}.empty() && A0{}.max_size() == 0);
W(array_ref.access, w::view.size() == 5 && !w::view.empty() && w::view[4] == 9 && w::view.at(1) == 6 && w::view.front() == 5 && w::view.back() == 9 && w::view.data() == w::five && AR{}.empty() && AR{}.size() == 0 && AR{w::five, 2}.size() == 2 && AR{w::five, w::five + 3}.back() == 7 && AR{w::a}.size() == 3 && AR{w::one}.front() == 7);
W(array_ref.parts, w::view.first(2).back() == 6 && w::view.last(2).front() == 8 && w::view.subrange(1).size() == 4 && w::view.subrange(1, 2).back() == 7 && w::view.first(0).empty());
W(array_ref.iterate, w::sum(w::view) == 35 && *w::view.begin() == 5 && *w::view.rbegin() == 9 && w::view.end() - w::view.begin() == 5 && w::view.cbegin()[3] == 8 && w::view.crend() - w::view.crbegin() == 5);
W(string_ref.access, w::text.size() == 5 && w::text[0] == 'h' && w::text.at(4) == 'o' && w::text.front() == 'h' && w::text.back() == 'o' && !w::text.empty() && SR{}.empty() && SR{"abc", 2}.size() == 2 && *w::text.begin() == 'h' && *w::text.rbegin() == 'o' && w::text.end() - w::text.begin() == 5 && static_cast<std::string_view>(w::text) == "hello" && SR{std::string_view{"ab"}}.size() == 2);
constexpr auto trimmed(SR s) -> SR { s.remove_prefix(1); s.remove_suffix(2); return s; }
W(string_ref.parts, w::text.substr(1) == SR{"ello"} && w::text.substr(1, 2) == SR{"el"} && trimmed(w::text) == SR{"el"});
W(string_ref.compare, w::text == SR{"hello"} && w::text != SR{"hellp"} && w::text < SR{"hellp"} && w::text <= SR{"hello"} && w::text > SR{"hell"} && w::text >= SR{"hell"} && !(SR{"b"} < SR{"abc"}) && SR{"a"} < SR{"ab"});
constexpr auto bits(unsigned v) -> B { B x{v}; x.set(1); x.reset(0); x.flip(18); x[3] = true; x[4].flip(); swap(x[5], x[3]); return x; }
W(bitset.single, bits(1)[1] && !bits(1)[0] && bits(1).test(18) && bits(1)[4] && bits(1)[5] && !bits(1)[3] && bits(1).at(1));
W(bitset.bulk, B::size() == 19 && !B::empty() && B::max_size() == 19 && B{5}[0] && !B{5}[1] && B{5}[2] && !B{}[18]);
using OR = ptl::optional_ref<const int>;
W(optional_ref, !OR{}.has_value() && !OR{std::nullopt} && OR{w::seven}.has_value() && *OR{w::seven} == 7 && OR{w::seven}.value() == 7 && OR{}.value_or(3) == 3 && OR{w::seven}.value_or(3) == 7 && OR{w::seven}.operator->() == &w::seven);
constexpr auto assigned() -> bool { OR x{}; x = OR{w::seven}; OR y{x}; y = std::nullopt; return x.has_value() && !y.has_value(); }
W(optional_ref.assign, assigned());
constexpr auto reassigned() -> bool { SR x{"a"}, y{"bc"}; x = y; AR p{w::one}, q{w::five}; q = p; return x.size() == 2 && q.size() == 1; }
W(views.assign, reassigned());
