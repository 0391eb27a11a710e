// Types used by the type-level witnesses.  W(id, condition): static claim, evaluated by the compiler.
// A(id, code): code that must compile.  R(id, bad, good): the program with `bad` must be rejected, the one with `good` accepted.
#pragma once
#include "all_std.hpp"
#include <list>
#include <deque>
#include <map>
namespace w {
struct base {
	int i;
};
// admitted by every container
struct ok { ok() noexcept; ok(const ok &); ok(ok &&) noexcept; auto operator=(const ok &) -> ok &; auto operator=(ok &&) noexcept -> ok &; ~ok(); int i; };
struct ok2 : ok {};
struct triv { char c[3]; };
struct throw_default { throw_default() noexcept(false); int i; };
struct throw_copy { throw_copy(); throw_copy(const throw_copy &) noexcept(false); throw_copy(throw_copy &&) noexcept; auto operator=(const throw_copy &) noexcept(false) -> throw_copy &; auto operator=(throw_copy &&) noexcept -> throw_copy &; int i; };
// not admitted
struct throw_move { throw_move(); throw_move(const throw_move &); throw_move(throw_move &&) noexcept(false); auto operator=(const throw_move &) -> throw_move &; auto operator=(throw_move &&) noexcept -> throw_move &; int i; };
inline void swap(throw_move &, throw_move &) noexcept {}
struct throw_assign { throw_assign(); throw_assign(const throw_assign &); throw_assign(throw_assign &&) noexcept; auto operator=(const throw_assign &) -> throw_assign &; auto operator=(throw_assign &&) noexcept(false) -> throw_assign &; int i; };
inline void swap(throw_assign &, throw_assign &) noexcept {}
struct throw_dtor { throw_dtor(); throw_dtor(const throw_dtor &) noexcept; throw_dtor(throw_dtor &&) noexcept; auto operator=(const throw_dtor &) noexcept -> throw_dtor &; auto operator=(throw_dtor &&) noexcept -> throw_dtor &; ~throw_dtor() noexcept(false); int i; };
inline void swap(throw_dtor &, throw_dtor &) noexcept {}
struct throw_swap { int i; };
inline void swap(throw_swap &, throw_swap &) noexcept(false) {}
struct no_copy { no_copy(); no_copy(const no_copy &) =delete; no_copy(no_copy &&) noexcept; auto operator=(const no_copy &) -> no_copy &; auto operator=(no_copy &&) noexcept -> no_copy &; int i; };
struct no_copy_assign { no_copy_assign(); no_copy_assign(const no_copy_assign &); no_copy_assign(no_copy_assign &&) noexcept; auto operator=(const no_copy_assign &) -> no_copy_assign & =delete; auto operator=(no_copy_assign &&) noexcept -> no_copy_assign &; int i; };
inline void swap(no_copy_assign &, no_copy_assign &) noexcept {}
struct no_assign { no_assign(); no_assign(const no_assign &); no_assign(no_assign &&) noexcept; auto operator=(const no_assign &) -> no_assign & =delete; int i; };
inline void swap(no_assign &, no_assign &) noexcept {}
struct no_default { explicit no_default(int) noexcept; int i; };
struct virt { virtual void f() noexcept; int i; };
struct mixed { int i; private: int j; public: auto get() const -> int { return j; } };
struct alignas(16) over { char c[16]; };
template<int N> struct num { int i; };
enum class color : unsigned char { red };
struct agg { int a; double b; };
struct derived : base {};
// callables
struct fn { auto operator()(int) -> int; };
struct cfn { auto operator()(int) const -> int; };
struct nfn { auto operator()(int) noexcept -> int; };
struct cnfn { auto operator()(int) const noexcept -> int; };
auto plain(int) -> int;
auto nplain(int) noexcept -> int;
}
template<typename...> struct list_ {};
template<typename T, typename = void> struct can_default : std::false_type {};
template<std::size_t> struct Ix {};
using std::get;
#define COMMA ,
#define W(id, ...) static_assert((__VA_ARGS__), "PTLW:" #id)
#define DETECT(name, ...) template<typename T, typename U = void, typename = void> struct name##_ : std::false_type {}; template<typename T, typename U> struct name##_<T, U, std::void_t<decltype(__VA_ARGS__)>> : std::true_type {}; template<typename T, typename U = void> constexpr bool name{name##_<T, U>::value}
template<typename T> auto val() -> T;
