// Opaque element / iterator types used to instantiate the library's templates.
// Special members are declared only: the analysis sees calls to them, never a body.
#pragma once
#include <cstddef>
#include <iterator>
#include <initializer_list>
#include <new>
#include <utility>

// Tags from 1000 on: no operation throws.  Tag 7777: additionally a throwing initializer-list constructor.
template<int Tag, int Size>
struct Opaque {
	Opaque() noexcept(Tag >= 1000);
	Opaque(const Opaque &) noexcept(Tag >= 1000);
	Opaque(Opaque &&) noexcept;
	explicit Opaque(int, int) noexcept(Tag >= 1000);
	auto operator=(const Opaque &) noexcept(Tag >= 1000) -> Opaque &;
	auto operator=(Opaque &&) noexcept -> Opaque &;
	~Opaque() noexcept;
	alignas(8) unsigned char raw[Size];
};
template<int Size>
struct Opaque<7777, Size> {
	Opaque() noexcept;
	Opaque(const Opaque &) noexcept;
	Opaque(Opaque &&) noexcept;
	explicit Opaque(int, int) noexcept;
	Opaque(std::initializer_list<int>);
	auto operator=(const Opaque &) noexcept -> Opaque &;
	auto operator=(Opaque &&) noexcept -> Opaque &;
	~Opaque() noexcept;
	alignas(8) unsigned char raw[Size];
};
// stricter aligned than what plain allocation functions guarantee
template<int Size>
struct Opaque<64, Size> {
	Opaque();
	Opaque(const Opaque &);
	Opaque(Opaque &&) noexcept;
	explicit Opaque(int, int);
	auto operator=(const Opaque &) -> Opaque &;
	auto operator=(Opaque &&) noexcept -> Opaque &;
	~Opaque() noexcept;
	alignas(64) unsigned char raw[Size];
};
using Elem = Opaque<0, 24>;
template<int T, int S> void swap(Opaque<T, S> &, Opaque<T, S> &) noexcept;
template<int T, int S> auto operator==(const Opaque<T, S> &, const Opaque<T, S> &) noexcept -> bool;
template<int T, int S> auto operator!=(const Opaque<T, S> &, const Opaque<T, S> &) noexcept -> bool;
template<int T, int S> auto operator< (const Opaque<T, S> &, const Opaque<T, S> &) noexcept -> bool;
template<int T, int S> auto operator> (const Opaque<T, S> &, const Opaque<T, S> &) noexcept -> bool;
template<int T, int S> auto operator<=(const Opaque<T, S> &, const Opaque<T, S> &) noexcept -> bool;
template<int T, int S> auto operator>=(const Opaque<T, S> &, const Opaque<T, S> &) noexcept -> bool;

extern void may_throw(const void *);

// forward iterator over a contiguous range whose dereference may throw
template<typename T>
struct ThrowIt {
	using iterator_category = std::forward_iterator_tag;
	using value_type = T;
	using difference_type = std::ptrdiff_t;
	using pointer = const T *;
	using reference = const T &;
	const T * p;
	auto operator*() const -> const T & { may_throw(p); return *p; }
	auto operator++() -> ThrowIt & { ++p; return *this; }
	auto operator++(int) -> ThrowIt { auto t{*this}; ++p; return t; }
	friend auto operator==(ThrowIt a, ThrowIt b) -> bool { return a.p == b.p; }
	friend auto operator!=(ThrowIt a, ThrowIt b) -> bool { return a.p != b.p; }
};

// single pass iterator over a contiguous range
template<typename T>
struct InIt {
	using iterator_category = std::input_iterator_tag;
	using value_type = T;
	using difference_type = std::ptrdiff_t;
	using pointer = const T *;
	using reference = const T &;
	const T * p;
	auto operator*() const -> const T & { may_throw(p); return *p; }
	auto operator++() -> InIt & { ++p; return *this; }
	auto operator++(int) -> InIt { auto t{*this}; ++p; return t; }
	friend auto operator==(InIt a, InIt b) -> bool { return a.p == b.p; }
	friend auto operator!=(InIt a, InIt b) -> bool { return a.p != b.p; }
};
