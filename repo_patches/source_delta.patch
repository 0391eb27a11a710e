From e2afbbcf4dcd7e23564ebebf0a34472e62282a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 01/25] fix: make every header self-contained

---
 inc/ptl/function_ref.hpp | 2 ++
 inc/ptl/tuple.hpp        | 3 +++
 inc/ptl/variant.hpp      | 4 ++++
 inc/ptl/variant_ref.hpp  | 3 +++
 inc/ptl/vector.hpp       | 5 +++++
 5 files changed, 17 insertions(+)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index bad1646..c23af4f 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -5,7 +5,9 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <memory>
 #include <utility>
+#include <functional>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index a2e4081..2b3cf0c 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -5,6 +5,9 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <tuple>
+#include <cstddef>
+#include <utility>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 4ca70a5..3d63d01 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -5,9 +5,13 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <new>
 #include <limits>
+#include <memory>
+#include <cstddef>
 #include <utility>
 #include <variant>
+#include <functional>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/variant_ref.hpp b/inc/ptl/variant_ref.hpp
index dec8cae..e6d1a47 100644
--- a/inc/ptl/variant_ref.hpp
+++ b/inc/ptl/variant_ref.hpp
@@ -6,8 +6,11 @@
 
 #pragma once
 #include <limits>
+#include <memory>
+#include <cstddef>
 #include <utility>
 #include <variant>
+#include <exception>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 022cba1..1e56139 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -5,11 +5,16 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <new>
 #include <limits>
 #include <memory>
+#include <cstddef>
+#include <cstdlib>
+#include <utility>
 #include <iterator>
 #include <algorithm>
 #include <stdexcept>
+#include <initializer_list>
 #include <type_traits>
 
 namespace ptl {
-- 
2.43.0


From c146e62a8ec0b3dcfe2dd5049d5aca08af3c7ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 02/25] fix: bitset::reference to bool conversion recursed
 endlessly

---
 inc/ptl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 62c9a0e..aa20657 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -95,7 +95,7 @@ namespace ptl {
 			}
 
 			constexpr
-			operator bool() const noexcept { return self[index]; }
+			operator bool() const noexcept { return static_cast<const bitset &>(self)[index]; }
 			constexpr
 			auto operator~() const noexcept -> bool { return !static_cast<bool>(*this); }
 
-- 
2.43.0


From 31cb8d86d763039e01febdddaee7d98fa96497cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 03/25] fix: bitset::reference::swap ignored equal indices of
 distinct bitsets

---
 inc/ptl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index aa20657..bced53f 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -107,7 +107,7 @@ namespace ptl {
 
 			constexpr
 			void swap(reference & other) noexcept {
-				if(index == other.index) return;
+				if(&self == &other.self && index == other.index) return;
 				const auto lhs{static_cast<bool>(*this)};
 				const auto rhs{static_cast<bool>(other)};
 				if(lhs == rhs) return;
-- 
2.43.0


From 17cc5c577c1ce41024f6c3188438e2d24cd09274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 04/25] fix: extracting a bitset up to the end of the stream
 set failbit

---
 inc/ptl/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index bced53f..c0c69e2 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -340,7 +340,8 @@ namespace ptl {
 			if(const std::istream::sentry s{is}; s) {
 				auto extracted{false};
 				for(size_type i{0}; i < Size; ++i) {
-					if(const auto c{is.get()}; c == '0' || c == '1') {
+					if(const auto c{is.peek()}; c == '0' || c == '1') {
+						is.get();
 						if(!extracted) {
 							extracted = true;
 							self.reset();
@@ -348,7 +349,6 @@ namespace ptl {
 						self <<= 1;
 						if(c == '1') self.set(0);
 					} else {
-						is.unget();
 						if(!extracted) is.setstate(std::ios::failbit);
 						break;
 					}
-- 
2.43.0


From fbe4e27a69327e740a978f40262f94cac969ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 05/25] fix: function_ref returning a reference dropped the
 reference

---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index c23af4f..b67e899 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -46,7 +46,7 @@ namespace ptl {
 
 		template<typename R, typename F, typename... Args, typename = std::enable_if_t<std::is_invocable_r_v<R, F, Args...>>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) { //TODO: [C++23] replace with std::invoke_r
+		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) -> R { //TODO: [C++23] replace with std::invoke_r
 			if constexpr(std::is_void_v<R>) std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 			else return std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 		}
-- 
2.43.0


From e6cd0e55c0cc8f880b59a804810bd962fb1db12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 06/25] fix: function_ref with const signature invoked the
 non-const overload

---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index b67e899..23b1abb 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -114,7 +114,7 @@ namespace ptl {
 
 		template<typename F, typename T = std::remove_reference_t<F>, typename = std::enable_if_t<!std::is_same_v<function_ref, internal_function_ref::remove_cvref_t<F>> && !std::is_member_pointer_v<T> && traits::template is_invocable_using<typename traits::template const_<T> &>>>//TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		function_ref(F && func) noexcept : storage{std::addressof(func)}, dispatch{traits::template functor<T>} {}
+		function_ref(F && func) noexcept : storage{std::addressof(static_cast<typename traits::template const_<T> &>(func))}, dispatch{traits::template functor<typename traits::template const_<T>>} {}
 
 		constexpr
 		function_ref(const function_ref &) noexcept =default;
-- 
2.43.0


From 1b56cf4aae153f7abed857f507a9ec3adc08e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 07/25] fix: string literals were truncated at embedded zeros
 and _s terminated on allocation failure

---
 inc/ptl/string.hpp     | 2 +-
 inc/ptl/string_ref.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 317ff17..08cb9cd 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -620,7 +620,7 @@ namespace ptl {
 
 	namespace literals {
 		inline
-		auto operator""_s(const char * ptr, std::size_t) noexcept -> string { return string{ptr}; }
+		auto operator""_s(const char * ptr, std::size_t size) -> string { return string{std::string_view{ptr, size}}; }
 	}
 }
 
diff --git a/inc/ptl/string_ref.hpp b/inc/ptl/string_ref.hpp
index 1fad606..ab92bb5 100644
--- a/inc/ptl/string_ref.hpp
+++ b/inc/ptl/string_ref.hpp
@@ -225,7 +225,7 @@ namespace ptl {
 	namespace literals {
 		inline
 		constexpr
-		auto operator""_sr(const char * ptr, std::size_t) noexcept -> string_ref { return ptr; }
+		auto operator""_sr(const char * ptr, std::size_t size) noexcept -> string_ref { return {ptr, size}; }
 	}
 }
 
-- 
2.43.0


From 0b40092c51cf4e02d40331ec1dab26d2e865f217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 08/25] fix: vector::resize discarded reserved capacity

---
 inc/ptl/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 1e56139..ead4be5 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -228,7 +228,10 @@ namespace ptl {
 		void resize_impl(std::size_t new_size, Func func) {
 			if(new_size == size()) return;
 			if(new_size < size()) erase(begin() + new_size, end());
-			else {
+			else if(new_size <= capacity()) { //no need for allocation
+				func(data() + size(), new_size - size());
+				storage.set_size(new_size);
+			} else {
 				storage_t tmp{new_size};
 				func(tmp.data() + size(), new_size - size());
 				std::uninitialized_move_n(data(), size(), tmp.data());
-- 
2.43.0


From 75a7646341b9e93a8b0e519f05948970beb54655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 09/25] fix: vector::erase of an empty range self-move-assigned
 the tail

---
 inc/ptl/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index ead4be5..c0729e2 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -348,6 +348,7 @@ namespace ptl {
 		auto erase(const_iterator pos) noexcept -> iterator { return erase(pos, pos + 1); } //TODO: [C++??] precondition(pos != end());
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto count{static_cast<size_type>(std::distance(first, last))};
+			if(count == 0) return first; //moving the tail onto itself would self-move-assign every element
 			std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));
 			std::destroy(data() + size() - count, data() + size());
 			storage.set_size(size() - count);
-- 
2.43.0


From d407237096adbb1c1e6424ada9c2bfdd297c95ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 10/25] fix: array constructor constraint tested the reversed
 conversion

---
 inc/ptl/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/array.hpp b/inc/ptl/array.hpp
index dc13c95..df20288 100644
--- a/inc/ptl/array.hpp
+++ b/inc/ptl/array.hpp
@@ -174,7 +174,7 @@ namespace ptl {
 		using reverse_iterator       = std::reverse_iterator<      iterator>;
 		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Type, Args> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Args &&, Type> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		array(Args &&... args) : values{std::forward<Args>(args)...} {}
 
-- 
2.43.0


From fe0e37bcb2465b040eba74f9b2a790e1908dd867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 11/25] fix: array_ref accepted ranges of derived types

---
 inc/ptl/array_ref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/array_ref.hpp b/inc/ptl/array_ref.hpp
index 9069c86..a32bd3f 100644
--- a/inc/ptl/array_ref.hpp
+++ b/inc/ptl/array_ref.hpp
@@ -31,7 +31,7 @@ namespace ptl {
 
 			static
 			constexpr
-			auto rebind(Type * ) noexcept -> valid;
+			auto rebind(Type(*)[]) noexcept -> valid; //array pointer: only allow qualification conversions
 			static
 			constexpr
 			auto rebind(...) noexcept -> invalid;
@@ -45,7 +45,7 @@ namespace ptl {
 				if constexpr(std::is_same_v<Pointer, invalid>) return false;
 				else {
 					static_assert(std::is_pointer_v<Pointer>);
-					using Rebind = decltype(rebind(Pointer{}));
+					using Rebind = decltype(rebind(static_cast<std::remove_pointer_t<Pointer>(*)[]>(nullptr)));
 					return std::is_same_v<Rebind, valid>;
 				}
 			}
-- 
2.43.0


From c07b7e5c16a285c98b0c6cbd9145c188a41c78ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 12/25] fix: copying a mutable single element tuple selected
 the forwarding constructor

---
 inc/ptl/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index 2b3cf0c..c5fa1e7 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -89,7 +89,7 @@ namespace ptl {
 
 		internal_tuple::storage_t<Types...> storage;
 	public:
-		template<typename... Args, typename = std::enable_if_t<sizeof...(Args) == sizeof...(Types) || sizeof...(Args) == 0>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(sizeof...(Args) == sizeof...(Types) || sizeof...(Args) == 0) && !(std::is_same_v<std::remove_cv_t<std::remove_reference_t<Args>>, tuple> || ...)>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		tuple(Args &&... args) : storage{std::forward<Args>(args)...} {}
 
-- 
2.43.0


From 3ab0f0fddfb49b5a0dca3a5894ac9f997220f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 13/25] fix: string sizes exceeding max_size wrapped around

---
 inc/ptl/string.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 08cb9cd..b0ee1f4 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -53,6 +53,7 @@ namespace ptl {
 			storage_t() noexcept { clear_to_sso(); }
 
 			storage_t(std::size_t required) {
+				if(required > max_size()) throw std::length_error{"ptl::string - allocation attempting to exceed max_size"};
 				if(required > sso_size) {
 					dealloc = +[](char * ptr) noexcept { delete[] ptr; }; 
 					heap.siz = 0;
@@ -247,6 +248,7 @@ namespace ptl {
 		template<typename Func>
 		void append_no_aliasing(std::size_t additional_size, Func fill) {
 			const auto old{size()};
+			if(additional_size > max_size() - old) throw std::length_error{"ptl::string::append - exceeding max_size"};
 			resize(old + additional_size);
 			fill(old);
 		}
@@ -261,6 +263,7 @@ namespace ptl {
 		auto insert_no_aliasing(contiguous_iterator<true> pos, std::size_t additional_size, Func fill) {
 			const auto old{size()};
 			const auto offset{pos.ptr - data()};
+			if(additional_size > max_size() - old) throw std::length_error{"ptl::string::insert - exceeding max_size"};
 			resize(old + additional_size);
 			std::copy_backward(data() + offset, data() + old, data() + size());
 			fill();
@@ -272,6 +275,7 @@ namespace ptl {
 			const auto offset{first.ptr - data()};
 			if(const auto count{static_cast<std::size_t>(last - first)}; count < required_size) { //not enough space in target location
 				const auto old{size()};
+				if(required_size - count > max_size() - old) throw std::length_error{"ptl::string::replace - exceeding max_size"};
 				resize(size() + (required_size - count));
 				std::copy_backward(data() + offset + count, data() + old, data() + size());
 				fill(offset);
-- 
2.43.0


From dd015867a1e98eb084d4066903fa9d0a1a7497fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 14/25] fix: vector sizes exceeding max_size wrapped around

---
 inc/ptl/vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index c0729e2..b1175d0 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -193,7 +193,7 @@ namespace ptl {
 
 		template<typename Func>
 		void assign_impl(std::size_t required_size, Func func) {
-			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
+			if(required_size <= capacity() - size()) { //no need for allocation nor double buffering
 				func(data() + size());
 				std::rotate(data(), data() + size(), data() + size() + required_size);
 				std::destroy_n(data() + required_size, size());
@@ -209,11 +209,12 @@ namespace ptl {
 		template<typename Func>
 		auto insert_impl(contiguous_iterator<true> pos, std::size_t required_size, Func func) {
 			const auto offset{pos.ptr - data()};
-			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
+			if(required_size <= capacity() - size()) { //no need for allocation nor double buffering
 				func(data() + size());
 				std::rotate(const_cast<Type *>(pos.ptr), data() + size(), data() + size() + required_size);
 				storage.set_size(size() + required_size);
 			} else { //do single allocation
+				if(required_size > max_size() - size()) throw std::length_error{"ptl::vector - insertion attempting to exceed max_size"};
 				storage_t tmp{size() + std::max(size(), required_size)}; //TODO: evaluate performance of growth influenced by max(size, required_size)
 				func(tmp.data() + offset);
 				std::uninitialized_move_n(data(), offset, tmp.data());
-- 
2.43.0


From eb15f457471dd7c490956dd98f3b7cc3403bdbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 15/25] fix: vector::shrink_to_fit terminated on allocation
 failure

---
 inc/ptl/vector.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index b1175d0..38de884 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -328,10 +328,12 @@ namespace ptl {
 		void shrink_to_fit() noexcept {
 			if(size() * 2 >= capacity()) return; //TODO: better criteria for "excess memory usage"
 
-			storage_t tmp{size()};
-			std::uninitialized_move_n(data(), size(), tmp.data());
-			tmp.set_size(size());
-			storage = std::move(tmp);
+			try {
+				storage_t tmp{size()};
+				std::uninitialized_move_n(data(), size(), tmp.data());
+				tmp.set_size(size());
+				storage = std::move(tmp);
+			} catch(const std::bad_alloc &) {} //non-binding request: keep the current allocation
 		}
 
 		void clear() noexcept {
-- 
2.43.0


From 0828cf3351d1b5ef4258436e2f2c5dcbee6af104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 16/25] fix: string lost its terminator if reading the source
 range threw

---
 inc/ptl/string.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index b0ee1f4..157140d 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -245,6 +245,16 @@ namespace ptl {
 			return tmp;
 		}
 
+		template<typename ForwardIterator>
+		void copy_behind(ForwardIterator first, ForwardIterator last) { //TODO: [C++??] precondition(std::distance(first, last) <= capacity() - size());
+			try {
+				std::copy(first, last, data() + size());
+			} catch(...) {
+				storage.set_size(size()); //restore terminator
+				throw;
+			}
+		}
+
 		template<typename Func>
 		void append_no_aliasing(std::size_t additional_size, Func fill) {
 			const auto old{size()};
@@ -431,7 +441,7 @@ namespace ptl {
 		void append(ForwardIterator first, ForwardIterator last) {
 			const auto distance{static_cast<std::size_t>(std::distance(first, last))};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind(first, last);
 				storage.set_size(size() + distance);
 			} else { //do single allocation
 				storage_t tmp{size() + distance};
@@ -450,7 +460,7 @@ namespace ptl {
 		template<typename ForwardIterator, std::enable_if_t<std::is_base_of_v<std::forward_iterator_tag, typename std::iterator_traits<ForwardIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
 		void assign(ForwardIterator first, ForwardIterator last) {
 			if(const auto distance{static_cast<std::size_t>(std::distance(first, last))}; distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind(first, last);
 				std::rotate(data(), data() + size(), data() + size() + distance);
 				storage.set_size(distance);
 			} else {
@@ -478,7 +488,7 @@ namespace ptl {
 			const auto distance{static_cast<std::size_t>(std::distance(first, last))};
 			const auto offset{pos.ptr - data()};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind(first, last);
 				std::rotate(const_cast<char *>(pos.ptr), data() + size(), data() + size() + distance);
 				storage.set_size(size() + distance);
 			} else { //do single allocation
@@ -506,7 +516,7 @@ namespace ptl {
 		auto replace(const_iterator first, const_iterator last, ForwardIterator first2, ForwardIterator last2) -> string & { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto distance{static_cast<std::size_t>(std::distance(first2, last2))};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first2, last2, data() + size());
+				copy_behind(first2, last2);
 				const auto offset_first{first.ptr - data()};
 				const auto offset_mid{size() - (last - first)};
 				storage.set_size(size() + distance);
-- 
2.43.0


From 34ad57f4044b58c998797f448b49f8a7c49384cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 17/25] fix: variant::emplace destroyed the old value ahead of
 a throwing initializer-list constructor

---
 inc/ptl/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 3d63d01..598cae8 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -255,7 +255,7 @@ namespace ptl {
 		auto emplace(Args &&... args) -> decltype(auto) { return emplace<typename decltype(internal_variant::determine_type<Index, Head, Tail...>())::type>(std::forward<Args>(args)...); }
 		template<typename T, typename... Args, typename = std::enable_if_t<can_store<T>>> //TODO: [C++20] replace with concepts/requires-clause
 		auto emplace(Args &&... args) -> T & {
-			if constexpr(std::is_nothrow_constructible_v<T, Args...>) {
+			if constexpr(noexcept(T{std::forward<Args>(args)...})) {
 				internal_variant::destroy(indices_t{}, type, storage);
 				constexpr auto index{internal_variant::determine_index<std::decay_t<T>, Head, Tail...>()};
 				internal_variant::emplace(indices_t{}, index, storage, std::forward<Args>(args)...);
-- 
2.43.0


From 2f700653f6e607e6957af9818c5d082d78217cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 18/25] fix: shifting a bitset by a huge count never finished

---
 inc/ptl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index c0c69e2..4de39e2 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -235,6 +235,7 @@ namespace ptl {
 		constexpr
 		auto operator<<=(size_type count) noexcept -> bitset & {
 			if constexpr(Size != 0) {
+				count = std::min(count, Size);
 				for(size_type i{0}; i < count; ++i) {
 					for(size_type j{sizeof(values) - 1}; j > 0; --j) {
 						values[j] = static_cast<unsigned char>(values[j] << 1);
@@ -256,6 +257,7 @@ namespace ptl {
 		constexpr
 		auto operator>>=(size_type count) noexcept -> bitset & {
 			if constexpr(Size != 0) {
+				count = std::min(count, Size);
 				for(size_type i{0}; i < count; ++i) {
 					values[0] = static_cast<unsigned char>(values[0] >> 1);
 					for(size_type j{1}; j < sizeof(values); ++j) {
-- 
2.43.0


From afaea838696b8f6de7ab86720765b30af280f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:22 +0000
Subject: [PATCH 19/25] fix: variant::emplace required every alternative to be
 constructible from the arguments

---
 inc/ptl/variant.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 598cae8..6659e6b 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -124,14 +124,6 @@ namespace ptl {
 			return visit<Move>(indices, type, storage, combined_visitor{std::forward<Visitors>(visitors)...});
 		}
 
-		template<std::size_t... Indices, typename Storage, typename... Args>
-		constexpr
-		void emplace(std::index_sequence<Indices...>, std::size_t type, Storage & storage, Args &&... args) {  //TODO: [C++??] precondition(union in storage is uninitialized);
-			using Dispatch = void(*)(Storage &, Args &&...);
-			constexpr Dispatch dispatch[]{+[](Storage & storage, Args &&... args) { storage.template set<Indices>(std::forward<Args>(args)...); }...};
-			dispatch[type](storage, std::forward<Args>(args)...);
-		}
-
 		template<bool Move, typename Storage, std::size_t... Indices>
 		constexpr
 		void assign(std::index_sequence<Indices...>, std::size_t type, Storage & lhs, std::conditional_t<Move, Storage, const Storage> & rhs) noexcept(Move) { //TODO: [C++??] precondition(lhs is uninitialized);
@@ -258,7 +250,7 @@ namespace ptl {
 			if constexpr(noexcept(T{std::forward<Args>(args)...})) {
 				internal_variant::destroy(indices_t{}, type, storage);
 				constexpr auto index{internal_variant::determine_index<std::decay_t<T>, Head, Tail...>()};
-				internal_variant::emplace(indices_t{}, index, storage, std::forward<Args>(args)...);
+				storage.template set<index>(std::forward<Args>(args)...);
 				type = index;
 			} else {
 				variant tmp{std::in_place_type<T>, std::forward<Args>(args)...};
-- 
2.43.0


From d3c6bef1f27bb62abb8908a1ed811732addb7096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:16 +0000
Subject: [PATCH 20/25] fix: comparing mutable with constant iterators of
 vector and string was ambiguous

---
 inc/ptl/string.hpp | 3 ++-
 inc/ptl/vector.hpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 157140d..5494855 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -230,6 +230,7 @@ namespace ptl {
 			contiguous_iterator(pointer ptr) noexcept : ptr{ptr} {}
 
 			constexpr
+			explicit
 			operator contiguous_iterator<false>() const noexcept { return contiguous_iterator<false>{const_cast<char *>(ptr)}; }
 
 			pointer ptr{nullptr};
@@ -475,7 +476,7 @@ namespace ptl {
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			std::copy(const_cast<char *>(last.ptr), data() + size(), const_cast<char *>(first.ptr));
 			storage.set_size(size() - (last - first));
-			return first;
+			return static_cast<iterator>(first);
 		}
 
 		template<typename InputIterator, std::enable_if_t<std::is_same_v<std::input_iterator_tag, typename std::iterator_traits<InputIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 38de884..01b4a54 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -186,6 +186,7 @@ namespace ptl {
 			contiguous_iterator(pointer ptr) noexcept : ptr{ptr} {}
 
 			constexpr
+			explicit
 			operator contiguous_iterator<false>() const noexcept { return contiguous_iterator<false>{const_cast<Type *>(ptr)}; }
 
 			pointer ptr{nullptr};
@@ -351,11 +352,11 @@ namespace ptl {
 		auto erase(const_iterator pos) noexcept -> iterator { return erase(pos, pos + 1); } //TODO: [C++??] precondition(pos != end());
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto count{static_cast<size_type>(std::distance(first, last))};
-			if(count == 0) return first; //moving the tail onto itself would self-move-assign every element
+			if(count == 0) return static_cast<iterator>(first); //moving the tail onto itself would self-move-assign every element
 			std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));
 			std::destroy(data() + size() - count, data() + size());
 			storage.set_size(size() - count);
-			return first;
+			return static_cast<iterator>(first);
 		}
 
 		template<typename InputIterator, std::enable_if_t<std::is_same_v<std::input_iterator_tag, typename std::iterator_traits<InputIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
-- 
2.43.0


From e2cb3dcfea89091e66b2fceeb51f2ea9b27b8226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:58 +0000
Subject: [PATCH 21/25] fix: copying a variant_ref was not declared noexcept

---
 inc/ptl/variant_ref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/variant_ref.hpp b/inc/ptl/variant_ref.hpp
index e6d1a47..651230f 100644
--- a/inc/ptl/variant_ref.hpp
+++ b/inc/ptl/variant_ref.hpp
@@ -128,9 +128,9 @@ namespace ptl {
 		}
 
 		constexpr
-		variant_ref(const variant_ref & other) { internal_variant_ref::assign(indices_t{}, type = other.type, storage, other.storage); }
+		variant_ref(const variant_ref & other) noexcept { internal_variant_ref::assign(indices_t{}, type = other.type, storage, other.storage); }
 		constexpr
-		auto operator=(const variant_ref & other) -> variant_ref & {
+		auto operator=(const variant_ref & other) noexcept -> variant_ref & {
 			internal_variant_ref::assign(indices_t{}, type = other.type, storage, other.storage);
 			return *this;
 		}
-- 
2.43.0


From 2a01423fd06f50b00ef07e193ead4766a90be85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:44 +0000
Subject: [PATCH 22/25] fix: variant rejected alternatives whose largest size
 is no multiple of the strictest alignment

The storage union was padded to the strictest alignment, e.g. for
variant<char[3] wrapper, short> or variant<optional<string>, long *>, and
the size check of the class rejected such lists. Pack the union; instances
that compiled before keep their layout.
---
 inc/ptl/variant.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 6659e6b..ca5cb27 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -19,6 +19,7 @@ namespace ptl {
 		template<typename...>
 		class storage_t final {};
 
+		#pragma pack(push, 1)
 		template<typename Head, typename... Tail>
 		class storage_t<Head, Tail...> final {
 			union {
@@ -59,6 +60,7 @@ namespace ptl {
 				else std::destroy_at(std::addressof(val));
 			}
 		};
+		#pragma pack(pop)
 
 		inline
 		constexpr
-- 
2.43.0


From 48706fd1083eabf808cb2d18057b74c9a8d875eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:11 +0000
Subject: [PATCH 23/25] fix: vector stored over-aligned elements in
 insufficiently aligned memory

---
 inc/ptl/vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 01b4a54..8bee211 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -49,6 +49,12 @@ namespace ptl {
 				if(capacity == 0) return;
 				if(capacity > max_size()) throw std::length_error{"ptl::vector - allocation attempting to exceed max_size"};
 				capacity = std::max(min_capacity, capacity);
+				if constexpr(alignof(Type) > alignof(std::max_align_t)) { //calloc does not guarantee sufficient alignment
+					dealloc = +[](Type * ptr) noexcept { ::operator delete(ptr, std::align_val_t{alignof(Type)}); };
+					ptr = static_cast<Type *>(::operator new(capacity * sizeof(Type), std::align_val_t{alignof(Type)}));
+					cap = capacity;
+					return;
+				}
 				dealloc = +[](Type * ptr) noexcept { std::free(ptr); };
 				ptr = static_cast<Type *>(std::calloc(capacity, sizeof(Type)));
 				if(!ptr) throw std::bad_alloc{};
-- 
2.43.0


From 2791a98c68d1522712398694e43c9b01d59b98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 24/25] fix: copying or moving a mutable array of a type
 convertible from arrays selected the converting constructor

---
 inc/ptl/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/array.hpp b/inc/ptl/array.hpp
index df20288..e60eb60 100644
--- a/inc/ptl/array.hpp
+++ b/inc/ptl/array.hpp
@@ -174,7 +174,7 @@ namespace ptl {
 		using reverse_iterator       = std::reverse_iterator<      iterator>;
 		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Args &&, Type> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Args &&, Type> &&...) && !(std::is_same_v<std::remove_cv_t<std::remove_reference_t<Args>>, array> || ...)>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		array(Args &&... args) : values{std::forward<Args>(args)...} {}
 
-- 
2.43.0


From ce3b1b767ed49d24498a9ab3d3612fcfed13a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:06 +0000
Subject: [PATCH 25/25] fix: visiting with several visitors rejected visitors
 that are lvalues

---
 inc/ptl/variant.hpp     | 2 +-
 inc/ptl/variant_ref.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index ca5cb27..9ea73f7 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -122,7 +122,7 @@ namespace ptl {
 		template<bool Move, typename Storage, typename... Visitors, std::size_t... Indices, typename = std::enable_if_t<(sizeof...(Visitors) > 1)>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		auto visit(std::index_sequence<Indices...> indices, std::size_t type, Storage & storage, Visitors &&... visitors) -> decltype(auto) {  //TODO: [C++??] precondition(storage.get(type) is valid);
-			struct combined_visitor : Visitors... { using Visitors::operator()...; };
+			struct combined_visitor : std::decay_t<Visitors>... { using std::decay_t<Visitors>::operator()...; };
 			return visit<Move>(indices, type, storage, combined_visitor{std::forward<Visitors>(visitors)...});
 		}
 
diff --git a/inc/ptl/variant_ref.hpp b/inc/ptl/variant_ref.hpp
index 651230f..460cf35 100644
--- a/inc/ptl/variant_ref.hpp
+++ b/inc/ptl/variant_ref.hpp
@@ -141,7 +141,7 @@ namespace ptl {
 		auto visit(Visitors &&... visitors) const -> decltype(auto) {
 			if constexpr(sizeof...(Visitors) == 1) return internal_variant_ref::visit(indices_t{}, type, storage, visitors...);
 			else {
-				struct combined_visitor : Visitors... { using Visitors::operator()...; };
+				struct combined_visitor : std::decay_t<Visitors>... { using std::decay_t<Visitors>::operator()...; };
 				combined_visitor visitor{std::forward<Visitors>(visitors)...};
 				return visit(visitor);
 			}
-- 
2.43.0

