From 7f9455df495074a263f6547e3d9332e3931cc14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:22 +0000
Subject: [PATCH 01/47] fix: keep unused high bits of a bitset out of results

set(), flip(), operator~, operator<< and the integer constructor can leave
bits above the bitset's size set in the last storage element.
transform_reduce visited those bits, operator>> shifted them into view and
lowest_unset could return a position past the end.
---
 include/stdx/bitset.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index a48b7d9..6d28025 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -165,6 +165,9 @@ class bitset {
     constexpr auto transform_reduce(F &&f, R &&r, T init) const -> T {
         std::size_t i = 0;
         for (auto e : storage) {
+            if (i + storage_elem_size > N) {
+                e &= lastmask;
+            }
             while (e != 0) {
                 auto const offset = static_cast<std::size_t>(countr_zero(e));
                 e &= static_cast<elem_t>(~(bit << offset));
@@ -405,11 +408,11 @@ class bitset {
         for (auto e : storage) {
             if (auto offset = static_cast<std::size_t>(countr_one(e));
                 offset != std::numeric_limits<elem_t>::digits) {
-                return static_cast<iter_arg_t>(i + offset);
+                return static_cast<iter_arg_t>(std::min(i + offset, N));
             }
             i += std::numeric_limits<elem_t>::digits;
         }
-        return static_cast<iter_arg_t>(i);
+        return static_cast<iter_arg_t>(N);
     }
 
     [[nodiscard]] constexpr auto operator~() const -> bitset {
@@ -469,6 +472,7 @@ class bitset {
 
     constexpr auto operator>>=(std::size_t pos) LIFETIMEBOUND->bitset & {
         if constexpr (N != 0) {
+            storage.back() &= lastmask;
             auto dst = std::size_t{};
             auto const start = pos / storage_elem_size;
             pos %= storage_elem_size;
-- 
2.43.0


From c16ba9d3e662f5bc285882bf3aae6041d0a1069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:22 +0000
Subject: [PATCH 02/47] fix: clear a bitset that is shifted by its size or more

Shifting by at least the number of storage bits read or wrote outside the
storage, or left the bits unchanged.
---
 include/stdx/bitset.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 6d28025..fd44069 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -443,6 +443,9 @@ class bitset {
     }
 
     constexpr auto operator<<=(std::size_t pos) LIFETIMEBOUND->bitset & {
+        if (pos >= N) {
+            return reset();
+        }
         if constexpr (N != 0) {
             auto dst = storage_size - 1;
             auto const start = dst - (pos / storage_elem_size);
@@ -471,6 +474,9 @@ class bitset {
     }
 
     constexpr auto operator>>=(std::size_t pos) LIFETIMEBOUND->bitset & {
+        if (pos >= N) {
+            return reset();
+        }
         if constexpr (N != 0) {
             storage.back() &= lastmask;
             auto dst = std::size_t{};
-- 
2.43.0


From ba7056e22c0d33d6ba048265136ace11e336f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:22 +0000
Subject: [PATCH 03/47] fix: handle zero-sized bitsets and 64-bit storage
 elements

Iterating an empty (zero-sized) bitset, or constructing one from an integer
with 64-bit storage, accessed storage that does not exist. Constructing a
bitset whose storage element is a 64-bit type other than uint64_t shifted by
the full width of the value.
---
 include/stdx/bitset.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index fd44069..9c0bac4 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -147,6 +147,9 @@ class bitset {
 
     template <detail::bit_spec Spec, typename F>
     constexpr auto for_each(F &&f) const -> F {
+        if constexpr (N == 0) {
+            return std::forward<F>(f);
+        }
         std::size_t idx = 0;
         for (auto i = std::size_t{}; i < storage_size - 1; ++i) {
             Spec::template fn<bit, iter_arg_t,
@@ -186,8 +189,11 @@ class bitset {
   public:
     constexpr bitset() = default;
     constexpr explicit bitset(std::uint64_t value) {
-        if constexpr (std::is_same_v<elem_t, std::uint64_t>) {
-            storage[0] = value;
+        if constexpr (N == 0) {
+            return;
+        } else if constexpr (storage_elem_size >=
+                             std::numeric_limits<std::uint64_t>::digits) {
+            storage[0] = static_cast<elem_t>(value);
         } else {
             for (auto &elem : storage) {
                 if (value == 0) {
-- 
2.43.0


From fea6c873f027b623058196720703cd383851bd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:22 +0000
Subject: [PATCH 04/47] fix: use the deduplicated type list for type_bitset
 set/reset/flip

With a repeated type in the list, set, reset and flip computed indices in
the original list while all other operations use the deduplicated one, so
they changed the bit of another type.
---
 include/stdx/bitset.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 9c0bac4..bf093d0 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -623,24 +623,24 @@ template <typename... Ts> class type_bitset {
 
     template <typename... Us>
     constexpr auto set(bool value = true) LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.set();
         } else {
-            (bs.set(detail::index_of<Us, type_list<Ts...>>, value), ...);
+            (bs.set(detail::index_of<Us, list_t>, value), ...);
         }
         return *this;
     }
 
     template <typename... Us>
     constexpr auto reset() LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.reset();
         } else {
-            (bs.reset(detail::index_of<Us, type_list<Ts...>>), ...);
+            (bs.reset(detail::index_of<Us, list_t>), ...);
         }
         return *this;
     }
@@ -652,12 +652,12 @@ template <typename... Ts> class type_bitset {
 
     template <typename... Us>
     constexpr auto flip() LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.flip();
         } else {
-            (bs.flip(detail::index_of<Us, type_list<Ts...>>), ...);
+            (bs.flip(detail::index_of<Us, list_t>), ...);
         }
         return *this;
     }
-- 
2.43.0


From cbbc9bf3d7bd7649da97bf9df17bacef84142ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:53 +0000
Subject: [PATCH 05/47] fix: terminate an intrusive_list after inserting at its
 end

With the unchecked node policy, inserting a re-used node at end() kept the
node's stale next pointer, so the list continued into unrelated nodes.
---
 include/stdx/intrusive_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdx/intrusive_list.hpp b/include/stdx/intrusive_list.hpp
index 2f8ccd4..8cff599 100644
--- a/include/stdx/intrusive_list.hpp
+++ b/include/stdx/intrusive_list.hpp
@@ -91,6 +91,7 @@ class intrusive_list {
             n->prev = p->prev;
             p->prev = n;
         } else {
+            n->next = nullptr;
             n->prev = tail;
             tail = n;
         }
-- 
2.43.0


From ab5785a0cc2a23f1adbab37f4744b79c3d5f389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:53 +0000
Subject: [PATCH 06/47] fix: avoid signed overflow when multiplying 16-bit
 rollover values

uint16_t operands are promoted to int, so the product of two large values
overflowed.
---
 include/stdx/rollover.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/rollover.hpp b/include/stdx/rollover.hpp
index a791df8..f8463a6 100644
--- a/include/stdx/rollover.hpp
+++ b/include/stdx/rollover.hpp
@@ -52,7 +52,7 @@ template <typename T> struct rollover_t {
         return *this;
     }
     constexpr auto operator*=(rollover_t other) -> rollover_t & {
-        value *= other.value;
+        value = static_cast<underlying_t>(1u * value * other.value);
         return *this;
     }
     constexpr auto operator/=(rollover_t other) -> rollover_t & {
-- 
2.43.0


From 59439d5fe77737433e9f73ee7a3f135bd6cbe40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:53 +0000
Subject: [PATCH 07/47] fix: saturate_cast between types that differ in width
 and signedness

Casting a wider unsigned value to a narrower signed type clamped to inverted
bounds, and a negative value of a narrower signed type was not clamped to
zero in a wider unsigned type.
---
 include/stdx/numeric.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/stdx/numeric.hpp b/include/stdx/numeric.hpp
index 2706030..047ec97 100644
--- a/include/stdx/numeric.hpp
+++ b/include/stdx/numeric.hpp
@@ -39,7 +39,8 @@ constexpr auto saturate_cast(From from) -> To {
     constexpr auto to_max = std::numeric_limits<To>::max();
 
     if constexpr (sizeof(From) > sizeof(To)) {
-        auto const clamped = std::clamp<From>(from, to_min, to_max);
+        constexpr auto min = std::is_unsigned_v<From> ? To{} : to_min;
+        auto const clamped = std::clamp<From>(from, min, to_max);
         return static_cast<To>(clamped);
     }
 
@@ -49,11 +50,11 @@ constexpr auto saturate_cast(From from) -> To {
                 return to_max;
             }
         }
+    }
 
-        if constexpr (std::is_signed_v<From> and std::is_unsigned_v<To>) {
-            if (from < 0) {
-                return static_cast<To>(0);
-            }
+    if constexpr (std::is_signed_v<From> and std::is_unsigned_v<To>) {
+        if (from < 0) {
+            return static_cast<To>(0);
         }
     }
 
-- 
2.43.0


From a6be2cc793ed932163f31edc99ed5695f197c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:53 +0000
Subject: [PATCH 08/47] fix: round sized conversions up only when there is a
 remainder

Converting from a larger type whose size is not a multiple of the smaller
type's size always added one element, even for a size of zero.
---
 include/stdx/utility.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 19636af..8d135cb 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -141,8 +141,6 @@ template <typename T, typename U>
 [[nodiscard]] constexpr auto size_conversion(std::size_t sz) -> std::size_t {
     if constexpr (sizeof(T) == sizeof(U)) {
         return sz;
-    } else if constexpr (sizeof(T) > sizeof(U)) {
-        return (sz * sizeof(T) / sizeof(U)) + (sizeof(T) % sizeof(U) > 0);
     } else {
         return ((sz * sizeof(T)) + sizeof(U) - 1) / sizeof(U);
     }
-- 
2.43.0


From 4259fed0553429e623c5f9e0fcafd63b78e2c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:53 +0000
Subject: [PATCH 09/47] fix: drop repeated keys when constructing a cx_set

A set constructed from repeated values held the key several times: its size
was wrong and erasing the key left it in the set.
---
 include/stdx/cx_set.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdx/cx_set.hpp b/include/stdx/cx_set.hpp
index 914d86f..579b108 100644
--- a/include/stdx/cx_set.hpp
+++ b/include/stdx/cx_set.hpp
@@ -25,8 +25,9 @@ template <typename Key, std::size_t N> class cx_set {
     constexpr cx_set() = default;
     template <convertible_to<key_type>... Ts>
         requires(sizeof...(Ts) <= N)
-    constexpr explicit cx_set(Ts const &...ts)
-        : storage{static_cast<key_type>(ts)...}, current_size{sizeof...(Ts)} {}
+    constexpr explicit cx_set(Ts const &...ts) {
+        (insert(static_cast<key_type>(ts)), ...);
+    }
 
     [[nodiscard]] constexpr auto begin() LIFETIMEBOUND -> iterator {
         return std::data(storage);
-- 
2.43.0


From 1172d6fd2a49bca2bc46dc07393cc024d56b6bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:53 +0000
Subject: [PATCH 10/47] fix: drop repeated keys when constructing a cx_map

A map constructed from entries with a repeated key held the key several
times: its size was wrong and erasing the key left it in the map. As with
std::map, the first entry for a key is kept.
---
 include/stdx/cx_map.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdx/cx_map.hpp b/include/stdx/cx_map.hpp
index 2ffbbf4..28ed676 100644
--- a/include/stdx/cx_map.hpp
+++ b/include/stdx/cx_map.hpp
@@ -39,8 +39,9 @@ template <typename Key, typename Value, std::size_t N> class cx_map {
     constexpr cx_map() = default;
     template <same_as<value_type>... Vs>
         requires(sizeof...(Vs) <= N)
-    constexpr explicit cx_map(Vs const &...vs)
-        : storage{vs...}, current_size{sizeof...(Vs)} {}
+    constexpr explicit cx_map(Vs const &...vs) {
+        ((contains(vs.key) ? void() : void(storage[current_size++] = vs)), ...);
+    }
 
     [[nodiscard]] constexpr auto begin() LIFETIMEBOUND -> iterator {
         return std::data(storage);
-- 
2.43.0


From c24e0226adc1718e38adfb65b4146b018dad6c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:53 +0000
Subject: [PATCH 11/47] fix: shift widths in the fallback rotate and
 power-of-two functions

The implementations used when the standard library lacks these functions
rotated by more than the type's width and shifted a 32-bit one for 64-bit
arguments.
---
 include/stdx/bit.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stdx/bit.hpp b/include/stdx/bit.hpp
index 5587bfa..22bcb9b 100644
--- a/include/stdx/bit.hpp
+++ b/include/stdx/bit.hpp
@@ -170,6 +170,7 @@ template <typename T>
 template <typename T>
 [[nodiscard]] constexpr auto rotl(T x, int s) noexcept
     -> std::enable_if_t<std::is_unsigned_v<T>, T> {
+    s %= std::numeric_limits<T>::digits;
     if (s == 0) {
         return x;
     }
@@ -182,6 +183,7 @@ template <typename T>
 template <typename T>
 [[nodiscard]] constexpr auto rotr(T x, int s) noexcept
     -> std::enable_if_t<std::is_unsigned_v<T>, T> {
+    s %= std::numeric_limits<T>::digits;
     if (s == 0) {
         return x;
     }
@@ -221,7 +223,7 @@ template <typename T>
     if (x <= 1U) {
         return 1U;
     }
-    return T(1U << bit_width(x - 1U));
+    return T(T{1} << bit_width(T(x - 1U)));
 }
 
 template <typename T>
@@ -230,7 +232,7 @@ template <typename T>
     if (x == 0) {
         return x;
     }
-    return T(1U << (bit_width(x) - 1));
+    return T(T{1} << (bit_width(x) - 1));
 }
 #else
 using std::bit_ceil;
-- 
2.43.0


From e1ad0538ffab6f5be372bf74632c9d4c16625c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:25:57 +0000
Subject: [PATCH 12/47] fix: make the reverse iterators of cx_vector usable

rbegin, rend and their const forms returned a plain iterator where a
reverse_iterator is declared. That conversion is explicit, so any use of them
failed to compile.
---
 include/stdx/cx_vector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdx/cx_vector.hpp b/include/stdx/cx_vector.hpp
index ef1bf2d..0d8814e 100644
--- a/include/stdx/cx_vector.hpp
+++ b/include/stdx/cx_vector.hpp
@@ -58,27 +58,27 @@ template <typename T, std::size_t N> class cx_vector {
     }
 
     [[nodiscard]] constexpr auto rbegin() LIFETIMEBOUND -> reverse_iterator {
-        return end();
+        return reverse_iterator{end()};
     }
     [[nodiscard]] constexpr auto rbegin() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return end();
+        return const_reverse_iterator{end()};
     }
     [[nodiscard]] constexpr auto crbegin() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return cend();
+        return const_reverse_iterator{cend()};
     }
 
     [[nodiscard]] constexpr auto rend() LIFETIMEBOUND -> reverse_iterator {
-        return begin();
+        return reverse_iterator{begin()};
     }
     [[nodiscard]] constexpr auto rend() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return begin();
+        return const_reverse_iterator{begin()};
     }
     [[nodiscard]] constexpr auto crend() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return cbegin();
+        return const_reverse_iterator{cbegin()};
     }
 
     [[nodiscard]] constexpr auto front() LIFETIMEBOUND -> reference {
-- 
2.43.0


From 17564abfd2a38f1ca12021dd6cd42526a05ad91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:10 +0000
Subject: [PATCH 13/47] fix: convert a bitset to enumerations and to types
 narrower than its storage

to<T>() was ill-formed for an enumeration whose underlying type differs from
the storage element, and to<T>() and to_natural() were ill-formed for a small
bitset with a wide storage element.
---
 include/stdx/bitset.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index bf093d0..8ca9985 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -249,10 +249,12 @@ class bitset {
         if constexpr (std::is_same_v<elem_t, U>) {
             return static_cast<T>(storage[0] & lastmask);
         } else {
-            U result{highbits()};
-            for (auto i = storage_size - 2u; i < storage_size; --i) {
-                result = static_cast<T>(result << storage_elem_size);
-                result |= storage[i];
+            auto result = static_cast<U>(highbits());
+            if constexpr (storage_size > 1) {
+                for (auto i = storage_size - 2u; i < storage_size; --i) {
+                    result = static_cast<U>(result << storage_elem_size);
+                    result |= storage[i];
+                }
             }
             return static_cast<T>(result);
         }
-- 
2.43.0


From 53f9fd7a3cfc9deec9b3310f877fc0a7bc3a8461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:44:09 +0000
Subject: [PATCH 14/47] fix: convert atomic read-modify-write results back to
 the value type

When atomic_type maps an enumeration to an integral storage type, exchange
and the fetch operations did not compile: the stored type was returned
without converting it back, unlike in load.
---
 include/stdx/atomic.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/stdx/atomic.hpp b/include/stdx/atomic.hpp
index c1a6d9f..da79484 100644
--- a/include/stdx/atomic.hpp
+++ b/include/stdx/atomic.hpp
@@ -68,16 +68,19 @@ template <typename T> class atomic {
 
     [[nodiscard]] auto
     exchange(T t, std::memory_order mo = std::memory_order_seq_cst) -> T {
-        return ::atomic::exchange(value, static_cast<elem_t>(t), mo);
+        return static_cast<T>(
+            ::atomic::exchange(value, static_cast<elem_t>(t), mo));
     }
 
     auto fetch_add(T t, std::memory_order mo = std::memory_order_seq_cst) -> T {
         static_assert(requires { t + t; }, "T must support operator+(x, y)");
-        return ::atomic::fetch_add(value, static_cast<elem_t>(t), mo);
+        return static_cast<T>(
+            ::atomic::fetch_add(value, static_cast<elem_t>(t), mo));
     }
     auto fetch_sub(T t, std::memory_order mo = std::memory_order_seq_cst) -> T {
         static_assert(requires { t - t; }, "T must support operator-(x, y)");
-        return ::atomic::fetch_sub(value, static_cast<elem_t>(t), mo);
+        return static_cast<T>(
+            ::atomic::fetch_sub(value, static_cast<elem_t>(t), mo));
     }
 
     auto operator+=(T t) -> T { return fetch_add(t) + t; }
@@ -102,15 +105,18 @@ template <typename T> class atomic {
 
     auto fetch_and(T t, std::memory_order mo = std::memory_order_seq_cst) -> T {
         static_assert(requires { t & t; }, "T must support operator&(x, y)");
-        return ::atomic::fetch_and(value, static_cast<elem_t>(t), mo);
+        return static_cast<T>(
+            ::atomic::fetch_and(value, static_cast<elem_t>(t), mo));
     }
     auto fetch_or(T t, std::memory_order mo = std::memory_order_seq_cst) -> T {
         static_assert(requires { t | t; }, "T must support operator|(x, y)");
-        return ::atomic::fetch_or(value, static_cast<elem_t>(t), mo);
+        return static_cast<T>(
+            ::atomic::fetch_or(value, static_cast<elem_t>(t), mo));
     }
     auto fetch_xor(T t, std::memory_order mo = std::memory_order_seq_cst) -> T {
         static_assert(requires { t ^ t; }, "T must support operator^(x, y)");
-        return ::atomic::fetch_xor(value, static_cast<elem_t>(t), mo);
+        return static_cast<T>(
+            ::atomic::fetch_xor(value, static_cast<elem_t>(t), mo));
     }
 
     auto operator&=(T t) -> T { return fetch_and(t) & t; }
-- 
2.43.0


From c1b488164773cbabe5366084d10ad03bf7bf5f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:44:09 +0000
Subject: [PATCH 15/47] fix: avoid signed overflow in the compound operators of
 atomic

The stored value wraps, as it does for std::atomic, but the returned value was
recomputed with plain signed arithmetic, which is undefined at the limits.
---
 include/stdx/atomic.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/stdx/atomic.hpp b/include/stdx/atomic.hpp
index da79484..244efae 100644
--- a/include/stdx/atomic.hpp
+++ b/include/stdx/atomic.hpp
@@ -39,6 +39,26 @@ template <typename T> class atomic {
 
     alignas(alignment) elem_t value;
 
+    // like the atomic operations themselves, signed arithmetic wraps
+    template <typename U, typename V>
+    constexpr static auto plus(U u, V v) -> T {
+        if constexpr (std::is_integral_v<U> and std::is_signed_v<U>) {
+            using W = std::make_unsigned_t<U>;
+            return static_cast<T>(static_cast<W>(u) + static_cast<W>(v));
+        } else {
+            return u + v;
+        }
+    }
+    template <typename U, typename V>
+    constexpr static auto minus(U u, V v) -> T {
+        if constexpr (std::is_integral_v<U> and std::is_signed_v<U>) {
+            using W = std::make_unsigned_t<U>;
+            return static_cast<T>(static_cast<W>(u) - static_cast<W>(v));
+        } else {
+            return u - v;
+        }
+    }
+
   public:
     using value_type = T;
 
@@ -83,12 +103,12 @@ template <typename T> class atomic {
             ::atomic::fetch_sub(value, static_cast<elem_t>(t), mo));
     }
 
-    auto operator+=(T t) -> T { return fetch_add(t) + t; }
-    auto operator-=(T t) -> T { return fetch_sub(t) - t; }
+    auto operator+=(T t) -> T { return plus(fetch_add(t), t); }
+    auto operator-=(T t) -> T { return minus(fetch_sub(t), t); }
 
     auto operator++() -> T {
         static_assert(requires(T t) { ++t; }, "T must support operator++()");
-        return ::atomic::fetch_add(value, 1) + 1;
+        return plus(::atomic::fetch_add(value, 1), 1);
     }
     [[nodiscard]] auto operator++(int) -> T {
         static_assert(requires(T t) { t++; }, "T must support operator++(int)");
@@ -96,7 +116,7 @@ template <typename T> class atomic {
     }
     auto operator--() -> T {
         static_assert(requires(T t) { --t; }, "T must support operator--()");
-        return ::atomic::fetch_sub(value, 1) - 1;
+        return minus(::atomic::fetch_sub(value, 1), 1);
     }
     [[nodiscard]] auto operator--(int) -> T {
         static_assert(requires(T t) { t--; }, "T must support operator--(int)");
-- 
2.43.0


From 15786bf2932df1ca06170261be193e96d3d7c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:21 +0000
Subject: [PATCH 16/47] fix: let optional of a class type be assigned from a
 value

---
 include/stdx/optional.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index a8bb172..6bbdc9e 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -122,9 +122,7 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
     template <typename U = T>
         requires(std::is_constructible_v<T, U> and
                  std::is_assignable_v<T &, U> and
-                 not std::is_same_v<std::remove_cvref_t<U>, optional> and
-                 (std::is_scalar_v<T> or
-                  not std::is_same_v<std::decay_t<U>, T>))
+                 not std::is_same_v<std::remove_cvref_t<U>, optional>)
     constexpr auto operator=(U &&u) -> optional & {
         val = std::forward<U>(u);
         return *this;
-- 
2.43.0


From 9368801bb4f8840891c5166ada641afbe4565b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:05 +0000
Subject: [PATCH 17/47] fix: allow optional of an aggregate as the result of
 transform

---
 include/stdx/optional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index 6bbdc9e..886f6b9 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -112,7 +112,7 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
         requires(std::is_constructible_v<T, U &&> and
                  not std::is_same_v<std::remove_cvref_t<U>, std::in_place_t> and
                  not std::is_same_v<std::remove_cvref_t<U>, optional>)
-    constexpr explicit optional(U &&u) : val{std::forward<U>(u)} {}
+    constexpr explicit optional(U &&u) : val(std::forward<U>(u)) {}
 
     constexpr auto operator=(std::nullopt_t) -> optional & {
         reset();
-- 
2.43.0


From 6a4603e68c8bb324a71ef74252b62afe39a42b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:13 +0000
Subject: [PATCH 18/47] fix: do not try std::apply on optional values that are
 not tuples

---
 include/stdx/optional.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index 886f6b9..9b18cc3 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <stdx/concepts.hpp>
 #include <stdx/functional.hpp>
 #include <stdx/type_traits.hpp>
 #include <stdx/utility.hpp>
@@ -60,7 +61,12 @@ template <auto V> struct tombstone_value {
 };
 
 namespace optional_detail {
-template <typename Func, typename Arg, typename = void> struct unwrap_invoker {
+// apply from namespace std can only be tried on types it applies to
+template <typename T>
+concept has_tuple_protocol =
+    tuplelike<T> or requires { std::tuple_size<T>::value; };
+
+template <typename Func, typename Arg> struct unwrap_invoker {
     template <typename F, typename A>
     constexpr static auto invoke(F &&f, A &&a) {
         return [&] { return std::forward<F>(f)(std::forward<A>(a)); };
@@ -68,9 +74,11 @@ template <typename Func, typename Arg, typename = void> struct unwrap_invoker {
 };
 
 template <typename Func, template <typename...> typename L, typename... Ts>
-struct unwrap_invoker<Func, L<Ts...>,
-                      std::void_t<decltype(apply(std::declval<Func>(),
-                                                 std::declval<L<Ts...>>()))>> {
+    requires has_tuple_protocol<L<Ts...>> and
+             requires {
+                 apply(std::declval<Func>(), std::declval<L<Ts...>>());
+             }
+struct unwrap_invoker<Func, L<Ts...>> {
     template <typename F, typename A>
     constexpr static auto invoke(F &&f, A &&a) {
         return [&] { return apply(std::forward<F>(f), std::forward<A>(a)); };
-- 
2.43.0


From 8e73cb7837bc09a831b430704c87317327191f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:16:48 +0000
Subject: [PATCH 19/47] fix: for_each_butlastn calls its own for_each_n

With iterators of standard containers the unqualified call found
std::for_each_n, so the result was an iterator instead of the documented
tuple and initial_medial_final did not compile.
---
 include/stdx/algorithm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/algorithm.hpp b/include/stdx/algorithm.hpp
index d2ccb99..18051a2 100644
--- a/include/stdx/algorithm.hpp
+++ b/include/stdx/algorithm.hpp
@@ -93,7 +93,8 @@ constexpr auto for_each_butlastn(std::random_access_iterator_tag, RandIt first,
                                  RandIt last, N n, Operation op,
                                  RandItN... first_n) {
     auto const sz = std::distance(first, last);
-    return for_each_n(first, sz - static_cast<decltype(sz)>(n), op, first_n...);
+    return v1::for_each_n(first, sz - static_cast<decltype(sz)>(n), op,
+                          first_n...);
 }
 } // namespace detail
 
-- 
2.43.0


From 6952190c06001296de6c79a96f7e40848f6cfe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:16:48 +0000
Subject: [PATCH 20/47] fix: for_each_butlastn with a count beyond the signed
 range

An unsigned count above the maximum difference wrapped to a negative number,
so random access ranges were iterated past their end.
---
 include/stdx/algorithm.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/stdx/algorithm.hpp b/include/stdx/algorithm.hpp
index 18051a2..5906f29 100644
--- a/include/stdx/algorithm.hpp
+++ b/include/stdx/algorithm.hpp
@@ -2,6 +2,8 @@
 
 #include <stdx/tuple.hpp>
 
+#include <algorithm>
+#include <cstdint>
 #include <functional>
 #include <iterator>
 
@@ -93,7 +95,9 @@ constexpr auto for_each_butlastn(std::random_access_iterator_tag, RandIt first,
                                  RandIt last, N n, Operation op,
                                  RandItN... first_n) {
     auto const sz = std::distance(first, last);
-    return v1::for_each_n(first, sz - static_cast<decltype(sz)>(n), op,
+    auto const skip = std::min(static_cast<std::uintmax_t>(n),
+                               static_cast<std::uintmax_t>(sz));
+    return v1::for_each_n(first, sz - static_cast<decltype(sz)>(skip), op,
                           first_n...);
 }
 } // namespace detail
-- 
2.43.0


From 464807e1d4489fc6ab74d4740a1e66ed3a7f95e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:29:52 +0000
Subject: [PATCH 21/47] fix: make_array converts its arguments to the common
 type

Arguments of different arithmetic types were rejected as narrowing
conversions, for example make_array(i, 0.5) with an int variable.
---
 include/stdx/array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/array.hpp b/include/stdx/array.hpp
index 15d358e..2204a7e 100644
--- a/include/stdx/array.hpp
+++ b/include/stdx/array.hpp
@@ -15,7 +15,8 @@ constexpr auto make_array(Ts &&...ts) {
         return std::array<int, 0>{};
     } else {
         using A = std::common_type_t<Ts...>;
-        return std::array<A, sizeof...(Ts)>{std::forward<Ts>(ts)...};
+        return std::array<A, sizeof...(Ts)>{
+            static_cast<A>(std::forward<Ts>(ts))...};
     }
 }
 
-- 
2.43.0


From 9ca4009fdb394cbcd58309dfb5092cb057a6a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:29:52 +0000
Subject: [PATCH 22/47] fix: ct_capacity_v of an array of const elements

Such a type matched both the array and the const specialization.
---
 include/stdx/iterator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stdx/iterator.hpp b/include/stdx/iterator.hpp
index 90f7acc..0460128 100644
--- a/include/stdx/iterator.hpp
+++ b/include/stdx/iterator.hpp
@@ -27,6 +27,10 @@ constexpr auto ct_capacity_v<std::array<T, N>> = N;
 // NOLINTNEXTLINE(*-avoid-c-arrays)
 template <typename T, std::size_t N> constexpr auto ct_capacity_v<T[N]> = N;
 
+template <typename T, std::size_t N>
+// NOLINTNEXTLINE(*-avoid-c-arrays)
+constexpr auto ct_capacity_v<T const[N]> = N;
+
 template <typename T> constexpr auto ct_capacity_v<T const> = ct_capacity_v<T>;
 
 template <typename T>
-- 
2.43.0


From 582742aeea15954051c0fd57b9a48ea81ac804cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:34:13 +0000
Subject: [PATCH 23/47] fix: tuple_element_t of a const element with gcc

---
 include/stdx/tuple.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index dbb76c2..f98812b 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -57,7 +57,8 @@ template <std::size_t Index, typename T, typename... Ts> struct element {
 #if __has_builtin(__type_pack_element)
     using type = T;
 #else
-    constexpr static auto ugly_Value(index_constant<Index>) -> T;
+    constexpr static auto ugly_Value(index_constant<Index>)
+        -> std::type_identity<T>;
 
     [[nodiscard]] constexpr auto
     ugly_iGet_clvr(index_constant<Index>) const & noexcept LIFETIMEBOUND
@@ -186,9 +187,10 @@ struct tuple_impl<std::index_sequence<Is...>, index_function_list<Fs...>, Ts...>
     template <std::size_t I>
     using element_t = typename base_t<I, __type_pack_element<I, Ts...>>::type;
 #else
-    constexpr static auto ugly_Value(...) -> void;
+    constexpr static auto ugly_Value(...) -> std::type_identity<void>;
     using base_t<Is, Ts>::ugly_Value...;
-    template <std::size_t I> using element_t = decltype(ugly_Value(index<I>));
+    template <std::size_t I>
+    using element_t = typename decltype(ugly_Value(index<I>))::type;
 
     using base_t<Is, Ts>::ugly_iGet_clvr...;
     using base_t<Is, Ts>::ugly_iGet_lvr...;
-- 
2.43.0


From fd307ff4e3c6d140b91726548ffdef04546aec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:34:13 +0000
Subject: [PATCH 24/47] fix: structured bindings of tuples with const and
 reference-to-const elements

---
 include/stdx/tuple_destructure.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/stdx/tuple_destructure.hpp b/include/stdx/tuple_destructure.hpp
index 907aaef..9691c71 100644
--- a/include/stdx/tuple_destructure.hpp
+++ b/include/stdx/tuple_destructure.hpp
@@ -14,8 +14,7 @@ struct std::tuple_size<stdx::tuple<Ts...>>
     : std::integral_constant<std::size_t, sizeof...(Ts)> {};
 template <std::size_t I, typename... Ts>
 struct std::tuple_element<I, stdx::tuple<Ts...>>
-    : std::type_identity<std::remove_cvref_t<
-          decltype(std::declval<stdx::tuple<Ts...>>()[stdx::index<I>])>> {};
+    : std::type_identity<typename stdx::tuple<Ts...>::template element_t<I>> {};
 
 template <typename IL, typename... Ts>
 struct std::tuple_size<stdx::indexed_tuple<IL, Ts...>>
@@ -23,8 +22,7 @@ struct std::tuple_size<stdx::indexed_tuple<IL, Ts...>>
 template <std::size_t I, typename IL, typename... Ts>
 struct std::tuple_element<I, stdx::indexed_tuple<IL, Ts...>>
     : std::type_identity<
-          std::remove_cvref_t<decltype(std::declval<stdx::indexed_tuple<
-                                           IL, Ts...>>()[stdx::index<I>])>> {};
+          typename stdx::indexed_tuple<IL, Ts...>::template element_t<I>> {};
 
 // NOLINTEND(bugprone-std-namespace-modification)
 
-- 
2.43.0


From 4cfc1c44a380cf97aa95976cd3b4815f2c8679db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:55:39 +0000
Subject: [PATCH 25/47] fix: for_each over a tuple with an lvalue or move-only
 function

---
 include/stdx/tuple.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index f98812b..7d50fdb 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -517,10 +517,10 @@ constexpr auto transform(Op &&op, T &&t) {
 
 template <typename Op, tuplelike T>
 constexpr auto for_each(Op &&op, T &&t) -> Op {
-    return std::forward<T>(t).apply([&]<typename... Ts>(Ts &&...ts) {
+    std::forward<T>(t).apply([&]<typename... Ts>(Ts &&...ts) {
         (op(std::forward<Ts>(ts)), ...);
-        return op;
     });
+    return op;
 }
 
 template <typename... Ts>
-- 
2.43.0


From a034fa3919f9a76ac1a596161c6fd2c55d6cef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:55:39 +0000
Subject: [PATCH 26/47] fix: tuple_cons and tuple_snoc decay their argument

---
 include/stdx/tuple_algorithms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index be86d1f..d7d20a6 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -103,7 +103,7 @@ template <typename T, has_tuple_protocol Tup>
     return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         using std::get;
         using new_tuple_t =
-            boost::mp11::mp_push_front<tuple_t, std::remove_cvref_t<T>>;
+            boost::mp11::mp_push_front<tuple_t, std::decay_t<T>>;
         return new_tuple_t{std::forward<T>(t),
                            get<Is>(std::forward<Tup>(tup))...};
     }(std::make_index_sequence<stdx::tuple_size_v<tuple_t>>{});
@@ -115,7 +115,7 @@ template <has_tuple_protocol Tup, typename T>
     return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         using std::get;
         using new_tuple_t =
-            boost::mp11::mp_push_back<tuple_t, std::remove_cvref_t<T>>;
+            boost::mp11::mp_push_back<tuple_t, std::decay_t<T>>;
         return new_tuple_t{get<Is>(std::forward<Tup>(tup))...,
                            std::forward<T>(t)};
     }(std::make_index_sequence<stdx::tuple_size_v<tuple_t>>{});
-- 
2.43.0


From 2a767a0d00b18567fdd20065b10dec402c0f5e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:55:39 +0000
Subject: [PATCH 27/47] fix: contains_type by key for indexed tuples of
 references

---
 include/stdx/tuple_algorithms.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index d7d20a6..7828a9f 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -316,7 +316,8 @@ constexpr auto unrolled_none_of(F &&f, Ts &&...ts) -> bool {
 
 namespace detail {
 template <typename T, template <typename> typename F, typename... Us>
-constexpr auto is_index_for = (std::is_same_v<F<Us>, T> or ...);
+constexpr auto is_index_for =
+    (std::is_same_v<F<std::remove_cvref_t<Us>>, T> or ...);
 
 template <typename T, typename IndexSeq, template <typename> typename... Fs,
           typename... Us>
-- 
2.43.0


From 286f74ef0f49579808116ec392e86b2b4325603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:56:03 +0000
Subject: [PATCH 28/47] fix: cartesian products of tuples with standard library
 or rvalue elements

---
 include/stdx/tuple_algorithms.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index 7828a9f..aa919d0 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -434,7 +434,7 @@ template <tuplelike Tuple> [[nodiscard]] constexpr auto chunk(Tuple &&t) {
 
 template <tuplelike... Ts> constexpr auto cartesian_product_copy(Ts &&...ts) {
     if constexpr (sizeof...(Ts) == 0) {
-        return make_tuple(tuple{});
+        return stdx::make_tuple(tuple{});
     } else {
         return []<typename First, typename... Rest>(First &&first,
                                                     Rest &&...rest) {
@@ -443,8 +443,15 @@ template <tuplelike... Ts> constexpr auto cartesian_product_copy(Ts &&...ts) {
                                                         Elems &&...elems) {
                 [[maybe_unused]] auto const prepend = [&]<typename E>(E &&e) {
                     return c.apply([&](auto... subs) {
-                        return make_tuple(
-                            tuple_cat(make_tuple(std::forward<E>(e)), subs)...);
+                        if constexpr (sizeof...(subs) == 1) {
+                            return stdx::make_tuple(
+                                tuple_cat(stdx::make_tuple(std::forward<E>(e)),
+                                          subs)...);
+                        } else {
+                            // each result needs its own copy of e
+                            return stdx::make_tuple(
+                                tuple_cat(stdx::make_tuple(e), subs)...);
+                        }
                     });
                 };
                 return tuple_cat(prepend(std::forward<Elems>(elems))...);
@@ -455,7 +462,7 @@ template <tuplelike... Ts> constexpr auto cartesian_product_copy(Ts &&...ts) {
 
 template <tuplelike... Ts> constexpr auto cartesian_product(Ts &&...ts) {
     if constexpr (sizeof...(Ts) == 0) {
-        return make_tuple(tuple{});
+        return stdx::make_tuple(tuple{});
     } else {
         return []<typename First, typename... Rest>(First &&first,
                                                     Rest &&...rest) {
@@ -464,8 +471,9 @@ template <tuplelike... Ts> constexpr auto cartesian_product(Ts &&...ts) {
                 [&]<typename... Elems>(Elems &&...elems) {
                     auto const prepend = [&]<typename E>(E &&e) {
                         return c.apply([&](auto... subs) {
-                            return make_tuple(tuple_cat(
-                                forward_as_tuple(std::forward<E>(e)), subs)...);
+                            return stdx::make_tuple(tuple_cat(
+                                stdx::forward_as_tuple(std::forward<E>(e)),
+                                subs)...);
                         });
                     };
                     return tuple_cat(prepend(std::forward<Elems>(elems))...);
-- 
2.43.0


From 13d7c56fdd5619dc7564ebce204c608b6aab116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:56:03 +0000
Subject: [PATCH 29/47] fix: transform with index functions calls its function
 in element order

---
 include/stdx/tuple.hpp            |  5 ++++-
 include/stdx/tuple_algorithms.hpp | 13 ++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index 7d50fdb..e00b8ca 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -510,7 +510,10 @@ constexpr auto transform(Op &&op, T &&t) {
         });
     } else {
         return std::forward<T>(t).apply([&]<typename... Ts>(Ts &&...ts) {
-            return stdx::make_indexed_tuple<Fs...>(op(std::forward<Ts>(ts))...);
+            return stdx::indexed_tuple<
+                detail::index_function_list<Fs...>,
+                std::remove_cvref_t<decltype(op(std::forward<Ts>(ts)))>...>{
+                op(std::forward<Ts>(ts))...};
         });
     }
 }
diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index aa919d0..71f4627 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -192,9 +192,16 @@ constexpr auto transform(Op &&op, T &&t, Ts &&...ts) {
                                            std::forward<T>(t),
                                            std::forward<Ts>(ts)...)...};
         } else {
-            return stdx::make_indexed_tuple<Fs...>(
-                detail::invoke_at<Is>(std::forward<Op>(op), std::forward<T>(t),
-                                      std::forward<Ts>(ts)...)...);
+            using R =
+                stdx::indexed_tuple<detail::index_function_list<Fs...>,
+                                    std::remove_cvref_t<
+                                        decltype(detail::invoke_at<Is>(
+                                            std::forward<Op>(op),
+                                            std::forward<T>(t),
+                                            std::forward<Ts>(ts)...))>...>;
+            return R{detail::invoke_at<Is>(std::forward<Op>(op),
+                                           std::forward<T>(t),
+                                           std::forward<Ts>(ts)...)...};
         }
     }(std::make_index_sequence<detail::zip_length_for<T, Ts...>>{});
 }
-- 
2.43.0


From d1aef7ee93cadb3367b7887d46857916c300e0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:06:54 +0000
Subject: [PATCH 30/47] fix: forward_like gives an rvalue for an lvalue
 argument when T is an rvalue

---
 include/stdx/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 8d135cb..1d2fdea 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -116,7 +116,7 @@ template <typename T, typename U>
         if constexpr (t_is_const) {
             return std::move(std::as_const(u));
         } else {
-            return static_cast<U &&>(u);
+            return static_cast<std::remove_reference_t<U> &&>(u);
         }
     }
 }
-- 
2.43.0


From 334a7da5f5ab51616e15f1f837578b5b7260707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:06:54 +0000
Subject: [PATCH 31/47] fix: bind_front and bind_back accept a plain function

---
 include/stdx/functional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/functional.hpp b/include/stdx/functional.hpp
index c5355b9..f8d1b9a 100644
--- a/include/stdx/functional.hpp
+++ b/include/stdx/functional.hpp
@@ -56,7 +56,7 @@ struct bind_front_t<F, std::index_sequence<Is...>, BoundArgs...> {
 
 template <typename F, typename... Args>
 constexpr auto bind_front(F &&f, Args &&...args) {
-    return detail::bind_front_t<std::remove_cvref_t<F>,
+    return detail::bind_front_t<std::decay_t<F>,
                                 std::make_index_sequence<sizeof...(Args)>,
                                 std::decay_t<Args>...>{
         std::forward<F>(f), {std::forward<Args>(args)...}};
@@ -112,7 +112,7 @@ struct bind_back_t<F, std::index_sequence<Is...>, BoundArgs...> {
 
 template <typename F, typename... Args>
 constexpr auto bind_back(F &&f, Args &&...args) {
-    return detail::bind_back_t<std::remove_cvref_t<F>,
+    return detail::bind_back_t<std::decay_t<F>,
                                std::make_index_sequence<sizeof...(Args)>,
                                std::decay_t<Args>...>{
         std::forward<F>(f), {std::forward<Args>(args)...}};
-- 
2.43.0


From 970b3ff34f8f65e01a08becc0e8480a6ebcfbc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:06:54 +0000
Subject: [PATCH 32/47] fix: bind_front and bind_back return references as
 references

---
 include/stdx/functional.hpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/stdx/functional.hpp b/include/stdx/functional.hpp
index f8d1b9a..3d7975f 100644
--- a/include/stdx/functional.hpp
+++ b/include/stdx/functional.hpp
@@ -41,13 +41,15 @@ struct bind_front_t<F, std::index_sequence<Is...>, BoundArgs...> {
     bind_tuple_t<BoundArgs...> t{};
 
     template <typename... Args>
-    constexpr auto operator()(Args &&...args) const & {
+    constexpr auto operator()(Args &&...args) const & -> decltype(auto) {
         return f(get<Is>(t)..., std::forward<Args>(args)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) & {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) & -> decltype(auto) {
         return f(get<Is>(t)..., std::forward<Args>(args)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) && {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) && -> decltype(auto) {
         return std::move(f)(get<Is>(std::move(t))...,
                             std::forward<Args>(args)...);
     }
@@ -70,13 +72,15 @@ struct bind_front_value_t<F, std::index_sequence<Is...>, BoundArgs...> {
     bind_tuple_t<BoundArgs...> t{};
 
     template <typename... Args>
-    constexpr auto operator()(Args &&...args) const & {
+    constexpr auto operator()(Args &&...args) const & -> decltype(auto) {
         return F(get<Is>(t)..., std::forward<Args>(args)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) & {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) & -> decltype(auto) {
         return F(get<Is>(t)..., std::forward<Args>(args)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) && {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) && -> decltype(auto) {
         return F(get<Is>(std::move(t))..., std::forward<Args>(args)...);
     }
 };
@@ -97,13 +101,15 @@ struct bind_back_t<F, std::index_sequence<Is...>, BoundArgs...> {
     bind_tuple_t<BoundArgs...> t{};
 
     template <typename... Args>
-    constexpr auto operator()(Args &&...args) const & {
+    constexpr auto operator()(Args &&...args) const & -> decltype(auto) {
         return f(std::forward<Args>(args)..., get<Is>(t)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) & {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) & -> decltype(auto) {
         return f(std::forward<Args>(args)..., get<Is>(t)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) && {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) && -> decltype(auto) {
         return std::move(f)(std::forward<Args>(args)...,
                             get<Is>(std::move(t))...);
     }
@@ -126,13 +132,15 @@ struct bind_back_value_t<F, std::index_sequence<Is...>, BoundArgs...> {
     bind_tuple_t<BoundArgs...> t{};
 
     template <typename... Args>
-    constexpr auto operator()(Args &&...args) const & {
+    constexpr auto operator()(Args &&...args) const & -> decltype(auto) {
         return F(std::forward<Args>(args)..., get<Is>(t)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) & {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) & -> decltype(auto) {
         return F(std::forward<Args>(args)..., get<Is>(t)...);
     }
-    template <typename... Args> constexpr auto operator()(Args &&...args) && {
+    template <typename... Args>
+    constexpr auto operator()(Args &&...args) && -> decltype(auto) {
         return F(std::forward<Args>(args)..., get<Is>(std::move(t))...);
     }
 };
-- 
2.43.0


From 12a6532ff1f291d75093c9a6257af31b0d266cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:11:16 +0000
Subject: [PATCH 33/47] fix: call_by_need accepts an lvalue tuple of functions

---
 include/stdx/call_by_need.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/call_by_need.hpp b/include/stdx/call_by_need.hpp
index e4355cc..fa028d1 100644
--- a/include/stdx/call_by_need.hpp
+++ b/include/stdx/call_by_need.hpp
@@ -162,7 +162,7 @@ constexpr auto call_by_need(Fs &&fs, Args &&args) {
     auto new_fs = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         return tuple{get<Is>(std::forward<Fs>(fs))...,
                      cbn_detail::safe_forward{}};
-    }(std::make_index_sequence<tuple_size_v<Fs>>{});
+    }(std::make_index_sequence<tuple_size_v<std::remove_cvref_t<Fs>>>{});
 
     auto ret = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         return tuple<
-- 
2.43.0


From 0a1cdf36a0a89e1c54f31ba1923b5ef3bc06f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:11:16 +0000
Subject: [PATCH 34/47] fix: function traits work for noexcept functions

---
 include/stdx/function_traits.hpp | 68 ++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/include/stdx/function_traits.hpp b/include/stdx/function_traits.hpp
index 05adb7d..14b11fa 100644
--- a/include/stdx/function_traits.hpp
+++ b/include/stdx/function_traits.hpp
@@ -116,6 +116,74 @@ struct function_traits<R (C::*)(Args...) const volatile>
     using obj_t = C const volatile;
 };
 
+// a noexcept function has the traits of the same function without noexcept
+template <typename R, typename... Args>
+struct function_traits<R(Args...) noexcept> : function_traits<R(Args...)> {};
+
+template <typename R, typename... Args>
+struct function_traits<R (*)(Args...) noexcept>
+    : function_traits<R (*)(Args...)> {};
+
+template <typename R, typename... Args>
+struct function_traits<R (*const)(Args...) noexcept>
+    : function_traits<R (*)(Args...)> {};
+
+template <typename R, typename... Args>
+struct function_traits<R (*volatile)(Args...) noexcept>
+    : function_traits<R (*)(Args...)> {};
+
+template <typename R, typename... Args>
+struct function_traits<R (*const volatile)(Args...) noexcept>
+    : function_traits<R (*)(Args...)> {};
+
+template <typename C, typename R, typename... Args>
+struct function_traits<R (C::*)(Args...) noexcept>
+    : function_traits<R (C::*)(Args...)> {};
+
+template <typename C, typename R, typename... Args>
+struct function_traits<R (C::*)(Args...) const noexcept>
+    : function_traits<R (C::*)(Args...) const> {};
+
+template <typename C, typename R, typename... Args>
+struct function_traits<R (C::*)(Args...) volatile noexcept>
+    : function_traits<R (C::*)(Args...) volatile> {};
+
+template <typename C, typename R, typename... Args>
+struct function_traits<R (C::*)(Args...) const volatile noexcept>
+    : function_traits<R (C::*)(Args...) const volatile> {};
+
+template <typename C, typename R, typename... Args>
+struct function_traits<R (C::*)(Args...) & noexcept>
+    : function_traits<R (C::*)(Args...) &> {};
+
+template <typename C, typename R, typename... Args>
+struct function_traits<R (C::*)(Args...) const & noexcept>
+    : function_traits<R (C::*)(Args...) const &> {};
+
+template <typename C, typename R, typename... Args>
+struct function_traits<R (C::*)(Args...) volatile & noexcept>
+    : function_traits<R (C::*)(Args...) volatile &> {};
+
+template <typename C, typename R, typename... Args>
+struct function_traits<R (C::*)(Args...) const volatile & noexcept>
+    : function_traits<R (C::*)(Args...) const volatile &> {};
+
+template <typename C, typename R, typename... Args>
+struct function_traits<R (C::*)(Args...) && noexcept>
+    : function_traits<R (C::*)(Args...) &&> {};
+
+template <typename C, typename R, typename... Args>
+struct function_traits<R (C::*)(Args...) const && noexcept>
+    : function_traits<R (C::*)(Args...) const &&> {};
+
+template <typename C, typename R, typename... Args>
+struct function_traits<R (C::*)(Args...) volatile && noexcept>
+    : function_traits<R (C::*)(Args...) volatile &&> {};
+
+template <typename C, typename R, typename... Args>
+struct function_traits<R (C::*)(Args...) const volatile && noexcept>
+    : function_traits<R (C::*)(Args...) const volatile &&> {};
+
 template <typename F, typename = void> struct detect_call_operator {
     template <std::size_t... Is>
     constexpr static auto invoke(std::index_sequence<Is...>) ->
-- 
2.43.0


From 03f6452f324ec55959f124f754c98fbe22129431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:12:51 +0000
Subject: [PATCH 35/47] fix: arity of a function with lvalue reference
 parameters

---
 include/stdx/function_traits.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stdx/function_traits.hpp b/include/stdx/function_traits.hpp
index 14b11fa..59fca32 100644
--- a/include/stdx/function_traits.hpp
+++ b/include/stdx/function_traits.hpp
@@ -240,9 +240,11 @@ template <typename F, typename N> struct generic_arity {
 } // namespace detail
 
 template <typename F>
-using arity_t = boost::mp11::mp_eval_or<
-    detail::generic_arity_t<F, std::integral_constant<std::size_t, 0u>>,
-    nongeneric_arity_t, F>;
+using arity_t = typename boost::mp11::mp_cond<
+    boost::mp11::mp_valid<nongeneric_arity_t, F>,
+    boost::mp11::mp_defer<nongeneric_arity_t, F>, std::true_type,
+    detail::generic_arity<F,
+                          std::integral_constant<std::size_t, 0u>>>::type;
 template <typename F> constexpr auto arity_v = arity_t<F>::value;
 } // namespace v1
 } // namespace stdx
-- 
2.43.0


From 8524a34e799f36da8cf1792cd6b01e53c6b72730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:12:51 +0000
Subject: [PATCH 36/47] fix: for_each_n_args takes the batch size from a
 function with lvalue reference parameters

---
 include/stdx/for_each_n_args.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/for_each_n_args.hpp b/include/stdx/for_each_n_args.hpp
index 5039028..04281c0 100644
--- a/include/stdx/for_each_n_args.hpp
+++ b/include/stdx/for_each_n_args.hpp
@@ -5,6 +5,7 @@
 
 #include <cstddef>
 #include <functional>
+#include <type_traits>
 #include <utility>
 
 namespace stdx {
@@ -32,7 +33,7 @@ template <std::size_t N = 0, typename F, typename... Args>
 void for_each_n_args(F &&f, Args &&...args) {
     constexpr auto batch_size = [] {
         if constexpr (N == 0) {
-            return arity_t<F>::value;
+            return arity_t<std::remove_cvref_t<F>>::value;
         } else {
             return N;
         }
-- 
2.43.0


From b5a2e5fb4a8af93ecf4d30884fce7537fd81f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:50:08 +0000
Subject: [PATCH 37/47] fix: search only the text of a ct_string when splitting

split() also looked at the terminating NUL, so splitting a string at '\0'
found the terminator and did not compile.
---
 include/stdx/ct_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/ct_string.hpp b/include/stdx/ct_string.hpp
index 0881b9e..4eabc1b 100644
--- a/include/stdx/ct_string.hpp
+++ b/include/stdx/ct_string.hpp
@@ -101,7 +101,7 @@ using ct_string_to_type_t = decltype(ct_string_to_type<S, T>());
 
 template <ct_string S, char C> [[nodiscard]] consteval auto split() {
     constexpr auto it = [] {
-        for (auto i = S.value.cbegin(); i != S.value.cend(); ++i) {
+        for (auto i = S.value.cbegin(); i != S.end(); ++i) {
             if (*i == C) {
                 return i;
             }
-- 
2.43.0


From 07a7b1ee4f00444e5fcdca16d115f62a525afe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:09:49 +0000
Subject: [PATCH 38/47] fix: type_map lookups return cv-qualified, array and
 function types unchanged

A lookup returned the mapped type from a function, so top-level qualifiers
were dropped and types that cannot be returned gave the default.
---
 include/stdx/utility.hpp | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 1d2fdea..6f4f550 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -47,30 +47,31 @@ template <typename... Ts> using type_map = shrink_t<detail::type_map<Ts...>>;
 
 namespace detail {
 template <typename K, typename Default>
-constexpr static auto lookup(...) -> Default;
+constexpr static auto lookup(...) -> type_identity<Default>;
 template <typename K, typename Default, typename V>
-constexpr static auto lookup(type_pair<K, V>) -> V;
+constexpr static auto lookup(type_pair<K, V>) -> type_identity<V>;
 
 template <typename V, typename Default>
-constexpr static auto reverse_lookup(...) -> Default;
+constexpr static auto reverse_lookup(...) -> type_identity<Default>;
 template <typename V, typename Default, typename K>
-constexpr static auto reverse_lookup(type_pair<K, V>) -> K;
+constexpr static auto reverse_lookup(type_pair<K, V>) -> type_identity<K>;
 } // namespace detail
 
 template <typename M, typename K, typename Default = void>
-using type_lookup_t = decltype(detail::lookup<K, Default>(expand<M>()));
+using type_lookup_t =
+    typename decltype(detail::lookup<K, Default>(expand<M>()))::type;
 
 template <typename M, typename V, typename Default = void>
 using reverse_type_lookup_t =
-    decltype(detail::reverse_lookup<V, Default>(expand<M>()));
+    typename decltype(detail::reverse_lookup<V, Default>(expand<M>()))::type;
 
 template <typename M, auto K, typename Default = void>
-using value_lookup_t =
-    decltype(detail::lookup<detail::value_t<K>, Default>(expand<M>()));
+using value_lookup_t = typename decltype(detail::lookup<
+    detail::value_t<K>, Default>(expand<M>()))::type;
 
 template <typename M, auto V, typename Default = void>
-using reverse_value_lookup_t =
-    decltype(detail::reverse_lookup<detail::value_t<V>, Default>(expand<M>()));
+using reverse_value_lookup_t = typename decltype(detail::reverse_lookup<
+    detail::value_t<V>, Default>(expand<M>()))::type;
 
 namespace detail {
 template <typename T>
@@ -79,27 +80,22 @@ using is_not_void = std::bool_constant<not std::is_void_v<T>>;
 
 template <typename M, typename K, auto Default = 0>
 constexpr static auto type_lookup_v =
-    type_or_t<detail::is_not_void,
-              decltype(detail::lookup<K, void>(expand<M>())),
+    type_or_t<detail::is_not_void, type_lookup_t<M, K>,
               detail::value_t<Default>>::value;
 
 template <typename M, typename V, auto Default = 0>
 constexpr static auto reverse_type_lookup_v =
-    type_or_t<detail::is_not_void,
-              decltype(detail::reverse_lookup<V, void>(expand<M>())),
+    type_or_t<detail::is_not_void, reverse_type_lookup_t<M, V>,
               detail::value_t<Default>>::value;
 
 template <typename M, auto K, auto Default = 0>
 constexpr static auto value_lookup_v =
-    type_or_t<detail::is_not_void,
-              decltype(detail::lookup<detail::value_t<K>, void>(expand<M>())),
+    type_or_t<detail::is_not_void, value_lookup_t<M, K>,
               detail::value_t<Default>>::value;
 
 template <typename M, auto V, auto Default = 0>
 constexpr static auto reverse_value_lookup_v =
-    type_or_t<detail::is_not_void,
-              decltype(detail::reverse_lookup<detail::value_t<V>, void>(
-                  expand<M>())),
+    type_or_t<detail::is_not_void, reverse_value_lookup_t<M, V>,
               detail::value_t<Default>>::value;
 
 template <typename T, typename U>
-- 
2.43.0


From 1170ab95002e4a681467dfc45cc9fc0bedd0f988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:10:24 +0000
Subject: [PATCH 39/47] fix: type_map tells apart keys of equal value and
 different type

GCC ignores the type of a value when deducing it, so a map with the keys 8
and 8L found neither.
---
 include/stdx/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/utility.hpp b/include/stdx/utility.hpp
index 6f4f550..1e8fe59 100644
--- a/include/stdx/utility.hpp
+++ b/include/stdx/utility.hpp
@@ -24,7 +24,7 @@ template <typename... Fs> overload(Fs...) -> overload<Fs...>;
 [[noreturn]] inline auto unreachable() -> void { __builtin_unreachable(); }
 
 namespace detail {
-template <auto V> struct value_t {
+template <auto V, typename = decltype(V)> struct value_t {
     constexpr static inline auto value = V;
 };
 
-- 
2.43.0


From 3803b697ccc5cdb51033a51755b55453676fe5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:20:02 +0000
Subject: [PATCH 40/47] fix: enum_as_string names an enumerator nested in a
 template with a function type argument

---
 include/stdx/ct_conversions.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/ct_conversions.hpp b/include/stdx/ct_conversions.hpp
index 0cd9005..e4138ab 100644
--- a/include/stdx/ct_conversions.hpp
+++ b/include/stdx/ct_conversions.hpp
@@ -55,7 +55,8 @@ consteval static auto enum_as_string() -> std::basic_string_view<char> {
     constexpr auto cast_str = [&]() -> std::string_view {
         if (auto const close_paren_pos = qual_str.find_last_of(')');
             close_paren_pos != std::string_view::npos) {
-            if (qual_str[close_paren_pos + 1] != ':') {
+            // a cast: not part of a scope in the qualified name
+            if (qual_str.find(':', close_paren_pos) == std::string_view::npos) {
                 return qual_str;
             }
         }
-- 
2.43.0


From f5fbcfcbd4e90f035ffaf70963456aa263f67821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:33:25 +0000
Subject: [PATCH 41/47] fix: has_tuple_protocol is false for a type with a
 static size and no get

Asking it of such a type, for example a ct_string or a bitset, did not compile.
---
 include/stdx/concepts.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/concepts.hpp b/include/stdx/concepts.hpp
index f8c74e5..11c9288 100644
--- a/include/stdx/concepts.hpp
+++ b/include/stdx/concepts.hpp
@@ -155,7 +155,7 @@ concept has_vacuous_tuple_protocol = requires {
 template <typename T>
 concept is_vacuous_tuple = tuple_size_v<std::remove_cvref_t<T>> == 0;
 
-constexpr inline auto concept_try_get = [](auto &x) -> decltype(auto) {
+constexpr inline auto concept_try_get = [](auto &x) -> decltype(get<0>(x)) {
     return get<0>(x);
 };
 
-- 
2.43.0


From 35c4a71cd7f55dfba839feba10c8b17eea21fffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:53:07 +0000
Subject: [PATCH 42/47] fix: optional reset and emplace are usable in constant
 expressions

Both were declared constexpr but used placement new, which no constant
expression may contain. Use destroy_at and construct_at instead.
---
 include/stdx/optional.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index 9b18cc3..2815809 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -191,14 +191,19 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
 
     template <typename... Args>
     constexpr auto emplace(Args &&...args) LIFETIMEBOUND -> value_type & {
-        val.~value_type();
-        new (std::addressof(val)) value_type(std::forward<Args>(args)...);
+        std::destroy_at(std::addressof(val));
+        std::construct_at(std::addressof(val), std::forward<Args>(args)...);
         return value();
     }
 
     constexpr auto reset() {
-        val.~value_type();
-        new (std::addressof(val)) value_type(traits());
+        std::destroy_at(std::addressof(val));
+        if constexpr (std::is_constructible_v<value_type, decltype(traits())>) {
+            std::construct_at(std::addressof(val), traits());
+        } else {
+            std::construct_at(std::addressof(val),
+                              with_result_of{[] { return traits(); }});
+        }
     }
 
     template <typename F> constexpr auto transform(F &&f) & {
-- 
2.43.0


From fcc54ee8c380cd589dee6b99499cfd7fdcdd95d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:48 +0000
Subject: [PATCH 43/47] fix: cartesian_product_copy of one tuple of move-only
 elements with clang

---
 include/stdx/tuple_algorithms.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index 71f4627..74aba82 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -450,15 +450,13 @@ template <tuplelike... Ts> constexpr auto cartesian_product_copy(Ts &&...ts) {
                                                         Elems &&...elems) {
                 [[maybe_unused]] auto const prepend = [&]<typename E>(E &&e) {
                     return c.apply([&](auto... subs) {
-                        if constexpr (sizeof...(subs) == 1) {
-                            return stdx::make_tuple(
-                                tuple_cat(stdx::make_tuple(std::forward<E>(e)),
-                                          subs)...);
-                        } else {
-                            // each result needs its own copy of e
-                            return stdx::make_tuple(
-                                tuple_cat(stdx::make_tuple(e), subs)...);
-                        }
+                        // several results each need their own copy of e
+                        using elem_t =
+                            stdx::conditional_t<sizeof...(subs) == 1, E &&,
+                                                E &>;
+                        return stdx::make_tuple(tuple_cat(
+                            stdx::make_tuple(static_cast<elem_t>(e)),
+                            subs)...);
                     });
                 };
                 return tuple_cat(prepend(std::forward<Elems>(elems))...);
-- 
2.43.0


From 2322aa13fcc16653a77f9bf76c2fd7e71a95d1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:04 +0000
Subject: [PATCH 44/47] fix: find the template arguments of nested templates in
 template_base

template_base cut a type name at its first '<'. For a member of a class
template that is the enclosing class's argument list, so is_same_template_v
was true for unrelated members, and for a pointer to a specialization.
---
 include/stdx/ct_conversions.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/stdx/ct_conversions.hpp b/include/stdx/ct_conversions.hpp
index e4138ab..13fef9b 100644
--- a/include/stdx/ct_conversions.hpp
+++ b/include/stdx/ct_conversions.hpp
@@ -2,6 +2,7 @@
 
 #include <stdx/compiler.hpp>
 
+#include <cstddef>
 #include <string_view>
 
 namespace stdx {
@@ -28,7 +29,28 @@ consteval static auto type_as_string() -> std::string_view {
 template <typename T>
 consteval static auto template_base() -> std::string_view {
     constexpr auto t = stdx::type_as_string<T>();
-    constexpr auto rhs = t.find('<');
+    constexpr auto rhs = [&]() -> std::size_t {
+        // template arguments come last: enclosing classes may have their own
+        auto pos = std::string_view::npos;
+        auto depth = 0;
+        auto quote = '\0';
+        for (auto i = std::size_t{}; i < t.size(); ++i) {
+            if (quote != '\0') {
+                if (t[i] == '\\') {
+                    ++i;
+                } else if (t[i] == quote) {
+                    quote = '\0';
+                }
+            } else if (t[i] == '"' or t[i] == '\'') {
+                quote = t[i];
+            } else if (t[i] == '<' and depth++ == 0) {
+                pos = i;
+            } else if (t[i] == '>') {
+                --depth;
+            }
+        }
+        return t.ends_with('>') ? pos : std::string_view::npos;
+    }();
     return t.substr(0, rhs);
 }
 
-- 
2.43.0


From b8cb8389de3e26c51deed4247d7d9b8bb851bbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:30 +0000
Subject: [PATCH 45/47] fix: type_as_string of types with an equals sign in
 their name

type_as_string and enum_as_string looked for the last '=' of the function
name, which may belong to a template argument such as '=' or "a=b".
---
 include/stdx/ct_conversions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/ct_conversions.hpp b/include/stdx/ct_conversions.hpp
index 13fef9b..7cb822c 100644
--- a/include/stdx/ct_conversions.hpp
+++ b/include/stdx/ct_conversions.hpp
@@ -22,7 +22,7 @@ consteval static auto type_as_string() -> std::string_view {
                   "Unknown compiler, can't build type name.");
 #endif
 
-    constexpr auto lhs = function_name.rfind('=', rhs) + 2;
+    constexpr auto lhs = function_name.find('=') + 2;
     return function_name.substr(lhs, rhs - lhs + 1);
 }
 
@@ -66,7 +66,7 @@ consteval static auto enum_as_string() -> std::basic_string_view<char> {
 #endif
     constexpr auto qual_str = [&]() -> std::string_view {
         constexpr auto rhs = value_string.size() - 2;
-        if (auto const eq_pos = value_string.find_last_of('=');
+        if (auto const eq_pos = value_string.find('=');
             eq_pos != std::string_view::npos) {
             auto const lhs = eq_pos + 2;
             return value_string.substr(lhs, rhs - lhs + 1);
-- 
2.43.0


From 694c32892fe68b5bb05aa421dc8a38e4aafd7829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:15 +0000
Subject: [PATCH 46/47] fix: build values of optional without braces, as
 std::optional does

---
 include/stdx/optional.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/stdx/optional.hpp b/include/stdx/optional.hpp
index 2815809..9601ad1 100644
--- a/include/stdx/optional.hpp
+++ b/include/stdx/optional.hpp
@@ -104,7 +104,7 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
                   "Don't define tombstone traits for plain integral types");
     constexpr static inline auto traits = TS{};
     using check_specialization_t [[maybe_unused]] = decltype(traits());
-    T val{traits()};
+    T val = static_cast<T>(traits());
 
   public:
     using value_type = T;
@@ -114,7 +114,7 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
 
     template <typename... Args>
     constexpr explicit optional(std::in_place_t, Args &&...args)
-        : val{std::forward<Args>(args)...} {}
+        : val(std::forward<Args>(args)...) {}
 
     template <typename U = T>
         requires(std::is_constructible_v<T, U &&> and
@@ -182,11 +182,13 @@ template <typename T, typename TS = tombstone_traits<T>> class optional {
     template <typename U>
     [[nodiscard]] constexpr auto
     value_or(U &&default_value) const & -> value_type {
-        return has_value() ? val : T{std::forward<U>(default_value)};
+        return has_value() ? val
+                           : static_cast<T>(std::forward<U>(default_value));
     }
     template <typename U>
     [[nodiscard]] constexpr auto value_or(U &&default_value) && -> value_type {
-        return has_value() ? std::move(val) : T{std::forward<U>(default_value)};
+        return has_value() ? std::move(val)
+                           : static_cast<T>(std::forward<U>(default_value));
     }
 
     template <typename... Args>
-- 
2.43.0


From 98457f77f8bae3a86433195b32da53e8b0e27c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:15 +0000
Subject: [PATCH 47/47] fix: keep a tuple given to ct_format as one run-time
 argument

---
 include/stdx/ct_format.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdx/ct_format.hpp b/include/stdx/ct_format.hpp
index 6f9c567..f395f01 100644
--- a/include/stdx/ct_format.hpp
+++ b/include/stdx/ct_format.hpp
@@ -364,9 +364,10 @@ constexpr auto format1(Arg arg) {
         if constexpr (not Name.empty()) {
             using name_info_t = named_arg<Name, Arg, 0>;
             return make_format_result<type_list<name_info_t>>(
-                cts_t<Fmt>{}, tuple{std::move(arg)});
+                cts_t<Fmt>{}, stdx::make_tuple(std::move(arg)));
         } else {
-            return make_format_result(cts_t<Fmt>{}, tuple{std::move(arg)});
+            return make_format_result(cts_t<Fmt>{},
+                                      stdx::make_tuple(std::move(arg)));
         }
     }
 }
-- 
2.43.0

