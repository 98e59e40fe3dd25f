#include <array>
#include <bit>
#include <climits>
#include <cstdint>
#include <version>
#ifdef POLY
// pretend the standard library has none of these facilities
#include <algorithm>
#include <bitset>
#include <functional>
#include <limits>
#include <memory>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#undef __cpp_lib_bitops
#define __cpp_lib_bitops 0
#undef __cpp_lib_int_pow2
#define __cpp_lib_int_pow2 0
#undef __cpp_lib_bit_cast
#define __cpp_lib_bit_cast 0
#undef __cpp_lib_byteswap
#define __cpp_lib_byteswap 0
#undef __cpp_lib_endian
#define __cpp_lib_endian 0
#endif
#include <stdx/bit.hpp>

#include "elems.hpp"

using vf::u16;
using vf::u32;
using vf::u64;
using vf::u8;
using ull = unsigned long long;

namespace {
template <typename T> constexpr int W = static_cast<int>(8 * sizeof(T));
bool bit_at(u64 x, int i) { return (x >> i) & 1; }

// definitions, one bit at a time
template <typename T> void unary(vf::Ctx &c, T x) {
    constexpr int w = W<T>;
    int pop = 0, lz = 0, lo = 0, rz = 0, ro = 0;
    for (int i = 0; i < w; ++i) {
        pop += bit_at(x, i);
    }
    while (lz < w and not bit_at(x, w - 1 - lz)) {
        ++lz;
    }
    while (lo < w and bit_at(x, w - 1 - lo)) {
        ++lo;
    }
    while (rz < w and not bit_at(x, rz)) {
        ++rz;
    }
    while (ro < w and bit_at(x, ro)) {
        ++ro;
    }
    c.eq(stdx::popcount(x), pop, "popcount");
    c.eq(stdx::countl_zero(x), lz, "countl_zero");
    c.eq(stdx::countl_one(x), lo, "countl_one");
    c.eq(stdx::countr_zero(x), rz, "countr_zero");
    c.eq(stdx::countr_one(x), ro, "countr_one");
    c.eq(stdx::has_single_bit(x), pop == 1, "has_single_bit");
    c.eq(static_cast<int>(stdx::bit_width(x)), w - lz, "bit_width");
    c.eq(u64{stdx::bit_floor(x)}, x == 0 ? 0 : u64{1} << (w - lz - 1),
         "bit_floor");
    if (x <= T(T{1} << (w - 1))) {
        u64 r = 1;
        while (r < x) {
            r <<= 1;
        }
        c.eq(u64{stdx::bit_ceil(x)}, r, "bit_ceil");
    }
    u64 sw = 0;
    for (int i = 0; i < w; i += 8) {
        sw |= ((u64{x} >> i) & 0xff) << (w - 8 - i);
    }
    c.eq(u64{stdx::byteswap(x)}, sw, "byteswap");
    c.eq(u64{stdx::to_be(x)}, sw, "to_be");
    c.eq(u64{stdx::from_be(x)}, sw, "from_be");
    c.eq(u64{stdx::to_le(x)}, u64{x}, "to_le");
    c.eq(u64{stdx::from_le(x)}, u64{x}, "from_le");
    static_assert(std::is_same_v<decltype(stdx::byteswap(x)), T>);
    static_assert(std::is_same_v<decltype(stdx::bit_floor(x)), T>);
    static_assert(std::is_same_v<decltype(stdx::bit_ceil(x)), T>);
    static_assert(std::is_same_v<decltype(stdx::to_be(x)), T>);
    static_assert(std::is_same_v<decltype(stdx::popcount(x)), int>);
}
template <typename T> void rotate(vf::Ctx &c, T x, int s) {
    constexpr int w = W<T>;
    u64 l = 0, r = 0;
    long const k = ((static_cast<long>(s) % w) + w) % w;
    for (int i = 0; i < w; ++i) {
        if (bit_at(x, i)) {
            l |= u64{1} << ((i + k) % w);
            r |= u64{1} << ((i - k + w) % w);
        }
    }
    c.eq(u64{stdx::rotl(x, s)}, l, "rotl");
    c.eq(u64{stdx::rotr(x, s)}, r, "rotr");
    static_assert(std::is_same_v<decltype(stdx::rotl(x, s)), T>);
}
int rot_amount(vf::Ctx &c, int w) {
    switch (c.below(6)) {
    case 0: return static_cast<int>(c.value<u32>());
    case 1: return INT_MIN + static_cast<int>(c.below(3));
    case 2: return INT_MAX - static_cast<int>(c.below(3));
    case 3: return w * static_cast<int>(c.range(-3, 3));
    default: return static_cast<int>(c.range(-3 * w, 3 * w));
    }
}
template <typename T> void scalar(vf::Ctx &c) {
    for (int k = 0; k < 24; ++k) {
        T x = c.value<T>();
        auto s = rot_amount(c, W<T>);
        c.op("bits", x, s);
        unary(c, x);
        rotate(c, x, s);
        // run-time bit_mask
        auto m = c.below(W<T>);
        auto l = c.below(m + 1);
        u64 want = 0;
        for (auto i = l; i <= m; ++i) {
            want |= u64{1} << i;
        }
        c.op("bit_mask", m, l);
        c.eq(u64{stdx::bit_mask<T>(m, l)}, want, "bit_mask(msb, lsb)");
        want |= (u64{1} << l) - 1;
        c.eq(u64{stdx::bit_mask<T>(m)}, want, "bit_mask(msb)");
        c.state(x);
    }
    c.eq(stdx::bit_size<T>(), 8 * sizeof(T), "bit_size");
    enum struct Enum : T {};
    struct Struct {
        T t[3];
    };
    using S = std::make_signed_t<T>;
    c.eq(stdx::bit_size<S>(), 8 * sizeof(T), "bit_size");
    c.eq(stdx::bit_size<Enum const>(), 8 * sizeof(T), "bit_size");
    c.eq(stdx::bit_size<Struct>(), 24 * sizeof(T), "bit_size");
    c.eq(stdx::bit_size<T *>(), 8 * sizeof(T *), "bit_size");
    c.eq(stdx::bit_size<S[5]>(), 40 * sizeof(T), "bit_size");
    c.eq(stdx::bit_size<bool>() + stdx::bit_size<double>() + stdx::bit_size<char>(), std::size_t{80}, "bit_size");
    c.eq(u64{stdx::bit_mask<T>()}, u64{std::numeric_limits<T>::max()},
         "bit_mask()");
}
VF_INST(3, scalar, u8)
VF_INST(4, scalar, u16)
VF_INST(5, scalar, u32)
VF_INST(5, scalar, u64)
VF_INST(3, scalar, ull)

VF_EXHAUSTIVE(all_u8, 256) {
    auto x = static_cast<u8>(c.case_no);
    c.op("x", x);
    unary(c, x);
    for (int s = -33; s <= 33; ++s) {
        rotate(c, x, s);
    }
}
VF_EXHAUSTIVE(all_u16, 256) {
    c.op("x", c.case_no);
    for (unsigned i = 0; i < 256; ++i) {
        auto x = static_cast<u16>(c.case_no << 8 | i);
        unary(c, x);
        rotate(c, x, static_cast<int>(i) - 128);
    }
}

// template forms of bit_mask, every pair
template <typename T, std::size_t M, std::size_t L> void mask_one(vf::Ctx &c) {
    u64 want = 0;
    for (auto i = L; i <= M; ++i) {
        want |= u64{1} << i;
    }
    constexpr auto got = stdx::bit_mask<T, M, L>();
    static_assert(std::is_same_v<decltype(got), T const>);
    c.eq(u64{got}, want, "bit_mask<T, Msb, Lsb>");
}
template <typename T, std::size_t M> void mask_row(vf::Ctx &c) {
    [&]<std::size_t... L>(std::index_sequence<L...>) {
        (mask_one<T, M, L>(c), ...);
    }(std::make_index_sequence<M + 1>{});
    c.eq(u64{stdx::bit_mask<T, M>()},
         M == 63 ? ~u64{} : (u64{1} << ((M + 1) % 64)) - 1,
         "bit_mask<T, Msb>");
}
VF_EXHAUSTIVE(masks, 1) {
    c.op("masks");
    [&]<std::size_t... M>(std::index_sequence<M...>) {
        (mask_row<u8, M>(c), ...);
    }(std::make_index_sequence<8>{});
    [&]<std::size_t... M>(std::index_sequence<M...>) {
        (mask_row<u16, M>(c), ...);
    }(std::make_index_sequence<16>{});
    mask_row<u32, 31>(c);
    mask_row<u32, 17>(c);
    mask_row<u64, 63>(c);
    mask_row<u64, 32>(c);
    mask_row<u64, 31>(c);
    // smallest_uint
    [&]<std::size_t... N>(std::index_sequence<N...>) {
        (c.eq(sizeof(stdx::smallest_uint_t<N>),
              N <= 8 ? 1u : N <= 16 ? 2u : N <= 32 ? 4u : 8u,
              "smallest_uint"),
         ...);
        static_assert((std::is_unsigned_v<stdx::smallest_uint_t<N>> and ...));
        (c.eq(u64{stdx::smallest_uint<N>()}, 0u, "smallest_uint value"), ...);
    }(std::make_index_sequence<70>{});
}

// masks over arrays, least significant element first
template <typename T, std::size_t N> void array_mask(vf::Ctx &c) {
    constexpr auto w = static_cast<std::size_t>(W<T>);
    using A = std::array<T, N>;
    auto cmp = [&](A const &a, std::size_t m, std::size_t l, char const *key) {
        for (std::size_t i = 0; i < N * w; ++i) {
            c.eq(bit_at(a[i / w], static_cast<int>(i % w)), l <= i and i <= m,
                 key);
        }
    };
    for (int k = 0; k < 8; ++k) {
        auto m = c.below(N * w);
        auto l = c.coin() ? c.below(m + 1) : m / w * w; // element boundaries
        c.op("array bit_mask", m, l);
        cmp(stdx::bit_mask<A>(m, l), m, l, "array bit_mask(msb, lsb)");
        cmp(stdx::bit_mask<A>(m), m, 0, "array bit_mask(msb)");
    }
    cmp(stdx::bit_mask<A>(), N * w - 1, 0, "array bit_mask()");
    cmp(stdx::bit_mask<A, N * w - 1>(), N * w - 1, 0, "array bit_mask<msb>");
    cmp(stdx::bit_mask<A, N * w - 2, 1>(), N * w - 2, 1,
        "array bit_mask<msb, lsb>");
    cmp(stdx::bit_mask<A, w - 1, w - 1>(), w - 1, w - 1,
        "array bit_mask<msb, lsb>");
    cmp(stdx::bit_mask<A, N * w - 1, (N - 1) * w>(), N * w - 1, (N - 1) * w,
        "array bit_mask<msb, lsb>");
}
VF_INST(2, array_mask, u8, 1)
VF_INST(2, array_mask, u8, 3)
VF_INST(2, array_mask, u16, 2)
VF_INST(2, array_mask, u32, 3)
VF_INST(2, array_mask, u64, 2)

// ---- pack / unpack -----------------------------------------------------
template <typename To, typename Part> void pack(vf::Ctx &c) {
    constexpr auto n = sizeof(To) / sizeof(Part);
    for (int k = 0; k < 20; ++k) {
        std::array<Part, n> p{};
        u64 want = 0;
        for (auto &e : p) {
            e = c.value<Part>();
            want = (n == 1 ? 0 : want << W<Part>) | e;
        }
        c.op("pack", want);
        auto got = [&]<std::size_t... I>(std::index_sequence<I...>) {
            return stdx::bit_pack<To>(p[I]...);
        }(std::make_index_sequence<n>{});
        static_assert(std::is_same_v<decltype(got), To>);
        c.eq(u64{got}, want, "bit_pack");
        auto un = stdx::bit_unpack<Part>(got);
        static_assert(std::is_same_v<decltype(un), std::array<Part, n>>);
        for (std::size_t i = 0; i < n; ++i) {
            c.eq(un[i], p[i], "bit_unpack");
        }
        auto same = stdx::bit_unpack<To>(got); // one part: the value itself
        c.check(same.size() == 1 and same[0] == got, "bit_unpack", "into one part");
        c.state(want);
    }
}
VF_INST(1, pack, u16, u8)
VF_INST(1, pack, u32, u8)
VF_INST(1, pack, u32, u16)
VF_INST(1, pack, u64, u8)
VF_INST(1, pack, u64, u16)
VF_INST(1, pack, u64, u32)

// ---- destructure -------------------------------------------------------
template <typename T, std::size_t... O> void destructure(vf::Ctx &c) {
    constexpr std::size_t lo[] = {0, O...};
    constexpr std::size_t hi[] = {O..., 8 * sizeof(T)};
    for (int k = 0; k < 12; ++k) {
        T x = c.value<T>();
        c.op("destructure", x);
        auto r = stdx::bit_destructure<O...>(x);
        static_assert(
            std::is_same_v<decltype(r), std::array<T, sizeof...(O) + 1>>);
        for (std::size_t i = 0; i < sizeof...(O) + 1; ++i) {
            u64 want = 0;
            for (auto b = lo[i]; b < hi[i]; ++b) {
                want |= u64{bit_at(x, static_cast<int>(b))} << (b - lo[i]);
            }
            c.eq(u64{r[i]}, want, "bit_destructure");
        }
        c.state(x);
    }
}
VF_INST(1, destructure, u8)
VF_INST(1, destructure, u8, 4)
VF_INST(1, destructure, u8, 1, 2, 3, 4, 5, 6, 7)
VF_INST(1, destructure, u16, 8)
VF_INST(1, destructure, u16, 1, 15)
VF_INST(1, destructure, u32)
VF_INST(1, destructure, u32, 8, 24)
VF_INST(1, destructure, u32, 5, 6, 31)
VF_INST(1, destructure, u64, 32)
VF_INST(1, destructure, u64, 1, 33, 63)
#ifdef VF_EXTRA
VF_EXTRA
#endif

// ---- bit_cast ----------------------------------------------------------
struct S4 {
    u8 a;
    u8 b;
    u16 c;
};
template <typename To, typename From> void cast(vf::Ctx &c) {
    static_assert(sizeof(To) == sizeof(From));
    for (int k = 0; k < 10; ++k) {
        From f;
        unsigned char raw[sizeof(From)], back[sizeof(From)];
        for (auto &b : raw) {
            b = c.value<u8>();
        }
        if constexpr (std::is_floating_point_v<To> or
                      std::is_floating_point_v<From>) {
            raw[sizeof raw - 1] = raw[sizeof raw - 1] & 0x3f; // no NaNs
        }
        c.op("bit_cast", raw[0]);
        std::memcpy(&f, raw, sizeof f);
        auto t = stdx::bit_cast<To>(f);
        static_assert(std::is_same_v<decltype(t), To>);
        std::memcpy(back, &t, sizeof t);
        c.check(std::memcmp(raw, back, sizeof raw) == 0, "bit_cast", "");
        From const &cf = f;
        t = stdx::bit_cast<To>(cf);
        std::memcpy(back, &t, sizeof t);
        c.check(std::memcmp(raw, back, sizeof raw) == 0, "bit_cast", "");
    }
}
using A4 = std::array<u8, 4>;
VF_INST(1, cast, float, u32)
VF_INST(1, cast, u64, double)
VF_INST(1, cast, std::int32_t, u32)
VF_INST(1, cast, S4, u32)
VF_INST(1, cast, u32, S4)
VF_INST(1, cast, A4, S4)
VF_INST(1, cast, std::uintptr_t, void *)

VF_SUITE(endian, 1) {
    c.op("endian");
    u32 v = 0x01020304;
    u8 b[4];
    std::memcpy(b, &v, 4);
    c.eq(stdx::endian::native == stdx::endian::little, b[0] == 4, "endian");
    c.eq(stdx::endian::native == stdx::endian::big, b[0] == 1, "endian");
}
} // namespace
