#include <stdx/numeric.hpp>
#include <stdx/type_traits.hpp>
#include <stdx/utility.hpp>

#include "vf.hpp"

#include <cstring>
#include <limits>
#include <type_traits>

using vf::u64;
using i128 = __int128;

namespace {
template <typename To, typename From> To nearest(From f) {
    i128 v = static_cast<i128>(f);
    i128 const lo = static_cast<i128>(std::numeric_limits<To>::min());
    i128 const hi = static_cast<i128>(std::numeric_limits<To>::max());
    v = v < lo ? lo : v > hi ? hi : v;
    return static_cast<To>(v);
}
template <typename T> std::string num(T t) {
    if constexpr (std::is_signed_v<T>) {
        return std::to_string(static_cast<long long>(t));
    } else {
        return std::to_string(static_cast<unsigned long long>(t));
    }
}
template <typename To, typename From> void one(vf::Ctx &c, From f) {
    auto const r = stdx::saturate_cast<To>(f);
    static_assert(std::is_same_v<decltype(r), To const>);
    auto const x = nearest<To>(f);
    ++vf::g.checks;
    if (r != x) {
        c.fail("saturate_cast", "from " + num(f) + " (" + vf::str(sizeof(From)) + " bytes) gives " + num(r) +
                                    ", nearest is " + num(x));
    }
}
template <typename From, typename... Tos> void all(vf::Ctx &c, From f) {
    (one<Tos>(c, f), ...);
}
#define TYPES                                                                  \
    std::int8_t, std::uint8_t, std::int16_t, std::uint16_t, std::int32_t,      \
        std::uint32_t, std::int64_t, std::uint64_t, char, long long,           \
        unsigned long long, wchar_t, char16_t, char32_t, char8_t, bool

// every value of the small types, to every type
template <typename From> void small(vf::Ctx &c) {
    constexpr unsigned block = 4096;
    auto const n = u64{1} << (8 * sizeof(From));
    auto const lo = c.case_no * block;
    if (lo >= n) {
        c.op("none");
        c.check(true, "none");
        return;
    }
    c.op("all", lo);
    for (auto v = lo; v < std::min<u64>(n, lo + block); ++v) {
        all<From, TYPES>(c, static_cast<From>(v));
    }
}
#define SMALL(T, NAME)                                                         \
    VF_EXHAUSTIVE(all_##NAME, (sizeof(T) == 1 ? 1 : 16)) { small<T>(c); }
SMALL(std::int8_t, i8)
SMALL(std::uint8_t, u8)
SMALL(char, ch)
SMALL(std::int16_t, i16)
SMALL(std::uint16_t, u16)

template <typename From> void wide(vf::Ctx &c) {
    for (int i = 0; i < 40; ++i) {
        auto v = c.value<From>();
        if (c.chance(30)) { // just around a limit of some type
            static constexpr unsigned ws[] = {7, 8, 15, 16, 31, 32, 63};
            auto e = (u64{1} << c.pick(ws)) + c.below(5) - 2;
            v = static_cast<From>(c.coin() ? e : ~e + 1);
        }
        c.op("saturate", static_cast<u64>(v));
        all<From, TYPES>(c, v);
    }
}
VF_SUITE(sat_i32, 2) { wide<std::int32_t>(c); }
VF_SUITE(sat_u32, 2) { wide<std::uint32_t>(c); }
VF_SUITE(sat_i64, 2) { wide<std::int64_t>(c); }
VF_SUITE(sat_u64, 2) { wide<std::uint64_t>(c); }
VF_SUITE(sat_ll, 1) { wide<long long>(c); }
VF_SUITE(sat_ull, 1) { wide<unsigned long long>(c); }
VF_SUITE(sat_wc, 1) { wide<wchar_t>(c); }
VF_SUITE(sat_c32, 1) { wide<char32_t>(c); }

template <typename T> void sign(vf::Ctx &c) {
    auto v = c.value<T>();
    c.op("sign", static_cast<u64>(v));
    auto s = stdx::as_signed(v);
    auto u = stdx::as_unsigned(v);
    static_assert(std::is_signed_v<decltype(s)> and sizeof(s) == sizeof(T));
    static_assert(std::is_unsigned_v<decltype(u)> and sizeof(u) == sizeof(T));
    static_assert(std::is_same_v<decltype(s), std::make_signed_t<T>>);
    static_assert(std::is_same_v<decltype(u), std::make_unsigned_t<T>>);
    c.check(std::memcmp(&v, &s, sizeof v) == 0, "as_signed", "bits changed");
    c.check(std::memcmp(&v, &u, sizeof v) == 0, "as_unsigned", "bits changed");
    c.eq(stdx::to_underlying(v), v, "to_underlying-integer");
}
VF_SUITE(signs, 4) {
    switch (c.below(11)) {
    case 0: sign<std::int8_t>(c); break;
    case 1: sign<std::uint8_t>(c); break;
    case 2: sign<std::int16_t>(c); break;
    case 3: sign<std::uint16_t>(c); break;
    case 4: sign<std::int32_t>(c); break;
    case 5: sign<std::uint32_t>(c); break;
    case 6: sign<std::int64_t>(c); break;
    case 7: sign<std::uint64_t>(c); break;
    case 8: sign<char>(c); break;
    case 9: sign<long long>(c); break;
    default: sign<unsigned long long>(c); break;
    }
}

template <typename U> void under(vf::Ctx &c) {
    enum struct S : U {};
    enum P : U {};
    auto v = c.value<U>();
    if constexpr (std::is_same_v<U, bool>) {
        v = c.coin();
    }
    c.op("underlying", static_cast<u64>(v));
    static_assert(std::is_same_v<decltype(stdx::to_underlying(S{})), U>);
    static_assert(std::is_same_v<stdx::underlying_type_t<S>, U>);
    static_assert(std::is_same_v<stdx::underlying_type_t<U>, U>);
    c.check(stdx::to_underlying(static_cast<S>(v)) == v, "to_underlying", "scoped");
    c.check(stdx::to_underlying(static_cast<P>(v)) == v, "to_underlying", "unscoped");
    c.check(stdx::to_underlying(v) == v, "to_underlying", "integer");
}
VF_SUITE(underlying, 4) {
    switch (c.below(10)) {
    case 0: under<std::int8_t>(c); break;
    case 1: under<std::uint8_t>(c); break;
    case 2: under<std::int16_t>(c); break;
    case 3: under<std::uint16_t>(c); break;
    case 4: under<std::int32_t>(c); break;
    case 5: under<std::uint32_t>(c); break;
    case 6: under<std::int64_t>(c); break;
    case 7: under<std::uint64_t>(c); break;
    case 8: under<bool>(c); break;
    default: under<char>(c); break;
    }
}

template <unsigned N> struct Sz {
    char a[N];
};
template <typename T, typename U> void sizes(vf::Ctx &c, u64 n) {
    auto const r = stdx::sized<T>{n}.template in<U>();
    auto const bytes = static_cast<unsigned __int128>(n) * sizeof(T);
    auto const x = static_cast<u64>((bytes + sizeof(U) - 1) / sizeof(U));
    ++vf::g.checks;
    if (r != x) {
        c.fail("sized", vf::str(n) + " objects of " + vf::str(sizeof(T)) + " bytes in units of " +
                            vf::str(sizeof(U)) + " gives " + vf::str(r) + ", need " + vf::str(x));
    }
}
template <typename T, typename... Us> void sizes_all(vf::Ctx &c, u64 n) {
    (sizes<T, Us>(c, n), ...);
}
template <typename... Ts> void sizes_sq(vf::Ctx &c, u64 n) {
    (sizes_all<Ts, Ts...>(c, n), ...);
}
VF_SUITE(sized, 4) {
    auto n = c.coin() ? c.below(300) : c.interesting(64);
    n = std::min<u64>(n, (~u64{} - 64) / 40);
    c.op("sized", n);
    sizes_sq<std::uint8_t, std::uint16_t, std::uint32_t, std::uint64_t, Sz<3>, Sz<5>, Sz<6>, Sz<7>, Sz<9>, Sz<12>,
             Sz<16>, Sz<24>, Sz<40>>(c, n);
    c.eq(stdx::sized8{n}.in(), n, "sized8");
    c.eq(stdx::sized16{n}.in(), n * 2, "sized16");
    c.eq(stdx::sized32{n}.in(), n * 4, "sized32");
    c.eq(stdx::sized64{n}.in(), n * 8, "sized64");
}

template <unsigned N> struct alignas(N) Al {};
struct Pair8 {
    std::uint32_t a, b;
};
struct Halves {
    std::uint16_t a[3];
};
struct Pad {
    std::uint64_t a;
    char b;
};
struct Empty {};
template <typename T, typename V> void aligned(vf::Ctx &c, V v) {
    bool x = std::is_signed_v<V> ? static_cast<i128>(v) % static_cast<i128>(alignof(T)) == 0
                                 : static_cast<u64>(v) % alignof(T) == 0;
    c.eq(stdx::is_aligned_with<T>(v), x, "is_aligned_with");
}
template <typename T> void aligned_any(vf::Ctx &c, u64 v) {
    aligned<T>(c, v);
    aligned<T>(c, static_cast<std::uint32_t>(v));
    aligned<T>(c, static_cast<std::uint16_t>(v));
    aligned<T>(c, static_cast<std::uint8_t>(v));
    aligned<T>(c, static_cast<std::int64_t>(v));
    aligned<T>(c, static_cast<std::int32_t>(v));
    aligned<T>(c, static_cast<std::int8_t>(v));
    aligned<T>(c, static_cast<char>(v));
    alignas(512) static char buf[2048];
    auto const o = v % 2048;
    c.eq(stdx::is_aligned_with<T>(buf + o), o % alignof(T) == 0, "is_aligned_with-pointer");
    c.eq(stdx::is_aligned_with<T>(static_cast<void const *>(buf + o)), o % alignof(T) == 0, "is_aligned_with-pointer");
}
VF_SUITE(alignment, 4) {
    auto v = c.coin() ? c.below(2100) : c.interesting(64);
    if (c.coin()) {
        v <<= c.below(12);
    }
    c.op("aligned", v);
    aligned_any<std::uint8_t>(c, v);
    aligned_any<std::uint16_t>(c, v);
    aligned_any<std::uint32_t>(c, v);
    aligned_any<std::uint64_t>(c, v);
    aligned_any<Al<16>>(c, v);
    aligned_any<Al<64>>(c, v);
    aligned_any<Al<512>>(c, v);
    aligned_any<long double>(c, v);
    aligned_any<Pair8>(c, v); // larger than its alignment
    aligned_any<Halves>(c, v);
    aligned_any<Pad>(c, v);
    aligned_any<char[6]>(c, v);
    aligned_any<std::uint16_t[8]>(c, v);
    aligned_any<Empty>(c, v);
    aligned_any<Empty const *>(c, v);
}
} // namespace
