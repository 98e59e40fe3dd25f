#include <stdx/atomic.hpp>
#include <stdx/atomic_bitset.hpp>

#include "elems.hpp"

#include <atomic>
#include <bitset>
#include <cstdint>
#include <vector>

using vf::u64;
using MO = std::memory_order;

namespace {
struct Seen {
    ::atomic::vf_access kind;
    void const *p;
    std::size_t size;
    MO mo;
};
std::vector<Seen> seen;
void hook(bool before, ::atomic::vf_access k, void const *p, std::size_t n,
          MO mo) {
    if (before) {
        seen.push_back({k, p, n, mo});
    }
}
struct Hooked {
    Hooked() {
        seen.clear();
        ::atomic::vf_hook = hook;
    }
    ~Hooked() { ::atomic::vf_hook = nullptr; }
};

constexpr MO any_order[] = {MO::relaxed, MO::consume, MO::acquire,
                            MO::release, MO::acq_rel, MO::seq_cst};
constexpr MO load_order[] = {MO::relaxed, MO::consume, MO::acquire,
                             MO::seq_cst};
constexpr MO store_order[] = {MO::relaxed, MO::release, MO::seq_cst};

// exactly one access to the object, with this order
template <typename O>
void accessed(vf::Ctx &c, O const &o, MO mo, char const *what) {
    c.check(seen.size() == 1, "one-access", what);
    c.check(seen[0].mo == mo, "memory-order",
            (std::string(what) + " used " +
             std::to_string(static_cast<int>(seen[0].mo)) + " for " +
             std::to_string(static_cast<int>(mo)))
                .c_str());
    c.check(seen[0].p >= &o and
                static_cast<char const *>(seen[0].p) + seen[0].size <=
                    reinterpret_cast<char const *>(&o + 1),
            "access-location", what);
    c.check(reinterpret_cast<std::uintptr_t>(seen[0].p) % seen[0].size == 0,
            "access-alignment", what);
    seen.clear();
}

enum struct Flags : std::uint8_t { none = 0, a = 1, b = 2, all = 255 };
constexpr auto operator|(Flags x, Flags y) -> Flags {
    return static_cast<Flags>(static_cast<int>(x) | static_cast<int>(y));
}
constexpr auto operator&(Flags x, Flags y) -> Flags {
    return static_cast<Flags>(static_cast<int>(x) & static_cast<int>(y));
}
enum Unscoped : std::uint16_t { u0, u1, u2 };
struct alignas(4) Pair {
    std::uint16_t a{}, b{};
    friend bool operator==(Pair const &, Pair const &) = default;
};

template <typename T> T val(vf::Ctx &c) {
    if constexpr (std::is_same_v<T, bool>) {
        return c.coin();
    } else if constexpr (std::is_same_v<T, Pair>) {
        return Pair{c.value<std::uint16_t>(), c.value<std::uint16_t>()};
    } else if constexpr (std::is_pointer_v<T>) {
        static std::remove_pointer_t<T> objs[4];
        return &objs[c.below(4)];
    } else if constexpr (std::is_floating_point_v<T>) {
        return static_cast<T>(c.range(-1000, 1000)) / 8;
    } else {
        return static_cast<T>(c.interesting(8 * sizeof(T)));
    }
}

// wrapping reference arithmetic on T
template <typename T> T wrap(__int128 v) {
    return static_cast<T>(static_cast<u64>(v));
}

template <typename T> void seq(vf::Ctx &c) {
    using A = stdx::atomic<T>;
    static_assert(sizeof(A) >= sizeof(::atomic::atomic_type_t<T>));
    c.eq(alignof(A),
         std::max<std::size_t>(::atomic::alignment_of<T>,
                               alignof(::atomic::atomic_type_t<T>)),
         "alignment");
    c.eq(sizeof(A),
         (sizeof(::atomic::atomic_type_t<T>) + alignof(A) - 1) / alignof(A) *
             alignof(A),
         "storage-size");
    static_assert(not std::is_copy_constructible_v<A> and
                  not std::is_copy_assignable_v<A>);
    static_assert(std::is_same_v<typename A::value_type, T>);
    Hooked h;
    T m = c.coin() ? T{} : val<T>(c);
    A a0{}, a1{m};
    c.check(a0.load() == T{}, "default-value", "");
    seen.clear();
    A &a = a1;
    A const &ca = a1;
    auto same = [&](T got, T want, char const *key) {
        ++vf::g.checks;
        if (not(got == want)) {
            c.fail(key, "observed " + vf::str(got) + " expected " +
                            vf::str(want));
        }
    };
    constexpr bool arith = std::is_integral_v<T> and
                           not std::is_same_v<T, bool>;
#ifdef ATOMIC_CFG
    constexpr bool bits = std::is_integral_v<T>;
#else
    constexpr bool bits = arith;
#endif
    for (auto n = 6 + c.below(20); n > 0; --n) {
        T x = val<T>(c);
        T const old = m;
        switch (c.below(22)) {
        case 0: {
            auto mo = c.pick(store_order);
            c.op("store", static_cast<int>(mo));
            a.store(x, mo);
            accessed(c, a, mo, "store");
            m = x;
            break;
        }
        case 1:
            c.op("store default");
            a.store(x);
            accessed(c, a, MO::seq_cst, "store");
            m = x;
            break;
        case 2:
            c.op("operator=");
            same(a = x, x, "assign-result");
            accessed(c, a, MO::seq_cst, "operator=");
            m = x;
            break;
        case 3: {
            auto mo = c.pick(load_order);
            c.op("load", static_cast<int>(mo));
            same(ca.load(mo), m, "load");
            accessed(c, a, mo, "load");
            break;
        }
        case 4: {
            c.op("convert");
            T t = ca;
            accessed(c, a, MO::seq_cst, "conversion");
            same(t, m, "conversion");
            break;
        }
        case 5: {
            auto mo = c.pick(any_order);
            c.op("exchange", static_cast<int>(mo));
            same(a.exchange(x, mo), old, "exchange-result");
            accessed(c, a, mo, "exchange");
            m = x;
            break;
        }
        case 6:
            c.op("exchange default");
            same(a.exchange(x), old, "exchange-result");
            accessed(c, a, MO::seq_cst, "exchange");
            m = x;
            break;
#define FETCH(NAME, OP, COND, EXPR)                                            \
    if constexpr (COND) {                                                      \
        auto mo = c.pick(any_order);                                           \
        bool dflt = c.coin();                                                  \
        c.op(#NAME, x, static_cast<int>(mo), dflt);                            \
        same(dflt ? a.NAME(x) : a.NAME(x, mo), old, #NAME "-result");          \
        accessed(c, a, dflt ? MO::seq_cst : mo, #NAME);                        \
        m = EXPR;                                                              \
    }                                                                          \
    break;
        case 7: FETCH(fetch_add, +, arith, wrap<T>(__int128{old} + x))
        case 8: FETCH(fetch_sub, -, arith, wrap<T>(__int128{old} - x))
        case 9: FETCH(fetch_and, &, bits, static_cast<T>(old & x))
        case 10: FETCH(fetch_or, |, bits, static_cast<T>(old | x))
        case 11: FETCH(fetch_xor, ^, bits, static_cast<T>(old ^ x))
#define COMPOUND(OP, COND, EXPR)                                               \
    if constexpr (COND) {                                                      \
        c.op(#OP, x);                                                          \
        T const want = EXPR;                                                   \
        same((a OP x), want, #OP "-result");                                   \
        accessed(c, a, MO::seq_cst, #OP);                                      \
        m = want;                                                              \
    }                                                                          \
    break;
        case 12: COMPOUND(+=, arith, wrap<T>(__int128{old} + x))
        case 13: COMPOUND(-=, arith, wrap<T>(__int128{old} - x))
        case 14: COMPOUND(&=, bits, static_cast<T>(old & x))
        case 15: COMPOUND(|=, bits, static_cast<T>(old | x))
        case 16: COMPOUND(^=, bits, static_cast<T>(old ^ x))
#define INC(WHAT, EXPR, RES, DELTA)                                            \
    if constexpr (arith) {                                                     \
        c.op(WHAT);                                                            \
        m = wrap<T>(__int128{old} + DELTA);                                    \
        same(EXPR, RES, WHAT "-result");                                       \
        accessed(c, a, MO::seq_cst, WHAT);                                     \
    }                                                                          \
    break;
        case 17: INC("pre-increment", ++a, m, 1)
        case 18: INC("post-increment", a++, old, 1)
        case 19: INC("pre-decrement", --a, m, -1)
        case 20: INC("post-decrement", a--, old, -1)
        default:
            if constexpr (std::is_same_v<T, Flags>) {
#ifdef ATOMIC_CFG
                c.op("flags");
                same(a.fetch_or(x), old, "fetch_or-result");
                accessed(c, a, MO::seq_cst, "fetch_or");
                same(a.fetch_and(Flags::b), old | x, "fetch_and-result");
                accessed(c, a, MO::seq_cst, "fetch_and");
                m = (old | x) & Flags::b;
#endif
            }
        }
        same(ca.load(), m, "value");
        same(ca.load(), m, "value");
        seen.clear();
    }
    c.state(vf::hash_str(vf::str(m)) + sizeof(T));
}

#if PART == 1
VF_INST(8, seq, std::uint8_t)
VF_INST(6, seq, std::uint16_t)
VF_INST(8, seq, std::uint32_t)
VF_INST(6, seq, std::uint64_t)
VF_INST(8, seq, std::int8_t)
VF_INST(6, seq, std::int16_t)
VF_INST(8, seq, std::int32_t)
VF_INST(6, seq, std::int64_t)
VF_INST(5, seq, bool)
VF_INST(4, seq, Flags)
VF_INST(4, seq, Unscoped)
VF_INST(3, seq, char)
#ifndef ATOMIC_CFG
VF_INST(3, seq, Pair)
VF_INST(3, seq, float)
VF_INST(3, seq, int *)
#endif
#endif

// ---- bitset ----------------------------------------------------------------
enum struct Bits : std::uint8_t { zero, one, two, three, four, MAX };
enum struct R64 : u64 {};

template <auto Size, typename... S> void seqbits(vf::Ctx &c) {
    constexpr auto N = static_cast<std::size_t>(Size);
    using A = stdx::atomic_bitset<Size, S...>;
    using Natural = std::conditional_t<
        sizeof...(S) == 0, stdx::smallest_uint_t<N>,
        boost::mp11::mp_front<boost::mp11::mp_push_back<
            boost::mp11::mp_list<S...>, void>>>;
    using Elem = ::atomic::atomic_type_t<Natural>;
    using BS = stdx::bitset<Size, Elem>;
    static_assert(std::is_convertible_v<A const &, BS>);
    c.eq(alignof(A),
         std::max<std::size_t>(::atomic::alignment_of<Natural>, alignof(Elem)),
         "alignment");
    c.eq(sizeof(A),
         (sizeof(Elem) + alignof(A) - 1) / alignof(A) * alignof(A),
         "storage-size");
    c.eq(A::size(), N, "size");
    std::bitset<N> m;
    auto low = [](std::bitset<N> const &x) { return x.to_ullong(); };
    Hooked h;
    auto run = [&](A &a) {
        A const &ca = a;
        auto prev_is = [&](auto const &p, std::bitset<N> const &want,
                           char const *key) {
            static_assert(
                std::is_same_v<std::remove_cvref_t<decltype(p)>, BS>);
            c.eq(p.template to<u64>(), low(want), key);
            c.eq(p.count(), want.count(), key);
            c.check(p == BS{low(want)}, key, "previous value compares other");
        };
        auto whole = [&] {
            seen.clear();
            auto lo = [&] { return c.pick(load_order); };
            auto o = lo();
            bool d = c.coin();
            auto exp = d ? MO::seq_cst : o;
            c.eq((d ? ca.template to<u64>() : ca.template to<u64>(o)), low(m),
                 "to");
            accessed(c, a, exp, "to");
            c.check((d ? ca.template to<R64>() : ca.template to<R64>(o)) ==
                        static_cast<R64>(low(m)),
                    "to-enum", "");
            accessed(c, a, exp, "to");
            static_assert(std::is_same_v<decltype(ca.to_natural()), Natural>);
            c.eq((d ? ca.to_natural() : ca.to_natural(o)), low(m),
                 "to_natural");
            accessed(c, a, exp, "to_natural");
            prev_is(d ? ca.load() : ca.load(o), m, "load");
            accessed(c, a, exp, "load");
            BS const conv = ca;
            accessed(c, a, MO::seq_cst, "conversion");
            prev_is(conv, m, "conversion");
            c.eq((d ? ca.all() : ca.all(o)), m.all(), "all");
            accessed(c, a, exp, "all");
            c.eq((d ? ca.any() : ca.any(o)), m.any(), "any");
            accessed(c, a, exp, "any");
            c.eq((d ? ca.none() : ca.none(o)), m.none(), "none");
            accessed(c, a, exp, "none");
            c.eq((d ? ca.count() : ca.count(o)), m.count(), "count");
            accessed(c, a, exp, "count");
            for (std::size_t i = 0; i < N; ++i) {
                c.eq(ca[i], bool{m[i]}, "index");
                accessed(c, a, MO::seq_cst, "operator[]");
            }
            if constexpr (std::is_enum_v<decltype(Size)>) {
                c.eq(ca[static_cast<decltype(Size)>(1)], bool{m[1]}, "index");
                seen.clear();
            }
            c.state(low(m) * 131 + N);
        };
        whole();
        for (auto n = 5 + c.below(16); n > 0; --n) {
            auto const old = m;
            auto o = c.pick(any_order);
            auto so = c.pick(store_order);
            bool d = c.coin();
            auto exp = d ? MO::seq_cst : o;
            auto i = c.below(N);
            auto hi = i + c.below(N - i);
            auto lsb = static_cast<stdx::lsb_t>(i);
            auto msb = static_cast<stdx::msb_t>(hi);
            auto len = static_cast<stdx::length_t>(hi - i + 1);
            auto range = [&](auto f) {
                for (auto k = i; k <= hi; ++k) {
                    f(k);
                }
            };
            auto kind = c.below(15);
            c.op("op", kind, i, hi, static_cast<int>(o), d);
            switch (kind) {
            case 0: {
                bool v = c.coin();
                prev_is(d ? a.set(i, v) : a.set(i, v, o), old, "set-result");
                m[i] = v;
                break;
            }
            case 1:
                exp = MO::seq_cst;
                prev_is(a.set(i), old, "set-result");
                m[i] = true;
                break;
            case 2: {
                bool v = c.coin();
                prev_is(d ? a.set(lsb, msb, v) : a.set(lsb, msb, v, o), old,
                        "set-range-result");
                range([&](auto k) { m[k] = v; });
                break;
            }
            case 3: {
                bool v = c.coin();
                prev_is(d ? a.set(lsb, len, v) : a.set(lsb, len, v, o), old,
                        "set-range-result");
                range([&](auto k) { m[k] = v; });
                break;
            }
            case 4: {
                exp = d ? MO::seq_cst : so;
                auto &r = d ? a.set() : a.set(so);
                c.check(&r == &a, "returns-self", "set");
                m.set();
                break;
            }
            case 5:
                prev_is(d ? a.reset(i) : a.reset(i, o), old, "reset-result");
                m[i] = false;
                break;
            case 6:
                prev_is(d ? a.reset(lsb, msb) : a.reset(lsb, msb, o), old,
                        "reset-range-result");
                range([&](auto k) { m[k] = false; });
                break;
            case 7:
                prev_is(d ? a.reset(lsb, len) : a.reset(lsb, len, o), old,
                        "reset-range-result");
                range([&](auto k) { m[k] = false; });
                break;
            case 8: {
                exp = d ? MO::seq_cst : so;
                auto &r = d ? a.reset() : a.reset(so);
                c.check(&r == &a, "returns-self", "reset");
                m.reset();
                break;
            }
            case 9:
                prev_is(d ? a.flip(i) : a.flip(i, o), old, "flip-result");
                m.flip(i);
                break;
            case 10:
                prev_is(d ? a.flip(lsb, msb) : a.flip(lsb, msb, o), old,
                        "flip-range-result");
                range([&](auto k) { m.flip(k); });
                break;
            case 11:
                prev_is(d ? a.flip(lsb, len) : a.flip(lsb, len, o), old,
                        "flip-range-result");
                range([&](auto k) { m.flip(k); });
                break;
            case 12:
                prev_is(d ? a.flip() : a.flip(o), old, "flip-all-result");
                m.flip();
                break;
            case 13: {
                auto v = c.value<u64>();
                BS b{v};
                m = std::bitset<N>{v};
                if (c.coin()) { // a bitset whose unused bits are set
                    b = ~b;
                    m = ~m;
                }
                exp = d ? MO::seq_cst : so;
                d ? a.store(b) : a.store(b, so);
                break;
            }
            default:
                exp = MO::seq_cst;
                if constexpr (std::is_enum_v<decltype(Size)>) {
                    auto e = static_cast<decltype(Size)>(i);
                    prev_is(a.flip(e), old, "flip-result");
                    m.flip(i);
                    accessed(c, a, MO::seq_cst, "flip");
                    prev_is(a.reset(e), m, "reset-result");
                    m.reset(i);
                    accessed(c, a, MO::seq_cst, "reset");
                    prev_is(a.set(e), m, "set-result");
                    m.set(i);
                } else {
                    prev_is(a.set(static_cast<int>(i)), old, "set-result");
                    m[i] = true;
                }
            }
            accessed(c, a, exp, "mutator");
            whole();
        }
    };
    switch (c.below(6)) {
    case 0: {
        A a{};
        run(a);
        break;
    }
    case 1: {
        auto v = c.value<u64>();
        A a{v};
        m = std::bitset<N>{v};
        run(a);
        break;
    }
    case 2: {
        A a{stdx::all_bits};
        m.set();
        run(a);
        break;
    }
    case 3: {
        auto i = c.below(N), j = c.below(N);
        A a{stdx::place_bits, i, j};
        m.set(i);
        m.set(j);
        run(a);
        break;
    }
    case 4: {
        // the string constructor against the same rule as bitset's
        std::string s;
        auto l = c.below(N + 6);
        for (u64 k = 0; k < l; ++k) {
            s += c.coin() ? '1' : '0';
        }
        auto pos = c.below(l + 1);
        auto n = c.coin() ? std::string_view::npos : c.below(l + 2);
        A a{std::string_view{s}, pos, n};
        auto sub = std::string_view{s}.substr(pos, std::min<std::size_t>(n, N));
        for (std::size_t k = 0; k < sub.size(); ++k) {
            m[k] = sub[sub.size() - 1 - k] == '1';
        }
        run(a);
        break;
    }
    default: {
        std::string s(N, '.');
        for (auto &ch : s) {
            ch = c.coin() ? 'X' : '.';
        }
        A a{std::string_view{s}, 0, std::string_view::npos, 'X'};
        for (std::size_t k = 0; k < N; ++k) {
            m[k] = s[N - 1 - k] == 'X';
        }
        run(a);
    }
    }
}
#if PART == 2
VF_INST(6, seqbits, 1)
VF_INST(6, seqbits, 4)
VF_INST(6, seqbits, 8)
VF_INST(6, seqbits, 13)
VF_INST(6, seqbits, 16)
VF_INST(6, seqbits, 32)
VF_INST(6, seqbits, 33)
VF_INST(6, seqbits, 64)
VF_INST(6, seqbits, 5, std::uint32_t)
VF_INST(6, seqbits, 20, std::uint64_t)
VF_INST(6, seqbits, Bits::MAX)
VF_INST(4, seqbits, Bits::MAX, std::uint16_t)
VF_SUITE(ctstring, 1) {
    using namespace stdx::literals;
    c.op("ct_string");
    static constinit auto a = stdx::atomic_bitset{"101100111"_cts};
    static_assert(std::is_same_v<decltype(a), stdx::atomic_bitset<std::size_t{9}>>);
    c.eq(a.size(), 9u, "size");
    c.eq(a.to_natural(), 0b101100111u, "to_natural");
}
#endif
} // namespace
