#include <stdx/bitset.hpp>

#include "elems.hpp"

#include <bitset>
#include <cstdint>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

using vf::u16;
using vf::u32;
using vf::u64;
using vf::u8;

namespace {
template <std::size_t N> using M = std::bitset<N>;

template <std::size_t N> u64 low(M<N> const &m) {
    u64 r = 0;
    for (std::size_t i = 0; i < N and i < 64; ++i) {
        r |= u64{m[i]} << i;
    }
    return r;
}

enum struct E64 : u64 {};
enum struct E32 : u32 {};

template <typename B, std::size_t N>
void observe(vf::Ctx &c, B const &b, M<N> const &m) {
    for (std::size_t i = 0; i < N; ++i) {
        c.eq(b[i], m[i], "index");
    }
    c.eq(b.count(), m.count(), "count");
    c.eq(b.size(), m.count(), "size");
    c.eq(b.empty(), m.none(), "empty");
    c.eq(b.all(), m.all(), "all");
    c.eq(b.any(), m.any(), "any");
    c.eq(b.none(), m.none(), "none");
    c.eq(b.capacity(), N, "capacity");
    std::size_t lu = 0;
    while (lu < N and m[lu]) {
        ++lu;
    }
    c.eq(static_cast<std::size_t>(b.lowest_unset()), lu, "lowest_unset");
    if constexpr (N <= 64) {
        auto const v = low(m);
        c.eq(b.template to<u64>(), v, "to");
        c.check(b.template to<E64>() == static_cast<E64>(v), "to-enum", "");
        c.eq(b.to_natural(), v, "to_natural");
        static_assert(std::is_same_v<decltype(b.to_natural()),
                                     stdx::smallest_uint_t<N>>);
        if constexpr (N <= 32) {
            c.eq(b.template to<u32>(), v, "to");
            c.check(b.template to<E32>() == static_cast<E32>(v), "to-enum",
                    "");
        }
        if constexpr (N <= 16) {
            c.eq(b.template to<u16>(), v, "to");
        }
        if constexpr (N <= 8) {
            c.eq(b.template to<u8>(), v, "to");
        }
    }
    // iteration: indices in increasing order, exactly once
    std::vector<std::size_t> set, unset, seen;
    for (std::size_t i = 0; i < N; ++i) {
        (m[i] ? set : unset).push_back(i);
    }
    auto collect = [&seen](auto i) {
        static_assert(std::is_same_v<decltype(i), std::size_t>);
        seen.push_back(static_cast<std::size_t>(i));
    };
    stdx::for_each(collect, b);
    c.check(seen == set, "for_each", vf::str(seen).c_str());
    seen.clear();
    stdx::for_each<stdx::set_bit>(collect, b);
    c.check(seen == set, "for_each-set", vf::str(seen).c_str());
    seen.clear();
    stdx::for_each<stdx::unset_bit>(collect, b);
    c.check(seen == unset, "for_each-unset", vf::str(seen).c_str());
    std::size_t at = 0;
    stdx::for_each<stdx::bit>(
        [&](auto i, bool v) {
            c.check(at < N, "for_each-bit", "too many calls");
            c.eq(static_cast<std::size_t>(i), at, "for_each-bit");
            c.eq(v, bool{m[at]}, "for_each-bit");
            ++at;
        },
        b);
    c.eq(at, N, "for_each-bit");
    // the callable comes back with its state
    auto counter = stdx::for_each(
        [n = std::size_t{}](auto) mutable { return ++n; }, b);
    c.eq(counter(0), m.count() + 1, "for_each-result");
    seen.clear();
    auto &&same = stdx::for_each(collect, b);
    c.check(std::addressof(same) == std::addressof(collect) and seen == set, "for_each-result", "another object");

    std::vector<std::size_t> order;
    auto joined = stdx::transform_reduce(
        [&](auto i) {
            order.push_back(static_cast<std::size_t>(i));
            return std::to_string(static_cast<std::size_t>(i)) + ",";
        },
        [](std::string a, std::string const &x) { return a + x; },
        std::string{">"}, b);
    std::string want = ">";
    for (auto i : set) {
        want += std::to_string(i) + ",";
    }
    c.eq(joined, want, "transform_reduce");
    c.check(order == set, "transform_reduce-order", vf::str(order).c_str());
    // accumulators and callables that can only be moved
    auto sum = stdx::transform_reduce([](auto i) { return static_cast<std::size_t>(i); },
                                      [](std::unique_ptr<std::size_t> a, std::size_t x) {
                                          *a = *a * 31 + x;
                                          return a;
                                      },
                                      std::make_unique<std::size_t>(1), b);
    auto owner = stdx::for_each([n = std::make_unique<std::size_t>(1)](auto i) { *n = *n * 31 + static_cast<std::size_t>(i); return n.get(); }, b);
    std::size_t folded = 1;
    for (auto i : set) {
        folded = folded * 31 + i;
    }
    c.check(sum and *sum == folded, "transform_reduce-owner", "accumulator");
    c.eq(*owner(std::size_t{}), folded * 31, "for_each-owner");

    c.state(std::hash<M<N>>{}(m) + N);
}

template <std::size_t N, typename B> void random_into(vf::Ctx &c, B &b, M<N> &m) {
    m.reset();
    b = B{};
    auto mode = c.below(5);
    for (std::size_t i = 0; i < N; ++i) {
        bool v = mode == 0   ? c.coin()
                 : mode == 1 ? c.chance(8)
                 : mode == 2 ? c.chance(92)
                 : mode == 3 ? true
                             : (i >= N - N / 3);
        m[i] = v;
        b.set(i, v);
    }
}

template <std::size_t N, typename... S> void bits(vf::Ctx &c) {
    using B = stdx::bitset<N, S...>;
    static_assert(std::is_trivially_copyable_v<B>);
    B b{};
    M<N> m{};
    observe(c, b, m);
    auto nops = 5 + c.below(22);
    for (; nops > 0; --nops) {
        switch (c.below(22)) {
        case 0: {
            auto v = c.value<u64>();
            c.op("from uint64", v);
            b = B{v};
            m = M<N>{v};
            break;
        }
        case 1: {
            std::string s;
            char one = c.chance(30) ? "x0"[c.below(2)] : '1';
            char zero = one == '1' ? '0' : one == '0' ? '1' : "01"[c.below(2)];
            auto len = c.below(N + 9);
            for (u64 i = 0; i < len; ++i) {
                s += c.coin() ? one : zero;
            }
            auto pos = c.below(len + 1);
            auto n = c.chance(40) ? std::string_view::npos : c.below(len + 3);
            c.op("from string", s, pos, n, one);
            if (pos == 0 and n == std::string_view::npos and one == '1' and
                c.coin()) {
                b = B{std::string_view{s}};
            } else {
                b = B{std::string_view{s}, pos, n, one};
            }
            auto sub = std::string_view{s}.substr(
                pos, std::min<std::size_t>(n, N));
            m.reset();
            for (std::size_t i = 0; i < sub.size(); ++i) {
                m[i] = sub[sub.size() - 1 - i] == one;
            }
            break;
        }
        case 2:
            c.op("all bits");
            b = B{stdx::all_bits};
            m.set();
            break;
        case 3:
            if constexpr (N > 0) {
                auto i = c.below(N), j = c.below(N);
                auto k = c.below(std::min<std::size_t>(N, 127));
                c.op("place bits", i, j, k);
                b = B{stdx::place_bits, i, j, static_cast<signed char>(k)};
                m.reset();
                m.set(i).set(j).set(k);
            }
            break;
        case 4:
        case 5:
            if constexpr (N > 0) {
                auto i = c.below(N);
                bool v = c.coin();
                c.op("set", i, v);
                B *r{};
                if (v and c.coin()) {
                    r = &b.set(static_cast<int>(i));
                } else {
                    r = &b.set(static_cast<u16>(i), v);
                }
                c.check(r == &b, "returns-self", "set");
                m.set(i, v);
            }
            break;
        case 6:
            if constexpr (N > 0) {
                auto i = c.below(N);
                c.op("reset", i);
                c.check(&(c.coin() ? b.reset(i) : b.clear(i)) == &b,
                        "returns-self", "reset");
                m.reset(i);
            }
            break;
        case 7:
            if constexpr (N > 0) {
                auto i = c.below(N);
                c.op("flip", i);
                c.check(&b.flip(i) == &b, "returns-self", "flip");
                m.flip(i);
            }
            break;
        case 8:
        case 9:
        case 10:
        case 11:
            if constexpr (N > 0) {
                auto l = c.below(N);
                auto h = c.chance(20) ? N - 1 : l + c.below(N - l);
                if (c.chance(15)) {
                    h = l;
                }
                auto lsb = static_cast<stdx::lsb_t>(l);
                auto msb = static_cast<stdx::msb_t>(h);
                auto len = static_cast<stdx::length_t>(h - l + 1);
                auto how = c.below(8);
                bool v = how < 4;
                c.op("range", l, h, how);
                switch (how) {
                case 0: b.set(lsb, msb); break;
                case 1: b.set(lsb, len); break;
                case 2: b.set(lsb, msb, true); break;
                case 3: b.set(lsb, len, true); break;
                case 4: b.set(lsb, msb, false); break;
                case 5: b.set(lsb, len, false); break;
                case 6: c.coin() ? b.reset(lsb, msb) : b.clear(lsb, msb); break;
                default: c.coin() ? b.reset(lsb, len) : b.clear(lsb, len);
                }
                for (auto i = l; i <= h; ++i) {
                    m[i] = v;
                }
            }
            break;
        case 12:
            c.op("set all");
            b.set();
            m.set();
            break;
        case 13:
            c.op("reset all");
            c.coin() ? b.reset() : b.clear();
            m.reset();
            break;
        case 14:
            c.op("flip all");
            if (c.coin()) {
                b.flip();
            } else {
                b = ~b;
            }
            m.flip();
            break;
        case 15:
        case 16: {
            B o{};
            M<N> om{};
            random_into<N>(c, o, om);
            auto how = c.below(9);
            c.op("binary", how, om.to_string());
            if (c.coin()) { // operand with garbage above N, if any
                o = ~o;
                om.flip();
            }
            B const o0 = o;
            switch (how) {
            case 0: b |= o; m |= om; break;
            case 1: b &= o; m &= om; break;
            case 2: b ^= o; m ^= om; break;
            case 3: b = b | o; m |= om; break;
            case 4: b = b & o; m &= om; break;
            case 5: b = b ^ o; m ^= om; break;
            case 6: b = b - o; m &= ~om; break;
            case 7: b = o - b; m = om & ~m; break;
            default: b ^= b; m ^= m;
            }
            c.check(o == o0, "operand-changed", "");
            c.eq(b == o, m == om, "equality");
            c.eq(b != o, m != om, "equality");
            break;
        }
        case 17:
        case 18:
        case 19:
        case 20: {
            std::size_t s;
            switch (c.below(6)) {
            case 0: s = c.below(N + 2); break;
            case 1: s = N; break;
            case 2: s = N + c.below(70); break;
            case 3: s = 8 * c.below(N / 8 + 2); break;
            case 4: s = c.below(10); break;
            default: s = c.chance(50) ? ~std::size_t{} - c.below(3)
                                      : c.below(N + 1);
            }
            auto how = c.below(4);
            c.op("shift", how, s);
            switch (how) {
            case 0: b <<= s; m <<= s; break;
            case 1: b >>= s; m >>= s; break;
            case 2: b = b << s; m <<= s; break;
            default: b = b >> s; m >>= s;
            }
            break;
        }
        default: {
            // the same set reached by another history compares equal
            c.op("rebuild");
            B o{};
            if (c.coin()) {
                o.set();
                for (std::size_t i = 0; i < N; ++i) {
                    if (not m[i]) {
                        o.reset(i);
                    }
                }
            } else {
                o.flip();
                for (std::size_t i = 0; i < N; ++i) {
                    if (not m[i]) {
                        o.flip(i);
                    }
                }
            }
            c.check(o == b and b == o and not(o != b), "equality",
                    "equal sets compare different");
            if constexpr (N > 0) {
                o.flip(c.below(N));
                c.check(not(o == b) and o != b, "equality",
                        "different sets compare equal");
            }
        }
        }
        observe(c, b, m);
    }
}

template <typename S> void ctstr(vf::Ctx &c) {
    // compile-time string construction and its deduction guide
    c.op("ct_string");
    using namespace stdx::literals;
    constexpr auto b = stdx::bitset{"1011001110001"_cts};
    static_assert(decltype(b)::capacity() == 13);
    observe(c, b, M<13>{std::string("1011001110001")});
    constexpr auto d = stdx::bitset<9, S>{"100010111"_cts};
    observe(c, d, M<9>{std::string("100010111")});
    constexpr auto e = stdx::bitset<20, S>{"10001", 1, 3, '0'};
    observe(c, e, M<20>{7});
}

template <std::size_t N, typename... S> void large(vf::Ctx &c) {
    // positions beyond what narrow integers count
    using B = stdx::bitset<N, S...>;
    auto b = std::make_unique<B>();
    auto m = std::make_unique<M<N>>();
    auto const look = [&](char const *what) {
        std::vector<std::size_t> set, seen;
        std::size_t lu = 0;
        while (lu < N and (*m)[lu]) {
            ++lu;
        }
        for (std::size_t i = 0; i < N; ++i) {
            if ((*m)[i]) {
                set.push_back(i);
            }
            if ((*b)[i] != (*m)[i]) {
                c.check(false, "large-index", what);
            }
        }
        stdx::for_each([&](auto i) { seen.push_back(static_cast<std::size_t>(i)); }, *b);
        c.check(seen == set, "large-for_each", what);
        seen.clear();
        stdx::for_each<stdx::unset_bit>([&](auto i) { seen.push_back(static_cast<std::size_t>(i)); }, *b);
        c.eq(seen.size(), N - set.size(), "large-for_each-unset");
        auto const last = stdx::transform_reduce([](auto i) { return static_cast<std::size_t>(i); },
                                                 [](std::size_t a, std::size_t x) { return a * 31 + x; }, std::size_t{1}, *b);
        std::size_t want = 1;
        for (auto i : set) {
            want = want * 31 + i;
        }
        c.eq(last, want, "large-transform_reduce");
        c.eq(std::size_t{b->count()}, set.size(), "large-count");
        c.eq(std::size_t{b->lowest_unset()}, lu, "large-lowest_unset");
        c.eq(b->all(), m->all(), "large-all");
        c.eq(b->none(), m->none(), "large-none");
        c.state(std::hash<M<N>>{}(*m));
    };
    for (int n = 0; n < 3; ++n) {
        auto const i = N - 1 - c.below(N / 3), l = c.below(N), h = l + c.below(N - l), s = c.chance(50) ? 64 * c.below(N / 64) : c.below(N);
        c.op("large", i, l, h, s);
        b->set(i);
        m->set(i);
        look("set");
        b->flip();
        m->flip();
        look("flip");
        b->flip(i);
        m->flip(i);
        look("flip one");
        b->set(static_cast<stdx::lsb_t>(l), static_cast<stdx::msb_t>(h), c.coin());
        for (auto k = l; k <= h; ++k) {
            m->set(k, (*b)[l]);
        }
        look("range");
        if (c.coin()) {
            *b <<= s;
            *m <<= s;
        } else {
            *b >>= s;
            *m >>= s;
        }
        look("shift");
        *b = B{std::string_view{m->to_string()}};
        look("string");
        *b = B{stdx::place_bits, i, l, h};
        m->reset();
        m->set(i).set(l).set(h);
        look("place bits");
        b->set();
        m->set();
        look("all");
        b->reset(i);
        m->reset(i);
        look("reset");
    }
}

#define B(N, ...) VF_INST(10, bits, N __VA_OPT__(, ) __VA_ARGS__)
#if PART == 1
B(0)
B(1)
B(3, u64)
B(7)
B(8)
B(9)
B(9, u8)
B(16, u8)
B(17, u8)
B(24, u32)
VF_INST(1, ctstr, u8)
VF_EXHAUSTIVE(large64, 2) { large<70001, u64>(c); }
#elif PART == 2
B(25, u8)
B(31, u16)
B(32)
B(33)
B(33, u16)
B(48, u16)
B(63, u8)
B(64)
B(64, u32)
#elif PART == 3
B(65)
B(65, u32)
B(70, u8)
B(96, u32)
B(127, u64)
B(128, u64)
B(129, u16)
B(200)
VF_EXHAUSTIVE(large8, 2) { large<517, u8>(c); }
VF_EXHAUSTIVE(large16, 2) { large<5000, u16>(c); }
#else
VF_EXTRA
#endif
} // namespace
