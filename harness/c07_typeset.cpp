#include <stdx/bitset.hpp>

#include <memory>
#include <stdx/type_traits.hpp>

#include "elems.hpp"

#include <array>
#include <cstdint>
#include <string>
#include <vector>

using vf::u64;

namespace {
template <int> struct X;          // incomplete: names only
template <> struct X<0> {};       // a mix of shapes
template <> struct X<1> { int i; };
template <> struct X<2> { X(X const &) = delete; };

template <int I> struct ty { using type = X<I>; };
template <> struct ty<3> { using type = int; };
template <> struct ty<4> { using type = int const; };
template <> struct ty<5> { using type = int &; };
template <> struct ty<6> { using type = void; };
template <> struct ty<7> { using type = X<0> *; };
template <int I> using T = typename ty<I>::type;

template <int... Is> consteval auto distinct_count() {
    std::array<int, sizeof...(Is) + 1> a{Is..., -1};
    std::size_t n = 0;
    for (std::size_t i = 0; i < sizeof...(Is); ++i) {
        bool dup = false;
        for (std::size_t j = 0; j < i; ++j) {
            dup = dup or a[j] == a[i];
        }
        n += dup ? 0 : 1;
    }
    return n;
}
template <int... Is> consteval auto distinct() {
    std::array<int, sizeof...(Is) + 1> a{Is..., -1};
    std::array<int, distinct_count<Is...>()> r{};
    std::size_t n = 0;
    for (std::size_t i = 0; i < sizeof...(Is); ++i) {
        bool dup = false;
        for (std::size_t j = 0; j < i; ++j) {
            dup = dup or a[j] == a[i];
        }
        if (not dup) {
            r[n++] = a[i];
        }
    }
    return r;
}

template <typename U> struct key {}; // maps a type back to its number
template <int I> constexpr int num(key<X<I>>) { return I; }
constexpr int num(key<int>) { return 3; }
constexpr int num(key<int const>) { return 4; }
constexpr int num(key<int &>) { return 5; }
constexpr int num(key<void>) { return 6; }
constexpr int num(key<X<0> *>) { return 7; }

template <typename...> struct other_list {};

template <int... Is> void tset(vf::Ctx &c) {
    using B = stdx::type_bitset<T<Is>...>;
    static constexpr auto D = distinct<Is...>();
    static constexpr std::size_t N = D.size();
    std::vector<bool> m(N);
    B b{};
    using Seq = std::make_index_sequence<N>;

    auto observe = [&] {
        std::size_t n = 0;
        u64 v = 0;
        for (std::size_t i = 0; i < N; ++i) {
            n += m[i];
            v |= i < 64 and m[i] ? u64{1} << i : 0;
        }
        [&]<std::size_t... Js>(std::index_sequence<Js...>) {
            (c.eq(b[stdx::type_identity_v<T<D[Js]>>], bool{m[Js]},
                  "index-by-type"),
             ...);
        }(Seq{});
        c.eq(b.count(), n, "count");
        c.eq(b.size(), n, "size");
        c.eq(b.empty(), n == 0, "empty");
        c.eq(b.none(), n == 0, "none");
        c.eq(b.any(), n != 0, "any");
        c.eq(b.all(), n == N, "all");
        c.eq(b.capacity(), N, "capacity");
        if constexpr (N <= 64) {
            c.eq(b.to_natural(), v, "to_natural");
            c.eq(b.template to<u64>(), v, "to");
        }
        std::vector<std::pair<int, std::size_t>> set, unset, seen;
        for (std::size_t i = 0; i < N; ++i) {
            (m[i] ? set : unset).push_back({D[i], i});
        }
        auto rec = [&]<typename U, std::size_t I>() {
            seen.push_back({num(key<U>{}), I});
        };
        b.for_each(rec);
        c.check(seen == set, "for_each", "visited other types");
        seen.clear();
        b.template for_each<stdx::set_bit>(rec);
        c.check(seen == set, "for_each-set", "visited other types");
        seen.clear();
        b.template for_each<stdx::unset_bit>(rec);
        c.check(seen == unset, "for_each-unset", "visited other types");
        // the callable comes back: the object itself, or a temporary with its state
        auto &&same = b.for_each(rec);
        static_assert(std::is_same_v<decltype(b.for_each(rec)), decltype(rec) &>);
        c.check(std::addressof(same) == std::addressof(rec), "for_each-result", "another object");
        auto owner = b.for_each([k = std::make_unique<std::size_t>(1)]<typename U, std::size_t I>() mutable {
            *k = *k * 31 + I;
            return *k;
        });
        std::size_t folded = 1;
        for (auto const &x : set) {
            folded = folded * 31 + x.second;
        }
        c.eq(owner.template operator()<int, 5>(), folded * 31 + 5, "for_each-owner");
        auto counter = b.template for_each<stdx::unset_bit>([k = std::size_t{}]<typename, std::size_t>() mutable { return ++k; });
        c.eq(counter.template operator()<int, 0>(), unset.size() + 1, "for_each-state");
        c.state(v + N * 977);
    };
    // one operation addressed by the type at distinct position J
    auto at = [&]<typename F>(std::size_t j, F f) {
        [&]<std::size_t... Js>(std::index_sequence<Js...>) {
            (void)((Js == j ? (f.template operator()<T<D[Js]>>(), true)
                            : false) or
                   ...);
        }(Seq{});
    };
    auto random = [&](B &x, std::vector<bool> &xm) {
        auto v = c.next();
        if constexpr (N == 0) {
            v = 0;
        } else if constexpr (N < 64) {
            v &= (u64{1} << N) - 1;
        }
        x = B{v};
        for (std::size_t i = 0; i < N; ++i) {
            xm[i] = i < 64 and ((v >> i) & 1);
        }
    };

    observe();
    for (auto n = 4 + c.below(16); n > 0; --n) {
        auto j = c.below(N);
        switch (c.below(15)) {
        case 0:
            c.op("from value");
            random(b, m);
            break;
        case 1:
            c.op("all bits");
            b = B{stdx::all_bits};
            m.assign(N, true);
            break;
        case 2:
            if constexpr (N >= 1) {
                c.op("from list of types");
                constexpr auto first = D[0], last = D[N - 1], mid = D[N / 2];
                if (c.coin()) {
                    b = B{stdx::type_list<T<last>, T<first>>{}};
                } else {
                    b = B{other_list<T<first>, T<last>, T<first>>{}};
                }
                m.assign(N, false);
                m[0] = m[N - 1] = true;
                if (c.coin()) {
                    b = B{stdx::type_list<T<mid>>{}};
                    m.assign(N, false);
                    m[N / 2] = true;
                }
            }
            break;
        case 3:
        case 4:
        case 5:
            if constexpr (N > 0) {
                auto how = c.below(3);
                bool v = how != 1;
                c.op("set type", j, how);
                at(j, [&]<typename U>() {
                    B &r = how == 0 ? b.template set<U>()
                                    : b.template set<U>(v);
                    c.check(&r == &b, "returns-self", "");
                });
                m[j] = v;
            }
            break;
        case 6:
            if constexpr (N > 0) {
                c.op("reset type", j);
                at(j, [&]<typename U>() {
                    B &r = c.coin() ? b.template reset<U>()
                                    : b.template clear<U>();
                    c.check(&r == &b, "returns-self", "");
                });
                m[j] = false;
            }
            break;
        case 7:
            if constexpr (N > 0) {
                c.op("flip type", j);
                at(j, [&]<typename U>() { b.template flip<U>(); });
                m[j] = not m[j];
            }
            break;
        case 8:
            if constexpr (N >= 3) {
                constexpr auto x = D[N - 1], y = D[N / 2];
                auto how = c.below(4);
                c.op("two types", how);
                auto const hi = N - 1, lo = N / 2;
                if (how == 0) {
                    b.template set<T<x>, T<y>>();
                    m[hi] = m[lo] = true;
                } else if (how == 1) {
                    b.template set<T<y>, T<x>>(false);
                    m[hi] = m[lo] = false;
                } else if (how == 2) {
                    b.template reset<T<x>, T<y>>();
                    m[hi] = m[lo] = false;
                } else {
                    b.template flip<T<y>, T<x>>();
                    m[hi] = not m[hi];
                    m[lo] = not m[lo];
                }
            }
            break;
        case 9:
            c.op("set all");
            b.set();
            m.assign(N, true);
            break;
        case 10:
            c.op("reset all");
            c.coin() ? b.reset() : b.clear();
            m.assign(N, false);
            break;
        case 11:
            c.op("flip all");
            if (c.coin()) {
                b.flip();
            } else {
                b = ~b;
            }
            m.flip();
            break;
        default: {
            B o{};
            std::vector<bool> om(N), r(N);
            random(o, om);
            auto how = c.below(7);
            c.op("binary", how);
            for (std::size_t i = 0; i < N; ++i) {
                bool p = m[i], q = om[i];
                r[i] = how == 0 or how == 4   ? p or q
                       : how == 1 or how == 5 ? p and q
                       : how == 2 or how == 6 ? p != q
                                              : p and not q;
            }
            switch (how) {
            case 0: b |= o; break;
            case 1: b &= o; break;
            case 2: b ^= o; break;
            case 3: b = b - o; break;
            case 4: b = b | o; break;
            case 5: b = b & o; break;
            default: b = b ^ o;
            }
            m = r;
            c.eq(b == o, m == om, "equality");
            c.eq(b != o, m != om, "equality");
        }
        }
        observe();
    }
}
#define TS(...) VF_INST(10, tset, __VA_ARGS__)
#if PART == 1
TS(0)
TS(3, 4)
TS(0, 1, 2, 3)
TS(0, 1, 0, 1, 2)
TS(7, 7, 7, 2)
TS(9, 8, 7, 6, 5, 4, 3, 2, 1, 0)
TS(10, 11, 10, 12, 13, 12, 14, 15, 10, 16, 17, 18, 19)
#elif PART == 2
// ---- bitset sized by an enumeration ----------------------------------------
enum struct Small : std::uint8_t { a, b, c, d, e, MAX };
enum struct Sparse : std::uint16_t { zero = 0, three = 3, eleven = 11, MAX = 12 };
enum Plain { p0, p1, p2, plain_max = 8 };
enum struct Big : int { first = 0, last = 69, MAX = 70 };

template <auto Max, typename... S> void enums(vf::Ctx &c) {
    using E = decltype(Max);
    using B = stdx::bitset<Max, S...>;
    constexpr auto N = static_cast<std::size_t>(Max);
    std::vector<bool> m(N);
    B b{};
    auto observe = [&] {
        std::vector<E> set, unset, seen;
        for (std::size_t i = 0; i < N; ++i) {
            auto e = static_cast<E>(i);
            (m[i] ? set : unset).push_back(e);
            c.eq(b[e], bool{m[i]}, "index-by-enumerator");
            c.eq(b[i], bool{m[i]}, "index-by-value");
        }
        auto rec = [&]<typename A>(A e) {
            static_assert(std::is_same_v<A, E>);
            seen.push_back(e);
        };
        stdx::for_each(rec, b);
        c.check(seen == set, "for_each", vf::str(seen).c_str());
        seen.clear();
        stdx::for_each<stdx::unset_bit>(rec, b);
        c.check(seen == unset, "for_each-unset", vf::str(seen).c_str());
        seen.clear();
        std::size_t at = 0;
        stdx::for_each<stdx::bit>(
            [&]<typename A>(A e, bool v) {
                static_assert(std::is_same_v<A, E>);
                c.check(at < N and e == static_cast<E>(at) and v == m[at],
                        "for_each-bit", "");
                ++at;
            },
            b);
        c.eq(at, N, "for_each-bit");
        auto sum = stdx::transform_reduce(
            [&]<typename A>(A e) {
                static_assert(std::is_same_v<A, E>);
                seen.push_back(e);
                return static_cast<u64>(e);
            },
            [](u64 a, u64 x) { return a * 31 + x; }, u64{7}, b);
        u64 want = 7;
        for (auto e : set) {
            want = want * 31 + static_cast<u64>(e);
        }
        c.eq(sum, want, "transform_reduce");
        c.check(seen == set, "transform_reduce-order", "");
        auto lu = b.lowest_unset();
        static_assert(std::is_same_v<decltype(lu), E>);
        c.check(lu == (unset.empty() ? Max : unset.front()), "lowest_unset",
                "");
        c.eq(b.count(), set.size(), "count");
        c.eq(b.all(), unset.empty(), "all");
        c.eq(b.capacity(), N, "capacity");
        u64 h = N;
        for (auto e : set) {
            h = vf::mix(h ^ static_cast<u64>(e));
        }
        c.state(h);
    };
    observe();
    for (auto n = 4 + c.below(16); n > 0; --n) {
        auto i = c.below(N);
        auto e = static_cast<E>(i);
        auto j = c.below(N);
        switch (c.below(8)) {
        case 0: {
            bool v = c.coin();
            c.op("set", i, v);
            v and c.coin() ? b.set(e) : b.set(e, v);
            m[i] = v;
            break;
        }
        case 1:
            c.op("set by value", i);
            b.set(i);
            m[i] = true;
            break;
        case 2:
            c.op("reset", i);
            c.coin() ? b.reset(e) : b.clear(e);
            m[i] = false;
            break;
        case 3:
            c.op("flip", i);
            b.flip(e);
            m[i] = not m[i];
            break;
        case 4: {
            c.op("place", i, j);
            b = B{stdx::place_bits, e, static_cast<E>(j)};
            m.assign(N, false);
            m[i] = m[j] = true;
            break;
        }
        case 5:
            c.op("all");
            b = B{stdx::all_bits};
            m.assign(N, true);
            break;
        case 6:
            c.op("complement");
            b = ~b;
            m.flip();
            break;
        default:
            c.op("shift", 1);
            b <<= 1;
            m.insert(m.begin(), false);
            m.pop_back();
        }
        observe();
    }
}
VF_INST(10, enums, Small::MAX)
VF_INST(8, enums, Small::MAX, std::uint32_t)
VF_INST(10, enums, Sparse::MAX)
VF_INST(8, enums, Sparse::MAX, std::uint8_t)
VF_INST(8, enums, Plain::plain_max)
VF_INST(8, enums, Big::MAX)
VF_INST(8, enums, Big::MAX, std::uint16_t)
#else
VF_EXTRA
#endif
} // namespace
