// Workloads that run the same seeded history at compile time and at run time.
// Each one digests everything it can observe, step by step.
#pragma once
#include <stdx/algorithm.hpp>
#include <stdx/array.hpp>
#include <stdx/bit.hpp>
#include <stdx/bitset.hpp>
#include <stdx/cached.hpp>
#include <stdx/call_by_need.hpp>
#include <stdx/ct_string.hpp>
#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/functional.hpp>
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>
#include <stdx/iterator.hpp>
#include <stdx/latched.hpp>
#include <stdx/numeric.hpp>
#include <stdx/optional.hpp>
#include <stdx/rollover.hpp>
#include <stdx/span.hpp>
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>
#include <stdx/tuple_destructure.hpp>
#include <stdx/utility.hpp>

#include "vf.hpp"

#include <array>
#include <compare>
#include <cstdint>
#include <limits>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

namespace c26 {
using u64 = std::uint64_t;
using namespace stdx::literals;

struct Rng {
    u64 s;
    constexpr auto next() -> u64 {
        s += 0x9e3779b97f4a7c15u;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9u;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebu;
        return z ^ (z >> 31);
    }
    constexpr auto below(u64 n) -> u64 { return n == 0 ? 0 : next() % n; }
    constexpr auto chance(u64 percent) -> bool { return below(100) < percent; }
    template <typename T> constexpr auto value() -> T { // often near a boundary
        u64 const v = next();
        switch (v % 7) {
        case 0:
            return std::numeric_limits<T>::min();
        case 1:
            return std::numeric_limits<T>::max();
        case 2:
            return static_cast<T>(v >> 60);
        case 3:
            return static_cast<T>(T{1} << ((v >> 8) % (sizeof(T) * 8 - 1)));
        default:
            return static_cast<T>(v >> 3);
        }
    }
};

struct Digest {
    std::array<u64, 48> steps{}; // the digest after each step
    std::size_t n{};
    u64 acc{0x1234};

    constexpr auto mix(u64 v) -> void {
        acc ^= v + 0x9e3779b97f4a7c15u + (acc << 6) + (acc >> 2);
        acc *= 0xff51afd7ed558ccdu;
        acc ^= acc >> 29;
    }
    template <typename T> constexpr auto put(T const &t) -> void {
        if constexpr (std::is_enum_v<T>) {
            mix(static_cast<u64>(stdx::to_underlying(t)));
        } else if constexpr (std::is_integral_v<T>) {
            mix(static_cast<u64>(t));
        } else if constexpr (requires { t.digest(*this); }) {
            t.digest(*this);
        } else {
            mix(0xabc);
            for (auto const &x : t) {
                put(x);
            }
        }
    }
    // The order in which the arguments of a call are evaluated is unspecified, and GCC's two evaluations of an
    // overloaded assignment differ: one random choice per expression.
    template <typename... Ts> constexpr auto operator()(Ts const &...ts) -> void { (put(ts), ...); }
    constexpr auto step() -> void {
        if (n < steps.size()) {
            steps[n++] = acc;
        }
    }
};

// ---- element types ----
struct Pt {
    int x{}, y{};
    friend constexpr auto operator==(Pt const &, Pt const &) -> bool = default;
    friend constexpr auto operator<=>(Pt const &, Pt const &) = default;
    constexpr auto digest(Digest &d) const -> void { d(x, y); }
};
// Owns memory, so that the constant evaluator rejects a leak or a use after
// free. GCC 13 evaluates implicit copies of arrays of such a class wrongly (with
// plain arrays too); there it is a value with the same behaviour.
#ifdef __clang__
struct Own {
    int *p{};
    constexpr Own() = default;
    constexpr explicit Own(int i) : p{new int{i}} {}
    constexpr Own(Own const &o) : p{o.p == nullptr ? nullptr : new int{*o.p}} {}
    constexpr Own(Own &&o) noexcept : p{std::exchange(o.p, nullptr)} {}
    constexpr auto operator=(Own const &o) -> Own & {
        if (this != &o) {
            delete p;
            p = o.p == nullptr ? nullptr : new int{*o.p};
        }
        return *this;
    }
    constexpr auto operator=(Own &&o) noexcept -> Own & {
        if (this != &o) {
            delete p;
            p = std::exchange(o.p, nullptr);
        }
        return *this;
    }
    constexpr ~Own() { delete p; }
    [[nodiscard]] constexpr auto get() const -> int { return p == nullptr ? -1 : *p; }
#else
struct Own {
    int v{-1};
    constexpr Own() = default;
    constexpr explicit Own(int i) : v{i} {}
    constexpr Own(Own const &o) = default;
    constexpr Own(Own &&o) noexcept : v{std::exchange(o.v, -1)} {}
    constexpr auto operator=(Own const &o) -> Own & = default;
    constexpr auto operator=(Own &&o) noexcept -> Own & {
        if (this != &o) {
            v = std::exchange(o.v, -1);
        }
        return *this;
    }
    [[nodiscard]] constexpr auto get() const -> int { return v; }
#endif
    friend constexpr auto operator==(Own const &a, Own const &b) -> bool { return a.get() == b.get(); }
    constexpr auto digest(Digest &d) const -> void { d(get()); }
};
template <typename T> constexpr auto make(Rng &r, u64 range = 9) -> T {
    auto const v = static_cast<int>(r.below(range));
    if constexpr (std::is_same_v<T, Pt>) {
        return Pt{v, static_cast<int>(r.below(3))};
    } else {
        return T(v);
    }
}

// ---- containers ----
template <typename T, std::size_t N> struct vector_w {
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        stdx::cx_vector<T, N> v{}, w{};
        for (int i = 0; i < steps; ++i) {
            switch (r.below(11)) {
            case 0:
            case 1:
            case 2:
                if (not v.full()) {
                    auto const t = make<T>(r);
                    d(v.push_back(t));
                }
                break;
            case 3:
                if (not v.full()) {
                    d(v.push_back(make<T>(r)));
                }
                break;
            case 4:
                if (not v.empty()) {
                    d(v.pop_back());
                }
                break;
            case 5:
                if (r.chance(30)) {
                    v.clear();
                }
                break;
            case 6: {
                auto const n = r.below(N + 1);
                auto const from = v.size();
                resize_and_overwrite(v, [&](auto it, std::size_t sz) {
                    d(sz);
                    for (auto k = from; k < n; ++k) {
                        it[k] = make<T>(r);
                    }
                    return n;
                });
            } break;
            case 7:
                if (not v.empty()) {
                    auto const k = r.below(v.size());
                    v[k] = make<T>(r);
                    v.front() = make<T>(r);
                    d(std::as_const(v).back(), std::as_const(v).front(), std::as_const(v)[v.size() - 1]);
                    d(v.template get<0>());
                }
                break;
            case 8:
                w = v;
                break;
            case 9: {
                auto const x = v;
                d(x == v, x == w);
            } break;
            default:
                for (auto it = v.rbegin(); it != v.rend(); ++it) {
                    d(*it);
                }
                std::swap(v, w);
                break;
            }
            d(v, w, v == w, v.size(), v.empty(), v.full(), v.capacity());
            d.step();
        }
    }
};
template <typename T, std::size_t N> struct queue_w {
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        stdx::cx_queue<T, N> q{}, p{};
        for (int i = 0; i < steps; ++i) {
            switch (r.below(7)) {
            case 0:
            case 1:
                if (not q.full()) {
                    auto const t = make<T>(r);
                    d(q.push(t));
                }
                break;
            case 2:
                if (not q.full()) {
                    d(q.push(make<T>(r)));
                }
                break;
            case 3:
            case 4:
                if (not q.empty()) {
                    d(q.pop());
                }
                break;
            case 5:
                if (r.chance(30)) {
                    q.clear();
                } else {
                    p = q;
                }
                break;
            default:
                std::swap(p, q);
                break;
            }
            d(q.size(), q.empty(), q.full());
            if (not q.empty()) {
                d(q.front(), std::as_const(q).back());
            }
            for (auto c = q; not c.empty();) {
                d(c.pop());
            }
            d.step();
        }
    }
};
template <typename V> struct kv_digest {
    Digest &d;
    constexpr auto operator()(auto const &m) const -> void {
        for (auto const &e : m) {
            d(e.key, e.value);
        }
    }
};
template <typename K, typename V, std::size_t N> struct map_w {
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        stdx::cx_map<K, V, N> m{};
        stdx::cx_set<K, N> s{}, z{};
        for (int i = 0; i < steps; ++i) {
            auto const k = make<K>(r, N + 2);
            switch (r.below(7)) {
            case 0:
            case 1:
            case 2:
                if (m.contains(k) or not m.full()) {
                    d(r.chance(50) ? m.put(k, make<V>(r)) : m.insert_or_assign(k, make<V>(r)));
                }
                if (s.size() < N) {
                    d(r.chance(50) ? s.insert(k) : s.insert(make<K>(r, 1)));
                }
                break;
            case 3:
                d(m.erase(k), s.erase(k));
                break;
            case 4:
                if (not m.empty()) {
                    auto const e = m.pop_back();
                    d(e.key, e.value);
                }
                if (not s.empty()) {
                    d(s.pop_back());
                }
                break;
            case 5:
                if (r.chance(20)) {
                    m.clear();
                    s.clear();
                } else {
                    z = s;
                }
                break;
            default:
                if (m.contains(k)) {
                    m.get(k) = make<V>(r);
                    d(std::as_const(m).get(k));
                }
                z.merge(s.size() + z.size() <= N ? s : z);
                break;
            }
            d(m.size(), m.empty(), m.full(), m.contains(k), s.size(), s.contains(k), z.size());
            kv_digest<V>{d}(m);
            d(s, z);
            d.step();
        }
    }
};
template <typename K, typename V, std::size_t N, std::size_t M> struct multimap_w {
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        stdx::cx_multimap<K, V, N, M> m{};
        for (int i = 0; i < steps; ++i) {
            auto const k = make<K>(r, N + 2);
            auto const v = make<V>(r, M + 2);
            switch (r.below(5)) {
            case 0:
            case 1:
            case 2:
                if (m.contains(k) ? m.contains(k, v) or m.get(k).size() < M : m.size() < N) {
                    m.insert(k, v);
                }
                break;
            case 3:
                if (m.contains(k) and m.get(k).size() > 0) {
                    d(r.chance(50) ? m.erase(k) : m.erase(k, v));
                }
                break;
            default:
                if (r.chance(20)) {
                    m.clear();
                }
                break;
            }
            d(m.size(), m.empty(), m.contains(k), m.contains(k, v));
            kv_digest<V>{d}(m);
            d.step();
        }
    }
};

// ---- bits ----
enum struct Bits : std::uint8_t { b0, b1, b2, b3, b4, b5, b6, b7, b8, max };
template <auto Size, typename S> struct bitset_w {
    constexpr static auto N = static_cast<std::size_t>(Size);
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        using B = stdx::bitset<Size, S>;
        B a{}, b{stdx::all_bits}, e{r.next()};
        constexpr auto W = sizeof(S) * 8; // whole words are a case of their own
        auto const amount = [&] { return r.chance(40) ? W * r.below(N / W + 2) : r.below(N + 3); };
        for (int i = 0; i < steps; ++i) {
            auto const p = N > W and r.chance(30) ? W * r.below(N / W) : r.below(N);
            auto const q = N - p >= W and r.chance(30) ? p + W - 1 : p + r.below(N - p);
            auto const lo = static_cast<stdx::lsb_t>(p);
            auto const hi = static_cast<stdx::msb_t>(q);
            switch (r.below(14)) {
            case 0:
                a.set(p, r.chance(70));
                break;
            case 1:
                a.set(lo, hi, r.chance(60));
                break;
            case 2:
                a.set(lo, static_cast<stdx::length_t>(q - p + 1));
                break;
            case 3:
                a.reset(p);
                break;
            case 4:
                a.reset(lo, hi);
                break;
            case 5:
                a.flip(p);
                break;
            case 6:
                a.flip();
                break;
            case 7:
                a |= b;
                break;
            case 8:
                a ^= e;
                break;
            case 9:
                b &= a;
                break;
            case 10:
                a = a - e;
                break;
            case 11:
                a = a << amount();
                break;
            case 12:
                a >>= amount();
                break;
            default:
                b = B{"10110", 1, 3};
                e = ~a;
                std::swap(a, b);
                break;
            }
            d(a.count(), a.size(), a.empty(), a.all(), a.any(), a.none(), a == b, a == e, a[p], std::as_const(b)[q]);
            if (not a.all()) {
                d(a.lowest_unset());
            }
            stdx::for_each([&](auto x) { d(static_cast<u64>(x)); }, a);
            stdx::for_each<stdx::unset_bit>([&](auto x) { d(static_cast<u64>(x)); }, b);
            d(stdx::transform_reduce([](auto x) { return static_cast<u64>(x) * 7; }, [](u64 x, u64 y) { return x * 31 + y; }, u64{3}, a));
            if constexpr (std::is_enum_v<decltype(Size)>) {
                auto const b0 = static_cast<Bits>(p);
                a.flip(b0);
                d(a[b0]);
                d(a.set(b0).count());
                a.reset(Bits::b3);
                d(a.lowest_unset() == Bits::b3);
            }
            if constexpr (N <= 64) {
                d(a.template to<u64>(), e.to_natural());
            }
            d.step();
        }
    }
};
template <typename T> struct bits_w {
    template <typename... Us> constexpr static auto unpack(Digest &d, T x) -> void {
        (..., [&] {
            if constexpr (sizeof(Us) < sizeof(T)) {
                auto const a = stdx::bit_unpack<Us>(x);
                d(a);
                stdx::for_each(a.begin(), a.end(), [&](auto v) { d(v); });
                d([&]<std::size_t... Is>(std::index_sequence<Is...>) {
                    return stdx::bit_pack<T>(a[Is]...);
                }(std::make_index_sequence<sizeof(T) / sizeof(Us)>{}));
            }
        }());
    }
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        constexpr auto W = sizeof(T) * 8;
        for (int i = 0; i < steps; ++i) {
            auto const x = r.value<T>();
            auto const y = r.value<T>();
            d(stdx::byteswap(x), stdx::to_be(x), stdx::to_le(x), stdx::from_be(x), stdx::from_le(x));
            d(stdx::countl_zero(x), stdx::countr_zero(x), stdx::countl_one(x), stdx::countr_one(x), stdx::popcount(x));
            d(stdx::has_single_bit(x), stdx::bit_width(x), stdx::bit_floor(x));
            if (x <= static_cast<T>(T{1} << (W - 1))) {
                d(stdx::bit_ceil(x));
            }
            auto const n = static_cast<int>(r.below(200)) - 100;
            d(stdx::rotl(x, n), stdx::rotr(y, n));
            auto const l = r.below(W), m = l + r.below(W - l);
            d(stdx::bit_mask<T>(m, l), stdx::bit_mask<T>(m));
            d(stdx::bit_cast<std::make_signed_t<T>>(x) < 0, stdx::as_signed(x) < 0);
            d(stdx::bit_destructure<1, 3>(x));
            auto const [a, b, c] = stdx::bit_destructure<2, 5>(x);
            d(a, b, c);
            unpack<std::uint8_t, std::uint16_t, std::uint32_t>(d, y);
            d.step();
        }
    }
};
struct type_bitset_w {
    template <int> struct K {};
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        stdx::type_bitset<K<0>, K<1>, K<2>, K<3>, K<4>> a{}, b{stdx::all_bits};
        for (int i = 0; i < steps; ++i) {
            switch (r.below(9)) {
            case 0:
                a.set<K<0>, K<3>>();
                break;
            case 1:
                a.reset<K<3>, K<4>>();
                break;
            case 2:
                a.flip<K<1>, K<2>>();
                break;
            case 3:
                a.flip();
                break;
            case 4:
                a = a | b;
                break;
            case 5:
                a ^= b;
                break;
            case 6:
                b = ~a;
                break;
            case 7:
                a = a - b;
                break;
            default:
                std::swap(a, b);
                break;
            }
            d(a[stdx::type_identity_v<K<1>>], a.count(), a.all(), a.none(), a == b, a.to_natural());
            a.for_each([&]<typename T, std::size_t I>() { d(I); });
            d.step();
        }
    }
};

// ---- arithmetic ----
template <typename T> struct rollover_w {
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        stdx::rollover_t<T> a{r.value<T>()}, b{r.value<T>()};
        for (int i = 0; i < steps; ++i) {
            switch (r.below(9)) {
            case 0:
                a += b;
                break;
            case 1:
                a -= b;
                break;
            case 2:
                a *= b;
                break;
            case 3:
                if (b.as_underlying() != 0) {
                    a /= b;
                }
                break;
            case 4:
                if (b.as_underlying() != 0) {
                    a %= b;
                }
                break;
            case 5:
                d((a++).as_underlying(), (--b).as_underlying());
                break;
            case 6:
                d((++a).as_underlying(), (b--).as_underlying());
                break;
            case 7:
                a = -a;
                break;
            default:
                b = stdx::rollover_t<T>{r.value<T>()};
                break;
            }
            d(a.as_underlying(), b.as_underlying(), a == b, a != b, cmp_less(a, b), cmp_less(b, a));
            d((a + b).as_underlying(), (a - b).as_underlying(), (a * b).as_underlying());
            d.step();
        }
    }
};
template <typename From> struct saturate_w {
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        for (int i = 0; i < steps; ++i) {
            auto const v = r.value<From>();
            d(stdx::saturate_cast<signed char>(v), stdx::saturate_cast<unsigned char>(v), stdx::saturate_cast<short>(v),
              stdx::saturate_cast<unsigned short>(v), stdx::saturate_cast<int>(v), stdx::saturate_cast<unsigned>(v),
              stdx::saturate_cast<long>(v), stdx::saturate_cast<unsigned long>(v));
            d(stdx::as_unsigned(v), stdx::as_signed(v));
            auto const n = r.below(1000);
            d(stdx::sized8{n}.template in<std::uint32_t>(), stdx::sized32{n}.template in<std::uint8_t>(),
              stdx::sized64{n}.template in<std::uint16_t>(), stdx::is_aligned_with<std::uint32_t>(n));
            d.step();
        }
    }
};

// ---- lists ----
struct Node {
    int id{};
    Node *prev{};
    Node *next{};
};
template <template <typename> typename P> struct list_w {
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        std::array<Node, 6> nodes{};
        std::array<bool, 6> in{};
        stdx::intrusive_list<Node, P> l{};
        auto out = [&](Node *n) {
            in[static_cast<std::size_t>(n->id)] = false;
            d(n->id);
        };
        for (int i = 0; i < 6; ++i) {
            nodes[static_cast<std::size_t>(i)].id = i;
        }
        for (int i = 0; i < steps; ++i) {
            auto const k = r.below(6);
            auto const op = r.below(7);
            if (op < 3 and not in[k]) {
                if (op == 0) {
                    l.push_front(&nodes[k]);
                } else if (op == 1) {
                    l.push_back(&nodes[k]);
                } else {
                    auto it = l.begin();
                    for (auto n = r.below(4); n > 0 and it != l.end(); --n) {
                        ++it;
                    }
                    l.insert(it, &nodes[k]);
                }
                in[k] = true;
            } else if (op == 3 and not l.empty()) {
                out(l.pop_front());
            } else if (op == 4 and not l.empty()) {
                out(l.pop_back());
            } else if (op == 5 and in[k]) {
                l.remove(&nodes[k]);
                in[k] = false;
            } else if (op == 6 and r.chance(10)) {
                l.clear();
                in = {};
            }
            d(l.empty());
            for (auto const &n : l) {
                d(n.id);
            }
            if (not l.empty()) {
                d(l.front().id, l.back().id);
                for (auto *n = &l.back(); n != nullptr and n != &l.front(); n = n->prev) {
                    d(n->id);
                }
            }
            d.step();
        }
    }
};
struct FNode {
    int id{};
    FNode *next{};
};
template <template <typename> typename P> struct forward_list_w {
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        std::array<FNode, 6> nodes{};
        std::array<bool, 6> in{};
        stdx::intrusive_forward_list<FNode, P> l{};
        for (int i = 0; i < 6; ++i) {
            nodes[static_cast<std::size_t>(i)].id = i;
        }
        for (int i = 0; i < steps; ++i) {
            auto const k = r.below(6);
            auto const op = r.below(5);
            if (op < 3 and not in[k]) {
                op == 0 ? l.push_front(&nodes[k]) : l.push_back(&nodes[k]);
                in[k] = true;
            } else if (op == 3 and not l.empty()) {
                auto *n = l.pop_front();
                in[static_cast<std::size_t>(n->id)] = false;
                d(n->id);
            } else if (op == 4 and r.chance(20)) {
                l.clear();
                in = {};
            }
            d(l.empty());
            for (auto const &n : std::as_const(l)) {
                d(n.id);
            }
            if (not l.empty()) {
                d(l.front().id, l.back().id);
            }
            d.step();
        }
    }
};

// ---- optional, latched ----
enum struct En : std::uint8_t { a, b, c, none };
} // namespace c26
template <> struct stdx::tombstone_traits<c26::En> {
    constexpr auto operator()() const { return c26::En::none; }
};
template <> struct stdx::tombstone_traits<c26::Pt> {
    constexpr auto operator()() const { return c26::Pt{-1, -1}; }
};
template <> struct stdx::tombstone_traits<c26::Own> {
    constexpr auto operator()() const { return c26::Own{}; }
};
namespace c26 {
template <typename T> struct optional_w {
    using O = stdx::optional<T>;
    constexpr static auto get(Digest &d, O const &o) -> void {
        d(o.has_value(), static_cast<bool>(o));
        if (o) {
            d(*o, o.value());
        }
    }
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        O o{}, p{make<T>(r, 3)};
        for (int i = 0; i < steps; ++i) {
            switch (r.below(9)) {
            case 0:
                o = make<T>(r, 3);
                break;
            case 1:
                d(o.emplace(make<T>(r, 3)));
                break;
            case 2:
                o.reset();
                break;
            case 3:
                o = p;
                break;
            case 4:
                std::swap(o, p);
                break;
            case 5:
                o = std::nullopt;
                break;
            case 6:
                p = o.or_else([&] { return O{make<T>(r, 3)}; });
                break;
            case 7:
                get(d, p.and_then([](auto const &v) { return O{v}; }));
                get(d, p.transform([](auto const &v) { return v; }));
                break;
            default:
                d(o.value_or(make<T>(r, 3)));
                break;
            }
            get(d, o);
            get(d, p);
            d(o == p, o != p);
            if constexpr (requires { T{} < T{}; }) {
                d(o < p, o <= p, o > p, o >= p);
            }
            d.step();
        }
    }
};
struct latched_w {
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        for (int i = 0; i < steps; ++i) {
            int calls = 0;
            auto const v = make<Own>(r);
            auto const l = stdx::latched{[&] {
                ++calls;
                return v;
            }};
            d(l.has_value());
            if (r.chance(70)) {
                d(*l);
                d(l->get(), l.value(), static_cast<bool>(l));
            }
            d(calls);
            d.step();
        }
    }
};

// ---- tuples ----
struct tuple_w {
    template <typename T> using is_int = std::is_same<std::remove_cvref_t<T>, int>;
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        for (int i = 0; i < steps; ++i) {
            auto const n = static_cast<int>(r.below(3));
            auto t = stdx::tuple{n, make<Pt>(r, 3), static_cast<char>(r.below(2)), make<Own>(r, 3)};
            auto u = stdx::tuple{static_cast<int>(r.below(3)), make<Pt>(r, 3), static_cast<char>(r.below(2)), make<Own>(r, 3)};
            auto show = [&](auto const &...xs) { d(xs...); };
            auto all = [&](auto const &x) { x.apply(show); };
            all(t);
            d(t == u, t != u);
            auto const t3 = stdx::tuple{n, get<1>(t), get<2>(t)};
            auto const u3 = stdx::tuple{get<0>(u), get<1>(u), get<2>(u)};
            d(t3 < u3, t3 <= u3, t3 > u3, t3 >= u3);
            d(get<int>(t), get<Pt>(u), t[stdx::index<2>], get<3>(u));
            get<0>(t) += 5;
            get<Own>(u) = Own{n};
            auto const cat = stdx::tuple_cat(t, u3, std::move(u));
            all(cat);
            all(stdx::tuple_cons(n, t3));
            all(stdx::tuple_snoc(t3, make<Own>(r)));
            all(stdx::filter<is_int>(cat));
            all(stdx::transform([](auto const &x) { return x; }, cat));
            all(stdx::transform([](auto const &x, auto const &y) { return stdx::tuple_element_t<0, stdx::tuple<int>>(x == y); }, t3, u3));
            stdx::for_each([&](auto const &x) { d(x); }, t);
            stdx::enumerate([&]<std::size_t I>(auto const &x) { d(I, x); }, cat);
            auto const ints = stdx::tuple{n, n + 1, static_cast<int>(r.below(5)), 7};
            d(ints.fold_left(1, [](int a, int b) { return a * 3 + b; }), ints.fold_right(1, [](int a, int b) { return a * 3 + b; }));
            d(ints.join([](int a, int b) { return a * 5 - b; }), ints.join(4, [](int a, int b) { return a * 5 - b; }));
            auto const odd = [](int a) { return a % 2 != 0; };
            d(stdx::any_of(odd, ints), stdx::all_of(odd, ints), stdx::none_of(odd, ints));
            all(stdx::sort(cat));
            all(stdx::to_sorted_set(t3));
            stdx::chunk(stdx::sort(cat)).apply([&](auto const &...cs) { (all(cs), ...); });
            stdx::gather(cat).apply([&](auto const &...cs) { (all(cs), ...); });
            stdx::cartesian_product_copy(t3, ints).apply([&](auto const &...cs) { (all(cs), ...); });
            all(ints.tail());
            auto const [a, b, c] = t3;
            d(a, b, c);
            d(stdx::apply([](auto const &...xs) { return (0 + ... + static_cast<int>(sizeof(xs))); }, t3, ints));
            d(stdx::make_tuple() == stdx::tuple{});
            // unlike element types, with values only one of them can hold
            auto const wide = stdx::tuple{static_cast<long>(r.below(3)) * 256 - 256 + n, static_cast<int>(r.below(600)) - 300};
            auto const narrow = stdx::tuple{static_cast<unsigned char>(n), static_cast<signed char>(get<1>(wide))};
            d(wide == narrow, narrow == wide, wide != narrow, wide < narrow, narrow < wide, wide >= narrow);
            d.step();
        }
    }
};

template <typename K, typename V> struct Entry {
    using key_t = K;
    V value;
    friend constexpr auto operator==(Entry const &, Entry const &) -> bool = default;
    constexpr auto digest(Digest &d) const -> void { d(value); }
};
template <typename T> using key_of = typename T::key_t;
struct indexed_tuple_w {
    template <int> struct X {};
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        for (int i = 0; i < steps; ++i) {
            auto t = stdx::make_indexed_tuple<key_of>(Entry<X<0>, int>{i}, Entry<X<1>, Own>{make<Own>(r)});
            auto u = stdx::make_indexed_tuple<key_of>(Entry<X<2>, Pt>{make<Pt>(r)}, Entry<X<3>, char>{'a'});
            auto const show = [&](auto const &...xs) { d(xs...); };
            get<X<1>>(t).value = make<Own>(r);
            get<1>(u).value = static_cast<char>(r.below(50));
            d(get<X<0>>(t), get<X<1>>(t), get<X<2>>(u), get<X<3>>(u));
            stdx::tuple_cat(t, u).apply(show);
            auto const copy = t;
            d(copy == t, t.size());
            stdx::for_each([&](auto &x) { d(x); }, t);
            stdx::apply_indices<key_of>(stdx::tuple{Entry<X<5>, int>{i}, Entry<X<4>, Pt>{make<Pt>(r)}}).apply(show);
            auto const moved = std::move(t);
            moved.apply(show);
            t.apply(show);
            d.step();
        }
    }
};

// ---- ranges of elements ----
struct algorithm_w {
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        std::array<int, 7> a{}, b{}, o{};
        for (int i = 0; i < steps; ++i) {
            for (auto &x : a) {
                x = static_cast<int>(r.below(50));
            }
            for (auto &x : b) {
                x = static_cast<int>(r.below(50));
            }
            auto const n = static_cast<std::ptrdiff_t>(r.below(8));
            auto const log = [&](int x) { d(x); };
            stdx::for_each(a.begin(), a.begin() + n, log);
            stdx::for_each(a.begin(), a.begin() + n, [&](int x, int y) { d(x * y); }, b.begin());
            stdx::for_each_n(b.begin(), n, log);
            stdx::transform(a.begin(), a.begin() + n, o.begin(), [](int x, int y) { return x - y; }, b.begin());
            d(o);
            stdx::transform_n(a.begin(), n, o.begin(), [](int x) { return x * 2; });
            d(o);
            stdx::for_each_butlast(a.begin(), a.begin() + n, log);
            stdx::for_each_butlastn(a.begin(), a.begin() + n, r.below(9), log);
            stdx::initial_medial_final(a.begin(), a.begin() + n, [&](int x) { d(1, x); }, [&](int x) { d(2, x); }, [&](int x) { d(3, x); });
            d(stdx::transform_reduce(a.begin(), a.begin() + n, 3, [](int x, int y) { return x * 3 + y; }, [](int x) { return x + 1; }));
            d(stdx::transform_reduce_n(a.begin(), n, 3, [](int x, int y) { return x * 3 + y; }, [](int x, int y) { return x * y; }, b.begin()));
            d.step();
        }
    }
};
struct span_w {
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        std::array<int, 9> a{};
        for (int i = 0; i < steps; ++i) {
            stdx::span<int, 9> s{a};
            stdx::span<int> v{s};
            stdx::span<int const> w{v};
            auto const k = r.below(9);
            s[k] = static_cast<int>(r.below(100));
            v.back() += 1;
            d(s, v, w, s.front(), w.size(), w.size_bytes(), s.empty(), get<3>(s));
            d(s.first<4>(), s.last<3>(), s.subspan<2>(), s.subspan<2, 5>());
            auto const p = r.below(10), n = r.below(10 - p);
            d(v.first(p), v.last(p), v.subspan(p), v.subspan(p, n), w.subspan(p, n).empty());
            for (auto it = v.rbegin(); it != v.rend(); ++it) {
                d(*it);
            }
            for (auto it = w.cbegin(); it != w.cend(); ++it) {
                d(*it);
            }
            d.step();
        }
    }
};
struct misc_w {
    constexpr static auto run(Digest &d, Rng &r, int steps) -> void {
        for (int i = 0; i < steps; ++i) {
            auto const x = static_cast<int>(r.below(100)), y = static_cast<int>(r.below(100));
            auto const f = [](int a, int b, Own const &o) { return a * 10000 + b * 100 + o.get(); };
            d(stdx::bind_front(f, x)(y, Own{3}), stdx::bind_front(f, x, y)(Own{4}), stdx::bind_back(f, Own{5})(x, y), stdx::bind_back(f, y, Own{6})(x));
            constexpr auto g = [](int a, int b) { return a * 1000 + b; };
            d(stdx::bind_front<g>(x)(y), stdx::bind_back<g>(x)(y));
            int calls = 0;
            auto const w = stdx::with_result_of{[&] {
                ++calls;
                return x;
            }};
            int const got = w;
            d(got, calls);
            d(stdx::overload{[](int) { return 1; }, [](char) { return 2; }, [](auto) { return 3; }}('c'));
            d(stdx::unary_plus{}(static_cast<short>(x)), stdx::dereference{}(&y), stdx::safe_identity(x));
            auto const res = stdx::call_by_need(
                stdx::tuple{[](int a) { return a + 1; }, [](int a, Own const &o) { return a + o.get(); }}, stdx::tuple{x, Own{y}, y});
            res.apply([&](auto const &...rs) { d(rs...); });
            stdx::counting_iterator<int> it{x};
            it += y;
            d((it + 3) - it, (it - 2) - it, it == it + 1, (it + 1) > it);
            auto const old = it++;
            d(old == it, it - old);
            --it;
            d(old == it);
            constexpr std::array names{stdx::ct_string{"abcd"}, stdx::ct_string{"abce"}, stdx::ct_string{"ab d"}};
            auto const &m = names[r.below(3)], &n = names[r.below(3)];
            d(m == n, std::string_view{m + n}, m.size(), m.empty(), m);
            for (auto c = m.rbegin(); c != m.rend(); ++c) {
                d(*c);
            }
            auto const arr = stdx::make_array<int>(x, y, 3);
            d(arr, stdx::tuple_size_v<std::remove_const_t<decltype(arr)>>);
            d.step();
        }
    }
};

template <typename W> constexpr auto run(u64 seed, int steps) -> Digest {
    Digest d{};
    Rng r{seed};
    W::run(d, r, steps);
    return d;
}
inline auto compare(vf::Ctx &c, char const *name, Digest const &ce, Digest const &rt) -> void {
    c.eq(rt.n, ce.n, "steps");
    for (std::size_t i = 0; i < ce.n; ++i) {
        if (ce.steps[i] != rt.steps[i]) {
            c.fail("evaluations-differ", "constant and run-time evaluation differ from step " + std::to_string(i));
            return;
        }
        c.check(true, "evaluations-differ", "");
    }
    c.event((std::string("=") + name + ":" + std::to_string(rt.acc)).c_str());
}
} // namespace c26

// The same history twice: by the constant evaluator and by the program.
#define VF_TWICE(NAME, SEED, STEPS, ...)                                                                               \
    VF_EXHAUSTIVE(NAME, 1) {                                                                                           \
        c.op(#__VA_ARGS__, std::uint64_t{SEED}, STEPS);                                                                \
        constexpr auto ce = c26::run<__VA_ARGS__>(SEED, STEPS);                                                        \
        std::uint64_t volatile seed = SEED;                                                                            \
        int volatile steps = STEPS;                                                                                    \
        c26::compare(c, #NAME, ce, c26::run<__VA_ARGS__>(seed, steps));                                                \
    }
