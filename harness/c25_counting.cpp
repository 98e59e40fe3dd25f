#include <stdx/algorithm.hpp>
#include <stdx/array.hpp>
#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/iterator.hpp>
#include <stdx/priority.hpp>
#include <stdx/span.hpp>

#include "elems.hpp"

#include <algorithm>
#include <array>
#include <iterator>
#include <limits>
#include <numeric>
#include <span>
#include <vector>

using vf::u64;
using i128 = __int128;

namespace {
template <typename T> constexpr i128 lo = std::numeric_limits<T>::min();
template <typename T> constexpr i128 hi = std::numeric_limits<T>::max();

template <typename T> void agree(vf::Ctx &c, stdx::counting_iterator<T> it, i128 m, char const *key) {
    auto const &k = it;
    c.check(*it == static_cast<T>(m), key, "value differs");
    c.check(*k == static_cast<T>(m), key, "value through const differs");
}
// a step that keeps the value inside the type and the step inside the difference type
template <typename T> i128 step(vf::Ctx &c, i128 m) {
    using D = typename stdx::counting_iterator<T>::difference_type;
    i128 d = c.chance(70) ? static_cast<i128>(c.range(-6, 6)) : static_cast<i128>(c.value<T>()) - m;
    if (m + d < lo<T> or m + d > hi<T>) {
        d = 0;
    }
    if (std::is_signed_v<D> and (d < lo<D> or d > hi<D>)) {
        d = 0;
    }
    return d;
}
template <typename T> void history(vf::Ctx &c) {
    using It = stdx::counting_iterator<T>;
    using D = typename It::difference_type;
    static_assert(std::is_same_v<typename std::iterator_traits<It>::value_type, T>);
    T const start = c.value<T>();
    It it{start};
    i128 m = start;
    c.op("start", static_cast<u64>(start));
    agree(c, it, m, "start");
    auto const n = 1 + c.below(16);
    for (u64 i = 0; i < n; ++i) {
        auto const d = step<T>(c, m);
        auto const dd = static_cast<D>(d);
        switch (c.below(11)) {
        case 0:
            if (m < hi<T>) {
                c.op("++");
                c.check(&++it == &it, "increment-returns-itself");
                ++m;
            }
            break;
        case 1:
            if (m < hi<T>) {
                c.op("post++");
                auto old = it++;
                agree(c, old, m, "post-increment-result");
                ++m;
            }
            break;
        case 2:
            if (m > lo<T>) {
                c.op("--");
                c.check(&--it == &it, "decrement-returns-itself");
                --m;
            }
            break;
        case 3:
            if (m > lo<T>) {
                c.op("post--");
                auto old = it--;
                agree(c, old, m, "post-decrement-result");
                --m;
            }
            break;
        case 4:
            c.op("+=", static_cast<vf::i64>(d));
            c.check(&(it += dd) == &it, "add-returns-itself");
            m += d;
            break;
        case 5: {
            c.op("-=", static_cast<vf::i64>(d));
            if (std::is_signed_v<D> and dd == std::numeric_limits<D>::min()) {
                break;
            }
            c.check(&(it -= static_cast<D>(-dd)) == &it, "subtract-returns-itself");
            m += d;
            break;
        }
        case 6:
            c.op("advance", static_cast<vf::i64>(d));
            c.check(&it.advance(dd) == &it, "advance-returns-itself");
            m += d;
            break;
        case 7: {
            c.op("+", static_cast<vf::i64>(d));
            agree(c, it + dd, m + d, "plus");
            agree(c, dd + it, m + d, "plus");
            agree(c, it, m, "plus-changed-operand");
            break;
        }
        case 8: {
            c.op("-", static_cast<vf::i64>(d));
            if (std::is_signed_v<D> and dd == std::numeric_limits<D>::min()) {
                break;
            }
            agree(c, it - static_cast<D>(-dd), m + d, "minus");
            break;
        }
        case 9: {
            c.op("next", static_cast<vf::i64>(d));
            agree(c, std::next(it, dd), m + d, "std-next");
            break;
        }
        default: {
            It o{static_cast<T>(m + d)};
            c.op("compare", static_cast<vf::i64>(d));
            if (d != lo<D>) {
                c.check(o - it == dd, "difference");
                c.check(it - o == static_cast<D>(-d), "difference");
                c.check(std::distance(it, o) == dd, "difference");
            }
            c.check((it == o) == (d == 0) and (it != o) == (d != 0), "equal");
            c.check((it < o) == (d > 0) and (it > o) == (d < 0), "order");
            c.check((it <= o) == (d >= 0) and (it >= o) == (d <= 0), "order");
            c.check(((it <=> o) < 0) == (d > 0) and ((it <=> o) == 0) == (d == 0), "three-way");
        }
        }
        agree(c, it, m, "after");
        c.state(vf::mix(static_cast<u64>(m)));
    }
}
// every algorithm sees each value of [a, b) once, in order
template <typename T> void intervals(vf::Ctx &c) {
    using It = stdx::counting_iterator<T>;
    i128 a = c.value<T>();
    auto const want = static_cast<i128>(c.below(c.chance(10) ? 200 : 14));
    i128 b = std::min<i128>(hi<T>, a + want);
    auto const n = static_cast<std::size_t>(b - a);
    It const f{static_cast<T>(a)}, l{static_cast<T>(b)};
    std::vector<T> x;
    for (i128 i = a; i < b; ++i) {
        x.push_back(static_cast<T>(i));
    }
    std::vector<T> seen;
    auto const which = c.below(11);
    c.op("interval", static_cast<vf::i64>(a), n, which);
    switch (which) {
    case 0:
        for (auto i = f; i != l; ++i) {
            seen.push_back(*i);
        }
        break;
    case 1: std::copy(f, l, std::back_inserter(seen)); break;
    case 2: seen.assign(f, l); break;
    case 3: std::for_each(f, l, [&](T t) { seen.push_back(t); }); break;
    case 4: {
        stdx::for_each(f, l, [&](T t, T u) {
            c.check(t == u, "zip", "two counters out of step");
            seen.push_back(t);
        }, f);
        break;
    }
    case 5: {
        seen.resize(n);
        std::transform(f, l, seen.begin(), [](T t) { return t; });
        break;
    }
    case 6: {
        std::copy_if(f, l, std::back_inserter(seen), [](T) { return true; });
        break;
    }
    case 7: {
        std::vector<T> r;
        for (auto i = l; i != f;) {
            r.push_back(*--i);
        }
        seen.assign(r.rbegin(), r.rend());
        break;
    }
    case 8: { // searches
        auto const k = c.below(n + 1);
        T const v = static_cast<T>(a + static_cast<i128>(k));
        c.check(std::find(f, l, v) == It{v}, "find", "not at the value");
        c.check(std::lower_bound(f, l, v) == It{v}, "lower_bound", "not at the value");
        c.check(std::partition_point(f, l, [&](T t) { return t < v; }) == It{v}, "partition_point");
        c.eq(static_cast<u64>(std::count_if(f, l, [&](T t) { return t < v; })), k, "count_if");
        c.check(n == 0 or *std::max_element(f, l) == x.back(), "max_element");
        c.check(std::is_sorted(f, l), "is_sorted");
        seen = x;
        break;
    }
    case 9: {
        c.check(std::equal(f, l, x.begin(), x.end()), "equal-range", "");
        u64 s = std::accumulate(f, l, u64{}, [](u64 p, T t) { return p * 31 + static_cast<u64>(t); });
        u64 w = 0;
        for (auto t : x) {
            w = w * 31 + static_cast<u64>(t);
        }
        c.eq(s, w, "accumulate");
        seen = x;
        break;
    }
    default: {
        stdx::for_each_butlast(f, l, [&](T t) { seen.push_back(t); });
        if (n > 0) {
            x.pop_back();
        }
    }
    }
    c.check(seen == x, "interval-values", "values seen differ from the interval");
}
#define COUNT(T, NAME)                                                         \
    VF_SUITE(hist_##NAME, 2) { history<T>(c); }                                \
    VF_SUITE(ival_##NAME, 2) { intervals<T>(c); }
COUNT(int, i32)
COUNT(std::uint8_t, u8)
COUNT(std::int8_t, i8)
COUNT(char, ch)
COUNT(std::int16_t, i16)
COUNT(std::uint16_t, u16)
COUNT(unsigned, u32)
COUNT(std::int64_t, i64)
COUNT(std::uint64_t, u64)
static_assert(std::is_same_v<decltype(stdx::counting_iterator{'A'}), stdx::counting_iterator<char>>);
static_assert(std::is_same_v<decltype(stdx::counting_iterator{}), stdx::counting_iterator<int>>);

// make_array
struct Calls {
    std::vector<u64> *log;
    u64 salt;
    template <auto I> u64 operator()() const {
        log->push_back(static_cast<u64>(I));
        return salt + static_cast<u64>(I) * 7;
    }
};
struct Strs {
    template <auto I> std::string operator()() { return "a long enough string " + std::to_string(I); }
};
struct Owners {
    template <auto I> std::unique_ptr<int> operator()() { return std::make_unique<int>(static_cast<int>(I)); }
};
template <auto I> struct Sq {
    constexpr static auto value = I * I + 3;
};
template <auto I> struct Txt {
    constexpr static std::string_view value = I % 2 == 0 ? "even" : "odd";
};
template <auto N> void by_function(vf::Ctx &c) {
    std::vector<u64> log;
    auto const salt = c.next();
    c.op("make_array<N>(f)", N);
    Calls f{&log, salt};
    auto a = stdx::make_array<N>(f);
    static_assert(std::is_same_v<decltype(a), std::array<u64, static_cast<std::size_t>(N)>>);
    std::vector<u64> idx(static_cast<std::size_t>(N));
    std::iota(idx.begin(), idx.end(), u64{});
    c.check(log == idx, "make_array-calls", "indices or order");
    for (std::size_t i = 0; i < a.size(); ++i) {
        c.eq(a[i], salt + i * 7, "make_array-value");
    }
    log.clear();
    auto b = stdx::make_array(std::make_integer_sequence<decltype(N), N>{}, f);
    c.check(log == idx and b == a, "make_array-sequence", "differs from the extent form");
    auto s = stdx::make_array<N>(Strs{});
    for (std::size_t i = 0; i < s.size(); ++i) {
        c.eq(s[i], "a long enough string " + std::to_string(i), "make_array-string");
    }
    auto o = stdx::make_array<N>(Owners{});
    for (std::size_t i = 0; i < o.size(); ++i) {
        c.eq(*o[i], static_cast<int>(i), "make_array-owner");
    }
    auto q = stdx::make_array<Sq, N>();
    constexpr auto cq = stdx::make_array<Sq, N>();
    static_assert(std::is_same_v<decltype(q), std::array<std::remove_const_t<decltype(Sq<N>::value)>, static_cast<std::size_t>(N)>>);
    for (std::size_t i = 0; i < q.size(); ++i) {
        c.eq(static_cast<u64>(q[i]), i * i + 3, "make_array-wrapper");
        c.eq(static_cast<u64>(cq[i]), i * i + 3, "make_array-wrapper-constexpr");
    }
    auto t = stdx::make_array<Txt, N>();
    for (std::size_t i = 0; i < t.size(); ++i) {
        c.check(t[i] == (i % 2 == 0 ? "even" : "odd"), "make_array-wrapper-text");
    }
}
template <typename T, T... Is> void by_sequence(vf::Ctx &c) {
    std::vector<u64> log;
    auto const salt = c.next();
    c.op("make_array(seq, f)", sizeof...(Is));
    auto a = stdx::make_array(std::integer_sequence<T, Is...>{}, Calls{&log, salt});
    std::vector<u64> const idx{static_cast<u64>(Is)...};
    c.check(log == idx, "make_array-seq-calls", "indices or order");
    auto q = stdx::make_array<Sq>(std::integer_sequence<T, Is...>{});
    for (std::size_t i = 0; i < a.size(); ++i) {
        c.eq(a[i], salt + idx[i] * 7, "make_array-seq-value");
        c.eq(static_cast<u64>(q[i]), idx[i] * idx[i] + 3, "make_array-seq-wrapper");
    }
}
VF_SUITE(arrays, 4) {
    switch (c.below(9)) {
    case 0: by_function<0>(c); break;
    case 1: by_function<1>(c); break;
    case 2: c.chance(8) ? by_function<270>(c) : by_function<5>(c); break;
    case 3: by_function<std::size_t{17}>(c); break;
    case 4: by_function<static_cast<unsigned char>(9)>(c); break;
    case 5: by_sequence<int, 4, 1, 1, 9>(c); break;
    case 6: by_sequence<std::size_t, 7>(c); break;
    case 7: by_sequence<unsigned, 3, 2, 1, 0>(c); break;
    default: by_sequence<int>(c); break;
    }
}
VF_SUITE(array_args, 4) {
    c.op("make_array(args)");
    auto i = static_cast<int>(c.value<int>());
    auto l = static_cast<long long>(c.value<long long>());
    auto s = static_cast<short>(c.value<short>());
    auto a = stdx::make_array(i, l, s, i);
    static_assert(std::is_same_v<decltype(a), std::array<long long, 4>>);
    c.check(a[0] == i and a[1] == l and a[2] == s and a[3] == i, "make_array-args", "not the arguments");
    auto const ci = i;
    auto b = stdx::make_array(ci, i, static_cast<int>(s));
    static_assert(std::is_same_v<decltype(b), std::array<int, 3>>);
    c.check(b[0] == i and b[1] == i and b[2] == s, "make_array-args", "not the arguments");
    std::string str = "a string that is long enough to be stored elsewhere " + std::to_string(i);
    auto d = stdx::make_array(str, std::string{"temporary, also long enough to allocate"}, "literal");
    static_assert(std::is_same_v<decltype(d), std::array<std::string, 3>>);
    c.check(d[0] == str and d[1] == "temporary, also long enough to allocate" and d[2] == "literal", "make_array-strings");
    c.check(str.size() > 40, "make_array-lvalue-moved", "an lvalue argument was moved from");
    auto e = stdx::make_array<std::string>("x", str, std::string_view{"no"}.substr(0, 1).data());
    c.check(e[0] == "x" and e[1] == str, "make_array-explicit");
    auto u = stdx::make_array(std::make_unique<int>(i), std::make_unique<int>(3));
    c.check(*u[0] == i and *u[1] == 3, "make_array-owners");
    auto v = stdx::make_array<std::shared_ptr<int>>(std::make_unique<int>(i), std::make_shared<int>(4));
    c.check(*v[0] == i and *v[1] == 4, "make_array-explicit-owners");
    // arithmetic arguments of different types, converted to the common type
    auto f = static_cast<float>(c.range(-1000, 1000)) / 4;
    auto g = stdx::make_array(i % 4096, f, 0.5);
    static_assert(std::is_same_v<decltype(g), std::array<double, 3>>);
    c.check(g[0] == i % 4096 and g[1] == static_cast<double>(f) and g[2] == 0.5, "make_array-common");
    auto h = stdx::make_array(i, static_cast<unsigned>(i));
    static_assert(std::is_same_v<decltype(h), std::array<unsigned, 2>>);
    c.check(h[0] == static_cast<unsigned>(i) and h[1] == h[0], "make_array-common");
    static_assert(std::is_same_v<decltype(stdx::make_array()), std::array<int, 0>>);
    static_assert(std::is_same_v<decltype(stdx::make_array<long>()), std::array<long, 0>>);
    c.state(vf::mix(static_cast<u64>(i)));
}

// capacities
// (local objects: a reference parameter is not usable in a constant expression)
#define CAP(t, n, key)                                                         \
    c.eq(stdx::ct_capacity_v<decltype(t)>, n, key);                            \
    c.eq(stdx::ct_capacity_v<decltype(t) const>, n, key);                      \
    c.eq(stdx::ct_capacity(t), n, key);                                        \
    c.eq(stdx::ct_capacity(std::as_const(t)), n, key);                         \
    static_assert(std::is_same_v<decltype(stdx::ct_capacity(t)), std::size_t>)
template <std::size_t N> void caps(vf::Ctx &c) {
    c.op("capacity", N);
    int raw[N == 0 ? 1 : N]{};
    std::array<int, N> a{};
    CAP(a, N, "array");
    if constexpr (N > 0) {
        CAP(raw, N, "c-array");
    }
    std::span<int, N> s{raw, N};
    CAP(s, N, "std-span");
    stdx::span<int const, N> t{raw, N};
    CAP(t, N, "span");
    if constexpr (N > 0) {
        stdx::cx_vector<int, N> v{};
        CAP(v, N, "cx_vector");
        v.push_back(1); // capacity, not size
        CAP(v, N, "cx_vector");
        stdx::cx_map<int, char, N> m{};
        CAP(m, N, "cx_map");
        stdx::cx_set<int, N> st{};
        CAP(st, N, "cx_set");
        stdx::cx_queue<char, N> q{};
        CAP(q, N, "cx_queue");
        stdx::cx_queue<char, N, stdx::safe_overflow_policy> q2{};
        CAP(q2, N, "cx_queue");
        stdx::cx_multimap<int, int, N, 3> mm{};
        CAP(mm, N, "cx_multimap");
    }
}
VF_SUITE(capacity, 1) {
    switch (c.below(5)) {
    case 0: caps<0>(c); break;
    case 1: caps<1>(c); break;
    case 2: caps<7>(c); break;
    case 3: caps<64>(c); break;
    default: caps<1000>(c); break;
    }
}

// priority: overload K is viable when bit K of M is set
template <unsigned M> struct Mask {};
template <std::size_t K> struct Hit {};
template <unsigned M>
    requires((M >> 5 & 1) != 0)
Hit<5> pick(Mask<M>, stdx::priority_t<5>);
template <unsigned M>
    requires((M >> 4 & 1) != 0)
Hit<4> pick(Mask<M>, stdx::priority_t<4>);
template <unsigned M>
    requires((M >> 3 & 1) != 0)
Hit<3> pick(Mask<M>, stdx::priority_t<3>);
template <unsigned M>
    requires((M >> 2 & 1) != 0)
Hit<2> pick(Mask<M>, stdx::priority_t<2>);
template <unsigned M>
    requires((M >> 1 & 1) != 0)
Hit<1> pick(Mask<M>, stdx::priority_t<1>);
template <unsigned M> Hit<0> pick(Mask<M>, stdx::priority_t<0>);
template <std::size_t K> std::size_t level(Hit<K>) { return K; }
template <unsigned M, std::size_t P> void prio(vf::Ctx &c) {
    std::size_t want = 0;
    for (std::size_t k = 1; k <= P; ++k) {
        if ((M >> k & 1) != 0) {
            want = k;
        }
    }
    c.eq(level(decltype(pick(Mask<M>{}, stdx::priority<P>)){}), want, "priority");
}
VF_EXHAUSTIVE(priority, 1) {
    c.op("all masks and levels");
    [&]<unsigned... Ms>(std::integer_sequence<unsigned, Ms...>) {
        ([&] {
            prio<Ms * 2, 0>(c);
            prio<Ms * 2, 1>(c);
            prio<Ms * 2, 2>(c);
            prio<Ms * 2, 3>(c);
            prio<Ms * 2, 4>(c);
            prio<Ms * 2, 5>(c);
        }(),
         ...);
    }(std::make_integer_sequence<unsigned, 32>{});
}
} // namespace
