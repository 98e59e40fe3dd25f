#include <stdx/cx_vector.hpp>
#include <stdx/span.hpp>

#include "vf.hpp"

#include <algorithm>
#include <array>
#include <cstring>
#include <memory>
#include <numeric>
#include <span>
#include <string>
#include <vector>

#include <sys/mman.h>

using vf::u64;

namespace {
struct Odd {
    unsigned char a[7];
    friend bool operator==(Odd const &, Odd const &) = default;
};
struct Big {
    u64 a, b, c;
    friend bool operator==(Big const &, Big const &) = default;
};
template <typename T> T make(u64 n) {
    if constexpr (std::is_same_v<T, Odd>) {
        Odd o{};
        std::memcpy(o.a, &n, 7);
        return o;
    } else if constexpr (std::is_same_v<T, Big>) {
        return Big{n, ~n, n * 3};
    } else if constexpr (std::is_same_v<T, std::string>) {
        return "element number " + std::to_string(n);
    } else {
        return static_cast<T>(n);
    }
}

[[gnu::noinline]] void verify(vf::Ctx &c, bool ok, char const *how, char const *what) {
    ++vf::g.checks;
    if (not ok) {
        c.fail(std::string(how) + "-" + what, "differs from std::span");
    }
}

// Same view as the model: every public accessor.
template <typename S, typename T, std::size_t E> void same(vf::Ctx &c, S const &s, std::span<T, E> m, char const *how) {
    auto ck = [&](bool ok, char const *what) { verify(c, ok, how, what); };
    static_assert(std::is_same_v<typename S::element_type, T>);
    static_assert(std::is_same_v<typename S::value_type, std::remove_cv_t<T>>);
    ck(s.data() == m.data(), "data");
    ck(static_cast<std::size_t>(s.size()) == m.size(), "size");
    ck(static_cast<std::size_t>(s.size_bytes()) == m.size_bytes(), "size_bytes");
    ck(static_cast<bool>(s.empty()) == m.empty(), "empty");
    ck(std::to_address(s.begin()) == m.data() and std::to_address(s.cbegin()) == m.data(), "begin");
    ck(s.end() - s.begin() == static_cast<std::ptrdiff_t>(m.size()), "end");
    ck(s.cend() - s.cbegin() == static_cast<std::ptrdiff_t>(m.size()), "cend");
    static_assert(std::is_same_v<decltype(*s.begin()), T &>);
    static_assert(std::is_same_v<decltype(*s.cbegin()), T const &>);
    std::size_t i = 0;
    for (auto &x : s) {
        ck(&x == m.data() + i, "iterate");
        ++i;
    }
    ck(i == m.size(), "iterate-count");
    i = 0;
    for (auto it = s.rbegin(); it != s.rend(); ++it, ++i) {
        ck(&*it == m.data() + (m.size() - 1 - i), "reverse");
    }
    ck(i == m.size(), "reverse-count");
    i = 0;
    for (auto it = s.crbegin(); it != s.crend(); ++it, ++i) {
        ck(&*it == m.data() + (m.size() - 1 - i), "creverse");
        static_assert(std::is_same_v<decltype(*it), T const &>);
    }
    ck(i == m.size(), "creverse-count");
    if (not m.empty()) {
        ck(&s.front() == &m.front(), "front");
        ck(&s.back() == &m.back(), "back");
        auto k = c.below(m.size());
        ck(&s[k] == &m[k], "index");
        if constexpr (S::extent != 0) {
            ck(&get<0>(s) == &m.front(), "get");
        }
    }
}

template <typename T, std::size_t E> void bytes(vf::Ctx &c, stdx::span<T, E> s, std::size_t n) {
    auto const m = std::as_bytes(std::span<T>{s.data(), n});
    auto b = stdx::as_bytes(s);
    same(c, b, m, "as_bytes");
    if constexpr (E != stdx::dynamic_extent) {
        static_assert(decltype(b)::extent == E * sizeof(T));
    } else {
        static_assert(decltype(b)::extent == stdx::dynamic_extent);
    }
    if constexpr (not std::is_const_v<T>) {
        auto w = stdx::as_writable_bytes(s);
        same(c, w, std::as_writable_bytes(std::span<T>{s.data(), n}), "as_writable_bytes");
        static_assert(decltype(w)::extent == decltype(b)::extent);
    }
}

// A chain of run-time first/last/subspan steps next to std::span.
template <typename T> void chain(vf::Ctx &c, stdx::span<T> s, std::span<T> m) {
    auto const steps = c.below(8);
    for (u64 i = 0; i < steps; ++i) {
        auto const n = m.size();
        auto const k = c.below(n + 1);
        switch (c.below(5)) {
        case 0:
            c.op("first", k);
            s = s.first(k);
            m = m.first(k);
            break;
        case 1:
            c.op("last", k);
            s = s.last(k);
            m = m.last(k);
            break;
        case 2:
            c.op("subspan", k);
            s = s.subspan(k);
            m = m.subspan(k);
            break;
        case 3: {
            auto const cnt = c.below(n - k + 1);
            c.op("subspan", k, cnt);
            s = s.subspan(k, cnt);
            m = m.subspan(k, cnt);
            break;
        }
        default: {
            c.op("copy");
            auto t = s;
            s = {};
            c.check(s.data() == nullptr and s.size() == 0, "default", "not empty");
            s = t;
        }
        }
        same(c, s, m, "chain");
    }
    bytes(c, s, m.size());
    c.state(vf::mix(m.size() ^ (steps << 20)));
}

// Static pieces of whatever the span is.
template <std::size_t Off, std::size_t Cnt, typename S, typename T>
void piece(vf::Ctx &c, S const &s, std::span<T> m) {
    if (Off + Cnt > m.size()) {
        return;
    }
    constexpr bool fits = S::extent == stdx::dynamic_extent or Off + Cnt <= S::extent;
    if constexpr (fits) {
        auto p = s.template subspan<Off, Cnt>();
        static_assert(decltype(p)::extent == Cnt);
        same(c, p, m.subspan(Off, Cnt), "subspan<o,n>");
        bytes(c, p, Cnt);
    }
}
template <std::size_t N, typename S, typename T> void pieces(vf::Ctx &c, S const &s, std::span<T> m) {
    if (N > m.size()) {
        return;
    }
    if constexpr (S::extent == stdx::dynamic_extent or N <= S::extent) {
        auto f = s.template first<N>();
        auto l = s.template last<N>();
        static_assert(decltype(f)::extent == N and decltype(l)::extent == N);
        same(c, f, m.first(N), "first<n>");
        same(c, l, m.last(N), "last<n>");
        auto r = s.template subspan<N>();
        same(c, r, m.subspan(N), "subspan<o>");
        if constexpr (S::extent != stdx::dynamic_extent) {
            static_assert(decltype(r)::extent == S::extent - N);
        } else {
            static_assert(decltype(r)::extent == stdx::dynamic_extent);
        }
        piece<N, 0>(c, s, m);
        piece<N, 1>(c, s, m);
        piece<N, 2>(c, s, m);
        piece<N, 3>(c, s, m);
        piece<N, 5>(c, s, m);
        if constexpr (N > 0) {
            c.check(&get<N - 1>(s) == &m[N - 1], "get", "not the element");
        }
    }
}
template <typename S, typename T> void all_pieces(vf::Ctx &c, S const &s, std::span<T> m) {
    pieces<0>(c, s, m);
    pieces<1>(c, s, m);
    pieces<2>(c, s, m);
    pieces<3>(c, s, m);
    pieces<4>(c, s, m);
    pieces<5>(c, s, m);
    pieces<8>(c, s, m);
    bytes(c, s, m.size());
}

template <typename T> std::unique_ptr<T[]> buffer(std::size_t n, vf::Ctx &c) {
    auto p = std::make_unique<T[]>(n);
    for (std::size_t i = 0; i < n; ++i) {
        p[i] = make<T>(c.next());
    }
    return p;
}

template <typename S, typename T> void writes(vf::Ctx &c, S const &s, T *base, std::size_t total, std::size_t off) {
    if (s.size() == 0) {
        return;
    }
    std::vector<T> before(base, base + total);
    auto k = c.below(s.size());
    auto v = make<T>(c.next());
    c.op("write", k);
    switch (c.below(4)) {
    case 0: s[k] = v; break;
    case 1: *(s.begin() + static_cast<std::ptrdiff_t>(k)) = v; break;
    case 2: *(s.rbegin() + static_cast<std::ptrdiff_t>(s.size() - 1 - k)) = v; break;
    default:
        k = 0;
        s.front() = v;
    }
    before[off + k] = v;
    for (std::size_t i = 0; i < total; ++i) {
        c.check(base[i] == before[i], "write", "element not as written, or another one changed");
    }
    if constexpr (std::is_trivially_copyable_v<T>) {
        auto w = stdx::as_writable_bytes(s);
        auto b = c.below(w.size());
        auto x = static_cast<std::byte>(c.below(256));
        w[b] = x;
        std::vector<std::byte> raw(total * sizeof(T));
        std::memcpy(raw.data(), before.data(), raw.size());
        raw[off * sizeof(T) + b] = x;
        c.check(std::memcmp(raw.data(), base, raw.size()) == 0, "write-bytes", "memory not as written");
    }
}

template <typename T> void dynamic(vf::Ctx &c) {
    auto const n = c.chance(2)    ? (c.chance(10) ? 65526 : 246) + c.below(20)
                   : c.chance(30) ? c.below(4)
                                  : c.below(20);
    auto p = buffer<T>(n, c);
    std::span<T> m{p.get(), n};
    auto const how = c.below(12);
    c.op("from", how, n);
    switch (how) {
    case 0: {
        stdx::span<T> s{p.get(), n};
        same(c, s, m, "pointer-size");
        writes(c, s, p.get(), n, 0);
        chain(c, s, m);
        all_pieces(c, s, m);
        break;
    }
    case 1: {
        stdx::span s{p.get(), p.get() + n};
        static_assert(std::is_same_v<decltype(s), stdx::span<T>>);
        same(c, s, m, "pointers");
        chain(c, s, m);
        break;
    }
    case 2: {
        std::vector<T> v(p.get(), p.get() + n);
        stdx::span s{v};
        static_assert(std::is_same_v<decltype(s), stdx::span<T>>);
        std::span<T> mv{v};
        same(c, s, mv, "vector");
        writes(c, s, v.data(), n, 0);
        chain(c, s, mv);
        break;
    }
    case 3: {
        std::vector<T> const v(p.get(), p.get() + n);
        stdx::span s{v};
        static_assert(std::is_same_v<decltype(s), stdx::span<T const>>);
        same(c, s, std::span<T const>{v}, "const-vector");
        chain(c, s, std::span<T const>{v});
        all_pieces(c, s, std::span<T const>{v});
        break;
    }
    case 4: {
        std::vector<T> v(p.get(), p.get() + n);
        auto const o = c.below(n + 1);
        auto const k = c.below(n - o + 1);
        auto f = v.begin() + static_cast<std::ptrdiff_t>(o);
        auto const mm = std::span<T>{v}.subspan(o, k);
        if (c.coin()) {
            stdx::span s{f, f + static_cast<std::ptrdiff_t>(k)};
            same(c, s, mm, "iterators");
            writes(c, s, v.data(), n, o);
        } else if (c.coin()) {
            stdx::span s{f, k};
            same(c, s, mm, "iterator-size");
            chain(c, s, mm);
        } else {
            stdx::span<T> s{f, static_cast<int>(k)};
            same(c, s, mm, "iterator-int");
        }
        break;
    }
    case 5: { // const view of mutable data, copies, assignment
        stdx::span<T> s{p.get(), n};
        stdx::span<T const> k = s;
        same(c, k, std::span<T const>{m}, "to-const");
        stdx::span<T const> k2{p.get(), n};
        same(c, k2, std::span<T const>{m}, "const-pointer");
        auto t = s;
        same(c, t, m, "copied");
        auto u = std::move(t);
        same(c, u, m, "moved");
        break;
    }
    case 6: { // static view of the first elements
        if (n >= 3) {
            stdx::span<T> s{p.get(), n};
            stdx::span<T, 3> t{s.template first<3>()};
            same(c, t, m.first(3), "static-from-static");
            stdx::span<T, 3> u{s.first(3)};
            same(c, u, m.first(3), "static-from-dynamic");
            stdx::span<T, 2> v{p.get() + 1, 2};
            same(c, v, m.subspan(1, 2), "static-pointer-size");
            stdx::span<T const, 3> w{t};
            same(c, w, std::span<T const>{m}.first(3), "static-to-const");
            stdx::span<T> d = t;
            same(c, d, m.first(3), "dynamic-from-static");
            writes(c, v, p.get(), n, 1);
            all_pieces(c, t, m.first(3));
        } else {
            stdx::span<T> s{};
            same(c, s, std::span<T>{}, "default");
        }
        break;
    }
    case 7: {
        stdx::cx_vector<T, 20> v{};
        auto const held = std::min<std::size_t>(n, 20);
        for (std::size_t i = 0; i < held; ++i) {
            v.push_back(p[i]);
        }
        stdx::span s{v};
        same(c, s, std::span<T>{std::to_address(v.begin()), held}, "cx_vector");
        writes(c, s, std::to_address(v.begin()), held, 0);
        auto const &cv = v;
        stdx::span s2{cv};
        same(c, s2, std::span<T const>{std::to_address(v.begin()), held}, "const-cx_vector");
        break;
    }
    case 8: { // a std::span is a range
        stdx::span s{m};
        same(c, s, m, "std-span");
        chain(c, s, m);
        break;
    }
    case 9: {
        stdx::span<T> const s{p.get(), n};
        stdx::span s2{s};
        same(c, s2, m, "span-of-span");
        same(c, stdx::span<T>{stdx::span<T>{s}}, m, "span-of-rvalue");
        break;
    }
    default: {
        stdx::span<T> s{p.get(), n};
        chain(c, s, m);
        auto x = s.subspan(0, 0);
        c.eq(static_cast<std::size_t>(x.size()), 0u, "empty-subspan");
        if constexpr (requires(T t) { t + t; } and std::is_integral_v<T>) {
            c.eq(std::accumulate(s.begin(), s.end(), u64{}), std::accumulate(m.begin(), m.end(), u64{}), "accumulate");
        }
    }
    }
}
#if PART != 2
// Lengths beyond 2^32: address space only, no element is touched.
VF_EXHAUSTIVE(huge, 24) {
    constexpr auto space = std::size_t{5} << 32;
    auto *const mem = ::mmap(nullptr, space, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (mem == MAP_FAILED) {
        c.op("no address space");
        return;
    }
    auto view = [&]<typename T>(T) {
        auto *const p = static_cast<T *>(mem);
        auto const n = space / sizeof(T) - c.case_no * 0x0fff'ffff / sizeof(T);
        c.op("elements", n, sizeof(T));
        stdx::span<T> const s{p, n};
        std::span<T> const m{p, n};
        auto like = [&](auto const &x, auto const &y, char const *key) {
            c.check(static_cast<void const *>(x.data()) == static_cast<void const *>(y.data()), key, "data");
            c.eq(static_cast<std::size_t>(x.size()), y.size(), key);
            c.eq(static_cast<std::size_t>(x.size_bytes()), y.size_bytes(), key);
            c.eq(static_cast<std::size_t>(x.end() - x.begin()), y.size(), key);
            c.eq(static_cast<std::size_t>(x.rend() - x.rbegin()), y.size(), key);
        };
        auto const k = n / 2 + 5;
        like(s, m, "huge");
        like(stdx::span<T>{p, p + n}, m, "huge-iterators");
        like(stdx::span<T const>{s}, m, "huge-const");
        like(s.first(k), m.first(k), "huge-first");
        like(s.last(k), m.last(k), "huge-last");
        like(s.subspan(k), m.subspan(k), "huge-subspan");
        like(s.subspan(k, n - k - 3), m.subspan(k, n - k - 3), "huge-subspan");
        like(stdx::as_bytes(s), std::as_bytes(m), "huge-bytes");
        like(stdx::as_writable_bytes(s), std::as_writable_bytes(m), "huge-bytes");
        c.check(&s[k] == &m[k] and &s.back() == &m.back() and &s.front() == &m.front(), "huge-element",
                "another element");
    };
    view(char{});
    view(int{});
    view(Big{});
    ::munmap(mem, space);
}
VF_SUITE(dyn_u8, 3) { dynamic<unsigned char>(c); }
VF_SUITE(dyn_i32, 3) { dynamic<int>(c); }
VF_SUITE(dyn_odd, 3) { dynamic<Odd>(c); }
VF_SUITE(dyn_big, 2) { dynamic<Big>(c); }
VF_SUITE(dyn_str, 2) { dynamic<std::string>(c); }

#endif

#if PART != 1
template <typename T, std::size_t N> struct Holder {
    std::array<T, N> a;
    T b[N == 0 ? 1 : N];
};
template <typename T, std::size_t N> void fixed(vf::Ctx &c) {
    auto h = std::make_unique<Holder<T, N>>();
    for (std::size_t i = 0; i < N; ++i) {
        h->a[i] = make<T>(c.next());
        h->b[i] = make<T>(c.next());
    }
    std::span<T> ma{h->a};
    auto const &ca = h->a;
    auto const how = c.below(7);
    c.op("array", how, N);
    c.state(vf::mix(how ^ (N << 8)));
    switch (how) {
    case 0: {
        stdx::span s{h->a};
        static_assert(std::is_same_v<decltype(s), stdx::span<T, N>>);
        static_assert(s.size() == N and s.size_bytes() == N * sizeof(T) and s.empty() == (N == 0));
        same(c, s, ma, "array");
        writes(c, s, h->a.data(), N, 0);
        all_pieces(c, s, ma);
        stdx::span<T> d{s};
        same(c, d, ma, "array-dynamic");
        chain(c, d, ma);
        break;
    }
    case 1: {
        stdx::span s{ca};
        static_assert(std::is_same_v<decltype(s), stdx::span<T const, N>>);
        same(c, s, std::span<T const>{ca}, "const-array");
        all_pieces(c, s, std::span<T const>{ca});
        break;
    }
    case 2:
        if constexpr (N > 0) {
            stdx::span s{h->b};
            static_assert(std::is_same_v<decltype(s), stdx::span<T, N>>);
            std::span<T> mb{h->b, N};
            same(c, s, mb, "c-array");
            writes(c, s, h->b, N, 0);
            all_pieces(c, s, mb);
            auto const &cb = h->b;
            stdx::span k{cb};
            static_assert(std::is_same_v<decltype(k), stdx::span<T const, N>>);
            same(c, k, std::span<T const>{mb}, "const-c-array");
            stdx::span<T const> kd = h->b;
            same(c, kd, std::span<T const>{mb}, "c-array-to-const");
        }
        break;
    case 3: {
        stdx::span<T> s{h->a};
        same(c, s, ma, "array-to-dynamic");
        stdx::span<T const> k{h->a};
        same(c, k, std::span<T const>{ma}, "array-to-const");
        chain(c, s, ma);
        break;
    }
    case 4: { // run-time pieces of a static span
        stdx::span<T, N> s{h->a};
        auto k = c.below(N + 1);
        auto n = c.below(N - k + 1);
        c.op("pieces", k, n);
        same(c, s.first(k), ma.first(k), "static-first");
        same(c, s.last(k), ma.last(k), "static-last");
        same(c, s.subspan(k), ma.subspan(k), "static-subspan");
        same(c, s.subspan(k, n), ma.subspan(k, n), "static-subspan");
        break;
    }
    case 5: { // a shorter static span over an array views its first elements
        if constexpr (N >= 2) {
            stdx::span<T, N - 1> s{h->a};
            same(c, s, ma.first(N - 1), "shorter");
            stdx::span<T, 1> o{h->b};
            same(c, o, std::span<T>{h->b, 1}, "shorter-c-array");
            stdx::span<T const, N - 2> z{ca};
            same(c, z, std::span<T const>{ca}.first(N - 2), "shorter-const");
        }
        break;
    }
    default: {
        std::vector<T> v(h->a.begin(), h->a.end());
        stdx::span<T, N> s{v};
        same(c, s, std::span<T>{v}, "static-from-range");
        stdx::span<T, N> t{v.begin(), v.end()};
        same(c, t, std::span<T>{v}, "static-from-iterators");
        stdx::span<T, N> u{s};
        same(c, u, std::span<T>{v}, "static-copy");
        auto w = s;
        same(c, w, std::span<T>{v}, "static-copy");
        w = stdx::span<T, N>{h->a};
        same(c, w, ma, "static-assign");
        writes(c, s, v.data(), N, 0);
    }
    }
}
#define FIXED(T, N, NAME)                                                      \
    VF_SUITE(fix_##NAME##_##N, 1) { fixed<T, N>(c); }
FIXED(int, 0, i)
FIXED(int, 1, i)
FIXED(int, 2, i)
FIXED(int, 3, i)
FIXED(int, 8, i)
FIXED(Odd, 1, o)
FIXED(Odd, 3, o)
FIXED(Odd, 5, o)
FIXED(unsigned char, 5, c)
FIXED(Big, 4, b)
FIXED(std::string, 3, s)
#endif
} // namespace
