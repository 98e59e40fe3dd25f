#include <stdx/cx_vector.hpp>

#include "elems.hpp"

#include <algorithm>
#include <array>
#include <iterator>
#include <numeric>
#include <vector>

using vf::El;
using vf::u64;

namespace {
template <typename T> using Model = std::vector<u64>;

template <typename T, std::size_t N>
void observe(vf::Ctx &c, stdx::cx_vector<T, N> &v, Model<T> const &m) {
    auto const &cv = v;
    c.eq(v.size(), m.size(), "size");
    c.eq(std::size(cv), m.size(), "size");
    c.eq(v.empty(), m.empty(), "empty");
    c.eq(cv.full(), m.size() == N, "full");
    c.eq(v.capacity(), N, "capacity");
    c.eq((stdx::ct_capacity_v<stdx::cx_vector<T, N>>), N, "capacity");
    c.eq(static_cast<std::size_t>(std::distance(v.begin(), v.end())), m.size(),
         "iterate");
    auto same = [&](auto first, auto last, auto mf, char const *key) {
        for (auto i = mf; i != m.end() or first != last; ++i, ++first) {
            c.check(i != m.end() and first != last, key, "length differs");
            c.eq(El<T>::id(*first), *i, key);
        }
    };
    same(v.begin(), v.end(), m.begin(), "iterate");
    same(cv.begin(), cv.end(), m.begin(), "iterate-const");
    same(cv.cbegin(), cv.cend(), m.begin(), "iterate-const");
    auto rsame = [&](auto first, auto last, char const *key) {
        for (auto i = m.rbegin(); i != m.rend() or first != last;
             ++i, ++first) {
            c.check(i != m.rend() and first != last, key, "length differs");
            c.eq(El<T>::id(*first), *i, key);
        }
    };
    rsame(v.rbegin(), v.rend(), "iterate-reverse");
    rsame(cv.rbegin(), cv.rend(), "iterate-reverse");
    rsame(cv.crbegin(), cv.crend(), "iterate-reverse");
    for (std::size_t i = 0; i < m.size(); ++i) {
        c.eq(El<T>::id(v[i]), m[i], "index");
        c.eq(El<T>::id(cv[i]), m[i], "index");
        c.check(&v[i] == v.begin() + i and &cv[i] == &v[i], "index",
                "[] and iterators denote different objects");
    }
    if (not m.empty()) {
        c.eq(El<T>::id(v.front()), m.front(), "front");
        c.eq(El<T>::id(cv.front()), m.front(), "front");
        c.eq(El<T>::id(v.back()), m.back(), "back");
        c.eq(El<T>::id(cv.back()), m.back(), "back");
        c.check(&v.back() == v.end() - 1 and &v.front() == v.begin(), "back",
                "front/back denote other objects");
    }
    if constexpr (N > 0) {
        if (m.size() > 0) {
            c.eq(El<T>::id(v.template get<0>()), m[0], "get");
            c.eq(El<T>::id(stdx::get<0>(cv)), m[0], "get");
        }
        constexpr std::size_t L = N - 1, H = N / 2;
        if (m.size() == N) {
            c.eq(El<T>::id(cv.template get<L>()), m[L], "get");
            c.eq(El<T>::id(stdx::get<L>(v)), m[L], "get");
        }
        if (m.size() > H) {
            c.eq(El<T>::id(v.template get<H>()), m[H], "get");
            c.eq(El<T>::id(stdx::get<H>(cv)), m[H], "get");
        }
    }
    u64 h = m.size();
    for (auto x : m) {
        h = vf::mix(h ^ x);
    }
    c.state(h);
    vf::life_check(c, "cx_vector");
}

template <typename T, std::size_t N, std::size_t... Is>
void construct(vf::Ctx &c, stdx::cx_vector<T, N> &v, Model<T> &m,
               std::index_sequence<Is...>) {
    std::vector<u64> xs;
    for (std::size_t i = 0; i < sizeof...(Is); ++i) {
        xs.push_back(El<T>::norm(c.below(200)));
    }
    c.op("construct", xs);
    v = stdx::cx_vector<T, N>(El<T>::make(xs[Is])...);
    m = xs;
}

template <typename T, std::size_t N> void vec(vf::Ctx &c) {
    vf::life.reset();
    {
        using V = stdx::cx_vector<T, N>;
        V v{};
        Model<T> m;
        observe(c, v, m);
        auto const nops = 4 + c.below(N > 100 ? 40 : 3 * N + 12);
        auto const grow = 25 + c.below(55);
        // small value domain: equal neighbours and equal vectors are common
        auto const dom = c.coin() ? 3 : 251;
        auto val = [&] { return El<T>::norm(1 + c.below(dom)); };
        for (u64 k = 0; k < nops; ++k) {
            if (c.chance(grow)) {
                if (m.size() < N) {
                    auto x = val();
                    switch (c.below(m.empty() ? 2 : 4)) {
                    case 0: {
                        c.op("push_back(const&)", x);
                        auto const t = El<T>::make(x);
                        auto &r = v.push_back(t);
                        c.eq(El<T>::id(t), x, "push-changed-argument");
                        c.check(&r == &v.back(), "push-ref", "wrong object");
                        m.push_back(x);
                        c.eq(El<T>::id(r), x, "push-ref");
                        break;
                    }
                    case 1: {
                        c.op("push_back(&&)", x);
                        auto &r = v.push_back(El<T>::make(x));
                        c.check(&r == v.begin() + m.size(), "push-ref",
                                "wrong object");
                        m.push_back(x);
                        c.eq(El<T>::id(r), x, "push-ref");
                        break;
                    }
                    case 2: {
                        auto i = c.below(m.size());
                        c.op("push_back(self[i])", i);
                        auto &r = v.push_back(v[i]);
                        m.push_back(m[i]);
                        c.eq(El<T>::id(r), m.back(), "push-ref");
                        break;
                    }
                    default: {
                        auto y = val();
                        c.op("push_back then write through reference", x, y);
                        auto &r = v.push_back(El<T>::make(x));
                        r = El<T>::make(y);
                        m.push_back(y);
                    }
                    }
                }
            } else {
                switch (c.below(11)) {
                case 0:
                case 1:
                case 2:
                    if (not m.empty()) {
                        c.op("pop_back");
                        T const t = v.pop_back();
                        auto want = m.back();
                        m.pop_back();
                        c.eq(El<T>::id(t), want, "pop-value");
                    }
                    break;
                case 3:
                    if (c.chance(30)) {
                        c.op("clear");
                        v.clear();
                        m.clear();
                    }
                    break;
                case 4:
                    if (not m.empty()) {
                        auto i = c.below(m.size());
                        auto x = val();
                        c.op("assign element", i, x);
                        switch (c.below(4)) {
                        case 0: v[i] = El<T>::make(x); break;
                        case 1: *(v.begin() + i) = El<T>::make(x); break;
                        case 2:
                            *(v.rbegin() + (m.size() - 1 - i)) =
                                El<T>::make(x);
                            break;
                        default:
                            i = m.size() - 1;
                            v.back() = El<T>::make(x);
                        }
                        m[i] = x;
                    }
                    break;
                case 5: {
                    auto n = c.below(N + 1);
                    c.op("resize_and_overwrite", n);
                    int calls = 0;
                    bool rotate = c.coin();
                    resize_and_overwrite(v, [&](T *p, std::size_t sz) {
                        ++calls;
                        c.eq(sz, N, "overwrite-capacity");
                        c.check(N == 0 or p == v.begin(),
                                "overwrite-storage",
                                "callback got other storage");
                        for (std::size_t i = 0; i < m.size(); ++i) {
                            c.eq(El<T>::id(p[i]), m[i], "overwrite-elements");
                        }
                        if (rotate and not m.empty()) {
                            std::rotate(p, p + 1, p + m.size());
                            std::rotate(m.begin(), m.begin() + 1, m.end());
                        }
                        for (std::size_t i = m.size(); i < n; ++i) {
                            m.push_back(val());
                            p[i] = El<T>::make(m.back());
                        }
                        m.resize(n);
                        return n;
                    });
                    c.eq(calls, 1, "overwrite-calls");
                    break;
                }
                case 6: {
                    c.op("copy");
                    V w{v};
                    observe(c, w, m);
                    c.check(w == v and v == w, "equality",
                            "a copy compares different");
                    c.check(not(w != v), "equality", "!= on a copy");
                    if (c.coin()) {
                        V x{};
                        x = w;
                        v = std::move(x);
                    }
                    break;
                }
                case 7: {
                    // a vector with related content, equality both ways
                    V w{};
                    Model<T> wm;
                    auto keep = c.below(m.size() + 1);
                    for (std::size_t i = 0; i < m.size(); ++i) {
                        wm.push_back(m[i]);
                    }
                    if (c.coin()) {
                        wm.resize(keep);
                    }
                    if (not wm.empty() and c.coin()) {
                        wm[c.below(wm.size())] = val();
                    }
                    if (wm.size() < N and c.chance(30)) {
                        wm.push_back(val());
                    }
                    // leave different stale elements behind the end
                    for (std::size_t i = 0; i < N; ++i) {
                        w.push_back(El<T>::make(val()));
                    }
                    w.clear();
                    for (auto x : wm) {
                        w.push_back(El<T>::make(x));
                    }
                    c.op("compare", wm);
                    c.eq(v == w, m == wm, "equality");
                    c.eq(w == v, m == wm, "equality");
                    c.eq(v != w, m != wm, "equality");
                    break;
                }
                case 8:
                    if constexpr (N >= 3) {
                        if (c.coin()) {
                            construct(c, v, m, std::make_index_sequence<3>{});
                        } else {
                            construct(c, v, m, std::make_index_sequence<1>{});
                        }
                    }
                    break;
                case 9:
                    if constexpr (N > 0 and N <= 9) {
                        construct(c, v, m, std::make_index_sequence<N>{});
                    }
                    break;
                default:
                    if (not m.empty()) {
                        c.op("std::reverse");
                        std::reverse(v.begin(), v.end());
                        std::reverse(m.begin(), m.end());
                    }
                }
            }
            observe(c, v, m);
        }
    }
    c.check(vf::life.live.empty(), "lifetime", "objects outlive the vector");
    vf::life_check(c, "end of case");
}

// move-only elements: everything except pop_back
template <typename T, std::size_t N> void vec_moveonly(vf::Ctx &c) {
    vf::life.reset();
    {
        stdx::cx_vector<T, N> v{};
        Model<T> m;
        for (auto k = 4 + c.below(3 * N); k > 0; --k) {
            switch (c.below(6)) {
            case 0:
            case 1:
            case 2:
                if (m.size() < N) {
                    auto x = c.below(1000);
                    c.op("push_back(&&)", x);
                    auto &r = v.push_back(El<T>::make(x));
                    m.push_back(x);
                    c.check(&r == &v.back(), "push-ref", "wrong object");
                }
                break;
            case 3:
                if (not m.empty()) {
                    auto i = c.below(m.size());
                    c.op("swap with front", i);
                    std::swap(v.front(), v[i]);
                    std::swap(m.front(), m[i]);
                }
                break;
            case 4: {
                auto n = c.below(m.size() + 1);
                c.op("shrink", n);
                struct Once { // can only be called as an rvalue
                    std::size_t n;
                    std::size_t operator()(T *, std::size_t) && { return n; }
                };
                if (c.coin()) {
                    resize_and_overwrite(v, Once{n});
                } else {
                    auto keep = [&](T *, std::size_t) { return n; };
                    resize_and_overwrite(v, keep);
                }
                m.resize(n);
                break;
            }
            default:
                c.op("move");
                auto w = std::move(v);
                v = std::move(w);
            }
            observe(c, v, m);
        }
    }
    c.check(vf::life.live.empty(), "lifetime", "objects outlive the vector");
    vf::life_check(c, "end of case");
}

VF_INST(8, vec, int, 0)
VF_INST(10, vec, int, 1)
VF_INST(10, vec, int, 2)
VF_INST(16, vec, int, 5)
VF_INST(10, vec, std::uint8_t, 8)
VF_INST(8, vec, std::uint16_t, 40)
VF_INST(1, vec, std::uint16_t, 300)
VF_INST(10, vec, std::string, 4)
VF_INST(8, vec, vf::Wide, 6)
VF_INST(10, vec, vf::Tracked, 3)
VF_INST(8, vec, vf::Tracked, 9)
VF_INST(6, vec_moveonly, std::unique_ptr<int>, 5)
VF_INST(6, vec_moveonly, vf::TrackedMove, 4)
} // namespace

VF_SUITE(vec_conversions, 6) {
    // mixed argument types in the constructor, deduction guide
    auto a = c.range(-100, 100);
    auto b = c.below(100);
    c.op("deduce", a, b);
    auto v = stdx::cx_vector{static_cast<int>(a), static_cast<short>(b), 'x'};
    static_assert(std::is_same_v<decltype(v), stdx::cx_vector<int, 3>>);
    c.eq(v[0], a, "construct");
    c.eq(v[1], b, "construct");
    c.eq(v[2], int{'x'}, "construct");
    c.eq(v.size(), 3u, "construct");
    auto w = stdx::cx_vector<long long, 5>{static_cast<int>(a),
                                           static_cast<unsigned char>(b)};
    c.eq(w.size(), 2u, "construct");
    c.eq(w[0], a, "construct");
    c.eq(w[1], b, "construct");
    // structured access through algorithms
    long long s = std::accumulate(w.cbegin(), w.cend(), 0ll);
    c.eq(s, a + static_cast<long long>(b), "algorithm");
}

VF_EXHAUSTIVE(vec_large, 2) {
    // more elements than narrow sizes can count
    constexpr std::size_t n = 66000;
    auto v = std::make_unique<stdx::cx_vector<std::uint32_t, n>>();
    c.op("large");
    for (std::uint32_t i = 0; i < n; ++i) {
        if (v->push_back(i) != i or v->size() != i + 1 or v->back() != i or v->full() != (i + 1 == n) or v->empty() or
            v->end() - v->begin() != static_cast<std::ptrdiff_t>(i + 1)) {
            c.check(false, "large", "after push_back");
        }
    }
    for (std::uint32_t i = 0; i < n; ++i) {
        if ((*v)[i] != i or v->rbegin()[i] != n - 1 - i) {
            c.check(false, "large", "element");
        }
    }
    auto w = std::make_unique<stdx::cx_vector<std::uint32_t, n>>(*v);
    c.check(*w == *v, "large", "copy differs");
    auto const at = c.below(n);
    (*w)[at] ^= 1u;
    c.check(*w != *v, "large", "difference not seen");
    for (auto i = static_cast<std::uint32_t>(n); i-- > 0;) {
        if (v->pop_back() != i or v->size() != i) {
            c.check(false, "large", "after pop_back");
        }
    }
    resize_and_overwrite(*v, [](auto *, std::size_t sz) { return sz; });
    c.check(v->full() and v->size() == n, "large", "resize_and_overwrite");
}
