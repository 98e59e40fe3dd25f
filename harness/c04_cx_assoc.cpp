#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_set.hpp>

#include "elems.hpp"

#include <map>
#include <set>
#include <vector>

using vf::El;
using vf::u64;

namespace {
u64 hash_of(auto const &m) {
    u64 h = m.size();
    for (auto const &e : m) {
        if constexpr (requires { e.second; }) {
            if constexpr (requires { e.second.size(); }) {
                h = vf::mix(h ^ e.first);
                for (auto x : e.second) {
                    h = vf::mix(h + x);
                }
            } else {
                h = vf::mix(h ^ (e.first * 1000003 + e.second));
            }
        } else {
            h = vf::mix(h ^ e);
        }
    }
    return h;
}

// ---- map -------------------------------------------------------------------
template <typename K, typename V, std::size_t N>
void observe_map(vf::Ctx &c, stdx::cx_map<K, V, N> &x,
                 std::map<u64, u64> const &m, u64 dom) {
    auto const &cx = x;
    c.eq(x.size(), m.size(), "size");
    c.eq(cx.empty(), m.empty(), "empty");
    c.eq(cx.full(), m.size() == N, "full");
    c.eq(x.capacity(), N, "capacity");
    auto iterate = [&](auto first, auto last) {
        std::map<u64, u64> seen;
        std::size_t n = 0;
        for (; first != last; ++first) {
            c.check(seen.emplace(El<K>::id(first->key),
                                 El<V>::id(first->value))
                        .second,
                    "unique-keys", "a key appears twice in iteration");
            c.check(++n <= N, "iterate", "too many elements");
        }
        c.check(seen == m, "iterate", "iteration shows other entries");
    };
    iterate(x.begin(), x.end());
    iterate(cx.begin(), cx.end());
    iterate(cx.cbegin(), cx.cend());
    for (u64 k = 0; k < dom; ++k) {
        auto const key = El<K>::make(k);
        auto it = m.find(k);
        c.eq(cx.contains(key), it != m.end(), "contains");
        if (it != m.end()) {
            c.eq(El<V>::id(x.get(key)), it->second, "get");
            c.eq(El<V>::id(cx.get(key)), it->second, "get");
            c.check(&x.get(key) == &cx.get(key), "get", "different objects");
        }
    }
    c.state(hash_of(m));
    vf::life_check(c, "cx_map");
}

template <typename K, typename V, std::size_t N, std::size_t... Is>
void construct_map(vf::Ctx &c, stdx::cx_map<K, V, N> &x,
                   std::map<u64, u64> &m, u64 dom, bool dup,
                   std::index_sequence<Is...>) {
    std::vector<std::pair<u64, u64>> es;
    m.clear();
    for (std::size_t i = 0; i < sizeof...(Is); ++i) {
        auto k = c.below(dom);
        while (not dup and m.contains(k)) {
            k = (k + 1) % dom;
        }
        auto v = El<V>::norm(c.below(90));
        es.push_back({k, v});
        m.emplace(k, v);
        c.op("construct with", k, v);
    }
    using E = stdx::cx_map_value<K, V>;
    x = stdx::cx_map<K, V, N>{
        E{El<K>::make(es[Is].first), El<V>::make(es[Is].second)}...};
}

template <typename K, typename V, std::size_t N> void map(vf::Ctx &c) {
    vf::life.reset();
    {
        stdx::cx_map<K, V, N> x{};
        std::map<u64, u64> m;
        u64 const dom = N + 1 + c.below(3);
        observe_map(c, x, m, dom);
        if (N > 100) { // many entries, in a shuffled order of keys
            auto const step = 7 * (1 + c.below(40));
            for (auto n = c.below(N + 1), k = c.below(dom); n > 0; --n) {
                k = (k + step) % dom;
                x.insert_or_assign(El<K>::make(k),
                                   El<V>::make(El<V>::norm(n)));
                m[k] = El<V>::norm(n);
            }
            c.op("filled", m.size());
        }
        for (auto n = 5 + c.below(N > 100 ? 12 : 4 * N + 10); n > 0; --n) {
            auto k = c.below(dom);
            auto v = El<V>::norm(c.below(100));
            switch (c.below(13)) {
            case 0:
            case 1:
            case 2:
            case 3:
            case 4:
                if (m.size() < N or m.contains(k)) {
                    auto how = c.below(4);
                    c.op("insert_or_assign", k, v, how);
                    bool const want = not m.contains(k);
                    bool got;
                    if (how == 0) {
                        got = x.put(El<K>::make(k), El<V>::make(v));
                    } else if (how == 1 and not m.empty()) {
                        // arguments that live in the container itself
                        auto src = m.begin();
                        std::advance(src, c.below(m.size()));
                        v = src->second;
                        got = x.insert_or_assign(
                            El<K>::make(k), x.get(El<K>::make(src->first)));
                    } else if (how == 2 and m.contains(k)) {
                        auto *e = x.begin();
                        while (El<K>::id(e->key) != k) {
                            ++e;
                        }
                        got = x.insert_or_assign(e->key, El<V>::make(v));
                    } else {
                        auto const kk = El<K>::make(k);
                        auto const vv = El<V>::make(v);
                        got = x.insert_or_assign(kk, vv);
                        c.eq(El<V>::id(vv), v, "argument-changed");
                    }
                    c.eq(got, want, "insert-result");
                    m[k] = v;
                }
                break;
            case 5:
            case 6:
            case 7: {
                auto how = c.below(2);
                c.op("erase", k, how);
                std::size_t got;
                if (how == 1 and m.contains(k)) {
                    auto *e = x.begin();
                    while (El<K>::id(e->key) != k) {
                        ++e;
                    }
                    got = x.erase(e->key);
                } else {
                    got = x.erase(El<K>::make(k));
                }
                c.eq(got, m.erase(k), "erase-result");
                break;
            }
            case 8:
                if (not m.empty()) {
                    c.op("pop_back");
                    auto const e = x.pop_back();
                    auto it = m.find(El<K>::id(e.key));
                    c.check(it != m.end() and it->second == El<V>::id(e.value),
                            "pop-value", "popped an entry that was not held");
                    m.erase(it);
                }
                break;
            case 9:
                if (m.contains(k)) {
                    c.op("assign through get", k, v);
                    x.get(El<K>::make(k)) = El<V>::make(v);
                    m[k] = v;
                }
                break;
            case 10:
                if (c.chance(30)) {
                    c.op("clear");
                    x.clear();
                    m.clear();
                }
                break;
            case 11: {
                c.op("copy");
                auto y = x;
                observe_map(c, y, m, dom);
                x = y;
                break;
            }
            default:
                if constexpr (N >= 3 and N < 9) {
                    if (c.coin()) {
                        construct_map(c, x, m, dom, c.coin(),
                                      std::make_index_sequence<N>{});
                    } else {
                        construct_map(c, x, m, dom, c.coin(),
                                      std::make_index_sequence<2>{});
                    }
                }
            }
            observe_map(c, x, m, dom);
        }
    }
    c.check(vf::life.live.empty(), "lifetime", "objects outlive the map");
    vf::life_check(c, "end of case");
}
VF_INST(8, map, int, int, 1)
VF_INST(10, map, int, int, 3)
VF_INST(12, map, int, std::uint8_t, 6)
VF_INST(6, map, std::string, int, 4)
VF_INST(6, map, std::uint8_t, std::string, 5)
VF_INST(6, map, vf::Tracked, vf::Tracked, 4)
VF_INST(4, map, long long, vf::Wide, 20)
VF_INST(1, map, int, int, 300)

// ---- set -------------------------------------------------------------------
template <typename K, std::size_t N>
void observe_set(vf::Ctx &c, stdx::cx_set<K, N> &x, std::set<u64> const &m,
                 u64 dom) {
    auto const &cx = x;
    c.eq(x.size(), m.size(), "size");
    c.eq(cx.empty(), m.empty(), "empty");
    c.eq(x.capacity(), N, "capacity");
    auto iterate = [&](auto first, auto last) {
        std::set<u64> seen;
        for (; first != last; ++first) {
            c.check(seen.insert(El<K>::id(*first)).second, "unique-keys",
                    "a key appears twice in iteration");
        }
        c.check(seen == m, "iterate", "iteration shows other keys");
    };
    iterate(x.begin(), x.end());
    iterate(cx.begin(), cx.end());
    iterate(cx.cbegin(), cx.cend());
    for (u64 k = 0; k < dom; ++k) {
        c.eq(cx.contains(El<K>::make(k)), m.contains(k), "contains");
    }
    c.state(hash_of(m));
    vf::life_check(c, "cx_set");
}
template <typename K, std::size_t N, std::size_t... Is>
void construct_set(vf::Ctx &c, stdx::cx_set<K, N> &x, std::set<u64> &m,
                   u64 dom, std::index_sequence<Is...>) {
    std::vector<u64> ks;
    m.clear();
    for (std::size_t i = 0; i < sizeof...(Is); ++i) {
        ks.push_back(c.below(dom));
        m.insert(ks.back());
    }
    c.op("construct", ks);
    x = stdx::cx_set<K, N>{El<K>::make(ks[Is])...};
}

template <typename K, std::size_t N> void set(vf::Ctx &c) {
    vf::life.reset();
    {
        stdx::cx_set<K, N> x{};
        std::set<u64> m;
        u64 const dom = N + 1 + c.below(3);
        observe_set(c, x, m, dom);
        if (N > 100) {
            auto const step = 7 * (1 + c.below(40));
            for (auto n = c.below(N + 1), k = c.below(dom); n > 0; --n) {
                k = (k + step) % dom;
                auto e = El<K>::make(k);
                auto const fresh = m.insert(k).second;
                c.eq(x.insert(std::move(e)), fresh, "insert-result");
                if (not fresh) { // nothing was added, so nothing was taken
                    c.eq(El<K>::id(e), El<K>::norm(k), "insert-refused");
                }
            }
            c.op("filled", m.size());
        }
        for (auto n = 5 + c.below(N > 100 ? 12 : 4 * N + 10); n > 0; --n) {
            auto k = c.below(dom);
            switch (c.below(12)) {
            case 0:
            case 1:
            case 2:
            case 3:
            case 4:
                if (m.size() < N or m.contains(k)) {
                    auto how = c.below(3);
                    c.op("insert", k, how);
                    bool got;
                    if (how == 0) {
                        got = x.insert(El<K>::make(k));
                    } else if (how == 1 and not m.empty()) {
                        auto i = c.below(m.size());
                        k = El<K>::id(x.begin()[i]);
                        got = x.insert(x.begin()[i]);
                    } else {
                        auto const kk = El<K>::make(k);
                        got = x.insert(kk);
                        c.eq(El<K>::id(kk), k, "argument-changed");
                    }
                    c.eq(got, m.insert(k).second, "insert-result");
                }
                break;
            case 5:
            case 6:
            case 7: {
                c.op("erase", k);
                std::size_t got;
                if (c.coin() and m.contains(k)) {
                    auto *e = x.begin();
                    while (El<K>::id(*e) != k) {
                        ++e;
                    }
                    got = x.erase(*e);
                } else {
                    got = x.erase(El<K>::make(k));
                }
                c.eq(got, m.erase(k), "erase-result");
                break;
            }
            case 8:
                if (not m.empty()) {
                    c.op("pop_back");
                    auto const e = x.pop_back();
                    c.eq(m.erase(El<K>::id(e)), 1u, "pop-value");
                }
                break;
            case 9: {
                // merge another set (own type, other capacity, or itself)
                stdx::cx_set<K, N + 2> y{};
                std::set<u64> u = m;
                for (auto t = c.below(N + 1); t > 0; --t) {
                    auto kk = c.below(dom);
                    if (u.size() < N or u.contains(kk)) {
                        y.insert(El<K>::make(kk));
                        u.insert(kk);
                    }
                }
                c.op("merge", y.size());
                x.merge(y);
                if (c.chance(20)) {
                    x.merge(x);
                }
                m = u;
                break;
            }
            case 10:
                if (c.chance(40)) {
                    c.op("clear");
                    x.clear();
                    m.clear();
                } else {
                    c.op("copy");
                    auto y = x;
                    observe_set(c, y, m, dom);
                    x = y;
                }
                break;
            default:
                if constexpr (N >= 3 and N < 9) {
                    if (c.coin()) {
                        construct_set(c, x, m, dom,
                                      std::make_index_sequence<N>{});
                    } else {
                        construct_set(c, x, m, dom,
                                      std::make_index_sequence<2>{});
                    }
                }
            }
            observe_set(c, x, m, dom);
        }
    }
    c.check(vf::life.live.empty(), "lifetime", "objects outlive the set");
    vf::life_check(c, "end of case");
}
VF_INST(6, set, int, 1)
VF_INST(8, set, int, 3)
VF_INST(10, set, std::uint8_t, 7)
VF_INST(6, set, std::string, 4)
VF_INST(6, set, vf::Tracked, 5)
VF_INST(1, set, int, 300)

// keys that can only be moved: insert, lookup, iteration and clear
template <typename K, std::size_t N> void set_moveonly(vf::Ctx &c) {
    vf::life.reset();
    {
        stdx::cx_set<K, N> x{};
        std::set<u64> m;
        u64 const dom = N + 2;
        for (auto n = 3 + c.below(3 * N); n > 0; --n) {
            auto const k = c.below(dom);
            if (c.chance(8)) {
                c.op("clear");
                x.clear();
                m.clear();
            } else if (m.size() < N or m.contains(k)) {
                c.op("insert(&&)", k);
                auto e = El<K>::make(k);
                auto const fresh = m.insert(k).second;
                c.eq(x.insert(std::move(e)), fresh, "insert-result");
                if (not fresh) { // nothing was added, so nothing was taken
                    c.eq(El<K>::id(e), El<K>::norm(k), "insert-refused");
                }
            }
            observe_set(c, x, m, dom);
        }
    }
    c.check(vf::life.live.empty(), "lifetime", "objects outlive the set");
    vf::life_check(c, "end of case");
}
VF_INST(3, set_moveonly, vf::TrackedMove, 4)

// ---- multimap --------------------------------------------------------------
using MM = std::map<u64, std::set<u64>>;
template <typename K, typename V, std::size_t KN, std::size_t VN>
void observe_mm(vf::Ctx &c, stdx::cx_multimap<K, V, KN, VN> &x, MM const &m,
                u64 dom, u64 vdom) {
    auto const &cx = x;
    c.eq(x.size(), m.size(), "size");
    c.eq(cx.empty(), m.empty(), "empty");
    c.eq(x.capacity(), KN, "capacity");
    auto iterate = [&](auto first, auto last) {
        MM seen;
        for (; first != last; ++first) {
            auto k = El<K>::id(first->key);
            c.check(not seen.contains(k), "unique-keys", "key twice");
            seen[k];
            for (auto const &v : first->value) {
                c.check(seen[k].insert(El<V>::id(v)).second, "unique-values",
                        "value twice");
            }
        }
        c.check(seen == m, "iterate", "iteration shows other entries");
    };
    iterate(x.begin(), x.end());
    iterate(cx.begin(), cx.end());
    iterate(cx.cbegin(), cx.cend());
    for (u64 k = 0; k < dom; ++k) {
        auto it = m.find(k);
        c.eq(cx.contains(El<K>::make(k)), it != m.end(), "contains");
        for (u64 v = 0; v < vdom; ++v) {
            c.eq(cx.contains(El<K>::make(k), El<V>::make(v)),
                 it != m.end() and it->second.contains(v), "contains-value");
        }
        if (it != m.end()) {
            c.eq(x.get(El<K>::make(k)).size(), it->second.size(), "get");
            c.eq(cx.get(El<K>::make(k)).size(), it->second.size(), "get");
            for (auto v : it->second) {
                c.check(cx.get(El<K>::make(k)).contains(El<V>::make(v)), "get",
                        "missing value");
            }
        }
    }
    c.state(hash_of(m));
    vf::life_check(c, "cx_multimap");
}

template <typename K, typename V, std::size_t KN, std::size_t VN>
void multimap(vf::Ctx &c) {
    vf::life.reset();
    {
        stdx::cx_multimap<K, V, KN, VN> x{};
        MM m;
        u64 const dom = KN + 1, vdom = VN + 1;
        observe_mm(c, x, m, dom, vdom);
        for (auto n = 6 + c.below(5 * KN + 12); n > 0; --n) {
            auto k = c.below(dom), v = c.below(vdom);
            bool const has = m.contains(k);
            switch (c.below(12)) {
            case 0:
            case 1:
            case 2:
            case 3:
            case 4:
                if ((has or m.size() < KN) and
                    (not has or m[k].size() < VN or m[k].contains(v))) {
                    c.op("insert", k, v);
                    if (c.coin()) {
                        x.insert(El<K>::make(k), El<V>::make(v));
                    } else {
                        x.put(El<K>::make(k), El<V>::make(v));
                    }
                    m[k].insert(v);
                }
                break;
            case 5:
                if (has or m.size() < KN) {
                    c.op("insert key", k);
                    if (c.coin()) {
                        x.insert(El<K>::make(k));
                    } else {
                        x.put(El<K>::make(k));
                    }
                    m[k];
                }
                break;
            case 6:
            case 7:
            case 8:
                // (a key inserted without values is left alone here)
                if (not has or not m[k].empty()) {
                    c.op("erase value", k, v);
                    std::size_t want = 0;
                    if (has) {
                        want = m[k].erase(v);
                        if (m[k].empty()) {
                            m.erase(k);
                        }
                    }
                    c.eq(x.erase(El<K>::make(k), El<V>::make(v)), want,
                         "erase-result");
                }
                break;
            case 9:
                c.op("erase key", k);
                c.eq(x.erase(El<K>::make(k)), m.erase(k), "erase-result");
                break;
            case 10:
                if (has and (m[k].size() < VN or m[k].contains(v))) {
                    c.op("insert through get", k, v);
                    c.eq(x.get(El<K>::make(k)).insert(El<V>::make(v)),
                         m[k].insert(v).second, "insert-result");
                }
                break;
            default:
                if (c.chance(30)) {
                    c.op("clear");
                    x.clear();
                    m.clear();
                } else {
                    c.op("copy");
                    auto y = x;
                    observe_mm(c, y, m, dom, vdom);
                    x = y;
                }
            }
            observe_mm(c, x, m, dom, vdom);
        }
    }
    c.check(vf::life.live.empty(), "lifetime", "objects outlive the map");
    vf::life_check(c, "end of case");
}
VF_INST(6, multimap, int, int, 3, 3)
VF_INST(8, multimap, int, int, 4, 2)
VF_INST(6, multimap, std::uint8_t, std::string, 2, 5)
VF_INST(4, multimap, vf::Tracked, vf::Tracked, 3, 2)
VF_INST(4, multimap, int, int, 1, 1)

// ---- keys that compare equal without being the same ------------------------
// As in the standard containers, the key stored first stays when an equal one
// is inserted or assigned later.
struct Label {
    u64 key{};
    u64 serial{};
    friend constexpr auto operator==(Label const &a, Label const &b) -> bool { return a.key == b.key; }
    friend constexpr auto operator<(Label const &a, Label const &b) -> bool { return a.key < b.key; }
};
template <std::size_t N> void equal_keys(vf::Ctx &c) {
    stdx::cx_map<Label, u64, N> x{};
    stdx::cx_set<Label, N> y{};
    stdx::cx_multimap<Label, Label, N, N> z{};
    std::map<Label, u64> m;
    std::set<Label> t;
    std::map<Label, std::set<Label>> mm;
    u64 serial = 0;
    u64 const dom = N + 1 + c.below(2);
    auto label = [&](u64 k) { return Label{k, ++serial}; };
    for (auto n = 4 + c.below(5 * N); n > 0; --n) {
        auto const k = label(c.below(dom));
        auto const v = c.below(50);
        auto const l = label(c.below(N));
        if (c.chance(65)) {
            c.op("insert", k.key, k.serial, v);
            if (m.size() < N or m.contains(k)) {
                auto const fresh = m.insert_or_assign(k, v).second;
                c.eq(c.coin() ? x.insert_or_assign(k, v) : x.put(k, v), fresh, "insert-result");
            }
            if (t.size() < N or t.contains(k)) {
                auto const fresh = t.insert(k).second;
                auto kk = k;
                c.eq(c.coin() ? y.insert(k) : y.insert(std::move(kk)), fresh, "insert-result");
            }
            if (mm.size() < N or mm.contains(k)) {
                mm[k].insert(l);
                z.insert(k, l);
            }
        } else if (c.chance(30)) {
            stdx::cx_set<Label, 2> o{k, label(k.key + 1 == dom ? 0 : k.key + 1)};
            auto u = t;
            u.insert(o.begin(), o.end());
            if (u.size() <= N) {
                c.op("merge", k.key, k.serial);
                y.merge(o);
                t = u;
            }
        } else {
            c.op("erase", k.key);
            c.eq(x.erase(k), m.erase(k), "erase-result");
            c.eq(y.erase(k), t.erase(k), "erase-result");
            if (auto it = mm.find(k); it != mm.end()) {
                auto const gone = it->second.erase(l);
                if (it->second.empty()) {
                    mm.erase(it);
                }
                c.eq(z.erase(k, l), gone, "erase-result");
            }
        }
        c.eq(x.size(), m.size(), "size");
        c.eq(y.size(), t.size(), "size");
        c.eq(z.size(), mm.size(), "size");
        for (auto const &[key, value] : x) {
            auto it = m.find(key);
            c.check(it != m.end(), "iterate", "an entry that is not held");
            c.eq(key.serial, it->first.serial, "first-key-kept");
            c.eq(value, it->second, "get");
        }
        for (auto const &key : y) {
            auto it = t.find(key);
            c.check(it != t.end(), "iterate", "a key that is not held");
            c.eq(key.serial, it->serial, "first-key-kept");
        }
        for (auto const &[key, values] : z) {
            auto it = mm.find(key);
            c.check(it != mm.end(), "iterate", "a key that is not held");
            c.eq(key.serial, it->first.serial, "first-key-kept");
            c.eq(values.size(), it->second.size(), "size");
            for (auto const &e : values) {
                auto w = it->second.find(e);
                c.check(w != it->second.end(), "iterate", "a value that is not held");
                c.eq(e.serial, w->serial, "first-value-kept");
            }
        }
    }
}
VF_INST(4, equal_keys, 1)
VF_INST(6, equal_keys, 3)
VF_INST(4, equal_keys, 6)
} // namespace
