// Lifetimes: containers, optional, cached and latched over elements that
// register construction and destruction, own a resource, know when they were
// moved from, and fail to copy at chosen moments.
#include <stdx/cached.hpp>
#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/latched.hpp>
#include <stdx/optional.hpp>

#include "elems.hpp"

#include <deque>
#include <map>
#include <optional>
#include <set>
#include <stdexcept>
#include <vector>

using vf::i64;
using vf::Tracked;
using vf::TrackedMove;
using vf::u64;

template <> struct stdx::tombstone_traits<Tracked> {
    auto operator()() const { return Tracked{-1}; }
};
template <> struct stdx::tombstone_traits<TrackedMove> {
    auto operator()() const { return TrackedMove{-1}; }
};

namespace {
// Runs f, sometimes with a copy that fails; true if it threw.
template <typename F> bool attempt(vf::Ctx &c, F &&f) {
    vf::life.throw_in = c.chance(25) ? static_cast<i64>(c.below(5)) : -1;
    try {
        f();
        vf::life.throw_in = -1;
        return false;
    } catch (std::runtime_error const &) {
        vf::life.throw_in = -1;
        c.event("copy-failed");
        return true;
    }
}
template <typename F> void scope(vf::Ctx &c, F &&f) {
    vf::life.reset();
    f();
    vf::life_check(c, "history");
    c.check(vf::life.live.empty(), "never-destroyed", vf::str(vf::life.live.size()) + " objects left");
    c.check(vf::life.constructed == vf::life.destroyed, "construction-count", "");
}
template <typename T> T make(int v) { return T{v}; }

// ---- cx_vector ----
template <typename T, std::size_t N> void vector(vf::Ctx &c) {
    using V = stdx::cx_vector<T, N>;
    constexpr bool copyable = std::is_copy_constructible_v<T>;
    scope(c, [&] {
        V v;
        std::vector<int> m;
        auto same = [&](V const &x, std::vector<int> const &want, char const *key) {
            bool ok = x.size() >= want.size();
            for (std::size_t i = 0; ok and i < want.size(); ++i) {
                ok = x[i].get() == want[i];
            }
            c.check(ok, key, "");
            vf::life_check(c, key);
        };
        auto again = [&] {
            v = V{};
            m.clear();
        };
        int const n = static_cast<int>(c.range(4, 40));
        for (int s = 0; s < n; ++s) {
            int const op = static_cast<int>(c.below(9));
            int const x = static_cast<int>(c.range(0, 1000));
            c.op("vector", op, x);
            switch (op) {
            case 0:
            case 1:
                if constexpr (copyable) {
                    if (not v.full()) {
                        T t{x};
                        if (attempt(c, [&] { v.push_back(t); })) {
                            same(v, m, "vector-after-failed-push");
                            again();
                        } else {
                            m.push_back(x);
                        }
                        c.check(t.get() == x, "vector-source", "");
                    }
                    break;
                }
                [[fallthrough]];
            case 2:
                if (not v.full()) {
                    c.check(v.push_back(make<T>(x)).get() == x, "vector-pushed", "");
                    m.push_back(x);
                }
                break;
            case 3:
                if constexpr (copyable) {
                    if (not v.empty()) {
                        int got = 0;
                        if (attempt(c, [&] { got = v.pop_back().get(); })) {
                            m.pop_back();
                            same(v, m, "vector-after-failed-pop");
                            again();
                        } else {
                            c.eq(got, m.back(), "vector-popped");
                            m.pop_back();
                        }
                    }
                }
                break;
            case 4:
                if constexpr (copyable) {
                    std::optional<V> o;
                    if (not attempt(c, [&] { o.emplace(v); })) {
                        same(*o, m, "vector-copy");
                        same(v, m, "vector-copied-from");
                        if (c.coin()) {
                            v = std::move(*o);
                        }
                    } else {
                        same(v, m, "vector-after-failed-copy");
                    }
                }
                break;
            case 5:
                if constexpr (copyable) {
                    V o;
                    for (u64 i = c.below(N + 1); i > 0; --i) {
                        o.push_back(make<T>(7));
                    }
                    if (not attempt(c, [&] { o = v; })) {
                        same(o, m, "vector-assigned");
                    }
                    same(v, m, "vector-assigned-from");
                }
                break;
            case 6: {
                V o{std::move(v)};
                same(o, m, "vector-moved");
                v = V{};
                V p;
                p = std::move(o);
                same(p, m, "vector-move-assigned");
                v = std::move(p);
                break;
            }
            case 7:
                v.clear();
                m.clear();
                break;
            default:
                if (not v.empty()) {
                    c.check(v.front().get() == m.front() and v.back().get() == m.back(), "vector-ends", "");
                    auto k = c.below(m.size());
                    v[k] = make<T>(x);
                    m[k] = x;
                }
            }
            c.eq(v.size(), m.size(), "vector-size");
            same(v, m, "vector-values");
            c.state(vf::mix(m.size() * 16 + static_cast<u64>(op)));
        }
    });
}
VF_INST(4, vector, Tracked, 1)
VF_INST(6, vector, Tracked, 5)
VF_INST(4, vector, TrackedMove, 4)

// ---- cx_queue ----
template <typename T, std::size_t N> void queue(vf::Ctx &c) {
    using Q = stdx::cx_queue<T, N>;
    constexpr bool copyable = std::is_copy_constructible_v<T>;
    scope(c, [&] {
        Q q;
        std::deque<int> m;
        auto drain = [&](Q x, char const *key) { // by value: consumes a copy or the argument itself
            for (int w : m) {
                if (x.empty()) {
                    c.fail(key, "elements missing");
                    return;
                }
                c.check(x.front().get() == w, key, "");
                c.check(x.pop().get() == w, key, "");
            }
            c.check(x.empty(), key, "elements left");
            vf::life_check(c, key);
        };
        int const n = static_cast<int>(c.range(4, 40));
        for (int s = 0; s < n; ++s) {
            int const op = static_cast<int>(c.below(8));
            int const x = static_cast<int>(c.range(0, 1000));
            c.op("queue", op, x);
            switch (op) {
            case 0:
            case 1:
                if constexpr (copyable) {
                    if (not q.full()) {
                        T t{x};
                        if (attempt(c, [&] { q.push(t); })) {
                            for (int w : m) {
                                c.check(not q.empty() and q.pop().get() == w, "queue-after-failed-push", "");
                            }
                            q = Q{};
                            m.clear();
                        } else {
                            m.push_back(x);
                        }
                        c.check(t.get() == x, "queue-source", "");
                    }
                    break;
                }
                [[fallthrough]];
            case 2:
                if (not q.full()) {
                    c.check(q.push(make<T>(x)).get() == x, "queue-pushed", "");
                    m.push_back(x);
                }
                break;
            case 3:
            case 4:
                if (not q.empty()) {
                    c.eq(q.pop().get(), m.front(), "queue-popped");
                    m.pop_front();
                }
                break;
            case 5:
                if constexpr (copyable) {
                    std::optional<Q> o;
                    if (not attempt(c, [&] { o.emplace(q); })) {
                        drain(std::move(*o), "queue-copy");
                    }
                    drain(q, "queue-copied-from");
                }
                break;
            case 6: {
                Q o{std::move(q)};
                q = Q{};
                q = std::move(o);
                break;
            }
            default:
                if (c.chance(30)) {
                    q.clear();
                    m.clear();
                }
            }
            c.eq(q.size(), m.size(), "queue-size");
            if (not m.empty() and not q.empty()) {
                c.check(q.front().get() == m.front() and q.back().get() == m.back(), "queue-ends", "");
            }
            c.state(vf::mix(m.size() * 16 + static_cast<u64>(op)));
        }
        drain(std::move(q), "queue-values");
    });
}
VF_INST(4, queue, Tracked, 1)
VF_INST(6, queue, Tracked, 4)
VF_INST(4, queue, TrackedMove, 3)

// ---- cx_map, cx_set, cx_multimap ----
template <std::size_t N> void map(vf::Ctx &c) {
    using M = stdx::cx_map<Tracked, Tracked, N>;
    scope(c, [&] {
        M a;
        std::map<int, int> m;
        auto same = [&](M const &x, std::map<int, int> const &want, char const *key) {
            for (auto [k, v] : want) {
                Tracked const kk{k};
                bool const there = x.contains(kk);
                c.check(there and x.get(kk).get() == v, key, vf::str(k));
            }
            vf::life_check(c, key);
        };
        int const n = static_cast<int>(c.range(4, 30));
        for (int s = 0; s < n; ++s) {
            int const op = static_cast<int>(c.below(8));
            int const k = static_cast<int>(c.below(N + 2)), x = static_cast<int>(c.range(0, 1000));
            c.op("map", op, k, x);
            Tracked const kk{k}, xx{x};
            switch (op) {
            case 0:
            case 1:
            case 2:
                if (m.contains(k) or not a.full()) {
                    bool in = false;
                    if (attempt(c, [&] { in = op == 2 ? a.put(kk, xx) : a.insert_or_assign(kk, xx); })) {
                        m.erase(k);
                        same(a, m, "map-after-failed-insert");
                        a = M{};
                        m.clear();
                    } else {
                        c.eq(in, not m.contains(k), "map-inserted");
                        m[k] = x;
                    }
                }
                break;
            case 3: {
                c.eq(a.erase(kk), m.erase(k), "map-erased");
                break;
            }
            case 4: {
                std::optional<M> o;
                if (not attempt(c, [&] { o.emplace(a); })) {
                    same(*o, m, "map-copy");
                    c.eq(o->size(), m.size(), "map-copy");
                }
                break;
            }
            case 5: {
                M o{std::move(a)};
                a = M{};
                a = std::move(o);
                break;
            }
            case 6:
                if (not a.empty()) {
                    auto e = a.pop_back();
                    c.check(m.contains(e.key.get()) and m[e.key.get()] == e.value.get(), "map-popped", "");
                    m.erase(e.key.get());
                }
                break;
            default:
                if (c.chance(30)) {
                    a.clear();
                    m.clear();
                }
            }
            c.eq(a.size(), m.size(), "map-size");
            same(a, m, "map-values");
            c.state(vf::mix(m.size() * 16 + static_cast<u64>(op)));
        }
    });
}
VF_INST(4, map, 1)
VF_INST(6, map, 4)

template <std::size_t N> void set(vf::Ctx &c) {
    using S = stdx::cx_set<Tracked, N>;
    scope(c, [&] {
        S a;
        std::set<int> m;
        int const n = static_cast<int>(c.range(4, 30));
        for (int s = 0; s < n; ++s) {
            int const op = static_cast<int>(c.below(7));
            int const k = static_cast<int>(c.below(N + 2));
            c.op("set", op, k);
            Tracked const kk{k};
            switch (op) {
            case 0:
            case 1:
                if (m.contains(k) or a.size() < N) {
                    bool in = false;
                    if (attempt(c, [&] { in = a.insert(kk); })) {
                        a = S{};
                        m.clear();
                    } else {
                        c.eq(in, m.insert(k).second, "set-inserted");
                    }
                }
                break;
            case 2:
                c.eq(a.erase(kk), m.erase(k), "set-erased");
                break;
            case 3: {
                std::optional<S> o;
                if (not attempt(c, [&] { o.emplace(a); })) {
                    a = std::move(*o);
                }
                break;
            }
            case 4:
                if (not a.empty()) {
                    int const e = a.pop_back().get();
                    c.check(m.erase(e) == 1, "set-popped", "");
                }
                break;
            case 5: {
                S o;
                if (o.size() < N and attempt(c, [&] { o.insert(kk); })) {
                    break;
                }
                std::set<int> u = m;
                u.insert(k);
                if (u.size() <= N) {
                    if (attempt(c, [&] { a.merge(o); })) {
                        a = S{};
                        m.clear();
                    } else {
                        m = u;
                    }
                }
                break;
            }
            default:
                if (c.chance(30)) {
                    a.clear();
                    m.clear();
                }
            }
            std::set<int> got;
            for (auto const &t : a) {
                got.insert(t.get());
            }
            c.check(got == m and a.size() == m.size(), "set-values", "");
            vf::life_check(c, "set");
            c.state(vf::mix(m.size() * 16 + static_cast<u64>(op)));
        }
    });
}
VF_INST(3, set, 1)
VF_INST(4, set, 4)

void multimap(vf::Ctx &c) {
    using M = stdx::cx_multimap<Tracked, Tracked, 4, 3>;
    scope(c, [&] {
        M a;
        std::map<int, std::set<int>> m;
        int const n = static_cast<int>(c.range(4, 30));
        for (int s = 0; s < n; ++s) {
            int const op = static_cast<int>(c.below(6));
            int const k = static_cast<int>(c.below(5)), x = static_cast<int>(c.below(4));
            c.op("multimap", op, k, x);
            Tracked const kk{k}, xx{x};
            switch (op) {
            case 0:
            case 1: {
                bool const fits = m.contains(k) ? (m[k].contains(x) or m[k].size() < 3) : m.size() < 4;
                if (fits) {
                    if (attempt(c, [&] { a.insert(kk, xx); })) {
                        a = M{};
                        m.clear();
                    } else {
                        m[k].insert(x);
                    }
                }
                break;
            }
            case 2:
                c.eq(a.erase(kk), m.erase(k), "multimap-erased");
                break;
            case 3:
                if (m.contains(k) and m[k].contains(x)) {
                    a.erase(kk, xx);
                    m[k].erase(x);
                    if (m[k].empty()) {
                        m.erase(k);
                    }
                }
                break;
            case 4: {
                std::optional<M> o;
                if (not attempt(c, [&] { o.emplace(a); })) {
                    a = std::move(*o);
                }
                break;
            }
            default:
                if (c.chance(30)) {
                    a.clear();
                    m.clear();
                }
            }
            for (int i = 0; i < 5; ++i) {
                Tracked const ii{i};
                c.eq(a.contains(ii), m.contains(i), "multimap-keys");
                if (m.contains(i) and a.contains(ii)) {
                    std::set<int> got;
                    for (auto const &t : a.get(ii)) {
                        got.insert(t.get());
                    }
                    c.check(got == m[i], "multimap-values", "");
                }
            }
            vf::life_check(c, "multimap");
            c.state(vf::mix(m.size() * 16 + static_cast<u64>(op)));
        }
    });
}
static vf::Reg reg_multimap{"multimap", 4, multimap};

// ---- optional ----
template <typename T> void optional(vf::Ctx &c) {
    using O = stdx::optional<T>;
    constexpr bool copyable = std::is_copy_constructible_v<T>;
    scope(c, [&] {
        O o;
        int m = -1;
        int const n = static_cast<int>(c.range(4, 40));
        for (int s = 0; s < n; ++s) {
            int const op = static_cast<int>(c.below(15));
            int const x = static_cast<int>(c.range(0, 1000));
            c.op("optional", op, x);
            bool const boom = c.chance(20); // the user function throws
            auto user = [&](auto &&t) {
                if (boom) {
                    throw std::runtime_error("user");
                }
                return T{t.get() + 1};
            };
            auto guarded = [&](auto &&f) {
                try {
                    f();
                    return false;
                } catch (std::runtime_error const &) {
                    return true;
                }
            };
            switch (op) {
            case 0:
                if constexpr (copyable) {
                    T t{x};
                    if (not attempt(c, [&] { o = t; })) {
                        m = x;
                    }
                    c.check(t.get() == x, "optional-source", "");
                }
                break;
            case 1:
                o = make<T>(x);
                m = x;
                break;
            case 2:
                o.reset();
                m = -1;
                break;
            case 3:
                o = std::nullopt;
                m = -1;
                break;
            case 4:
                c.check(o.emplace(x).get() == x, "optional-emplaced", "");
                m = x;
                break;
            case 5:
                if constexpr (copyable) {
                    std::optional<O> p;
                    if (not attempt(c, [&] { p.emplace(o); })) {
                        c.check(*p == o, "optional-copy", "");
                        if (c.coin()) {
                            o = std::move(*p);
                        }
                    }
                }
                break;
            case 6: {
                O p{std::move(o)};
                c.check(p.has_value() == (m != -1), "optional-moved", "");
                o = std::move(p);
                break;
            }
            case 7:
                if constexpr (copyable) {
                    int got = 0;
                    if (not attempt(c, [&] { got = std::as_const(o).value_or(T{x}).get(); })) {
                        c.eq(got, m == -1 ? x : m, "optional-value_or");
                    }
                }
                break;
            case 8: {
                int const got = std::move(o).value_or(T{x}).get();
                c.eq(got, m == -1 ? x : m, "optional-value_or");
                o = make<T>(x);
                m = x;
                break;
            }
            case 9: {
                bool const threw = guarded([&] {
                    auto r = c.coin() ? o.transform(user) : std::as_const(o).transform(user);
                    c.check(m == -1 ? not r.has_value() : r.has_value() and r->get() == m + 1, "optional-transform", "");
                });
                c.eq(threw, boom and m != -1, "optional-transform-throws");
                break;
            }
            case 10: {
                bool const threw = guarded([&] {
                    auto r = std::move(o).transform([&](T &&t) {
                        T mine{std::move(t)};
                        return user(mine);
                    });
                    c.check(m == -1 ? not r.has_value() : r.has_value() and r->get() == m + 1, "optional-transform", "");
                });
                c.eq(threw, boom and m != -1, "optional-transform-throws");
                o = make<T>(x);
                m = x;
                break;
            }
            case 11: {
                bool const threw = guarded([&] {
                    auto r = o.and_then([&](T &t) { return O{user(t)}; });
                    c.check(m == -1 ? not r.has_value() : r.has_value() and r->get() == m + 1, "optional-and_then", "");
                });
                c.eq(threw, boom and m != -1, "optional-and_then-throws");
                break;
            }
            case 12: {
                bool const threw = guarded([&] {
                    auto r = std::move(o).or_else([&] {
                        if (boom) {
                            throw std::runtime_error("user");
                        }
                        return O{T{x}};
                    });
                    c.check(r.has_value() and r->get() == (m == -1 ? x : m), "optional-or_else", "");
                });
                c.eq(threw, boom and m == -1, "optional-or_else-throws");
                o = make<T>(x + 1);
                m = x + 1;
                break;
            }
            case 13: {
                O p{std::in_place, x};
                std::swap(o, p);
                c.check(m == -1 ? not p.has_value() : p.has_value() and p->get() == m, "optional-swapped", "");
                m = x;
                break;
            }
            default:
                if (m != -1) {
                    T t = *std::move(o);
                    c.check(t.get() == m, "optional-taken", "");
                    o = std::move(t);
                }
            }
            c.eq(o.has_value(), m != -1, "optional-has_value");
            if (m != -1 and o.has_value()) {
                c.check(o->get() == m, "optional-value", "");
            }
            vf::life_check(c, "optional");
            c.state(vf::mix(static_cast<u64>(op) * 2 + (m != -1)));
        }
    });
}
VF_INST(8, optional, Tracked)
VF_INST(6, optional, TrackedMove)

// ---- cached, latched ----
struct Source { // also a tracked object
    Tracked own;
    int *value;
    int *fail;
    int *calls;
    Tracked operator()() && { // consumes the function
        Source mine{std::move(*this)};
        return mine();
    }
    Tracked operator()() const & {
        ++*calls;
        if (own.get() != 5) {
            vf::life.bad("the stored function was not intact");
        }
        if (*fail > 0 and --*fail == 0) {
            throw std::runtime_error("user");
        }
        return Tracked{*value};
    }
};
void caches(vf::Ctx &c) {
    scope(c, [&] {
        int value = 1, fail = 0, calls = 0;
        using C = stdx::cached<Source>;
        using L = stdx::latched<Source>;
        std::optional<C> ca;
        std::optional<L> la;
        ca.emplace(Source{Tracked{5}, &value, &fail, &calls});
        la.emplace(Source{Tracked{5}, &value, &fail, &calls});
        int mc = -1, ml = -1;
        int const n = static_cast<int>(c.range(3, 30));
        for (int s = 0; s < n; ++s) {
            int const op = static_cast<int>(c.below(10));
            c.op("cached", op);
            value = static_cast<int>(c.range(0, 1000));
            fail = c.chance(25) ? 1 : 0;
            calls = 0;
            auto get = [&](int &m, auto &&f) {
                bool const has = m != -1, boom = fail != 0;
                int got = 0;
                bool threw = false;
                try {
                    got = f();
                } catch (std::runtime_error const &) {
                    threw = true;
                }
                c.eq(threw, boom and not has, "cached-throws");
                c.eq(calls, has ? 0 : 1, "cached-calls");
                if (not threw) {
                    m = has ? m : value;
                    c.eq(got, m, "cached-value");
                }
            };
            switch (op) {
            case 0:
                get(mc, [&] { return ca->value().get(); });
                break;
            case 1:
                get(mc, [&] { return (**ca).get(); });
                break;
            case 2:
                get(mc, [&] { return (*ca)->get(); });
                break;
            case 3:
                get(ml, [&] { return la->value().get(); });
                break;
            case 4:
                get(ml, [&] { return (*la)->get(); });
                break;
            case 5:
                ca->reset();
                mc = -1;
                break;
            case 6: {
                bool threw = false, boom = fail != 0;
                try {
                    ca->refresh();
                } catch (std::runtime_error const &) {
                    threw = true;
                }
                c.eq(threw, boom, "cached-refresh-throws");
                mc = threw ? -1 : value;
                break;
            }
            case 7: {
                std::optional<C> k;
                if (not attempt(c, [&] { k.emplace(*ca); })) {
                    c.eq(k->has_value(), mc != -1, "cached-copy");
                    ca.emplace(std::move(*k));
                }
                break;
            }
            case 8: {
                L k{std::move(*la)};
                la.emplace(std::move(k));
                break;
            }
            default: {
                std::optional<L> k;
                attempt(c, [&] { k.emplace(*la); });
            }
            }
            c.eq(ca->has_value(), mc != -1, "cached-has_value");
            c.eq(la->has_value(), ml != -1, "latched-has_value");
            vf::life_check(c, "cached");
            c.state(vf::mix(static_cast<u64>(op) * 4 + (mc != -1) * 2 + (ml != -1)));
        }
    });
}
static vf::Reg reg_caches{"caches", 6, caches};
} // namespace

// A known defect, kept apart: emplace destroys the old value first, so a
// constructor that throws leaves nothing for the destructor to destroy.
namespace emplace_throw {
struct Bare {
    int v{};
    explicit Bare(int i, bool boom = false) : v{i} {
        if (boom) {
            throw std::runtime_error("constructor");
        }
        vf::life.born(this);
    }
    Bare(Bare const &o) : v{o.v} { vf::life.born(this); }
    ~Bare() { vf::life.died(this); }
    friend bool operator==(Bare const &a, Bare const &b) { return a.v == b.v; }
};
} // namespace emplace_throw
template <> struct stdx::tombstone_traits<emplace_throw::Bare> {
    auto operator()() const { return emplace_throw::Bare{-1}; }
};
VF_EXHAUSTIVE(optional_emplace_throw, 2) {
    c.op("emplace", c.case_no);
    vf::life.reset();
    {
        stdx::optional<emplace_throw::Bare> o;
        if (c.case_no == 1) {
            o.emplace(3);
        }
        try {
            o.emplace(4, true);
        } catch (std::runtime_error const &) {
        }
    }
    vf::life_check(c, "emplace");
}
