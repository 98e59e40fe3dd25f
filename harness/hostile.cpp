// Element types, iterators and results that overload what generic code must not use on them.
#include "vf.hpp"

#include <array>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace hostile {
struct H {
    int v{};
    constexpr H() = default;
    constexpr explicit H(int i) : v{i} {}
#if PART == 11 || PART == 12
    void operator&() const = delete;
#endif
    friend constexpr bool operator==(H const &, H const &) = default;
    friend constexpr auto operator<=>(H const &, H const &) = default;
};

// what an unqualified call would find
#define VF_LURE(name) template <typename... Ts> void name(Ts &&...) = delete;
VF_LURE(move)
VF_LURE(forward)
VF_LURE(addressof)
VF_LURE(exchange)
VF_LURE(to_address)
VF_LURE(construct_at)
VF_LURE(destroy_at)
} // namespace hostile

namespace {
using hostile::H;

struct J { // braces around one of these are a list of it, where the library promises not to use them
    int depth;
    J() : depth{} {}
    J(int i) : depth{i} {}
#if PART == 12
    J(std::initializer_list<J> l) : depth{100 + static_cast<int>(l.size())} {}
#endif
    J(J const &) = default;
    J &operator=(J const &) = default;
    friend bool operator==(J const &, J const &) = default;
    friend auto operator<=>(J const &, J const &) = default;
};

struct Stop {};
// a function that gives up at its k-th call: the exception must arrive, and no further call be made
struct Quits {
    int k;
    int calls{};
    auto step() -> void {
        if (calls++ == k) {
            throw Stop{};
        }
    }
    template <typename F> auto stopped(F &&f) -> bool {
        calls = 0;
        try {
            std::forward<F>(f)();
        } catch (Stop const &) {
            return calls == k + 1;
        }
        return false;
    }
};

#define VF_TYPE(expr, ...)                                                     \
    c.check(std::is_same_v<decltype(expr), __VA_ARGS__>, "type", #expr)
#if PART == 1
} // namespace
#include <stdx/cx_vector.hpp>
namespace {
VF_SUITE(vector, 1) {
    stdx::cx_vector<H, 6> v{H{1}, H{2}};
    std::vector<int> m{1, 2};
    for (auto n = c.below(24); n > 0; --n) {
        auto const i = static_cast<int>(c.below(100));
        H const h{i};
        c.op("op", i);
        if (m.size() < 6 and c.chance(60)) {
            c.coin() ? v.push_back(h) : v.push_back(H{i});
            m.push_back(i);
        } else if (not m.empty()) {
            c.eq(v.pop_back().v, m.back(), "pop_back");
            m.pop_back();
        } else {
            v.clear();
        }
        c.eq(std::size_t{v.size()}, m.size(), "size");
        std::size_t k = 0;
        for (auto const &e : v) {
            c.eq(e.v, m[k++], "element");
        }
        auto w = v;
        c.check(w == v, "equal", "");
        if (not m.empty()) {
            w.back().v ^= 1;
            c.check(not(w == v), "unequal", "");
            c.eq(v.back().v, m.back(), "back");
            c.eq(get<0>(v).v, m[0], "get");
        }
    }
}
VF_SUITE(listed, 1) {
    auto const i = static_cast<int>(c.below(90));
    c.op("listed", i);
    J const d(i + 1);
    stdx::cx_vector<J, 4> v{J(i), d};
    v.push_back(J(i + 2));
    v.push_back(d);
    auto w = v;
    c.check(w[0].depth == i and w[1].depth == i + 1 and w[2].depth == i + 2 and w == v, "listed", "");
    c.eq(w.pop_back().depth, i + 1, "listed");
    c.eq(get<0>(w).depth, i, "listed");
    stdx::cx_vector<J, 2> const one{J(i)};
    c.check(one.size() == 1 and one[0].depth == i, "listed-one", "");
    stdx::cx_vector<J, 2> const copy{one};
    c.check(copy.size() == 1 and copy[0].depth == i, "listed-copy", "");
    stdx::cx_vector const deduced{J(i), J(2)};
    c.check(deduced.size() == 2 and deduced[0].depth == i, "listed-deduced", "");
    stdx::cx_vector<stdx::cx_vector<int, 3>, 3> nested{};
    stdx::cx_vector<int, 3> const inner{i, 2};
    nested.push_back(inner);
    c.check(nested.size() == 1 and nested[0] == inner and nested.pop_back() == inner, "nested", "");
}
VF_SUITE(access, 1) {
    c.op("access", 0);
    stdx::cx_vector<H, 3> v{H{1}};
    auto const &k = v;
    VF_TYPE(*v.begin(), H &);
    VF_TYPE(*k.begin(), H const &);
    VF_TYPE(*v.cbegin(), H const &);
    VF_TYPE(*v.rbegin(), H &);
    VF_TYPE(*k.rbegin(), H const &);
    VF_TYPE(*v.crbegin(), H const &);
    VF_TYPE(v.front(), H &);
    VF_TYPE(k.front(), H const &);
    VF_TYPE(v.back(), H &);
    VF_TYPE(k.back(), H const &);
    VF_TYPE(v[0], H &);
    VF_TYPE(k[0], H const &);
    VF_TYPE(get<0>(v), H &);
    VF_TYPE(get<0>(k), H const &);
    VF_TYPE(v.push_back(H{}), H &);
    VF_TYPE(v.pop_back(), H);
}
#elif PART == 2
} // namespace
#include <stdx/cx_queue.hpp>
namespace {
VF_SUITE(queue, 1) {
    stdx::cx_queue<H, 5> q{};
    std::vector<int> m{};
    for (auto n = c.below(24); n > 0; --n) {
        auto const i = static_cast<int>(c.below(100));
        H const h{i};
        c.op("op", i);
        if (m.size() < 5 and c.chance(60)) {
            c.eq((c.coin() ? q.push(h) : q.push(H{i})).v, i, "push");
            m.push_back(i);
        } else if (not m.empty()) {
            c.eq(q.pop().v, m.front(), "pop");
            m.erase(m.begin());
        } else {
            q.clear();
        }
        c.eq(std::size_t{q.size()}, m.size(), "size");
        if (not m.empty()) {
            c.eq(q.front().v, m.front(), "front");
            c.eq(q.back().v, m.back(), "back");
        }
    }
}
VF_SUITE(listed, 1) {
    auto const i = static_cast<int>(c.below(90));
    c.op("listed", i);
    J const d(i + 1);
    stdx::cx_queue<J, 3> q{};
    c.eq(q.push(J(i)).depth, i, "listed");
    c.eq(q.push(d).depth, i + 1, "listed");
    auto p = q;
    c.check(p.front().depth == i and p.back().depth == i + 1, "listed", "");
    c.eq(p.pop().depth, i, "listed");
    c.eq(p.pop().depth, i + 1, "listed");
}
VF_SUITE(access, 1) {
    c.op("access", 0);
    stdx::cx_queue<H, 3> q{};
    auto const &k = q;
    VF_TYPE(q.push(H{}), H &);
    VF_TYPE(q.front(), H &);
    VF_TYPE(k.front(), H const &);
    VF_TYPE(q.back(), H &);
    VF_TYPE(k.back(), H const &);
    VF_TYPE(q.pop(), H);
}
#elif PART == 4
} // namespace
#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_set.hpp>

#include <map>
#include <set>
namespace {
VF_SUITE(maps, 1) {
    stdx::cx_map<H, H, 6> p{};
    stdx::cx_set<H, 6> s{};
    stdx::cx_multimap<H, H, 6, 3> mm{};
    std::map<int, int> mp;
    std::set<int> ms;
    std::map<int, std::set<int>> mmm;
    for (auto n = c.below(24); n > 0; --n) {
        auto const k = static_cast<int>(c.below(6)), x = static_cast<int>(c.below(3));
        H const hk{k}, hx{x};
        c.op("op", k, x);
        switch (c.below(4)) {
        case 0:
            c.eq(p.put(hk, hx), mp.insert_or_assign(k, x).second, "put");
            c.eq(s.insert(hk), ms.insert(k).second, "insert");
            break;
        case 1:
            c.eq(static_cast<std::size_t>(p.erase(hk)), mp.erase(k), "erase");
            c.eq(static_cast<std::size_t>(s.erase(hk)), ms.erase(k), "set-erase");
            break;
        case 2:
            mm.put(hk, hx);
            mmm[k].insert(x);
            break;
        default:
            mm.erase(hk);
            mmm.erase(k);
        }
        c.eq(std::size_t{p.size()}, mp.size(), "size");
        c.eq(std::size_t{s.size()}, ms.size(), "set-size");
        c.eq(std::size_t{mm.size()}, mmm.size(), "multi-size");
        for (int i = 0; i < 6; ++i) {
            c.eq(p.contains(H{i}), mp.contains(i), "contains");
            c.eq(s.contains(H{i}), ms.contains(i), "set-contains");
            c.eq(mm.contains(H{i}), mmm.contains(i), "multi-contains");
            if (mp.contains(i)) {
                c.eq(p.get(H{i}).v, mp[i], "get");
            }
            for (int j = 0; j < 3; ++j) {
                c.eq(mm.contains(H{i}, H{j}), mmm.contains(i) and mmm[i].contains(j), "multi-value");
            }
        }
    }
}
VF_SUITE(listed, 1) {
    auto const i = static_cast<int>(c.below(90));
    c.op("listed", i);
    J const k(i), x(i + 1);
    stdx::cx_map<J, J, 3> m{};
    stdx::cx_set<J, 3> s{};
    stdx::cx_multimap<J, J, 3, 2> mm{};
    c.check(m.put(k, x) and s.insert(k), "listed", "");
    mm.put(k, x);
    auto const n = m;
    auto const t = s;
    auto const nn = mm;
    c.check(n.contains(k) and n.get(k).depth == i + 1 and n.begin()->key.depth == i, "listed", "map");
    c.check(t.contains(k) and t.begin()->depth == i, "listed", "set");
    c.check(nn.contains(k, x) and not nn.contains(x, k), "listed", "multimap");
    c.check(not m.put(k, k) and m.get(k).depth == i, "listed", "assigned");
    stdx::cx_set<J, 2> const one{J(i)};
    c.check(one.size() == 1 and one.contains(k), "listed", "one");
    stdx::cx_map<J, J, 2> const pairs{stdx::cx_map<J, J, 2>::value_type{k, x}};
    c.check(pairs.size() == 1 and pairs.contains(k) and pairs.get(k).depth == i + 1, "listed", "pairs");
    c.eq(m.pop_back().key.depth, i, "listed");
}
VF_SUITE(access, 1) {
    c.op("access", 0);
    stdx::cx_map<H, J, 3> m{};
    auto const &km = m;
    VF_TYPE(((*m.begin()).value), J &);
    VF_TYPE(((*km.begin()).value), J const &);
    VF_TYPE(((*m.cbegin()).value), J const &);
    VF_TYPE(((*km.begin()).key), H const &);
    VF_TYPE(m.get(H{}), J &);
    VF_TYPE(km.get(H{}), J const &);
    stdx::cx_set<H, 3> s{};
    auto const &ks = s;
    VF_TYPE(*ks.begin(), H const &);
    VF_TYPE(*s.cbegin(), H const &);
    stdx::cx_multimap<H, J, 3, 2> mm{};
    auto const &kmm = mm;
    VF_TYPE(((*kmm.begin()).key), H const &);
    VF_TYPE(*std::as_const((*kmm.begin()).value).begin(), J const &);
    VF_TYPE(*(*mm.cbegin()).value.begin(), J const &);
}
#elif PART == 5
} // namespace
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>
namespace {
struct N2 {
    N2 *prev{}, *next{};
    int v{};
};
template <typename L> void list_access(vf::Ctx &c) {
    c.op("access", 0);
    N2 n{};
    L l{};
    l.push_back(&n);
    auto const &k = l;
    VF_TYPE(*l.begin(), N2 &);
    VF_TYPE(*k.begin(), N2 const &);
    VF_TYPE(*l.cbegin(), N2 const &);
    VF_TYPE(l.begin().operator->(), N2 *);
    VF_TYPE(k.begin().operator->(), N2 const *);
    VF_TYPE(l.front(), N2 &);
    VF_TYPE(l.back(), N2 &);
    VF_TYPE(l.pop_front(), N2 *);
    c.check(k.begin().operator->() == &n and k.cbegin() != k.cend() and k.begin() == k.cbegin(), "const", "");
    c.check(++k.begin() == k.end() and ++k.cbegin() == k.cend(), "const-end", "");
    l.clear();
}
VF_SUITE(access, 1) {
    list_access<stdx::intrusive_list<N2>>(c);
    list_access<stdx::intrusive_list<N2, stdx::node_policy::unchecked>>(c);
    list_access<stdx::intrusive_forward_list<N2>>(c);
    list_access<stdx::intrusive_forward_list<N2, stdx::node_policy::unchecked>>(c);
}
#elif PART == 6
} // namespace
#include <stdx/bitset.hpp>
namespace {
VF_SUITE(stops, 1) {
    c.op("stops", 0);
    stdx::bitset<70, std::uint8_t> a{};
    stdx::bitset<70, std::uint64_t> b{};
    int n = 0;
    for (std::size_t i = 0; i < 70; ++i) {
        if (c.chance(20)) {
            a.set(i);
            b.set(i);
            ++n;
        }
    }
    for (int k = 0; k < n; ++k) {
        Quits q{k};
        auto const f = [&](auto) { q.step(); return 1; };
        c.check(q.stopped([&] { stdx::for_each(f, a); }), "for_each", "");
        c.check(q.stopped([&] { stdx::for_each(f, b); }), "for_each", "");
        c.check(q.stopped([&] { static_cast<void>(stdx::transform_reduce(f, [](auto x, auto y) { return x + y; }, 0, a)); }),
                "transform_reduce", "");
        c.check(q.stopped([&] { static_cast<void>(stdx::transform_reduce(f, [](auto x, auto y) { return x + y; }, 0, b)); }),
                "transform_reduce", "");
    }
    c.check(static_cast<int>(a.count()) == n and static_cast<int>(b.count()) == n, "unchanged", "");
}
#elif PART == 12
} // namespace
#include <stdx/optional.hpp>

#include <optional>
template <> struct stdx::tombstone_traits<J> {
    auto operator()() const { return J(-1); }
};
template <> struct stdx::tombstone_traits<hostile::H> {
    constexpr auto operator()() const { return hostile::H{-1}; }
};
namespace {
VF_SUITE(optional, 1) {
    using O = stdx::optional<H>;
    O o{};
    std::optional<int> m{};
    for (auto n = 1 + c.below(16); n > 0; --n) {
        auto const i = static_cast<int>(c.below(100));
        c.op("op", i);
        switch (c.below(5)) {
        case 0: o = H{i}; m = i; break;
        case 1: o.emplace(i); m = i; break;
        case 2: o.reset(); m.reset(); break;
        case 3: {
            O p{std::in_place, i};
            o = c.coin() ? p : std::move(p);
            m = i;
            break;
        }
        default: {
            H const h{i};
            o = O{h};
            m = i;
        }
        }
        c.eq(o.has_value(), m.has_value(), "engaged");
        c.eq(o.value_or(H{7}).v, m.value_or(7), "value_or");
        if (m) {
            c.eq((*o).v, *m, "dereference");
            c.eq(o->v, *m, "arrow");
            c.eq(std::as_const(o)->v, *m, "arrow-const");
            c.eq(o.value().v, *m, "value");
            o->v ^= 1;
            c.eq(std::as_const(o).value().v, *m ^ 1, "written");
            o->v ^= 1;
        }
        c.check((o == O{H{i}}) == (m == i) and (o < O{H{i}}) == (m < i), "compare", "");
        auto const t = o.transform([](H const &h) { return H{h.v + 1}; });
        c.eq(t.has_value(), m.has_value(), "transform");
        if (m) {
            c.eq(t->v, *m + 1, "transform");
        }
        auto const a = o.and_then([](H const &h) { return O{H{h.v + 2}}; }).or_else([] { return O{H{9}}; });
        c.eq(a->v, m ? *m + 2 : 9, "chain");
        auto const both = stdx::transform([](H const &x, H const &y) { return H{x.v * 100 + y.v}; }, o, a);
        c.eq(both.has_value(), m.has_value(), "multi-transform");
    }
}
VF_SUITE(listed, 1) {
    using O = stdx::optional<int, stdx::tombstone_value<-1>>;
    auto const i = static_cast<int>(c.below(90));
    c.op("listed", i);
    auto const o = O{i}.transform([](int x) { return J{x}; });
    c.eq(o->depth, J{i}.depth, "transform");
    auto const p = stdx::optional<J>{J(i)};
    c.eq(p->depth, i, "value");
    c.eq((stdx::optional<J>{std::in_place, i}->depth), i, "in_place");
    c.eq((stdx::optional<J>{std::in_place, J(i)}->depth), i, "in_place");
    c.eq(p.value_or(J(1)).depth, i, "value_or");
    c.eq(stdx::optional<J>{}.value_or(J(i)).depth, i, "value_or");
    stdx::optional<J> q{};
    q = J(i);
    c.eq(q->depth, i, "assigned");
    c.eq(q.emplace(J(i)).depth, i, "emplaced");
    q = p;
    c.eq(q->depth, i, "copied");
    q.reset();
    c.check(not q.has_value(), "reset", "");
}
VF_SUITE(stops, 1) {
    auto const i = static_cast<double>(c.below(90)) + 1;
    c.op("stops", i);
    stdx::optional<double> o{i};
    stdx::optional<double> e{};
    auto const &ko = o;
    Quits q{0};
    auto const f = [&](double const &x) -> double { q.step(); return x; };
    auto const g = [&](double const &x) -> stdx::optional<double> { q.step(); return stdx::optional<double>{x}; };
    auto const h = [&]() -> stdx::optional<double> { q.step(); return stdx::optional<double>{1}; };
    c.check(q.stopped([&] { static_cast<void>(o.transform(f)); }), "transform", "&");
    c.check(q.stopped([&] { static_cast<void>(ko.transform(f)); }), "transform", "const &");
    c.check(q.stopped([&] { static_cast<void>(std::move(o).transform(f)); }), "transform", "&&");
    c.check(q.stopped([&] { static_cast<void>(std::move(ko).transform(f)); }), "transform", "const &&");
    c.check(q.stopped([&] { static_cast<void>(o.and_then(g)); }), "and_then", "&");
    c.check(q.stopped([&] { static_cast<void>(ko.and_then(g)); }), "and_then", "const &");
    c.check(q.stopped([&] { static_cast<void>(std::move(o).and_then(g)); }), "and_then", "&&");
    c.check(q.stopped([&] { static_cast<void>(std::move(ko).and_then(g)); }), "and_then", "const &&");
    c.check(q.stopped([&] { static_cast<void>(o | g); }), "pipe", "&");
    c.check(q.stopped([&] { static_cast<void>(ko | g); }), "pipe", "const &");
    c.check(q.stopped([&] { static_cast<void>(std::move(o) | g); }), "pipe", "&&");
    c.check(q.stopped([&] { static_cast<void>(std::as_const(e).or_else(h)); }), "or_else", "const &");
    c.check(q.stopped([&] { static_cast<void>(std::move(e).or_else(h)); }), "or_else", "&&");
    auto const two = [&](double x, double y) -> double { q.step(); return x + y; };
    c.check(q.stopped([&] { static_cast<void>(stdx::transform(two, o, ko)); }), "transform", "free");
    c.check(o.has_value() and *o == i and not e.has_value(), "unchanged", "");
}
#elif PART == 11
} // namespace
#include <stdx/byterator.hpp>
namespace {
VF_SUITE(bytes, 1) {
    std::vector<std::uint8_t> bytes(40);
    auto const at = static_cast<std::ptrdiff_t>(c.below(36));
    auto const i = static_cast<int>(c.next());
    c.op("bytes", at, i);
    auto it = stdx::byterator{bytes.data()} + at;
    H h{i};
    it.write(h);
    it -= static_cast<std::ptrdiff_t>(sizeof(H));
    c.eq(it.peek<H>().v, i, "peek");
    c.eq(it.read<H>().v, i, "read");
    H hs[3]{H{1}, H{2}, H{i}};
    auto hit = stdx::byterator{hs + 0};
    hit.advance<H>().advance<H>();
    c.eq(hit.read<H>().v, i, "element");
    hit -= 4;
    hit.write(H{5});
    c.eq(hs[2].v, 5, "written");
}
#elif PART == 13
} // namespace
#include <stdx/cached.hpp>
#include <stdx/latched.hpp>
namespace {
VF_SUITE(computed, 1) {
    auto const i = static_cast<int>(c.below(1000));
    c.op("computed", i);
    int calls = 0;
    stdx::cached ca{[&] { return H{i + calls++}; }};
    stdx::latched la{[&] { return H{i}; }};
    c.check(not ca.has_value() and not la.has_value(), "has_value", "");
    c.eq(ca->v, i, "arrow");
    c.eq((*ca).v, i, "dereference");
    c.eq(std::as_const(ca)->v, i, "arrow");
    c.eq(la->v, i, "latched-arrow");
    c.eq((*std::as_const(la)).v, i, "latched-dereference");
    ca.refresh();
    c.eq(ca->v, i + 1, "refreshed");
    ca.reset();
    c.eq((*ca).v, i + 2, "recomputed");
}
VF_SUITE(listed, 1) {
    auto const i = static_cast<int>(c.below(90));
    c.op("listed", i);
    stdx::cached ca{[&] { return J(i); }};
    stdx::latched la{[&] { return J(i); }};
    c.eq(ca->depth, i, "cached");
    c.eq((*la).depth, i, "latched");
    c.eq(ca.refresh().depth, i, "refreshed");
    stdx::cached ct{[&] { return std::vector<J>(static_cast<std::size_t>(i), J(1)); }};
    c.eq(ct->size(), static_cast<std::size_t>(i), "cached-vector");
}
#elif PART == 14
} // namespace
#include <stdx/tuple.hpp>
#include <stdx/tuple_destructure.hpp>
namespace {
VF_SUITE(tuple, 1) {
    auto const i = static_cast<int>(c.below(1000));
    c.op("tuple", i);
    H h{i + 3};
    stdx::tuple<H, H const, H &, int> t{H{i}, H{i + 1}, h, 5};
    c.eq(get<0>(t).v, i, "get");
    c.eq(t[stdx::index<1>].v, i + 1, "index");
    c.check(std::addressof(get<2>(t)) == std::addressof(h), "reference", "");
    auto const &[a, b, r, n] = t;
    c.check(a.v == i and b.v == i + 1 and std::addressof(r) == std::addressof(h) and n == 5, "bindings", "");
    stdx::tuple const x{H{i}, H{1}}, y{H{i}, H{2}};
    c.check(x < y and x != y and x == x and (x <=> y) < 0, "compare", "");
    c.eq(x.fold_left(H{1}, [](H s, H e) { return H{s.v * 3 + e.v}; }).v, (3 + i) * 3 + 1, "fold_left");
    c.eq(x.fold_right(H{1}, [](H e, H s) { return H{s.v * 3 + e.v}; }).v, (3 + 1) * 3 + i, "fold_right");
    c.eq(x.join([](H s, H e) { return H{s.v * 3 + e.v}; }).v, i * 3 + 1, "join");
    c.eq(x.join(H{9}, [](H s, H e) { return H{s.v * 3 + e.v}; }).v, i * 3 + 1, "join");
    c.eq(x.apply([](H p, H q) { return H{p.v * 7 + q.v}; }).v, i * 7 + 1, "apply");
    c.check(stdx::one_of{H{1}, H{2}} == H{2}, "one_of", "");
}
VF_SUITE(nested, 1) {
    auto const i = static_cast<int>(c.below(90));
    c.op("nested", i);
    auto const t = stdx::make_tuple(stdx::tuple{i});
    static_assert(std::is_same_v<decltype(t), stdx::tuple<stdx::tuple<int>> const>);
    c.eq(get<0>(get<0>(t)), i, "nested");
    auto const u = t;
    c.check(u == t and not(u < t), "nested-compare", "");
    auto const j = stdx::make_tuple(J(i));
    auto const k = j;
    c.check(get<0>(k).depth == i and get<J>(j).depth == i, "listed", "");
    c.eq(j.apply([](auto x) { return x; }).depth, i, "listed-apply");
    c.eq(j.fold_left(J(1), [](J, J x) { return x; }).depth, i, "listed-fold");
    c.eq(j.join([](J, J x) { return x; }).depth, i, "listed-join");
    auto const f = stdx::forward_as_tuple(t);
    static_assert(std::is_same_v<decltype(f), stdx::tuple<stdx::tuple<stdx::tuple<int>> const &> const>);
    c.eq(get<0>(get<0>(get<0>(f))), i, "nested-forward");
}
#elif PART == 15
} // namespace
#include <stdx/tuple_algorithms.hpp>
namespace {
VF_SUITE(algorithms, 1) {
    auto const i = static_cast<int>(c.below(1000));
    c.op("algorithms", i);
    stdx::tuple const t{H{i}, H{2}, H{3}};
    std::vector<int> log;
    auto const note = [&](H const &h) { log.push_back(h.v); };
    auto const logged = [&](std::vector<int> const &want, char const *key) {
        c.check(log == want, key, vf::str(log).c_str());
        log.clear();
    };
    stdx::for_each(note, t);
    logged({i, 2, 3}, "for_each");
    stdx::for_each([&](H const &a, H const &b) { log.push_back(a.v + b.v); }, t, t);
    logged({2 * i, 4, 6}, "for_each-two");
    stdx::enumerate([&]<auto I>(H const &h) { log.push_back(h.v * 10 + int(I)); }, t);
    logged({i * 10, 21, 32}, "enumerate");
    auto const u = stdx::transform([&](H const &h) { note(h); return h; }, t);
    logged({i, 2, 3}, "transform");
    c.eq(get<2>(u).v, 3, "transform");
    stdx::unrolled_for_each(note, std::array{H{4}, H{i}});
    logged({4, i}, "unrolled");
    c.eq(stdx::any_of([&](H const &h) { log.push_back(h.v); return h.v == 2; }, t), true, "any_of");
    logged(i == 2 ? std::vector<int>{2} : std::vector<int>{i, 2}, "any_of-calls");
    c.eq(get<0>(stdx::tuple_cons(H{8}, t)).v, 8, "cons");
    c.eq(get<3>(stdx::tuple_snoc(t, H{8})).v, 8, "snoc");
    c.eq(get<4>(stdx::tuple_cat(t, u)).v, 2, "cat");
    c.eq(stdx::apply([](auto const &...hs) { return H{(0 + ... + hs.v)}; }, t, u).v, 2 * (i + 5), "apply");
    auto const cp = stdx::cartesian_product_copy(t, u);
    c.eq(get<1>(get<3>(cp)).v, i, "cartesian");
    auto const g = stdx::gather(stdx::tuple{H{i}, 5, H{6}});
    c.eq(std::size_t{decltype(g)::size()}, std::size_t{2}, "gather");
    auto const s = stdx::sort(stdx::tuple{5, H{6}, 'c'});
    c.eq(get<H>(s).v, 6, "sort");
    auto const un = stdx::to_unsorted_set(stdx::tuple{H{i}, 5, H{6}});
    c.eq(get<H>(un).v, i, "set");
}
VF_SUITE(nested, 1) {
    auto const i = static_cast<int>(c.below(90));
    c.op("nested", i);
    auto const t = stdx::make_tuple(stdx::tuple{i});
    using T1 = stdx::tuple<int>;
    using T2 = stdx::tuple<T1>;
    auto const is = [&]<typename W>(stdx::type_identity<W>, auto const &x, char const *key) {
        c.check(std::is_same_v<std::remove_cvref_t<decltype(x)>, W>, key, "another type");
    };
    stdx::type_identity<T2> const t2{};
    is(t2, stdx::tuple_cat(t), "cat");
    is(t2, stdx::tuple_cat(t, stdx::tuple{}), "cat");
    is(stdx::type_identity<stdx::tuple<T1, T1>>{}, stdx::tuple_cat(t, t), "cat");
    is(t2, stdx::tuple_cons(stdx::tuple{i}, stdx::tuple{}), "cons");
    is(t2, stdx::tuple_snoc(stdx::tuple{}, stdx::tuple{i}), "snoc");
    is(t2, stdx::filter<std::is_class>(t), "filter");
    is(t2, stdx::transform([](auto const &x) { return x; }, t), "transform");
    is(t2, stdx::transform([](int x) { return stdx::tuple{x}; }, stdx::tuple{i}), "transform");
    is(t2, stdx::transform([](int x, int) { return stdx::tuple{x}; }, stdx::tuple{i}, stdx::tuple{i}), "transform");
    is(t2, stdx::sort(t), "sort");
    is(t2, stdx::unique(t), "unique");
    is(t2, stdx::to_sorted_set(t), "set");
    is(t2, stdx::to_unsorted_set(t), "set");
    is(stdx::type_identity<stdx::tuple<T2>>{}, stdx::chunk(t), "chunk");
    is(stdx::type_identity<stdx::tuple<T2>>{}, stdx::gather(t), "gather");
    is(stdx::type_identity<stdx::tuple<T2>>{}, stdx::cartesian_product_copy(t), "cartesian");
    is(stdx::type_identity<T1>{}, stdx::apply([](auto const &x) { return x; }, t), "apply");
    auto const j = stdx::make_tuple(J(i), J(i + 1));
    auto const all = stdx::tuple_cat(j, stdx::transform([](J const &x) { return x; }, j), stdx::tuple_cons(J(5), j));
    auto const ds = stdx::apply([](auto const &...x) { return std::vector<int>{x.depth...}; }, all);
    c.check(ds == std::vector<int>{i, i + 1, i, i + 1, 5, i, i + 1}, "listed", vf::str(ds).c_str());
    c.eq(get<0>(get<0>(stdx::cartesian_product_copy(j))).depth, i, "listed");
    c.eq(get<0>(get<0>(stdx::gather(j))).depth, i, "listed");
    c.eq(get<0>(stdx::unique(j)).depth, i, "listed");
}
VF_SUITE(stops, 1) {
    auto const i = static_cast<int>(c.below(90));
    c.op("stops", i);
    auto const t = stdx::make_tuple(i, static_cast<long>(i), static_cast<short>(3), 'c');
    auto const u = stdx::make_tuple(1, 2, 3, 4);
    for (int k = 0; k < 4; ++k) {
        Quits q{k};
        auto const unary = [&](auto x) { q.step(); return x; };
        auto const binary = [&](auto x, auto) { q.step(); return x; };
        auto const yes = [&](auto...) { q.step(); return true; };
        auto const no = [&](auto...) { q.step(); return false; };
        c.check(q.stopped([&] { static_cast<void>(stdx::transform(unary, t)); }), "transform", "");
        c.check(q.stopped([&] { static_cast<void>(stdx::transform(binary, t, u)); }), "transform", "2");
        c.check(q.stopped([&] { stdx::for_each(unary, t); }), "for_each", "");
        c.check(q.stopped([&] { stdx::for_each(binary, t, u); }), "for_each", "2");
        c.check(q.stopped([&] { stdx::enumerate([&]<auto>(auto) { q.step(); }, t); }), "enumerate", "");
        c.check(q.stopped([&] { static_cast<void>(stdx::all_of(yes, t)); }), "all_of", "");
        c.check(q.stopped([&] { static_cast<void>(stdx::any_of(no, t)); }), "any_of", "");
        c.check(q.stopped([&] { static_cast<void>(stdx::none_of(no, t, u)); }), "none_of", "");
        c.check(q.stopped([&] { static_cast<void>(t.fold_left(0, binary)); }), "fold_left", "");
        c.check(q.stopped([&] { static_cast<void>(t.fold_right(0, binary)); }), "fold_right", "");
        if (k < 3) {
            c.check(q.stopped([&] { static_cast<void>(t.join(binary)); }), "join", "");
            c.check(q.stopped([&] { static_cast<void>(t.join(1, binary)); }), "join", "default");
        }
    }
    Quits q{0};
    c.check(q.stopped([&] { stdx::apply([&](auto...) { q.step(); }, t); }), "apply", "");
    c.check(q.stopped([&] { stdx::apply([&](auto...) { q.step(); }, t, u); }), "apply", "2");
    c.check(q.stopped([&] { t.apply([&](auto...) { q.step(); }); }), "apply", "member");
    c.check(q.stopped([&] { std::move(t).apply([&](auto...) { q.step(); }); }), "apply", "member");
}
#elif PART == 17
} // namespace
#include <stdx/algorithm.hpp>
#include <stdx/numeric.hpp>
namespace {
struct It { // an iterator with every overload generic code might trip over
    using iterator_category = std::input_iterator_tag;
    using value_type = H;
    using difference_type = std::ptrdiff_t;
    using pointer = H *;
    using reference = H &;
    H *p{};
    H &operator*() const { return *p; }
    It &operator++() {
        ++p;
        return *this;
    }
    It operator++(int) {
        auto t = *this;
        ++p;
        return t;
    }
    friend bool operator==(It const &a, It const &b) { return a.p == b.p; }
    template <typename T> void operator,(T &&) const = delete;
};
template <typename T> void operator,(T &&, It const &) = delete;

VF_SUITE(ranges, 1) {
    auto const n = c.below(6);
    c.op("ranges", n);
    std::vector<H> a, b, out(n);
    std::vector<int> want, log;
    for (std::size_t i = 0; i < n; ++i) {
        a.emplace_back(static_cast<int>(c.below(100)));
        b.emplace_back(static_cast<int>(c.below(100)));
        want.push_back(a[i].v + b[i].v);
    }
    auto const A = It{a.data()}, E = It{a.data() + n}, B = It{b.data()}, O = It{out.data()};
    auto const add = [](H const &x, H const &y) { return H{x.v + y.v}; };
    auto const outs = [&](char const *key) {
        for (std::size_t i = 0; i < n; ++i) {
            c.eq(out[i].v, want[i], key);
            out[i] = H{};
        }
    };
    stdx::transform(A, E, O, add, B);
    outs("transform");
    stdx::transform_n(A, n, O, add, B);
    outs("transform_n");
    auto const note = [&](H const &x, H const &y) {
        log.push_back(x.v + y.v);
        return x;
    };
    auto const logged = [&](char const *key) {
        c.check(log == want, key, vf::str(log).c_str());
        log.clear();
    };
    stdx::for_each(A, E, note, B);
    logged("for_each");
    stdx::for_each_n(A, n, note, B);
    logged("for_each_n");
    auto const total = stdx::transform_reduce(A, E, H{1}, [](H s, H e) { return H{s.v * 3 + e.v}; }, add, B);
    auto const total_n = stdx::transform_reduce_n(A, n, H{1}, [](H s, H e) { return H{s.v * 3 + e.v}; }, add, B);
    int t = 1;
    for (auto w : want) {
        t = t * 3 + w;
    }
    c.eq(total.v, t, "transform_reduce");
    c.eq(total_n.v, t, "transform_reduce_n");
}
#elif PART == 21
} // namespace
#include <stdx/for_each_n_args.hpp>
#include <stdx/functional.hpp>
namespace {
struct F {
    std::vector<int> *log;
    H operator()(H const &a, H const &b) const {
        log->push_back(a.v * 1000 + b.v);
        return a;
    }
};
VF_SUITE(wrappers, 1) {
    auto const i = static_cast<int>(c.below(100));
    c.op("wrappers", i);
    std::vector<int> log;
    H const h{i};
    c.eq(stdx::bind_front(F{&log}, h)(H{2}).v, i, "bind_front");
    c.eq(stdx::bind_back(F{&log}, h)(H{2}).v, 2, "bind_back");
    stdx::for_each_n_args(F{&log}, h, H{1}, H{2}, H{3});
    c.check(log == std::vector<int>{i * 1000 + 2, 2000 + i, i * 1000 + 1, 2003}, "calls", vf::str(log).c_str());
    std::vector<H> v;
    v.emplace_back(stdx::with_result_of{[&] { return H{i}; }});
    c.eq(v[0].v, i, "with_result_of");
    c.eq(stdx::safe_identity(H{i}).v, i, "safe_identity");
    c.check(std::addressof(stdx::safe_identity(h)) == std::addressof(h), "safe_identity", "");
    c.eq((stdx::overload{[](H const &x) { return x.v; }, [](int) { return -1; }}(h)), i, "overload");
    std::unique_ptr<H> const p = std::make_unique<H>(i);
    c.check(std::addressof(stdx::dereference<>{}(p)) == p.get(), "dereference", "");
}
VF_SUITE(nested, 1) {
    auto const i = static_cast<int>(c.below(90));
    c.op("nested", i);
    using T1 = stdx::tuple<int>;
    auto const f = [&](auto const &...xs) {
        c.check((std::is_same_v<decltype(xs), T1 const &> and ...), "nested", "another type");
        return (0 + ... + get<0>(xs));
    };
    c.eq(stdx::bind_front(f, stdx::tuple{i})(), i, "nested-front");
    c.eq(stdx::bind_back(f, stdx::tuple{i})(), i, "nested-back");
    c.eq(stdx::bind_front(f, stdx::tuple{i})(stdx::tuple{2}), i + 2, "nested-front");
    int sum = 0;
    stdx::for_each_n_args([&](T1 x) { sum += get<0>(x); }, stdx::tuple{i}, stdx::tuple{3});
    c.eq(sum, i + 3, "nested-batches");
    c.eq(stdx::bind_front([](J const &x) { return x.depth; }, J(i))(), i, "listed-front");
    c.eq(stdx::bind_back([](J x) { return x.depth; }, J(i))(), i, "listed-back");
    sum = 0;
    stdx::for_each_n_args([&](J x) { sum += x.depth; }, J(i), J(4));
    c.eq(sum, i + 4, "listed-batches");
    std::vector<J> v;
    v.emplace_back(stdx::with_result_of{[&] { return J(i); }});
    c.eq(v[0].depth, i, "listed-result");
    c.eq(stdx::safe_identity(J(i)).depth, i, "listed-identity");
}
VF_SUITE(stops, 1) {
    auto const i = static_cast<int>(c.below(90));
    c.op("stops", i);
    for (int k = 0; k < 3; ++k) {
        Quits q{k};
        c.check(q.stopped([&] { stdx::for_each_n_args([&](int) { q.step(); }, i, 2, 3); }), "for_each_n_args", "1");
        c.check(q.stopped([&] { stdx::for_each_n_args([&](int, int) { q.step(); }, i, 2, 3, 4, 5, 6); }), "for_each_n_args", "2");
    }
    Quits q{0};
    auto f = [&](int x, int y) { q.step(); return x + y; };
    auto const front = stdx::bind_front(f, i);
    auto back = stdx::bind_back(f, i);
    c.check(q.stopped([&] { static_cast<void>(front(1)); }), "bind_front", "const &");
    c.check(q.stopped([&] { static_cast<void>(back(1)); }), "bind_back", "&");
    c.check(q.stopped([&] { static_cast<void>(std::move(back)(1)); }), "bind_back", "&&");
    stdx::with_result_of const w{[&] { q.step(); return i; }};
    c.check(q.stopped([&] { int const x = w; static_cast<void>(x); }), "with_result_of", "");
}
#elif PART == 22
} // namespace
#include <stdx/call_by_need.hpp>
namespace {
VF_SUITE(needs, 1) {
    auto const i = static_cast<int>(c.below(100));
    c.op("needs", i);
    std::vector<int> log;
    H h{i};
    auto const r = stdx::call_by_need(
        stdx::tuple{[&](H const &a) { log.push_back(a.v); return a; }, [&](int a, H const &b) { log.push_back(a + b.v); return b; },
                    [&](H const &b, std::string const &) { log.push_back(b.v); }},
        stdx::tuple{h, 3, H{4}, std::string{"c"}});
    c.check(log == std::vector<int>{i, 7, 4}, "calls", vf::str(log).c_str());
    c.eq(std::size_t{decltype(r)::size()}, std::size_t{2}, "results");
    c.check(get<0>(r).v == i and get<1>(r).v == 4, "results", "");
}
VF_SUITE(nested, 1) {
    auto const i = static_cast<int>(c.below(90));
    c.op("nested", i);
    using T2 = stdx::tuple<stdx::tuple<int>>;
    auto const t = stdx::make_tuple(stdx::tuple{i});
    auto const unused = stdx::call_by_need(stdx::tuple{}, stdx::make_tuple(stdx::tuple{i}));
    c.check(std::is_same_v<decltype(unused), T2 const>, "nested-unused", "another type");
    c.check(unused == t, "nested-unused", "");
    auto const result = stdx::call_by_need(stdx::tuple{[](int x) { return stdx::tuple{x}; }}, stdx::tuple{i});
    c.check(std::is_same_v<decltype(result), T2 const>, "nested-result", "another type");
    c.check(result == t, "nested-result", "");
    auto const passed = stdx::call_by_need(stdx::tuple{[](stdx::tuple<int> x) { return get<0>(x); }}, t);
    c.check(passed == stdx::tuple{i}, "nested-argument", "");
    auto const j = stdx::call_by_need(stdx::tuple{[](J x) { return x; }}, stdx::make_tuple(J(i)));
    c.eq(get<0>(j).depth, i, "listed");
    auto const k = stdx::call_by_need(stdx::tuple{}, stdx::make_tuple(J(i)));
    c.eq(get<0>(k).depth, i, "listed");
}
VF_SUITE(stops, 1) {
    auto const i = static_cast<int>(c.below(90));
    c.op("stops", i);
    for (int k = 0; k < 3; ++k) {
        Quits q{k};
        c.check(q.stopped([&] {
            static_cast<void>(stdx::call_by_need(
                stdx::make_tuple([&](int x) { q.step(); return x; }, [&] { q.step(); }, [&](short x) { q.step(); return x; }),
                stdx::make_tuple(i, static_cast<short>(2))));
        }), "call_by_need", "");
    }
}
#elif PART == 20
} // namespace
#include <stdx/span.hpp>
namespace {
VF_SUITE(views, 1) {
    auto const n = 1 + c.below(8);
    c.op("views", n);
    std::vector<H> a;
    for (std::size_t i = 0; i < n; ++i) {
        a.emplace_back(static_cast<int>(c.below(100)));
    }
    stdx::span<H> s{a};
    stdx::span<H const> const k{s};
    stdx::span<H> const it{a.begin(), a.end()};
    H arr[3]{H{1}, H{2}, H{3}};
    stdx::span const fixed{arr};
    c.check(s.data() == a.data() and k.data() == a.data() and it.data() == a.data() and s.size() == n and it.size() == n, "data", "");
    c.check(s.front() == a.front() and s.back() == a.back() and s[n / 2] == a[n / 2], "elements", "");
    c.check(s.first(1).data() == a.data() and s.last(1).data() == a.data() + n - 1 and s.subspan(n / 2).data() == a.data() + n / 2, "parts", "");
    c.check(stdx::as_bytes(s).size() == n * sizeof(H) and fixed.size() == 3 and get<1>(fixed).v == 2 and fixed.last<1>()[0].v == 3, "fixed", "");
    std::size_t j = 0;
    for (auto &h : s) {
        c.eq(h.v, a[j++].v, "iterate");
    }
}
#elif PART == 25
} // namespace
#include <stdx/array.hpp>
namespace {
VF_SUITE(arrays, 1) {
    auto const i = static_cast<int>(c.below(100));
    c.op("arrays", i);
    std::vector<int> log;
    auto const a = stdx::make_array<3>([&]<auto k>() { log.push_back(int(k)); return H{i + int(k)}; });
    c.check(a[0].v == i and a[2].v == i + 2 and log == std::vector<int>{0, 1, 2}, "made", "");
    H const h{i};
    auto const b = stdx::make_array(h, H{2});
    c.check(b[0].v == i and b[1].v == 2 and b.size() == 2, "held", "");
}
VF_SUITE(nested, 1) {
    auto const i = static_cast<int>(c.below(90));
    c.op("nested", i);
    auto const a = stdx::make_array(std::array{i});
    c.check(std::is_same_v<decltype(a), std::array<std::array<int, 1>, 1> const> and a[0][0] == i, "nested", "");
    auto const b = stdx::make_array(J(i), J(2));
    c.check(b[0].depth == i and b[1].depth == 2, "listed", "");
    auto const d = stdx::make_array<2>([&]<auto k>() { return J(i + int(k)); });
    c.check(d[0].depth == i and d[1].depth == i + 1, "listed", "");
}
#endif
} // namespace
