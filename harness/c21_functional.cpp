// with_result_of, overload, unary_plus, dereference, safe_identity and forward_like.
#include <stdx/functional.hpp>
#include <stdx/optional.hpp>
#include <stdx/tuple.hpp>
#include <stdx/utility.hpp>

#include "vf.hpp"

#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

namespace {
// ---- with_result_of ----
struct Stuck { // can be neither copied nor moved
    int v;
    static inline int made = 0;
    explicit Stuck(int i) : v{i} { ++made; }
    Stuck(Stuck const &) = delete;
    Stuck &operator=(Stuck const &) = delete;
};
struct Counted {
    int v;
    static inline int moves = 0;
    static inline int copies = 0;
    explicit Counted(int i) : v{i} {}
    Counted(Counted const &o) : v{o.v} { ++copies; }
    Counted(Counted &&o) noexcept : v{std::exchange(o.v, -1)} { ++moves; }
    Counted &operator=(Counted const &o) {
        v = o.v;
        ++copies;
        return *this;
    }
};
template <typename T> struct Maker { // distinguishes const from non-const evaluation
    int *plain;
    int *constant;
    int v;
    T operator()() {
        ++*plain;
        return T(v);
    }
    T operator()() const {
        ++*constant;
        return T(v + 1);
    }
};
int g_calls;
Stuck make_stuck() { return Stuck(++g_calls); }

VF_SUITE(with_result_of, 4) {
    int plain = 0, constant = 0;
    std::map<int, Stuck> m, m2;
    std::unordered_map<int, Stuck> u;
    std::map<int, int> mm, mu, mm2;
    std::list<Stuck> l;
    std::deque<Stuck> d;
    std::vector<int> ml, md;
    int const n = c.range(1, 12);
    for (int i = 0; i < n; ++i) {
        int const v = static_cast<int>(c.range(0, 1000)), k = static_cast<int>(c.range(0, 5));
        int const how = c.range(0, 12);
        int const p0 = plain, c0 = constant, made = Stuck::made;
        c.op("with_result_of", how, k, v);
        stdx::with_result_of w{Maker<Stuck>{&plain, &constant, v}};
        auto const &cw = w;
        static_assert(std::is_convertible_v<decltype(w) &, Stuck> and std::is_convertible_v<decltype(cw), Stuck>);
        c.check(plain == p0 and constant == c0, "evaluated-early", "on construction");
        int want = 1;
        bool viaconst = false;
        switch (how) {
        case 0: { // not evaluated when the key is there
            bool const there = m.contains(k);
            auto [it, in] = m.try_emplace(k, w);
            want = there ? 0 : 1;
            if (not there) {
                mm[k] = v;
            }
            c.check(in == not there, "try_emplace", "");
            c.eq(it->second.v, mm[k], "try_emplace-value");
            break;
        }
        case 1: {
            bool const there = u.contains(k);
            u.try_emplace(k, cw);
            want = there ? 0 : 1;
            viaconst = true;
            if (not there) {
                mu[k] = v + 1;
            }
            c.eq(u.at(k).v, mu[k], "try_emplace-value");
            break;
        }
        case 2:
            l.emplace_back(w);
            ml.push_back(v);
            break;
        case 3:
            l.emplace_front(cw);
            ml.insert(ml.begin(), v + 1);
            viaconst = true;
            break;
        case 4:
            d.emplace_back(std::move(w));
            md.push_back(v);
            break;
        case 5: {
            std::optional<Stuck> o;
            o.emplace(w);
            c.eq(o->v, v, "optional-value");
            break;
        }
        case 6: {
            Stuck s = cw;
            viaconst = true;
            c.eq(s.v, v + 1, "initialized-value");
            break;
        }
        case 7: {
            auto p = std::make_unique<Stuck>(w);
            c.eq(p->v, v, "unique_ptr-value");
            break;
        }
        case 8: {
            struct {
                int i;
                Stuck s;
            } t{1, w};
            c.eq(t.s.v, v, "aggregate-value");
            break;
        }
        case 9: {
            std::variant<int, Stuck> t{std::in_place_index<1>, w};
            c.eq(std::get<1>(t).v, v, "variant-value");
            break;
        }
        case 10: { // evaluated at each conversion
            Stuck a = w, b = w;
            Stuck e = cw;
            c.check(a.v == v and b.v == v and e.v == v + 1, "repeated-value", "");
            c.eq(plain - p0, 2, "evaluations");
            c.eq(constant - c0, 1, "evaluations");
            c.eq(Stuck::made - made, 3, "objects-made");
            continue;
        }
        case 11: { // a map whose emplace may build and discard
            m2.emplace(k, w);
            want = plain - p0;
            mm2.try_emplace(k, v);
            c.eq(m2.at(k).v, mm2[k], "emplace-value");
            break;
        }
        default: {
            Counted::moves = Counted::copies = 0;
            int a = 0, b = 0;
            std::vector<Counted> x;
            x.reserve(4);
            stdx::with_result_of cwr{Maker<Counted>{&a, &b, v}};
            x.emplace_back(cwr);
            x.emplace_back(std::as_const(cwr));
            c.check(Counted::moves == 0 and Counted::copies == 0, "not-elided", "");
            c.check(a == 1 and b == 1 and x[0].v == v and x[1].v == v + 1, "vector-value", "");
            want = 0;
        }
        }
        c.eq(plain - p0, viaconst ? 0 : want, "evaluations");
        c.eq(constant - c0, viaconst ? want : 0, "evaluations");
        c.eq(Stuck::made - made, want, "objects-made");
        c.state(vf::mix(static_cast<std::uint64_t>(how) << 8 | l.size() << 4 | m.size()));
    }
    std::vector<int> a, b;
    for (auto &x : l) {
        a.push_back(x.v);
    }
    for (auto &x : d) {
        b.push_back(x.v);
    }
    c.check(a == ml and b == md, "container-values", "");
}
VF_SUITE(with_result_of_throwing, 1) {
    int calls = 0;
    int const when = c.range(0, 3);
    bool const as_const = c.coin();
    stdx::with_result_of w{[&]() -> std::string {
        if (calls++ == when) {
            throw std::runtime_error("no");
        }
        return "a string long enough to be on the heap " + std::to_string(calls);
    }};
    std::list<std::string> l;
    std::vector<std::string> want;
    for (int i = 0; i < 5; ++i) {
        c.op("emplace", i, when, as_const);
        bool threw = false;
        try {
            if (as_const) {
                l.emplace_back(std::as_const(w));
            } else {
                l.emplace_back(w);
            }
        } catch (std::runtime_error const &) {
            threw = true;
        }
        c.eq(threw, i == when, "exception-passed-on");
        if (i != when) {
            want.push_back("a string long enough to be on the heap " + std::to_string(i + 1));
        }
        c.eq(calls, i + 1, "evaluations");
    }
    c.check(std::vector<std::string>(l.begin(), l.end()) == want, "container-values", "");
    c.state(static_cast<std::uint64_t>(when));
}
VF_SUITE(with_result_of_value, 1) {
    // references and plain values
    int x = c.range(0, 1000);
    int n = 0;
    stdx::with_result_of r{[&]() -> int & {
        ++n;
        return x;
    }};
    c.op("reference", x);
    int &y = r;
    c.check(&y == &x and n == 1, "reference-result", "");
    stdx::with_result_of u{[&] { return std::make_unique<int>(x); }};
    std::unique_ptr<int> p = u;
    std::vector<std::unique_ptr<int>> v;
    v.emplace_back(u);
    v.push_back(u);
    c.check(*p == x and *v[0] == x and *v[1] == x, "move-only-result", "");
    g_calls = 0;
    std::unordered_map<int, Stuck> m;
    auto mk = [] { return make_stuck(); };
    m.try_emplace(0, stdx::with_result_of{mk});
    m.try_emplace(0, stdx::with_result_of{mk});
    c.eq(g_calls, 1, "evaluations");
    c.state(static_cast<std::uint64_t>(x));
}

// ---- overload ----
struct Base {};
struct Derived : Base {};
// the same set as ordinary overloads
int sel(int) { return 1; }
int sel(double) { return 2; }
int sel(std::string const &) { return 3; }
int sel(std::string &&) { return 4; }
int sel(Base const &) { return 5; }
int sel(char const *) { return 6; }
template <typename T> int sel(std::vector<T> const &) { return 7; }
VF_SUITE(overload, 2) {
    int const k = c.range(0, 1000);
    auto own = std::make_unique<int>(k);
    stdx::overload o{[&](int i) { return 1 + 0 * i; },
                     [k](double) { return 2 + 0 * k; },
                     [](std::string const &) { return 3; },
                     [](std::string &&) { return 4; },
                     [p = std::move(own)](Base const &) { return 5 + 0 * *p; },
                     [](char const *) { return 6; },
                     []<typename T>(std::vector<T> const &) { return 7; }};
    auto const &co = o;
    std::string s = "x";
    std::string const cs = "y";
    short sh = 1;
    bool bo = true;
    float fl = 1;
    Derived dv;
    std::vector<int> vi;
    auto same = [&](auto &&...xs) {
        c.eq(o(std::forward<decltype(xs)>(xs)...), sel(std::forward<decltype(xs)>(xs)...), "overload-selection");
        c.eq(co(std::forward<decltype(xs)>(xs)...), sel(std::forward<decltype(xs)>(xs)...), "overload-selection-const");
        auto mo = std::move(o);
        c.eq(std::move(mo)(std::forward<decltype(xs)>(xs)...), sel(std::forward<decltype(xs)>(xs)...),
             "overload-selection-rvalue");
        o.~overload();
        new (&o) decltype(o){std::move(mo)};
    };
    c.op("overload", k);
    same(k);
    same(sh);
    same(bo);
    same('c');
    same(fl);
    same(1.5);
    same(s);
    same(cs);
    same(std::string("z"));
    same(std::move(cs));
    same(dv);
    same(Derived{});
    same(Base{});
    same("literal");
    same(vi);
    same(std::vector<char>{});
    // arity and mutable state
    stdx::overload ar{[n = 0]() mutable { return ++n; }, [](int a) { return a * 2; }, [](int a, int b) { return a - b; },
                      [](auto const &...xs) { return static_cast<int>(sizeof...(xs)) * 100; }};
    c.check(ar() == 1 and ar() == 2 and ar(k) == 2 * k and ar(k, 3) == k - 3 and ar(1, 2, 3) == 300, "overload-arity", "");
    struct Q {
        int operator()(int) & { return 1; }
        int operator()(int) const & { return 2; }
        int operator()(int) && { return 3; }
    };
    stdx::overload q{Q{}, [](Base) { return 9; }};
    c.check(q(1) == 1 and std::as_const(q)(1) == 2 and std::move(q)(1) == 3 and q(Base{}) == 9, "overload-qualified", "");
    c.state(static_cast<std::uint64_t>(k));
}

// ---- unary_plus, dereference ----
struct P { // distinguishes how its operators are reached
    int v;
    int operator+() & { return v + 1; }
    int operator+() const & { return v + 2; }
    long operator+() && { return v + 3; }
    P &operator*() & { return *this; }
    P const &operator*() const & { return *this; }
    P &&operator*() && { return std::move(*this); }
    std::string operator*() const && { return "const rvalue"; }
};
template <typename T, bool Both = true> void plus_of(vf::Ctx &c) {
    T const v = c.value<T>();
    c.op("unary_plus", sizeof(T), static_cast<long long>(v));
    T l = v;
    auto one = [&](auto f) {
        static_assert(std::is_same_v<decltype(f(l)), decltype(+l)>);
        static_assert(std::is_same_v<decltype(f(std::as_const(l))), decltype(+l)>);
        static_assert(std::is_same_v<decltype(f(T{})), decltype(+T{})>);
        c.check(f(l) == +v and f(std::as_const(l)) == +v and f(T(v)) == +v, "unary_plus", vf::str(v));
    };
    one(stdx::unary_plus<>{});
    one(stdx::unary_plus<void>{});
    one(stdx::unary_plus<T>{});
}
VF_SUITE(unary_plus, 2) {
    plus_of<int>(c);
    plus_of<short>(c);
    plus_of<unsigned char>(c);
    plus_of<signed char>(c);
    plus_of<long long>(c);
    plus_of<unsigned long>(c);
    plus_of<std::uint16_t>(c);
    P p{static_cast<int>(c.range(0, 1000))};
    auto one = [&](auto f) {
        static_assert(std::is_same_v<decltype(f(p)), int> and std::is_same_v<decltype(f(std::as_const(p))), int> and
                      std::is_same_v<decltype(f(std::move(p))), long>);
        c.check(f(p) == p.v + 1 and f(std::as_const(p)) == p.v + 2 and f(P{p.v}) == p.v + 3 and
                    f(std::move(p)) == p.v + 3,
                "unary_plus-category", "");
    };
    one(stdx::unary_plus<>{});
    one(stdx::unary_plus<P>{});
    int arr[2]{};
    c.check(stdx::unary_plus<>{}(arr) == &arr[0], "unary_plus-decay", "");
    static_assert(std::is_same_v<decltype(stdx::unary_plus<>{}([](int) { return 1; })), int (*)(int)>);
    c.check(stdx::unary_plus<>{}([](int i) { return i + 1; })(4) == 5, "unary_plus-lambda", "");
    static_assert(requires { typename stdx::unary_plus<>::is_transparent; typename stdx::dereference<>::is_transparent; });
    static_assert(not std::is_invocable_v<stdx::unary_plus<>, std::string>);
    static_assert(not std::is_invocable_v<stdx::unary_plus<int>, long>);
    c.state(static_cast<std::uint64_t>(p.v));
}
VF_SUITE(dereference, 2) {
    int x = c.range(0, 1000);
    c.op("dereference", x);
    int *p = &x;
    int const *cp = &x;
    auto up = std::make_unique<std::string>("a string on the heap, number " + std::to_string(x));
    std::vector<std::string> v{"one", "two", "three"};
    auto at = v.begin() + x % 3;
    auto cat = v.cbegin() + x % 3;
    std::optional<std::string> o{"some string that lives on the heap"};
    P q{x};
    stdx::dereference<> d;
    static_assert(std::is_same_v<decltype(d(p)), int &> and std::is_same_v<decltype(d(cp)), int const &>);
    static_assert(std::is_same_v<decltype(d(up)), std::string &>);
    static_assert(std::is_same_v<decltype(d(at)), std::string &> and std::is_same_v<decltype(d(cat)), std::string const &>);
    static_assert(std::is_same_v<decltype(d(o)), std::string &>);
    static_assert(std::is_same_v<decltype(d(std::as_const(o))), std::string const &>);
    static_assert(std::is_same_v<decltype(d(std::move(o))), std::string &&>);
    static_assert(std::is_same_v<decltype(d(q)), P &> and std::is_same_v<decltype(d(std::as_const(q))), P const &>);
    static_assert(std::is_same_v<decltype(d(std::move(q))), P &&>);
    static_assert(std::is_same_v<decltype(d(static_cast<P const &&>(q))), std::string>);
    c.check(&d(p) == &x and &d(cp) == &x and &d(up) == up.get() and &d(at) == &*at and &d(cat) == &*cat, "dereference", "");
    c.check(&d(o) == &*o and &d(std::as_const(o)) == &*o and &d(q) == &q, "dereference", "");
    std::string taken = d(std::move(o));
    c.check(taken == "some string that lives on the heap", "dereference-rvalue", "");
    c.check(d(static_cast<P const &&>(q)) == "const rvalue", "dereference-rvalue", "");
    auto &&rq = d(std::move(q));
    c.check(&rq == &q, "dereference-rvalue", "");
    stdx::dereference<int *> di;
    c.check(&di(p) == &x and &di(std::as_const(p)) == &x and &di(&x) == &x, "dereference-typed", "");
    stdx::dereference<P> dp;
    static_assert(std::is_same_v<decltype(dp(q)), P &> and std::is_same_v<decltype(dp(P{1})), P &&>);
    static_assert(std::is_same_v<decltype(dp(std::as_const(q))), P const &>);
    c.check(&dp(q) == &q and &dp(std::as_const(q)) == &q, "dereference-typed", "");
    auto &&rp = dp(std::move(q));
    c.check(&rp == &q and dp(static_cast<P const &&>(q)) == "const rvalue", "dereference-typed", "");
    struct D {
        int operator*() & { return 1; }
        int operator*() const & { return 2; }
        int operator*() && { return 3; }
        int operator*() const && { return 4; }
    } e;
    auto all = [&](auto f) {
        return f(e) * 1000 + f(std::as_const(e)) * 100 + f(std::move(e)) * 10 + f(std::move(std::as_const(e)));
    };
    c.eq(all(stdx::dereference<>{}), 1234, "dereference-category");
    c.eq(all(stdx::dereference<D>{}), 1234, "dereference-category");
    static_assert(not std::is_invocable_v<stdx::dereference<>, int>);
    static_assert(not std::is_invocable_v<stdx::dereference<int *>, char *>);
    c.state(static_cast<std::uint64_t>(x));
}

// ---- safe_identity ----
VF_SUITE(safe_identity, 2) {
    int x = c.range(0, 1000);
    c.op("safe_identity", x);
    std::string s = "a string on the heap, number " + std::to_string(x);
    std::string const cs = s;
    auto const &id = stdx::safe_identity;
    static_assert(std::is_same_v<decltype(id(x)), int &> and std::is_same_v<decltype(id(std::as_const(x))), int const &>);
    static_assert(std::is_same_v<decltype(id(1)), int>);
    static_assert(std::is_same_v<decltype(id(s)), std::string &> and std::is_same_v<decltype(id(cs)), std::string const &>);
    static_assert(std::is_same_v<decltype(id(std::move(s))), std::string>);
    static_assert(std::is_same_v<decltype(id(std::make_unique<int>(1))), std::unique_ptr<int>>);
    static_assert(std::is_same_v<std::remove_const_t<decltype(id(std::move(cs)))>, std::string>);
    c.check(&id(x) == &x and &id(std::as_const(x)) == &x and &id(s) == &s and &id(cs) == &cs, "safe_identity", "");
    decltype(auto) r1 = id(s + "!"); // owns its value
    c.check(r1 == cs + "!", "safe_identity-value", "");
    decltype(auto) r2 = id(std::make_unique<int>(x));
    c.check(*r2 == x, "safe_identity-value", "");
    decltype(auto) r3 = id(std::move(s));
    s = "overwritten";
    c.check(r3 == cs, "safe_identity-value", "");
    decltype(auto) r4 = id(std::move(cs));
    c.check(r4 == cs and &r4 != &cs, "safe_identity-value", "");
    decltype(auto) r5 = id([] { return std::vector<std::string>{"x", "y"}; }());
    c.check(r5.size() == 2 and r5[1] == "y", "safe_identity-value", "");
    Counted::moves = Counted::copies = 0;
    Counted k(x);
    decltype(auto) r6 = id(std::move(k));
    c.check(r6.v == x and Counted::copies == 0, "safe_identity-copied", "");
    int arr[3]{1, 2, 3};
    static_assert(std::is_same_v<decltype(id(arr)), int(&)[3]>);
    c.check(&id(arr) == &arr, "safe_identity", "");
    static_assert(requires { typename stdx::safe_identity_t::is_transparent; });
    static_assert(std::is_same_v<std::remove_const_t<decltype(stdx::safe_identity)>, stdx::safe_identity_t>);
    c.state(static_cast<std::uint64_t>(x));
}

// ---- forward_like ----
template <typename T, typename U> struct like { // the standard's table
    using base = std::remove_reference_t<U>;
    using cq = std::conditional_t<std::is_const_v<std::remove_reference_t<T>>, base const, base>;
    using type = std::conditional_t<std::is_lvalue_reference_v<T>, cq &, cq &&>;
};
template <typename T, typename V> void like_one(vf::Ctx &c, V v) {
    auto one = [&]<typename U>(std::type_identity<U>, auto &obj) {
        using W = typename like<T, U>::type;
        static_assert(std::is_same_v<decltype(stdx::forward_like<T>(std::declval<U>())), W>);
        static_assert(std::is_same_v<stdx::forward_like_t<T, U>, W>);
        static_assert(noexcept(stdx::forward_like<T>(std::declval<U>())));
        auto &&r = stdx::forward_like<T>(static_cast<U &&>(obj));
        c.check(std::addressof(r) == std::addressof(obj) and r == v, "forward_like", "not the same object");
    };
    V a = v;
    V const b = v;
    one(std::type_identity<V>{}, a);
    one(std::type_identity<V &>{}, a);
    one(std::type_identity<V &&>{}, a);
    one(std::type_identity<V const>{}, b);
    one(std::type_identity<V const &>{}, b);
    one(std::type_identity<V const &&>{}, b);
}
template <typename V> void like_all(vf::Ctx &c, V v) {
    like_one<int>(c, v);
    like_one<int &>(c, v);
    like_one<int &&>(c, v);
    like_one<std::string const>(c, v);
    like_one<int const &>(c, v);
    like_one<Stuck const &&>(c, v);
    like_one<Stuck &>(c, v);
    like_one<Stuck>(c, v);
    like_one<V const &>(c, v);
}
VF_SUITE(forward_like, 2) {
    int const x = c.range(0, 100);
    c.op("forward_like", x);
    like_all(c, x);
    like_all(c, std::string("a string long enough for the heap ") + std::to_string(x));
    like_all(c, std::vector<int>{x});
    like_all(c, static_cast<double>(x));
    // what was forwarded as an rvalue can be moved from, what was not cannot
    std::string s(40, 'x');
    std::string t = stdx::forward_like<int &>(s);
    c.check(s.size() == 40 and t == s, "forward_like-lvalue", "");
    std::string u = stdx::forward_like<int const>(s);
    c.check(s.size() == 40 and u == s, "forward_like-const-rvalue", "");
    std::string w = stdx::forward_like<int>(s);
    c.check(s.empty() and w == t, "forward_like-rvalue", "");
    c.state(static_cast<std::uint64_t>(x));
}
} // namespace
