#include <stdx/optional.hpp>
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>

#include "elems.hpp"

#include <array>
#include <initializer_list>
#include <limits>
#include <optional>
#include <tuple>

using vf::i64;
using vf::u16;
using vf::u64;
using vf::u8;

namespace {
enum struct E : u8 { dead = 0xff };
struct S {
    int value;
    friend auto operator==(S const &, S const &) -> bool = default;
    friend auto operator<(S const &a, S const &b) -> bool {
        return a.value < b.value;
    }
};
// ordered by less-than only, not copyable
struct MoveOnly {
    explicit MoveOnly(int v) : p{std::make_unique<int>(v)} {}
    MoveOnly(MoveOnly &&) = default;
    auto operator=(MoveOnly &&) -> MoveOnly & = default;
    std::unique_ptr<int> p;
    int get() const { return p ? *p : -999; }
    friend auto operator==(MoveOnly const &a, MoveOnly const &b) -> bool {
        return a.get() == b.get();
    }
    friend auto operator<(MoveOnly const &a, MoveOnly const &b) -> bool {
        return a.get() < b.get();
    }
};
struct NonMov {
    explicit NonMov(int v) : value{v} {}
    NonMov(NonMov &&) = delete;
    int value;
    friend auto operator==(NonMov const &a, NonMov const &b) -> bool {
        return a.value == b.value;
    }
};
} // namespace

template <> struct stdx::tombstone_traits<E> {
    constexpr auto operator()() const { return E::dead; }
};
template <> struct stdx::tombstone_traits<S> {
    constexpr auto operator()() const { return S{-1}; }
};
template <> struct stdx::tombstone_traits<MoveOnly> {
    auto operator()() const { return MoveOnly{-1}; }
};
template <> struct stdx::tombstone_traits<NonMov> {
    auto operator()() const { return NonMov{-1}; }
};
template <> struct stdx::tombstone_traits<vf::Tracked> {
    auto operator()() const { return vf::Tracked{-1}; }
};
template <> struct stdx::tombstone_traits<std::string> {
    auto operator()() const {
        return std::string{"a tombstone that is not in the small buffer"};
    }
};

namespace {
int targets[8];
struct Dead16 {
    constexpr auto operator()() const { return u16{0x8000}; }
};

// values other than the tombstone
template <typename T> struct Make;
template <> struct Make<E> {
    static E make(vf::Ctx &c) { return static_cast<E>(c.below(255)); }
};
template <> struct Make<S> {
    static S make(vf::Ctx &c) {
        auto v = static_cast<int>(c.interesting(32));
        return S{v == -1 ? 7 : v};
    }
};
template <> struct Make<int> {
    static int make(vf::Ctx &c) { return Make<S>::make(c).value; }
};
template <> struct Make<u16> {
    static u16 make(vf::Ctx &c) {
        auto v = c.value<u16>();
        return v == 0x8000 ? u16{1} : v;
    }
};
template <> struct Make<double> {
    static double make(vf::Ctx &c) {
        switch (c.below(8)) {
        case 0: return -std::numeric_limits<double>::infinity();
        case 1: return std::numeric_limits<double>::max();
        case 2: return std::numeric_limits<double>::quiet_NaN();
        case 3: return -0.0;
        case 4: return 0.0;
        case 5: return std::numeric_limits<double>::lowest();
        default: return static_cast<double>(c.range(-100, 100)) / 4;
        }
    }
};
template <> struct Make<float> {
    static float make(vf::Ctx &c) {
        auto d = Make<double>::make(c);
        return std::abs(d) > 1e30 and d == d and d > 0
                   ? std::numeric_limits<float>::max()
                   : static_cast<float>(d);
    }
};
template <> struct Make<int *> {
    static int *make(vf::Ctx &c) { return &targets[c.below(8)]; }
};
template <> struct Make<vf::Tracked> {
    static vf::Tracked make(vf::Ctx &c) {
        return vf::Tracked{static_cast<int>(c.below(6))};
    }
};
template <> struct Make<std::string> {
    static std::string make(vf::Ctx &c) {
        return std::string(c.below(40), static_cast<char>('a' + c.below(3)));
    }
};
template <typename A, typename B> struct Make<std::pair<A, B>> {
    // one half may be its own tombstone
    static std::pair<A, B> make(vf::Ctx &c) {
        std::pair<A, B> p{Make<A>::make(c), Make<B>::make(c)};
        if (c.chance(25)) {
            p.first = stdx::tombstone_traits<A>{}();
        } else if (c.chance(25)) {
            p.second = stdx::tombstone_traits<B>{}();
        }
        return p;
    }
};
template <typename A, typename B, typename C>
struct Make<std::tuple<A, B, C>> {
    static std::tuple<A, B, C> make(vf::Ctx &c) {
        std::tuple<A, B, C> p{Make<A>::make(c), Make<B>::make(c),
                              Make<C>::make(c)};
        if (c.chance(25)) {
            std::get<0>(p) = stdx::tombstone_traits<A>{}();
            std::get<2>(p) = stdx::tombstone_traits<C>{}();
        }
        return p;
    }
};

template <typename T> void const *first_of(T const &t) {
    return std::addressof(t);
}
template <typename... Ts> void const *first_of(std::tuple<Ts...> const &t) {
    return std::addressof(std::get<0>(t));
}
template <typename... Ts> void const *first_of(std::pair<Ts...> const &t) {
    return std::addressof(t.first);
}
enum Cat { lv, clv, rv, crv, none };

template <typename T> bool identical(T const &a, T const &b) {
    if constexpr (std::is_floating_point_v<T>) {
        return std::memcmp(&a, &b, sizeof a) == 0;
    } else if constexpr (requires { std::tuple_size<T>::value; }) {
        return [&]<std::size_t... I>(std::index_sequence<I...>) {
            return (identical(std::get<I>(a), std::get<I>(b)) and ...);
        }(std::make_index_sequence<std::tuple_size_v<T>>{});
    } else {
        return a == b;
    }
}
template <typename T> std::string show(T const &t) { return vf::str(t); }

// A callable that notes how it was called.
template <typename T, typename R> struct Spy {
    int calls = 0;
    Cat cat = none;
    void const *arg = nullptr;
    R (*ret)(T const &);
    explicit Spy(R (*f)(T const &)) : ret{f} {}
    R operator()(T &t) { return note(lv, t); }
    R operator()(T const &t) { return note(clv, t); }
    R operator()(T &&t) { return note(rv, t); }
    R operator()(T const &&t) { return note(crv, t); }
    // tuple-like values arrive unpacked
    template <typename A, typename... As>
        requires(sizeof...(As) > 0)
    R operator()(A &&a, As &&...as) {
        ++calls;
        cat = std::is_lvalue_reference_v<A>
                  ? (std::is_const_v<std::remove_reference_t<A>> ? clv : lv)
                  : (std::is_const_v<std::remove_reference_t<A>> ? crv : rv);
        arg = std::addressof(a);
        return ret(T{std::forward<A>(a), std::forward<As>(as)...});
    }
    R note(Cat k, T const &t) {
        ++calls;
        cat = k;
        arg = std::addressof(t);
        return ret(t);
    }
};

template <typename T> int digest(T const &t) {
    if constexpr (std::is_same_v<T, S>) {
        return t.value & 0xffff;
    } else if constexpr (std::is_same_v<T, E>) {
        return static_cast<int>(t);
    } else if constexpr (std::is_same_v<T, vf::Tracked>) {
        return t.get();
    } else if constexpr (std::is_same_v<T, std::string>) {
        return static_cast<int>(t.size());
    } else if constexpr (std::is_pointer_v<T>) {
        return static_cast<int>(t - targets);
    } else if constexpr (std::is_floating_point_v<T>) {
        return t == t and std::abs(t) < 1000 ? static_cast<int>(t * 4) & 0xffff
                                             : 12345;
    } else if constexpr (std::is_integral_v<T>) {
        return static_cast<int>(static_cast<unsigned>(t) & 0xffff);
    } else {
        return std::apply(
            [](auto const &...e) { return ((digest(e) * 3) + ... + 1); }, t);
    }
}

template <typename T, typename TS = stdx::tombstone_traits<T>>
void opt(vf::Ctx &c) {
    vf::life.reset();
    {
        using O = stdx::optional<T, TS>;
        using M = std::optional<T>;
        static_assert(sizeof(O) == sizeof(T));
        static_assert(std::is_same_v<typename O::value_type, T>);
        constexpr bool ordered = requires(T const &a) { a < a; };
        O a{}, b{std::nullopt};
        M ma, mb;
        auto agree = [&](O const &o, M const &m, char const *key) {
            c.eq(o.has_value(), m.has_value(), key);
            c.eq(static_cast<bool>(o), m.has_value(), key);
            if (m.has_value()) {
                c.check(identical(*o, *m), key, "other value");
                c.check(identical(o.value(), *m), key, "other value");
                c.check(o.operator->() == std::addressof(*o), key, "arrow");
            }
        };
        auto to_int = +[](T const &t) { return S{digest(t) + 1}; };
        auto then = +[](T const &t) {
            auto d = digest(t);
            return d % 3 == 0 ? stdx::optional<S>{}
                              : stdx::optional<S>{S{d}};
        };
        auto want_then = [&](M const &m) -> std::optional<S> {
            if (not m or digest(*m) % 3 == 0) {
                return {};
            }
            return S{digest(*m)};
        };
        auto agree_s = [&](stdx::optional<S> const &o,
                           std::optional<S> const &m, char const *key) {
            c.eq(o.has_value(), m.has_value(), key);
            if (m) {
                c.eq(o->value, m->value, key);
            }
        };
        agree(a, ma, "default-constructed");
        agree(b, mb, "nullopt-constructed");
        for (auto n = 6 + c.below(24); n > 0; --n) {
            switch (c.below(22)) {
            case 0: {
                auto v = Make<T>::make(c);
                c.op("assign value", digest(v));
                auto &r = [&]() -> O & {
                    if constexpr (requires { a = v; }) {
                        return a = v;
                    } else {
                        return a = O{v};
                    }
                }();
                c.check(&r == &a, "assign-returns-self", "");
                ma = v;
                break;
            }
            case 1: {
                auto v = Make<T>::make(c);
                c.op("assign rvalue", digest(v));
                ma = v;
                auto &r = a = std::move(v);
                c.check(&r == &a, "assign-returns-self", "");
                break;
            }
            case 2:
                c.op("assign nullopt");
                c.check(&(a = std::nullopt) == &a, "assign-returns-self", "");
                ma = std::nullopt;
                break;
            case 3:
                c.op("reset");
                a.reset();
                ma.reset();
                break;
            case 4: {
                auto v = Make<T>::make(c);
                c.op("emplace", digest(v));
                ma.emplace(v);
                auto &r = c.coin() ? a.emplace(v) : a.emplace(std::move(v));
                c.check(&r == &*a, "emplace-result", "");
                break;
            }
            case 5:
                c.op("copy assign");
                c.check(&(a = b) == &a, "assign-returns-self", "");
                ma = mb;
                break;
            case 6:
                c.op("move assign");
                a = std::move(b);
                ma = mb;
                b = O{};
                mb.reset();
                break;
            case 7:
                c.op("swap");
                std::swap(a, b);
                std::swap(ma, mb);
                break;
            case 8: {
                c.op("copy construct");
                O x{a};
                agree(x, ma, "copy-constructed");
                agree(a, ma, "copied-from");
                O y{std::move(x)};
                agree(y, ma, "move-constructed");
                break;
            }
            case 9: {
                auto v = Make<T>::make(c);
                c.op("construct", digest(v));
                O x{v};
                agree(x, M{v}, "value-constructed");
                O y{std::in_place, v};
                agree(y, M{v}, "in_place-constructed");
                O z{std::move(v)};
                agree(z, mb = M{*y}, "value-constructed");
                b = z;
                break;
            }
            case 10: {
                auto v = Make<T>::make(c);
                c.op("value_or", digest(v));
                O const &ca = a;
                auto r = ca.value_or(v);
                static_assert(std::is_same_v<decltype(r), T>);
                c.check(identical(r, ma.value_or(v)), "value_or", "");
                agree(a, ma, "value_or changed the optional");
                O tmp{a};
                c.check(identical(std::move(tmp).value_or(v), ma.value_or(v)),
                        "value_or rvalue", "");
                break;
            }
#define CATS(FN)                                                               \
    switch (k) {                                                               \
    case lv: r = FN(a); break;                                                 \
    case clv: r = FN(std::as_const(a)); break;                                 \
    case rv: r = FN(std::move(a)); break;                                      \
    default: r = FN(std::move(std::as_const(a))); break;                       \
    }
            case 11:
            case 12: {
                auto k = static_cast<Cat>(c.below(4));
                c.op("transform", static_cast<int>(k));
                Spy<T, S> f{to_int};
                stdx::optional<S> r;
#define TR(x) x.transform(f)
                CATS(TR)
                agree_s(r, ma ? std::optional<S>{to_int(*ma)} : std::nullopt,
                        "transform");
                c.eq(f.calls, ma ? 1 : 0, "transform-calls");
                if (ma) {
                    c.eq(static_cast<int>(f.cat), static_cast<int>(k),
                         "transform-category");
                    c.check(f.arg == first_of(*a), "transform-argument", "");
                }
                break;
            }
            case 13:
            case 14: {
                auto k = static_cast<Cat>(c.below(4));
                bool pipe = c.coin();
                c.op("and_then", static_cast<int>(k), pipe);
                Spy<T, stdx::optional<S>> f{then};
                stdx::optional<S> r;
#define AT(x) x.and_then(f)
#define PI(x) x | f
                if (pipe) {
                    CATS(PI)
                } else {
                    CATS(AT)
                }
                agree_s(r, want_then(ma), "and_then");
                c.eq(f.calls, ma ? 1 : 0, "and_then-calls");
                if (ma) {
                    c.eq(static_cast<int>(f.cat), static_cast<int>(k),
                         "and_then-category");
                    c.check(f.arg == first_of(*a), "and_then-argument", "");
                }
                break;
            }
            case 15: {
                auto v = Make<T>::make(c);
                bool some = c.coin();
                bool mv = c.coin();
                c.op("or_else", digest(v), some, mv);
                int calls = 0;
                auto f = [&] {
                    ++calls;
                    return some ? O{v} : O{};
                };
                O tmp{a};
                O r = mv ? std::move(tmp).or_else(f)
                         : std::as_const(tmp).or_else(f);
                M want = ma ? ma : some ? M{v} : M{};
                agree(r, want, "or_else");
                c.eq(calls, ma ? 0 : 1, "or_else-calls");
                agree(a, ma, "or_else changed the optional");
                break;
            }
            case 16:
            case 17: {
                c.op("compare", a.has_value(), b.has_value());
                c.eq(a == b, ma == mb, "==");
                c.eq(a != b, ma != mb, "!=");
                if (ma) {
                    O x{a};
                    c.eq(x == a, M{ma} == ma, "== copy");
                }
                if constexpr (ordered) {
                    c.eq(a < b, ma < mb, "<");
                    c.eq(b < a, mb < ma, "<");
                    // <=, >, >= of partially ordered values are not compared
                    bool const total = not ma or not mb or *ma < *mb or
                                       *mb < *ma or *ma == *mb;
                    if (total) {
                        c.eq(a <= b, not(mb < ma), "<=");
                        c.eq(a > b, mb < ma, ">");
                        c.eq(a >= b, not(ma < mb), ">=");
                    }
                }
                break;
            }
            case 18:
            case 19: {
                c.op("transform 2", a.has_value(), b.has_value());
                int calls = 0;
                bool order = true;
                auto r = stdx::transform(
                    [&](T &x, T const &y) {
                        ++calls;
                        order = std::addressof(x) == std::addressof(*a) and
                                std::addressof(y) == std::addressof(*b);
                        return S{digest(x) * 7 + digest(y)};
                    },
                    a, std::as_const(b));
                static_assert(
                    std::is_same_v<decltype(r), stdx::optional<S>>);
                bool const both = ma and mb;
                agree_s(r,
                        both ? std::optional<S>{S{digest(*ma) * 7 +
                                                  digest(*mb)}}
                             : std::nullopt,
                        "multi-transform");
                c.eq(calls, both ? 1 : 0, "multi-transform-calls");
                c.check(order, "multi-transform-arguments", "");
                break;
            }
            case 20: {
                auto v = Make<T>::make(c);
                bool third = c.coin();
                O o3;
                if (third) {
                    o3.emplace(v);
                }
                c.op("transform 3", a.has_value(), b.has_value(), third);
                int calls = 0;
                O t1{a}, t2{b};
                auto r = stdx::transform(
                    [&](T &&x, T &y, T const &&z) {
                        ++calls;
                        return S{digest(x) * 7 + digest(y) * 3 + digest(z)};
                    },
                    std::move(t1), t2, std::move(std::as_const(o3)));
                bool const all = ma and mb and third;
                agree_s(r,
                        all ? std::optional<S>{S{digest(*ma) * 7 +
                                                 digest(*mb) * 3 + digest(v)}}
                            : std::nullopt,
                        "multi-transform");
                c.eq(calls, all ? 1 : 0, "multi-transform-calls");
                break;
            }
            default: {
                // reading through each category
                if (ma) {
                    c.op("access");
                    static_assert(std::is_same_v<decltype(*a), T &>);
                    static_assert(
                        std::is_same_v<decltype(*std::as_const(a)),
                                       T const &>);
                    static_assert(
                        std::is_same_v<decltype(*std::move(a)), T &&>);
                    static_assert(
                        std::is_same_v<decltype(std::move(a).value()), T &&>);
                    static_assert(
                        std::is_same_v<decltype(std::move(std::as_const(a))
                                                    .value()),
                                       T const &&>);
                    c.check(identical(a.value(), *ma), "value", "");
                    T t{*std::as_const(a)};
                    c.check(identical(t, *ma), "dereference", "");
                    *a = t;
                    T t2{*std::move(a)};
                    c.check(identical(t2, *ma), "rvalue dereference", "");
                    a = O{t};
                } else {
                    // an empty optional shows the tombstone
                    c.op("access empty");
                    c.check(std::as_const(a).value() == TS{}(),
                            "tombstone-visible", "");
                }
            }
            }
            agree(a, ma, "state");
            agree(b, mb, "state");
            c.state(vf::mix(ma ? static_cast<u64>(digest(*ma)) : ~u64{}) ^
                    (mb ? static_cast<u64>(digest(*mb)) : 77u));
        }
    }
    vf::life_check(c, "optional");
    c.check(vf::life.live.empty(), "leak", "objects left alive");
}
using Int = int;
using IntTS = stdx::tombstone_value<-1>;
using U16TS = stdx::tombstone_value<u16{0x8000}>;
using PairSE = std::pair<S, E>;
using Tup3 = std::tuple<S, double, E>;
VF_INST(4, opt, E)
VF_INST(4, opt, S)
VF_INST(3, opt, double)
VF_INST(2, opt, float)
VF_INST(3, opt, int *)
VF_INST(3, opt, int, IntTS)
VF_INST(3, opt, u16, U16TS)
VF_INST(2, opt, u16, Dead16)
VF_INST(3, opt, PairSE)
VF_INST(3, opt, Tup3)
VF_INST(4, opt, vf::Tracked)
VF_INST(3, opt, std::string)

// move-only and non-movable values
VF_SUITE(move_only, 3) {
    using O = stdx::optional<MoveOnly>;
    std::optional<int> m;
    O a;
    auto agree = [&](O const &o, std::optional<int> x, char const *key) {
        c.eq(o.has_value(), x.has_value(), key);
        if (x) {
            c.eq(o->get(), *x, key);
        }
    };
    for (auto n = 4 + c.below(14); n > 0; --n) {
        auto v = static_cast<int>(c.below(100));
        switch (c.below(9)) {
        case 0:
            c.op("emplace", v);
            if (c.coin()) {
                a.emplace(v);
            } else {
                a.emplace(MoveOnly{v});
            }
            m = v;
            break;
        case 1: c.op("assign", v); a = MoveOnly{v}; m = v; break;
        case 2: c.op("reset"); a.reset(); m.reset(); break;
        case 3: {
            c.op("move");
            O b{std::move(a)};
            agree(b, m, "move-constructed");
            a = std::move(b);
            break;
        }
        case 4: {
            c.op("value_or", v);
            auto r = std::move(a).value_or(MoveOnly{v});
            c.eq(r.get(), m.value_or(v), "value_or rvalue");
            a.emplace(v);
            m = v;
            break;
        }
        case 5: {
            c.op("transform &&");
            auto r = std::move(a).transform(
                [](MoveOnly &&x) { return MoveOnly{std::move(x)}; });
            agree(r, m, "transform");
            a = std::move(r);
            break;
        }
        case 6: {
            c.op("and_then &&");
            auto r = std::move(a).and_then(
                [](MoveOnly &&x) { return O{std::move(x)}; });
            agree(r, m, "and_then");
            a = std::move(r);
            break;
        }
        case 7: {
            c.op("or_else &&", v);
            auto r = std::move(a).or_else([&] { return O{MoveOnly{v}}; });
            agree(r, m ? m : std::optional<int>{v}, "or_else");
            a = std::move(r);
            m = m ? m : std::optional<int>{v};
            break;
        }
        default: {
            c.op("multi transform &&", v);
            auto r = stdx::transform(
                [](MoveOnly &&x, MoveOnly &&y) {
                    auto t = std::move(y);
                    MoveOnly s{x.get() * 100 + t.get()};
                    return s;
                },
                std::move(a), O{v});
            agree(r, m ? std::optional<int>{*m * 100 + v} : std::nullopt,
                  "multi-transform");
        }
        }
        agree(a, m, "state");
        c.state(static_cast<u64>(m.value_or(-1)));
    }
}
// arguments that can only be given as rvalues
struct Parcel {
    std::unique_ptr<int> p;
};
struct Opened {
    int v{-1};
    Opened() = default;
    explicit Opened(int x) : v{x} {}
    explicit Opened(Parcel &&q) : v{*std::exchange(q.p, nullptr)} {}
    Opened(Parcel &&q, int &add, Parcel &&r)
        : v{*std::exchange(q.p, nullptr) + add + *std::exchange(r.p, nullptr)} {
        ++add;
    }
    friend auto operator==(Opened const &, Opened const &) -> bool = default;
};
} // namespace
template <> struct stdx::tombstone_traits<Opened> {
    auto operator()() const { return Opened{-1}; }
};
namespace {
VF_SUITE(rvalue_arguments, 2) {
    auto const v = static_cast<int>(c.below(1000));
    auto const w = static_cast<int>(c.below(1000));
    c.op("rvalue_arguments", v, w);
    auto give = [&](int x) { return Parcel{std::make_unique<int>(x)}; };
    using O = stdx::optional<Opened>;
    O a{std::in_place, give(v)};
    c.eq(a->v, v, "in_place");
    int add = 1;
    O b{std::in_place, give(v), add, give(w)};
    c.eq(b->v, v + w + 1, "in_place");
    c.eq(add, 2, "in_place-reference");
    O d{give(v)};
    c.eq(d->v, v, "value-constructed");
    c.eq(d.emplace(give(w)).v, w, "emplace");
    c.eq(d.emplace(give(v), add, give(w)).v, v + w + 2, "emplace");
    c.eq(add, 3, "emplace-reference");
    O e{};
    c.eq(e.value_or(give(v)).v, v, "value_or");
    c.eq(std::as_const(e).value_or(give(v)).v, v, "value_or");
    c.eq(O{}.value_or(give(w)).v, w, "value_or");
    c.eq(a.value_or(give(w)).v, v, "value_or");
}
// constructors with a list of values are only meant by a list of values; conversions may narrow
struct Listed {
    std::vector<int> v;
    Listed() = default;
    Listed(int n) : v(static_cast<std::size_t>(n), 1) {}
    Listed(int n, int x) : v(static_cast<std::size_t>(n), x) {}
    Listed(std::initializer_list<int> l) : v{l} {}
    friend auto operator==(Listed const &, Listed const &) -> bool = default;
};
} // namespace
template <> struct stdx::tombstone_traits<Listed> {
    auto operator()() const { return Listed{-1, -1, -1}; }
};
namespace {
VF_SUITE(listed, 1) {
    auto const n = static_cast<int>(c.below(6)), x = static_cast<int>(c.below(100));
    c.op("listed", n, x);
    using O = stdx::optional<Listed>;
    using M = std::optional<Listed>;
    auto const same = [&](O const &o, M const &m, char const *key) {
        c.eq(o.has_value(), m.has_value(), key);
        if (m) {
            c.check(o->v == m->v, key, vf::str(o->v).c_str());
        }
    };
    same(O{std::in_place, n, x}, M{std::in_place, n, x}, "in_place-arguments");
    same(O{std::in_place, n}, M{std::in_place, n}, "in_place-arguments");
    same(O{std::in_place}, M{std::in_place}, "in_place-arguments");
    same(O{std::in_place, std::initializer_list<int>{n, x}}, M{std::in_place, std::initializer_list<int>{n, x}}, "in_place-list");
    same(O{n}, M{n}, "converted");
    O o{};
    M m{};
    o.emplace(n, x);
    m.emplace(n, x);
    same(o, m, "emplaced");
    o.emplace(n);
    m.emplace(n);
    same(o, m, "emplaced");
    c.check(o.value_or(x % 7).v == m.value_or(x % 7).v, "value_or", "engaged");
    o.reset();
    m.reset();
    same(o, m, "reset");
    c.check(o.value_or(x % 7).v == m.value_or(x % 7).v, "value_or", "empty");
    c.check(O{}.value_or(x % 7).v == M{}.value_or(x % 7).v, "value_or", "empty rvalue");
    // a default of another type is converted
    stdx::optional<float> f{};
    std::optional<float> g{};
    if (c.coin()) {
        f = static_cast<float>(n);
        g = static_cast<float>(n);
    }
    auto const d = static_cast<double>(x) / 3;
    c.eq(f.value_or(d), g.value_or(d), "value_or-narrower");
    c.eq(std::move(f).value_or(x), g.value_or(x), "value_or-narrower");
    stdx::optional<int, stdx::tombstone_value<-1>> i{};
    std::optional<int> j{};
    c.eq(i.value_or(d), j.value_or(d), "value_or-narrower");
    c.eq(i.value_or(static_cast<long long>(x)), j.value_or(static_cast<long long>(x)), "value_or-narrower");
    c.eq(decltype(i){std::in_place, d}.value(), decltype(j){std::in_place, d}.value(), "in_place-narrower");
}
VF_SUITE(non_movable, 1) {
    stdx::optional<NonMov> o{}, p{std::in_place, 4};
    auto v = static_cast<int>(c.below(1000));
    c.op("emplace", v);
    c.check(not o, "state", "");
    c.eq(p->value, 4, "in_place");
    o.emplace(v);
    c.check(o.has_value(), "state", "");
    c.eq(o->value, v, "emplace");
    auto q = o.transform([](NonMov &x) { return NonMov{x.value + 1}; });
    c.eq(q->value, v + 1, "transform");
    auto r = stdx::transform(
        [](NonMov &x, NonMov &y) { return NonMov{x.value * 2 + y.value}; }, o,
        p);
    c.eq(r->value, 2 * v + 4, "multi-transform");
    c.check(not(o == p) == (v != 4), "==", "");
    o.reset();
    c.check(not o.has_value(), "reset", "");
    auto s = stdx::transform([](NonMov &, NonMov &) { return NonMov{1}; }, o,
                             p);
    c.check(not s.has_value(), "multi-transform", "");
}

// tuple-like values are unpacked for functions of several arguments
VF_SUITE(unpack, 3) {
    auto x = Make<S>::make(c);
    auto y = static_cast<E>(c.below(255));
    bool full = c.chance(75);
    c.op("unpack", x.value, static_cast<int>(y), full);
    int calls = 0;
    auto f = [&](S a, E b) {
        ++calls;
        return S{(a.value & 0xffff) * 300 + static_cast<int>(b)};
    };
    auto g = [&](S a, E b) { return stdx::optional<S>{f(a, b)}; };
    int const want = (x.value & 0xffff) * 300 + static_cast<int>(y);
    auto try_one = [&](auto o) {
        if (not full) {
            o.reset();
        }
        auto one = [&](stdx::optional<S> const &r, char const *key) {
            c.eq(r.has_value(), full, key);
            if (full) {
                c.eq(r->value, want, key);
            }
            c.eq(calls, full ? 1 : 0, key);
            calls = 0;
        };
        one(o.transform(f), "unpacking transform");
        one(std::as_const(o).transform(f), "unpacking transform");
        one(o.and_then(g), "unpacking and_then");
        one(std::as_const(o).and_then(g), "unpacking and_then");
        one(o | g, "unpacking |");
        auto p = o;
        one(std::move(p).transform(f), "unpacking transform");
        auto q = o;
        one(std::move(q).and_then(g), "unpacking and_then");
    };
    try_one(stdx::optional<std::tuple<S, E>>{std::tuple<S, E>{x, y}});
    try_one(stdx::optional<std::pair<S, E>>{std::pair<S, E>{x, y}});
}

// functions are called with the category they are given in
template <typename R, bool Rvalue> struct Only {
    int *calls;
    template <typename... As>
        requires Rvalue
    R operator()(As &&...as) && {
        ++*calls;
        return R{S{(0 + ... + (digest(as) & 0xff))}};
    }
    template <typename... As>
        requires(not Rvalue)
    R operator()(As &&...as) & {
        ++*calls;
        return R{S{(0 + ... + (digest(as) & 0xff))}};
    }
};
VF_SUITE(function_category, 3) {
    using O = stdx::optional<S>;
    int calls = 0;
    bool const full = c.chance(75);
    auto const x = Make<S>::make(c);
    auto const y = Make<S>::make(c);
    c.op("function_category", x.value, y.value, full);
    auto one = [&](O const &r, bool has, int want, char const *key) {
        c.eq(r.has_value(), has, key);
        if (has and r) {
            c.eq(r->value, want, key);
        }
        c.eq(calls, has ? 1 : 0, key);
        calls = 0;
    };
    auto all = [&](auto const &o, int want) {
        using T = std::remove_cvref_t<decltype(o)>;
        Only<S, false> lf{&calls};
        Only<O, false> lg{&calls};
        // an lvalue function is tried on unpacked tuples as an rvalue
        constexpr bool tup = not std::is_same_v<T, O>;
        auto with = [&](auto &&p) {
            using P = decltype(p);
            one(std::forward<P>(p).transform(Only<S, true>{&calls}), full,
                want, "transform with an rvalue function");
            one(std::forward<P>(p).and_then(Only<O, true>{&calls}), full, want,
                "and_then with an rvalue function");
            one(std::forward<P>(p) | Only<O, true>{&calls}, full, want,
                "pipe into an rvalue function");
            if constexpr (not tup) {
                one(std::forward<P>(p).transform(lf), full, want,
                    "transform with an lvalue function");
                one(std::forward<P>(p).and_then(lg), full, want,
                    "and_then with an lvalue function");
                one(std::forward<P>(p) | lg, full, want,
                    "pipe into an lvalue function");
            }
        };
        T p{o};
        with(p);
        with(std::as_const(p));
        with(std::move(p));
        with(std::move(std::as_const(p)));
    };
    auto const dx = digest(x) & 0xff, dy = digest(y) & 0xff;
    O o{x};
    stdx::optional<std::tuple<S, S>> t{std::tuple<S, S>{x, y}};
    stdx::optional<std::pair<S, S>> u{std::pair<S, S>{x, y}};
    if (not full) {
        o.reset();
        t.reset();
        u.reset();
    }
    all(o, dx);
    all(t, dx + dy);
    all(u, dx + dy);
    auto const both = full ? std::optional<int>{dx + dy} : std::nullopt;
    auto multi = [&](auto const &p, auto const &q, char const *key) {
        using P = std::remove_cvref_t<decltype(p)>;
        auto r = stdx::transform(Only<S, true>{&calls}, p, q);
        Only<S, false> l{&calls};
        c.eq(r.has_value(), both.has_value(), key);
        c.check(not r or r->value == dx + dy, key, "other value");
        c.eq(calls, full ? 1 : 0, key);
        P p2{p}, q2{q};
        auto r2 = stdx::transform(Only<S, true>{&calls}, std::move(p2), q2);
        c.eq(r2.has_value(), both.has_value(), key);
        c.check(not r2 or r2->value == dx + dy, key, "other value");
        c.eq(calls, full ? 2 : 0, key);
        calls = 0;
    };
    multi(o, O{y}, "multi-transform with an rvalue function");
    multi(full ? std::optional<S>{x} : std::optional<S>{}, std::optional<S>{y},
          "multi-transform of std::optional with an rvalue function");
    Only<O, false> l{&calls};
    auto other = [&](O const &r) {
        c.check(r.has_value() and r->value == (full ? x.value : 0), "or_else",
                "other value");
        c.eq(calls, full ? 0 : 1, "or_else");
        calls = 0;
    };
    other(o.or_else(Only<O, true>{&calls}));
    other(std::as_const(o).or_else(l));
    O p{o};
    other(std::move(p).or_else(Only<O, true>{&calls}));
}

// the multi-argument form over std::optional
VF_SUITE(std_optionals, 2) {
    std::optional<int> a, b;
    if (c.coin()) {
        a = static_cast<int>(c.below(50));
    }
    if (c.coin()) {
        b = static_cast<int>(c.below(50));
    }
    c.op("transform", a.value_or(-1), b.value_or(-1));
    int calls = 0;
    auto r = stdx::transform(
        [&](int &x, int const &y) {
            ++calls;
            return x * 100 + y;
        },
        a, std::as_const(b));
    static_assert(std::is_same_v<decltype(r), std::optional<int>>);
    c.check(r == (a and b ? std::optional<int>{*a * 100 + *b} : std::nullopt),
            "multi-transform of std::optional", "");
    c.eq(calls, a and b ? 1 : 0, "multi-transform-calls");
}
} // namespace
