#include <stdx/tuple.hpp>
#include <stdx/tuple_destructure.hpp>

#include "elems.hpp"

#include <compare>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

using vf::u64;

namespace {
// ---- element palette ---------------------------------------------------------
template <int> struct Em { // empty
    friend constexpr auto operator<=>(Em, Em) = default;
};
struct Part { // partially ordered: negative values compare with nothing
    int v{};
    friend constexpr bool operator==(Part a, Part b) { return a.v >= 0 and a.v == b.v; }
    friend constexpr std::partial_ordering operator<=>(Part a, Part b) {
        if (a.v < 0 or b.v < 0) {
            return std::partial_ordering::unordered;
        }
        return a.v <=> b.v;
    }
};
struct Weak { // equivalent when the low bits agree
    int v{};
    friend constexpr bool operator==(Weak a, Weak b) { return (a.v & 3) == (b.v & 3); }
    friend constexpr std::weak_ordering operator<=>(Weak a, Weak b) { return (a.v & 3) <=> (b.v & 3); }
};
using S = std::string;
using UP = std::unique_ptr<int>;
using TP = stdx::tuple<int, char>;
using TR = vf::Tracked;
using TM = vf::TrackedMove;

template <typename T> constexpr bool is_em = false;
template <int N> constexpr bool is_em<Em<N>> = true;

template <typename T> constexpr T make(u64 n) {
    if constexpr (is_em<T>) {
        return {};
    } else if constexpr (std::is_same_v<T, double>) {
        constexpr double ds[] = {0.0, -0.0, 1.5, std::numeric_limits<double>::quiet_NaN(),
                                 std::numeric_limits<double>::infinity(), -2.0, 1e300};
        return ds[n % 7];
    } else if constexpr (std::is_same_v<T, bool>) {
        return n % 2 != 0;
    } else if constexpr (std::is_same_v<T, S>) {
        return S(n % 3 * 12, 'x') + std::to_string(n);
    } else if constexpr (std::is_same_v<T, Part>) {
        return Part{static_cast<int>(n % 6) - 2};
    } else if constexpr (std::is_same_v<T, Weak>) {
        return Weak{static_cast<int>(n)};
    } else if constexpr (std::is_same_v<T, UP>) {
        return std::make_unique<int>(static_cast<int>(n));
    } else if constexpr (std::is_same_v<T, TP>) {
        return TP{static_cast<int>(n / 3), static_cast<char>('a' + n % 3)};
    } else if constexpr (std::is_same_v<T, TR> or std::is_same_v<T, TM>) {
        return T(static_cast<int>(n));
    } else if constexpr (std::is_signed_v<T>) {
        return static_cast<T>(static_cast<int>(n) - 3);
    } else {
        return static_cast<T>(n);
    }
}
template <typename T> std::string show(T const &t) {
    if constexpr (is_em<T>) {
        return "e";
    } else if constexpr (std::is_same_v<T, S>) {
        return t;
    } else if constexpr (std::is_same_v<T, Part>) {
        return "p" + std::to_string(t.v);
    } else if constexpr (std::is_same_v<T, Weak>) {
        return "w" + std::to_string(t.v);
    } else if constexpr (std::is_same_v<T, UP>) {
        return t ? "u" + std::to_string(*t) : "null";
    } else if constexpr (std::is_same_v<T, TP>) {
        return std::to_string(stdx::get<0>(t)) + stdx::get<1>(t);
    } else if constexpr (std::is_same_v<T, TR> or std::is_same_v<T, TM>) {
        return "t" + std::to_string(t.get());
    } else if constexpr (std::is_same_v<T, double>) {
        char b[40];
        std::snprintf(b, sizeof b, "%a", t);
        return b;
    } else {
        return std::to_string(t);
    }
}

// storage behind reference elements
template <typename T> struct Slot {
    std::remove_cvref_t<T> v;
    u64 n;
    explicit Slot(u64 k) : v{make<std::remove_cvref_t<T>>(k)}, n{k} {}
    decltype(auto) arg() {
        if constexpr (std::is_reference_v<T>) {
            return static_cast<T>(v);
        } else {
            return make<std::remove_cv_t<T>>(n);
        }
    }
};

[[gnu::noinline]] void verify(vf::Ctx &c, bool ok, char const *how, char const *what) {
    ++vf::g.checks;
    if (not ok) {
        c.fail(std::string(how) + "-" + what, "differs from std::tuple");
    }
}
[[gnu::noinline]] void same_str(vf::Ctx &c, std::string const &a, std::string const &b, char const *how) {
    ++vf::g.checks;
    if (a != b) {
        c.fail(how, "got " + a + " expected " + b);
    }
}

// how an argument arrived: value category and constness
template <typename T> constexpr int cat() {
    return (std::is_lvalue_reference_v<T> ? 1 : 2) + (std::is_const_v<std::remove_reference_t<T>> ? 4 : 0);
}
template <typename T> void const *addr(T &&t) { return std::addressof(t); }

template <typename T, typename... Ts> constexpr std::size_t count = (std::size_t{std::is_same_v<T, Ts>} + ... + 0);

template <typename L, typename R> struct Node {};
template <typename T> struct Leaf {};
struct Init {};
struct Build {
    template <typename A> struct wrap {
        using type = Leaf<A>;
    };
    template <typename L, typename R> struct wrap<Node<L, R>> {
        using type = Node<L, R>;
    };
    template <typename L, typename R>
    constexpr auto operator()(L const &, R const &) const -> Node<typename wrap<L>::type, typename wrap<R>::type> {
        return {};
    }
};
template <typename A, typename... Rest> struct LeftT {
    using type = A;
};
template <typename A, typename B, typename... Rest> struct LeftT<A, B, Rest...> {
    using type = typename LeftT<decltype(Build{}(std::declval<A const &>(), std::declval<B const &>())), Rest...>::type;
};
template <typename A, typename... Rest> struct RightT {
    using type = A;
};
template <typename A, typename B, typename... Rest> struct RightT<A, B, Rest...> {
    using type = decltype(Build{}(std::declval<A const &>(), std::declval<typename RightT<B, Rest...>::type const &>()));
};

// Addresses seen through structured bindings of x.
template <std::size_t N, typename T> std::vector<void const *> bound(T &x) {
    if constexpr (N == 1) {
        auto &[a] = x;
        return {addr(a)};
    } else if constexpr (N == 2) {
        auto &[a, b] = x;
        return {addr(a), addr(b)};
    } else if constexpr (N == 3) {
        auto &[a, b, d] = x;
        return {addr(a), addr(b), addr(d)};
    } else if constexpr (N == 4) {
        auto &[a, b, d, e] = x;
        return {addr(a), addr(b), addr(d), addr(e)};
    } else if constexpr (N == 5) {
        auto &[a, b, d, e, f] = x;
        return {addr(a), addr(b), addr(d), addr(e), addr(f)};
    } else if constexpr (N == 6) {
        auto &[a, b, d, e, f, h] = x;
        return {addr(a), addr(b), addr(d), addr(e), addr(f), addr(h)};
    } else {
        return {};
    }
}
// Values seen through a by-value structured binding.
template <std::size_t N, typename T> std::string bound_copy(T x) {
    if constexpr (N == 1) {
        auto [a] = std::move(x);
        return show(a);
    } else if constexpr (N == 2) {
        auto [a, b] = std::move(x);
        return show(a) + "," + show(b);
    } else if constexpr (N == 3) {
        auto [a, b, d] = std::move(x);
        return show(a) + "," + show(b) + "," + show(d);
    } else if constexpr (N == 4) {
        auto [a, b, d, e] = std::move(x);
        return show(a) + "," + show(b) + "," + show(d) + "," + show(e);
    } else {
        return {};
    }
}

template <typename Tup, typename Std> std::string listing(Std const &t) {
    return std::apply(
        [](auto const &...xs) {
            std::string r;
            ((r += (r.empty() ? "" : ",") + show(xs)), ...);
            return r;
        },
        t);
}

struct FnCat {
    template <typename... As> constexpr auto operator()(As &&...) & -> int { return 0; }
    template <typename... As> constexpr auto operator()(As &&...) const & -> int { return 1; }
    template <typename... As> constexpr auto operator()(As &&...) && -> int { return 2; }
};

// Everything that can be read from one tuple, next to std::tuple over the same
// storage. Tup is stdx::tuple<Ts...> or an indexed_tuple of the same elements.
template <typename Tup, typename... Ts> void access(vf::Ctx &c, Tup &t, std::tuple<Ts...> &m, char const *how) {
    using Std = std::tuple<Ts...>;
    constexpr auto N = sizeof...(Ts);
    static_assert(stdx::tuple_size_v<Tup> == N and Tup::size() == N and Tup::empty() == (N == 0));
    static_assert(std::tuple_size_v<Tup> == N);
    auto const &ct = t;
    auto ck = [&](bool ok, char const *what) { verify(c, ok, how, what); };
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        auto one = [&]<std::size_t I>() {
            using T = std::tuple_element_t<I, Std>;
            ck(std::is_same_v<stdx::tuple_element_t<I, Tup>, T>, "tuple_element_t");
            ck(std::is_same_v<std::tuple_element_t<I, Tup>, T>, "std-tuple_element");
            ck(std::is_same_v<decltype(get<I>(t)), decltype(std::get<I>(m))>, "get-type");
            ck(std::is_same_v<decltype(get<I>(ct)), decltype(std::get<I>(std::as_const(m)))>, "get-const-type");
            ck(std::is_same_v<decltype(get<I>(std::move(t))), decltype(std::get<I>(std::move(m)))>, "get-rvalue-type");
            ck(std::is_same_v<decltype(t[stdx::index<I>]), decltype(std::get<I>(m))>, "index-type");
            ck(std::is_same_v<decltype(ct[stdx::index<I>]), decltype(std::get<I>(std::as_const(m)))>,
               "index-const-type");
            ck(std::is_same_v<decltype(std::move(t)[stdx::index<I>]), decltype(std::get<I>(std::move(m)))>,
               "index-rvalue-type");
            auto const p = addr(get<I>(t));
            ck(addr(get<I>(ct)) == p, "get-const-address");
            ck(addr(t[stdx::index<I>]) == p and addr(ct[stdx::index<I>]) == p, "index-address");
            ck(addr(get<I>(std::move(t))) == p and addr(std::move(t)[stdx::index<I>]) == p, "rvalue-address");
            if constexpr (std::is_reference_v<T>) {
                ck(p == addr(std::get<I>(m)), "reference-target");
            } else {
                auto b = reinterpret_cast<char const *>(&t);
                ck(p >= static_cast<void const *>(b) and p < static_cast<void const *>(b + sizeof t),
                   "element-inside-tuple");
            }
            if constexpr (count<T, Ts...> == 1) {
                ck(addr(get<T>(t)) == p and addr(get<T>(ct)) == p and addr(get<T>(std::move(t))) == p,
                   "get-by-type-address");
                ck(std::is_same_v<decltype(get<T>(t)), decltype(std::get<T>(m))>, "get-by-type-type");
                ck(std::is_same_v<decltype(get<T>(ct)), decltype(std::get<T>(std::as_const(m)))>,
                   "get-by-type-const-type");
                ck(std::is_same_v<decltype(get<T>(std::move(t))), decltype(std::get<T>(std::move(m)))>,
                   "get-by-type-rvalue-type");
                ck(addr(t.get(stdx::tag<T>)) == p, "member-get");
            }
            same_str(c, show(get<I>(t)), show(std::get<I>(m)), "element-value");
        };
        (one.template operator()<Is>(), ...);
        std::vector<void const *> addrs{addr(get<Is>(t))...};
        if constexpr (N > 0 and N <= 6) {
            ck(bound<N>(t) == addrs, "structured-binding");
            ck(bound<N>(ct) == addrs, "structured-binding-const");
        }
        // apply, in every category, member and free
        auto cats_of = [&]<typename... As>(As &&...as) {
            ck(std::vector<void const *>{addr(as)...} == addrs, "apply-arguments");
            return std::vector<int>{cat<As &&>()...};
        };
        auto want = [&]<typename U>(std::type_identity<U>) {
            return std::vector<int>{cat<decltype(std::get<Is>(std::declval<U>()))>()...};
        };
        ck(t.apply(cats_of) == want(std::type_identity<Std &>{}), "apply-category");
        ck(ct.apply(cats_of) == want(std::type_identity<Std const &>{}), "apply-const-category");
        ck(std::move(t).apply(cats_of) == want(std::type_identity<Std>{}), "apply-rvalue-category");
        ck(stdx::apply(cats_of, t) == want(std::type_identity<Std &>{}), "free-apply-category");
        ck(stdx::apply(cats_of, ct) == want(std::type_identity<Std const &>{}), "free-apply-const-category");
        ck(stdx::apply(cats_of, std::move(t)) == want(std::type_identity<Std>{}), "free-apply-rvalue-category");
        int dummy = 0;
        auto ref = [&](auto &&...) -> int & { return dummy; };
        static_assert(std::is_same_v<decltype(t.apply(ref)), int &>);
        static_assert(std::is_same_v<decltype(stdx::apply(ref, ct)), int &>);
        static_assert(std::is_same_v<decltype(std::move(t).apply(ref)), int &>);
        ck(addr(stdx::apply(ref, t)) == addr(dummy), "apply-result");
        // the function is called in the category it was passed in
        FnCat fn{};
        ck(t.apply(fn) == 0 and t.apply(std::as_const(fn)) == 1 and t.apply(FnCat{}) == 2, "apply-function-category");
        ck(ct.apply(fn) == 0 and ct.apply(std::as_const(fn)) == 1 and ct.apply(FnCat{}) == 2,
           "apply-const-function-category");
        ck(std::move(t).apply(fn) == 0 and std::move(t).apply(std::as_const(fn)) == 1 and
               std::move(t).apply(FnCat{}) == 2,
           "apply-rvalue-function-category");
        ck(stdx::apply(fn, t) == 0 and stdx::apply(std::as_const(fn), ct) == 1 and stdx::apply(FnCat{}, t) == 2,
           "free-apply-function-category");
    }(std::make_index_sequence<N>{});
}

// folds, join, tail: only reads t through const& here
template <typename Tup, typename... Ts> void folds(vf::Ctx &c, Tup const &t, std::tuple<Ts...> &m) {
    constexpr auto N = sizeof...(Ts);
    std::vector<std::string> es;
    std::apply([&](auto const &...xs) { (es.push_back(show(xs)), ...); }, m);
    int wrong = 0;
    auto l = [&]<typename E>(std::string acc, E &&e) {
        wrong += not std::is_lvalue_reference_v<E &&>;
        return "(" + acc + " " + show(e) + ")";
    };
    auto r = [&]<typename E>(E &&e, std::string acc) {
        wrong += not std::is_lvalue_reference_v<E &&>;
        return "(" + show(e) + " " + acc + ")";
    };
    std::string el = "i", er = "i";
    for (std::size_t i = 0; i < N; ++i) {
        el = "(" + el + " " + es[i] + ")";
        er = "(" + es[N - 1 - i] + " " + er + ")";
    }
    same_str(c, t.fold_left(std::string("i"), l), el, "fold_left");
    same_str(c, t.fold_right(std::string("i"), r), er, "fold_right");
    using Own = std::unique_ptr<std::string>; // cannot be copied on the way
    auto own = [](std::string s) { return std::make_unique<std::string>(std::move(s)); };
    same_str(c, *t.fold_left(own("i"), [&](Own a, auto const &e) { return own("(" + *a + " " + show(e) + ")"); }), el,
             "fold_left-move-only");
    same_str(c, *t.fold_right(own("i"), [&](auto const &e, Own a) { return own("(" + show(e) + " " + *a + ")"); }), er,
             "fold_right-move-only");
    c.check(wrong == 0, "fold-category", "an element of an lvalue tuple arrived as an rvalue");
    verify(c,
           std::is_same_v<decltype(t.fold_left(Init{}, Build{})),
                          typename LeftT<Init, std::remove_cvref_t<Ts>...>::type>,
           "fold_left", "type");
    verify(c,
           std::is_same_v<decltype(t.fold_right(Init{}, Build{})),
                          typename RightT<std::remove_cvref_t<Ts>..., Init>::type>,
           "fold_right", "type");
    if constexpr ((... and std::is_copy_constructible_v<std::remove_cvref_t<Ts>>)) {
        auto j = [&](auto const &a, auto const &b) { return "(" + show(a) + " " + show(b) + ")"; };
        if constexpr (N > 0) {
            std::string ej = es[0];
            for (std::size_t i = 1; i < N; ++i) {
                ej = "(" + ej + " " + es[i] + ")";
            }
            same_str(c, show(t.join(j)), ej, "join");
            same_str(c, show(t.join(12345, j)), ej, "join-init");
            verify(c,
                   std::is_same_v<std::remove_cvref_t<decltype(t.join(Build{}))>,
                                  typename LeftT<std::remove_cvref_t<Ts>...>::type>,
                   "join", "type");
        } else {
            c.eq(t.join(12345, j), 12345, "join-empty");
        }
    }
    if constexpr ((... and std::is_copy_constructible_v<Ts>)) {
        auto rest = t.tail();
        [&]<std::size_t... Js>(std::index_sequence<Js...>) {
            verify(c, stdx::tuple_size_v<decltype(rest)> == sizeof...(Js), "tail", "size");
            auto one = [&]<std::size_t J>() {
                using T = std::tuple_element_t<J + 1, std::tuple<Ts...>>;
                verify(c, std::is_same_v<stdx::tuple_element_t<J, decltype(rest)>, T>, "tail", "type");
                if constexpr (std::is_reference_v<T>) {
                    verify(c, addr(stdx::get<J>(rest)) == addr(std::get<J + 1>(m)), "tail", "reference");
                } else {
                    same_str(c, show(stdx::get<J>(rest)), show(std::get<J + 1>(m)), "tail-value");
                }
            };
            (one.template operator()<Js>(), ...);
        }(std::make_index_sequence<(N == 0 ? 0 : N - 1)>{});
    }
}

// the same, consuming: elements arrive as rvalues and are moved out
template <typename Tup, typename... Ts> void consume(vf::Ctx &c, Tup &&t, std::tuple<Ts...> &m) {
    constexpr auto N = sizeof...(Ts);
    std::vector<std::string> es;
    std::apply([&](auto const &...xs) { (es.push_back(show(xs)), ...); }, m);
    std::string out;
    int lvalues = 0;
    auto take = [&]<typename E>(E &&e) {
        lvalues += std::is_lvalue_reference_v<E &&>;
        if constexpr (std::is_constructible_v<std::remove_cvref_t<E>, E &&>) {
            std::remove_cvref_t<E> v(std::forward<E>(e));
            return show(v);
        } else {
            return show(e);
        }
    };
    std::string ex;
    switch (c.below(4)) {
    case 0:
        c.op("fold_left &&");
        ex = "i";
        for (auto &e : es) {
            ex = "(" + ex + " " + e + ")";
        }
        out = *std::move(t).fold_left(std::make_unique<std::string>("i"), [&]<typename E>(std::unique_ptr<std::string> a, E &&e) {
            return std::make_unique<std::string>("(" + *a + " " + take(std::forward<E>(e)) + ")");
        });
        same_str(c, out, ex, "fold_left-rvalue");
        break;
    case 1:
        c.op("fold_right &&");
        ex = "i";
        for (std::size_t i = N; i-- > 0;) {
            ex = "(" + es[i] + " " + ex + ")";
        }
        out = *std::move(t).fold_right(std::make_unique<std::string>("i"), [&]<typename E>(E &&e, std::unique_ptr<std::string> a) {
            return std::make_unique<std::string>("(" + take(std::forward<E>(e)) + " " + *a + ")");
        });
        same_str(c, out, ex, "fold_right-rvalue");
        break;
    case 2:
        c.op("tail &&");
        if constexpr (N > 0 and (... and std::is_move_constructible_v<Ts>)) {
            auto rest = std::move(t).tail();
            [&]<std::size_t... Js>(std::index_sequence<Js...>) {
                verify(c, stdx::tuple_size_v<decltype(rest)> == sizeof...(Js), "tail-rvalue", "size");
                (same_str(c, show(stdx::get<Js>(rest)), show(std::get<Js + 1>(m)), "tail-rvalue-value"), ...);
            }(std::make_index_sequence<N - 1>{});
        }
        return;
    case 3:
        c.op("join &&");
        if constexpr (N > 0 and (... and std::is_constructible_v<std::remove_cvref_t<Ts>, Ts &&>)) {
            ex = es[0];
            for (std::size_t i = 1; i < N; ++i) {
                ex = "(" + ex + " " + es[i] + ")";
            }
            same_str(c, show(std::move(t).join([&]<typename A, typename B>(A &&a, B &&b) {
                std::remove_cvref_t<A> x(std::forward<A>(a));
                std::remove_cvref_t<B> y(std::forward<B>(b));
                return "(" + show(x) + " " + show(y) + ")";
            })),
                     ex, "join-rvalue");
        }
        return;
    }
    int lref = (0 + ... + int{std::is_lvalue_reference_v<Ts>});
    c.eq(lvalues, lref, "rvalue-fold-category");
}

template <typename A, typename B> auto order(A const &a, B const &b) {
    auto const o = a <=> b;
    return o == 0 ? 0 : o < 0 ? -1 : o > 0 ? 1 : 2;
}

// std::tuple also orders elements that only have <; stdx::tuple wants <=>
template <typename, typename> constexpr bool three_way = false;
template <typename... As, typename... Bs>
constexpr bool three_way<std::tuple<As...>, std::tuple<Bs...>> = (... and std::three_way_comparable_with<As, Bs>);

template <typename A, typename B, typename SA, typename SB>
void compare(vf::Ctx &c, A const &a, B const &b, SA const &sa, SB const &sb) {
    auto ck = [&](bool ok, char const *what) { verify(c, ok, "compare", what); };
    if constexpr (requires { sa == sb; }) {
        ck((a == b) == (sa == sb), "eq");
        ck((a != b) == (sa != sb), "ne");
        ck((b == a) == (sb == sa), "eq-swapped");
    }
    if constexpr (three_way<SA, SB>) {
        ck(std::is_same_v<decltype(a <=> b), decltype(sa <=> sb)>, "category");
        ck(order(a, b) == order(sa, sb), "three-way");
        ck(order(b, a) == order(sb, sa), "three-way-swapped");
        ck((a < b) == (sa < sb), "lt");
        ck((a <= b) == (sa <= sb), "le");
        ck((a > b) == (sa > sb), "gt");
        ck((a >= b) == (sa >= sb), "ge");
    }
}

template <typename T>
constexpr bool by_value_comparable = not std::is_same_v<std::remove_cvref_t<T>, UP>;

template <typename... Ts> void core(vf::Ctx &c) {
    constexpr auto N = sizeof...(Ts);
    using Std = std::tuple<Ts...>;
    vf::life.reset();
    {
        std::array<u64, N + 1> n{}, k{};
        auto const dom = c.range(1, 7);
        for (std::size_t i = 0; i < N; ++i) {
            n[i] = c.below(dom);
            k[i] = c.chance(75) ? n[i] : c.below(dom);
            c.op("element", n[i], k[i]);
        }
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            std::tuple<Slot<Ts>...> slots{Slot<Ts>(n[Is])...}, slots2{Slot<Ts>(k[Is])...};
            stdx::tuple<Ts...> t{std::get<Is>(slots).arg()...};
            Std m{std::get<Is>(slots).arg()...};
            access<stdx::tuple<Ts...>, Ts...>(c, t, m, "access");
            folds<stdx::tuple<Ts...>, Ts...>(c, t, m);
            if constexpr ((... and by_value_comparable<Ts>)) {
                stdx::tuple<Ts...> t2{std::get<Is>(slots2).arg()...};
                Std m2{std::get<Is>(slots2).arg()...};
                compare(c, t, t2, m, m2);
                compare(c, t, t, m, m);
            }
            if constexpr ((... and std::is_copy_constructible_v<Ts>)) {
                auto copy = t;
                access<stdx::tuple<Ts...>, Ts...>(c, copy, m, "copy");
                if constexpr (N > 0 and N <= 4) {
                    same_str(c, bound_copy<N>(t), listing<stdx::tuple<Ts...>>(m), "structured-binding-copy");
                }
            }
            if constexpr ((... and (std::is_move_constructible_v<Ts>))) {
                stdx::tuple<Ts...> src{std::get<Is>(slots).arg()...};
                auto moved = std::move(src);
                access<stdx::tuple<Ts...>, Ts...>(c, moved, m, "moved");
                if constexpr ((... and (std::is_object_v<Ts> and std::is_move_assignable_v<Ts>))) {
                    stdx::tuple<Ts...> other{std::get<Is>(slots2).arg()...};
                    Std mo{std::get<Is>(slots2).arg()...};
                    std::swap(moved, other);
                    access<stdx::tuple<Ts...>, Ts...>(c, moved, mo, "swapped");
                    access<stdx::tuple<Ts...>, Ts...>(c, other, m, "swapped");
                    if constexpr ((... and std::is_copy_assignable_v<Ts>)) {
                        other = moved;
                        access<stdx::tuple<Ts...>, Ts...>(c, other, mo, "assigned");
                        access<stdx::tuple<Ts...>, Ts...>(c, moved, mo, "assigned-from");
                    }
                }
            }
            // construction helpers
            if constexpr ((... and std::is_constructible_v<std::remove_cvref_t<Ts>, Ts>)) {
                auto made = stdx::make_tuple(std::get<Is>(slots).arg()...);
                static_assert(std::is_same_v<decltype(made), stdx::tuple<std::remove_cvref_t<Ts>...>>);
                // an rvalue-reference element was moved out of its slot: make it again
                ((std::is_rvalue_reference_v<Ts> ? void(std::get<Is>(slots).v = make<std::remove_cvref_t<Ts>>(n[Is]))
                                                 : void()),
                 ...);
                (same_str(c, show(stdx::get<Is>(made)), show(std::get<Is>(m)), "make_tuple"), ...);
            }
            {
                auto fwd = stdx::forward_as_tuple(std::get<Is>(slots).v...);
                static_assert(std::is_same_v<decltype(fwd), stdx::tuple<std::remove_cvref_t<Ts> &...>>);
                ((void)verify(c, addr(stdx::get<Is>(fwd)) == addr(std::get<Is>(slots).v), "forward_as_tuple", "target"),
                 ...);
                auto fwc = stdx::forward_as_tuple(std::as_const(std::get<Is>(slots).v)...);
                static_assert(std::is_same_v<decltype(fwc), stdx::tuple<std::remove_cvref_t<Ts> const &...>>);
                auto fwr = stdx::forward_as_tuple(std::move(std::get<Is>(slots).v)...);
                static_assert(std::is_same_v<decltype(fwr), stdx::tuple<std::remove_cvref_t<Ts> &&...>>);
                ((void)verify(c, addr(stdx::get<Is>(fwr)) == addr(std::get<Is>(slots).v), "forward_as_tuple", "target"),
                 ...);
                if constexpr (N > 1) {
                    auto ctad = stdx::tuple{make<std::remove_cvref_t<Ts>>(n[Is])...};
                    static_assert(std::is_same_v<decltype(ctad), stdx::tuple<std::remove_cvref_t<Ts>...>>);
                    (same_str(c, show(stdx::get<Is>(ctad)), show(std::get<Is>(m)), "ctad"), ...);
                }
            }
            consume<stdx::tuple<Ts...>, Ts...>(c, std::move(t), m);
        }(std::make_index_sequence<N>{});
    }
    vf::life_check(c, "tuple");
    c.check(vf::life.live.empty(), "lifetime-leak", "objects left behind");
}

// ---- comparisons between different element types -------------------------------
template <typename...> struct L {};
template <typename, typename> struct Cross;
template <typename... As, typename... Bs> struct Cross<L<As...>, L<Bs...>> {
    static void run(vf::Ctx &c) {
        std::array<u64, sizeof...(As) + 1> n{}, k{};
        auto const dom = c.range(1, 7);
        for (std::size_t i = 0; i < sizeof...(As); ++i) {
            n[i] = c.below(dom);
            k[i] = c.chance(75) ? n[i] : c.below(dom);
            c.op("element", n[i], k[i]);
        }
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            std::tuple<Slot<As>...> sl{Slot<As>(n[Is])...};
            std::tuple<Slot<Bs>...> sl2{Slot<Bs>(k[Is])...};
            stdx::tuple<As...> a{std::get<Is>(sl).arg()...};
            stdx::tuple<Bs...> b{std::get<Is>(sl2).arg()...};
            std::tuple<As...> sa{std::get<Is>(sl).arg()...};
            std::tuple<Bs...> sb{std::get<Is>(sl2).arg()...};
            compare(c, a, b, sa, sb);
        }(std::index_sequence_for<As...>{});
    }
};
template <typename A, typename B> void cross(vf::Ctx &c) { Cross<A, B>::run(c); }

// ---- indexed tuples -------------------------------------------------------------
template <typename> struct K1;
template <int, typename> struct Key;
template <int I, typename T> struct Ent {
    using key_t = Key<I, int>;
    using other_t = Key<I + 100, char>;
    T value;
    friend auto operator<=>(Ent const &, Ent const &) = default;
};
template <int I, typename T> std::string show(Ent<I, T> const &e) { return "#" + show(e.value); }
template <typename T> using key_for = typename T::key_t;
template <typename T> using other_for = typename T::other_t;

template <typename... Es> struct Indexed;
template <int... Ks, typename... Ts> struct Indexed<Ent<Ks, Ts>...> {
    template <bool Two, typename Tup, typename Mod> static void keys(vf::Ctx &c, Tup &t, Mod &m, char const *how) {
        auto ck = [&](bool ok, char const *what) { verify(c, ok, how, what); };
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            auto one = [&]<std::size_t I, typename E>() {
                using D = std::remove_cvref_t<E>;
                using K = typename D::key_t;
                auto const p = addr(get<I>(t));
                ck(addr(get<K>(t)) == p and addr(get<K>(std::as_const(t))) == p, "key-address");
                ck(addr(t.get(stdx::tag<K>)) == p, "key-member-get");
                ck(std::is_same_v<decltype(get<K>(t)), decltype(std::get<I>(m))>, "key-type");
                ck(std::is_same_v<decltype(get<K>(std::as_const(t))), decltype(std::get<I>(std::as_const(m)))>,
                   "key-const-type");
                ck(std::is_same_v<decltype(get<K>(std::move(t))), decltype(std::get<I>(std::move(m)))>,
                   "key-rvalue-type");
                ck(addr(get<K>(std::move(t))) == p, "key-rvalue-address");
                if constexpr (Two) {
                    ck(addr(get<typename D::other_t>(t)) == p, "second-key-address");
                }
            };
            (one.template operator()<Is, std::tuple_element_t<Is, Mod>>(), ...);
        }(std::make_index_sequence<std::tuple_size_v<Mod>>{});
    }
    static void run(vf::Ctx &c) {
        using Std = std::tuple<Ent<Ks, Ts>...>;
        auto const dom = c.range(1, 7);
        std::array<u64, sizeof...(Ts)> n{}, k{};
        for (std::size_t i = 0; i < n.size(); ++i) {
            n[i] = c.below(dom);
            k[i] = c.chance(75) ? n[i] : c.below(dom);
            c.op("element", n[i], k[i]);
        }
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            Std m{Ent<Ks, Ts>{make<Ts>(n[Is])}...};
            auto t1 = stdx::make_indexed_tuple<key_for>(Ent<Ks, Ts>{make<Ts>(n[Is])}...);
            using T1 = decltype(t1);
            access<T1, Ent<Ks, Ts>...>(c, t1, m, "indexed");
            folds<T1, Ent<Ks, Ts>...>(c, t1, m);
            keys<false>(c, t1, m, "one-index");
            auto t2 = stdx::make_indexed_tuple<key_for, other_for>(Ent<Ks, Ts>{make<Ts>(n[Is])}...);
            access<decltype(t2), Ent<Ks, Ts>...>(c, t2, m, "indexed-two");
            keys<true>(c, t2, m, "two-index");
            // from a plain tuple of values, and of references
            auto plain = stdx::make_tuple(Ent<Ks, Ts>{make<Ts>(n[Is])}...);
            auto refs = stdx::forward_as_tuple(get<Is>(plain)...);
            auto t3 = stdx::apply_indices<other_for, key_for>(refs);
            std::tuple<Ent<Ks, Ts> &...> rm{get<Is>(plain)...};
            access<decltype(t3), Ent<Ks, Ts> &...>(c, t3, rm, "apply_indices-references");
            keys<true>(c, t3, rm, "apply_indices-references");
            if constexpr ((... and std::is_copy_constructible_v<Ts>)) {
                auto t4 = stdx::apply_indices<key_for>(std::as_const(plain));
                access<decltype(t4), Ent<Ks, Ts>...>(c, t4, m, "apply_indices-copy");
                keys<false>(c, t4, m, "apply_indices-copy");
                access<decltype(plain), Ent<Ks, Ts>...>(c, plain, m, "apply_indices-source");
            }
            if constexpr ((... and by_value_comparable<Ts>)) {
                auto o1 = stdx::make_indexed_tuple<key_for>(Ent<Ks, Ts>{make<Ts>(k[Is])}...);
                auto o2 = stdx::make_tuple(Ent<Ks, Ts>{make<Ts>(k[Is])}...);
                Std mo{Ent<Ks, Ts>{make<Ts>(k[Is])}...};
                compare(c, t1, o1, m, mo);
                compare(c, t1, o2, m, mo);
                compare(c, t2, o1, m, mo);
            }
            auto t5 = stdx::apply_indices<key_for, other_for>(std::move(plain));
            access<decltype(t5), Ent<Ks, Ts>...>(c, t5, m, "apply_indices-move");
            keys<true>(c, t5, m, "apply_indices-move");
            consume<T1, Ent<Ks, Ts>...>(c, std::move(t1), m);
        }(std::index_sequence_for<Ts...>{});
    }
};
template <typename... Es> void indexed(vf::Ctx &c) { Indexed<Es...>::run(c); }

// ---- constant evaluation ----------------------------------------------------------
template <typename... Ts> struct Const {
    template <std::size_t... Is> static constexpr bool run(std::index_sequence<Is...>) {
        bool ok = true;
        constexpr u64 seeds[] = {0, 1, 2, 5, 3};
        for (auto a : seeds) {
            for (auto b : seeds) {
                stdx::tuple<Ts...> x{make<Ts>((a + Is * a) % 6)...}, y{make<Ts>((b + Is * a) % 6)...};
                std::tuple<Ts...> mx{make<Ts>((a + Is * a) % 6)...}, my{make<Ts>((b + Is * a) % 6)...};
                ok = ok and (x == y) == (mx == my) and (x != y) == (mx != my);
                ok = ok and (x < y) == (mx < my) and (x <= y) == (mx <= my) and (x > y) == (mx > my) and
                     (x >= y) == (mx >= my);
                auto const o = x <=> y;
                auto const mo = mx <=> my;
                ok = ok and (o == 0) == (mo == 0) and (o < 0) == (mo < 0) and (o > 0) == (mo > 0);
                ok = ok and x.apply([](auto const &...xs) { return sizeof...(xs); }) == sizeof...(Ts);
                auto const t = x.tail();
                ok = ok and stdx::tuple_size_v<std::remove_cvref_t<decltype(t)>> == sizeof...(Ts) - 1;
                auto const f = x.fold_left(0, [](auto s, auto const &) { return s + 1; });
                ok = ok and f == static_cast<int>(sizeof...(Ts));
                auto z = x;
                ok = ok and (... and ((get<Is>(z) == get<Is>(x)) == (get<Is>(x) == get<Is>(x))));
            }
        }
        return ok;
    }
};
template <typename... Ts> void constants(vf::Ctx &c) {
    constexpr bool ok = Const<Ts...>::run(std::index_sequence_for<Ts...>{});
    c.op("constant-evaluated");
    c.check(ok, "constant-evaluation", "tuple and std::tuple differ in a constant expression");
    c.check(Const<Ts...>::run(std::index_sequence_for<Ts...>{}), "constant-function-at-run-time", "differ");
}

// ---- one_of ---------------------------------------------------------------------
VF_SUITE(one_of, 3) {
    auto const d = c.range(1, 6);
    int a = static_cast<int>(c.below(d)), b = static_cast<int>(c.below(d)), e = static_cast<int>(c.below(d));
    int x = static_cast<int>(c.below(d + 1));
    c.op("one_of", a, b, e, x);
    bool const w0 = false, w1 = x == a, w2 = w1 or x == b, w3 = w2 or x == e;
    auto both = [&](auto const &o, auto const &v, bool w, char const *k) {
        c.check((o == v) == w and (v == o) == w and (o != v) == not w and (v != o) == not w, k, "wrong answer");
    };
    both(stdx::one_of<>{}, x, w0, "one_of-empty");
    both(stdx::one_of{a}, x, w1, "one_of-1");
    both(stdx::one_of{a, b}, x, w2, "one_of-2");
    both(stdx::one_of{a, b, e}, x, w3, "one_of-3");
    both(stdx::one_of{static_cast<char>(a), static_cast<long>(b), e + 0.5}, x, w2, "one_of-mixed");
    both(stdx::one_of{e + 0.5, static_cast<long>(b), static_cast<short>(a)}, x, w2, "one_of-mixed");
    both(stdx::one_of{make<S>(static_cast<u64>(a)), make<S>(static_cast<u64>(b))}, make<S>(static_cast<u64>(x)), w2,
         "one_of-string");
    both(stdx::one_of{"abc", make<S>(static_cast<u64>(b))}, make<S>(static_cast<u64>(x)), x == b, "one_of-literal");
    auto const nan = std::numeric_limits<double>::quiet_NaN();
    both(stdx::one_of{nan, static_cast<double>(a)}, static_cast<double>(x), w1, "one_of-nan");
    both(stdx::one_of{nan, static_cast<double>(a)}, nan, false, "one_of-nan");
    both(stdx::one_of{Part{a - 2}, Part{b - 2}}, Part{x - 2}, x >= 2 and w2, "one_of-partial");
}

#ifdef FIXED
VF_INST(1, core)
VF_INST(2, core, int)
VF_INST(2, core, S)
VF_INST(2, core, int, int, int)
VF_INST(2, core, double, Part, Weak)
VF_INST(2, core, int &, S const &, int const)
VF_INST(2, core, UP, Em<0>, S &&, Em<0>)
using L_il = L<int, long>;
using L_li = L<long, int>;
using L_ds = L<double, S, int &>;
using L_fs = L<int, S const &, short>;
using L_p = L<Part, Weak, Em<0>, long>;
using L_p2 = L<Part const &, Weak &, Em<0>, int const &>;
VF_INST(2, cross, L_il, L_li)
VF_INST(2, cross, L_ds, L_fs)
VF_INST(2, cross, L_p, L_p2)
VF_INST(1, cross, L<>, L<>)
VF_INST(2, indexed, Ent<0, int>, Ent<1, S>, Ent<2, int>)
VF_INST(2, indexed, Ent<5, UP>, Ent<1, Em<0>>)
VF_INST(1, constants, int)
VF_INST(1, constants, int, Part, Weak)
VF_INST(1, constants, Em<0>, long, char, Em<0>, TP)
#endif
#ifdef VF_EXTRA
VF_EXTRA
#endif
} // namespace
