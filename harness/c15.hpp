// Vocabulary of the generated tuple-algorithm programs: element types that
// carry an identity, and a printer that shows types, values, reference
// targets and nesting of whatever an algorithm returned.
#pragma once
#include <stdx/tuple_algorithms.hpp>

#include "vf.hpp"

#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#ifdef VF_LIFE // the elements also register in vf::life and fail to copy on request
#include "elems.hpp"
#define VF_OWNS(T) vf::T own;
#define VF_OWN_INIT own{i},
#define VF_OWN_MOVE own{std::move(o.own)},
#else
#define VF_OWNS(T)
#define VF_OWN_INIT
#define VF_OWN_MOVE
#endif

// Plain global names, so that type names sort the same way everywhere.
#define VF_COPYABLE(T)                                                                                                 \
    struct T {                                                                                                         \
        VF_OWNS(Tracked)                                                                                               \
        int id;                                                                                                        \
        explicit T(int i) : VF_OWN_INIT id{i} {}                                                                       \
        T(T const &) = default;                                                                                        \
        T(T &&o) noexcept : VF_OWN_MOVE id{std::exchange(o.id, -1)} {}                                                 \
        T &operator=(T const &) = default;                                                                             \
    };
#define VF_MOVEONLY(T)                                                                                                 \
    struct T {                                                                                                         \
        VF_OWNS(TrackedMove)                                                                                           \
        int id;                                                                                                        \
        std::unique_ptr<int> p;                                                                                        \
        explicit T(int i) : VF_OWN_INIT id{i}, p{std::make_unique<int>(i)} {}                                          \
        T(T &&o) noexcept : VF_OWN_MOVE id{std::exchange(o.id, -1)}, p{std::move(o.p)} {}                              \
    };
VF_COPYABLE(Ta)
VF_COPYABLE(Tb)
VF_COPYABLE(Tc)
VF_COPYABLE(Td)
VF_MOVEONLY(Ma)
VF_MOVEONLY(Mb)
struct Ea {};
struct Eb {};
template <typename T> struct Wrap { // what a transforming function returns
    std::string v;
};
struct K0;
struct K1;
struct K2;
struct K3;
template <typename K> struct Ent { // element with a key
    using key_t = K;
    int id;
};
template <typename T> using key_for = typename T::key_t;

namespace c15 {
// keyed by type as well: an empty element shares its address with another one
inline std::map<std::pair<void const *, std::string>, std::string> names;

template <typename T> struct Name;
#define VF_NAME(T)                                                                                                     \
    template <> struct Name<T> {                                                                                       \
        static std::string get() { return #T; }                                                                        \
    };
VF_NAME(Ta)
VF_NAME(Tb)
VF_NAME(Tc)
VF_NAME(Td)
VF_NAME(Ma)
VF_NAME(Mb)
VF_NAME(Ea)
VF_NAME(Eb)
VF_NAME(int)
VF_NAME(char)
VF_NAME(std::string)
VF_NAME(Ent<K0>)
VF_NAME(Ent<K1>)
VF_NAME(Ent<K2>)
VF_NAME(Ent<K3>)
template <typename T> struct Name<Wrap<T>> {
    static std::string get() { return "W" + Name<T>::get(); }
};
template <typename T> struct Name<T &> {
    static std::string get() { return Name<T>::get() + "&"; }
};
template <typename T> struct Name<T &&> {
    static std::string get() { return Name<T>::get() + "&&"; }
};
template <typename T> struct Name<T const> {
    static std::string get() { return "c " + Name<T>::get(); }
};

template <typename T> void name(T const &t, std::string n) {
    names[{std::addressof(t), Name<T>::get()}] = std::move(n);
}
template <typename T> std::string value(T const &t) {
    if constexpr (requires { t.own; }) {
        static_cast<void>(t.own.get()); // a fault if it is not alive or was moved from
    }
    if constexpr (requires { t.id; }) {
        return std::to_string(t.id);
    } else if constexpr (requires { t.v; }) {
        return t.v;
    } else if constexpr (std::is_same_v<T, std::string>) {
        return t;
    } else if constexpr (std::is_arithmetic_v<T>) {
        return std::to_string(static_cast<int>(t));
    } else {
        return "";
    }
}

template <typename E> std::string show(E const &t);
template <typename T> constexpr bool is_stdx = false;
template <typename... Ts> constexpr bool is_stdx<stdx::tuple<Ts...>> = true;
template <typename T> constexpr char kind = 0;
template <typename... Ts> constexpr char kind<stdx::tuple<Ts...>> = 't';
template <typename L, typename... Ts> constexpr char kind<stdx::indexed_tuple<L, Ts...>> = 'i';
template <typename... Ts> constexpr char kind<std::tuple<Ts...>> = 's';
template <typename T, std::size_t N> constexpr char kind<std::array<T, N>> = 'a';
template <typename T, typename U> constexpr char kind<std::pair<T, U>> = 'p';

// One element of declared type E.
template <typename E> std::string elem(std::remove_reference_t<E> const &t) {
    using T = std::remove_cvref_t<E>;
    if constexpr (kind<T> != 0) {
        return show(t) + (std::is_reference_v<E> ? "&" : "");
    } else if constexpr (std::is_reference_v<E>) {
        auto it = names.find({std::addressof(t), Name<T>::get()});
        return Name<E>::get() + ":" + value(t) + "@" + (it == names.end() ? "?" : it->second);
    } else {
        return Name<E>::get() + ":" + value(t);
    }
}
template <typename T> std::vector<std::string> list(T const &t) {
    std::vector<std::string> r;
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        using std::get;
        (r.push_back(elem<std::tuple_element_t<Is, T>>(get<Is>(t))), ...);
    }(std::make_index_sequence<std::tuple_size_v<T>>{});
    return r;
}
template <typename T> std::string show(T const &t) {
    std::string r(1, kind<T>);
    r += "(";
    for (auto const &s : list(t)) {
        r += (r.size() > 2 ? " " : "") + s;
    }
    return r + ")";
}

template <typename T> void is(vf::Ctx &c, T const &t, char const *want, char const *what) {
    c.eq(show(t), std::string(want), what);
}
// The elements of t, where only the content of each group is determined.
inline void grouped(vf::Ctx &c, std::vector<std::string> got, std::vector<std::vector<std::string>> want,
                    char const *what) {
    std::string a, b;
    std::size_t at = 0;
    for (auto &g : want) {
        std::sort(g.begin(), g.end());
        auto const n = std::min(g.size(), got.size() - at);
        std::sort(got.begin() + static_cast<std::ptrdiff_t>(at), got.begin() + static_cast<std::ptrdiff_t>(at + n));
        for (auto &s : g) {
            b += s + " ";
        }
        at += n;
    }
    for (auto &s : got) {
        a += s + " ";
    }
    c.eq(a, b, what);
}
template <typename T> void groups(vf::Ctx &c, T const &t, std::vector<std::vector<std::string>> want, char const *what) {
    std::string a, b;
    auto put = [](std::string &o, std::vector<std::string> v) {
        std::sort(v.begin(), v.end());
        o += "(";
        for (auto &s : v) {
            o += s + " ";
        }
        o += ")";
    };
    t.apply([&](auto const &...ts) { (put(a, list(ts)), ...); });
    for (auto &g : want) {
        put(b, g);
    }
    c.eq(a, b, what);
}
template <typename T> void one_of_each(vf::Ctx &c, T const &t, std::vector<std::vector<std::string>> want, char const *what) {
    auto got = list(t);
    std::string a, b;
    for (auto const &s : got) {
        a += s + " ";
    }
    for (std::size_t i = 0; i < want.size(); ++i) {
        auto const &g = want[i];
        bool const found = i < got.size() and std::find(g.begin(), g.end(), got[i]) != g.end();
        b += (found ? got[i] : g[0]) + " ";
    }
    c.eq(a, b, what);
}

// Callbacks: record each call.
template <typename T> constexpr char const *cat() {
    if constexpr (std::is_lvalue_reference_v<T>) {
        return std::is_const_v<std::remove_reference_t<T>> ? "c&" : "&";
    } else {
        return std::is_const_v<std::remove_reference_t<T>> ? "c&&" : "&&";
    }
}
inline std::string calls;
#ifdef VF_LIFE
// Runs a case, then again with the first, second, ... copy failing.
template <typename F> void lives(vf::Ctx &c, F &&f) {
    auto const before = vf::life.live.size();
    for (int k = -1; k < 60; ++k) {
        names.clear();
        calls.clear();
        vf::life.fault.clear();
        vf::life.throw_in = k;
        bool threw = false;
        try {
            f();
        } catch (std::runtime_error const &) {
            threw = true;
        }
        vf::life.throw_in = -1;
        vf::life_check(c, k < 0 ? "lifetimes" : "failed-copy");
        c.check(vf::life.live.size() == before, k < 0 ? "never-destroyed" : "failed-copy-never-destroyed", "");
        if (k >= 0 and not threw) {
            break;
        }
        if (threw) {
            c.event("copy-failed");
        }
        if (vf::life.live.size() != before) {
            break;
        }
    }
}
#endif
template <typename... Xs> void record(Xs &&...xs) {
    calls += "(";
    ((calls += Name<std::remove_cvref_t<Xs>>::get() + cat<Xs &&>() + ":" + value(xs) + " "), ...);
    calls += ")";
}
struct Op {
    std::unique_ptr<int> move_only = std::make_unique<int>(0);
    int n{};
    template <typename... Xs> void operator()(Xs &&...xs) {
        record(std::forward<Xs>(xs)...);
        ++n;
        ++*move_only;
    }
};
struct Enum {
    std::unique_ptr<int> move_only = std::make_unique<int>(0);
    int n{};
    template <std::size_t I, typename... Xs> void operator()(Xs &&...xs) {
        calls += std::to_string(I);
        record(std::forward<Xs>(xs)...);
        ++n;
    }
};
struct Pred { // answers from a list, in call order
    std::vector<int> answers;
    std::size_t at{};
    template <typename... Xs> bool operator()(Xs &&...xs) {
        record(std::forward<Xs>(xs)...);
        return at < answers.size() and answers[at++] != 0;
    }
};
struct Trans {
    template <typename X, typename... Xs> auto operator()(X &&x, Xs &&...xs) const {
        record(std::forward<X>(x), std::forward<Xs>(xs)...);
        std::string v = value(x);
        ((v += "+" + value(xs)), ...);
        return Wrap<X>{v}; // the type tells the category x arrived in
    }
};
struct TransRef {
    template <typename X, typename... Xs> auto operator()(X &x, Xs &&...xs) const -> X & {
        record(x, std::forward<Xs>(xs)...);
        return x;
    }
};
struct TransEnt {
    template <typename X, typename... Xs> auto operator()(X &&x, Xs &&...xs) const {
        record(std::forward<X>(x), std::forward<Xs>(xs)...);
        return Ent<typename std::remove_cvref_t<X>::key_t>{x.id + 1000};
    }
};
struct Applied { // tells in which category the function itself was called
    template <typename... Xs> int operator()(Xs &&...xs) & { return called("&", std::forward<Xs>(xs)...); }
    template <typename... Xs> int operator()(Xs &&...xs) const & { return called("c&", std::forward<Xs>(xs)...); }
    template <typename... Xs> int operator()(Xs &&...xs) && { return called("&&", std::forward<Xs>(xs)...); }
    template <typename... Xs> static int called(char const *how, Xs &&...xs) {
        calls += how;
        record(std::forward<Xs>(xs)...);
        return static_cast<int>(sizeof...(xs));
    }
};
// a keyed element, and a function whose result type depends on the category of its argument
template <typename K, typename T> struct Kept {
    using key_t = K;
    T v;
};
struct ByCategory {
    template <typename K, typename T, typename... Xs> auto operator()(Kept<K, T> &, Xs &&...) const {
        return Kept<K, int>{1};
    }
    template <typename K, typename T, typename... Xs> auto operator()(Kept<K, T> const &, Xs &&...) const {
        return Kept<K, char>{'c'};
    }
    template <typename K, typename T, typename... Xs> auto operator()(Kept<K, T> &&, Xs &&...) const {
        return Kept<K, std::string>{"moved"};
    }
};
template <typename... Xs> int applied(Xs &&...xs) {
    record(std::forward<Xs>(xs)...);
    return static_cast<int>(sizeof...(xs));
}

// predicates and projections on types
template <typename T> using d = std::remove_cvref_t<T>;
template <typename T> using is_copyable = std::bool_constant<std::is_copy_constructible_v<d<T>>>;
template <typename T> using is_emp = std::bool_constant<std::is_empty_v<d<T>>>;
template <typename T> using is_ref = std::is_reference<T>;
template <typename T> using is_a = std::bool_constant<std::is_same_v<d<T>, Ta> or std::is_same_v<d<T>, Ea> or
                                                      std::is_same_v<d<T>, int> or std::is_same_v<d<T>, std::string>>;
template <typename> using always = std::true_type;
template <typename> using never = std::false_type;
template <typename T>
using size_class = std::conditional_t<std::is_empty_v<d<T>>, K2, std::conditional_t<is_a<T>::value, K0, K1>>;
} // namespace c15
