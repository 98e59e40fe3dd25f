// Vocabulary of the generated function-wrapper and call_by_need programs:
// callables that write down how they were called.
#pragma once
#include "c15.hpp"

#include <stdx/call_by_need.hpp>
#include <stdx/for_each_n_args.hpp>
#include <stdx/functional.hpp>
#include <stdx/utility.hpp>

namespace c21 {
using c15::calls;
using c15::Name;

inline void begin() {
    c15::names.clear();
    calls.clear();
}
// One argument as received by a parameter of type P; a known object is named.
template <typename P> void arg(std::remove_reference_t<P> const &x) {
    using T = std::remove_cvref_t<P>;
    calls += Name<T>::get();
    if constexpr (std::is_reference_v<P>) {
        calls += c15::cat<P>();
    }
    calls += ":" + c15::value(x);
    if constexpr (std::is_reference_v<P> and not std::is_empty_v<T>) {
        auto it = c15::names.find({std::addressof(x), Name<T>::get()});
        calls += "@" + (it == c15::names.end() ? "-" : it->second);
    }
    calls += " ";
}
template <typename... Xs> void args(char const *who, Xs &&...xs) {
    calls += std::string(who) + "(";
    (arg<Xs &&>(xs), ...);
    calls += ")";
}
// Objects received as plain lvalues are changed, so that a later call shows whether it was the same object.
template <typename X> void bump(X &x) {
    if constexpr (not std::is_const_v<X> and requires { x.id; }) {
        x.id += 1000;
    }
}
template <typename X> void bump_lvalue(std::remove_reference_t<X> &x) {
    if constexpr (std::is_lvalue_reference_v<X>) {
        bump(x);
    }
}

inline int slot = 4711;

// Callable object: says through which qualification it was called.
template <typename R> struct Fn {
    int id;
    explicit constexpr Fn(int i) : id{i} {}
    template <typename... Xs> R result(char const *q, Xs &&...xs) const {
        args((std::to_string(id) + q).c_str(), std::forward<Xs>(xs)...);
        (bump_lvalue<Xs &&>(xs), ...);
        if constexpr (std::is_same_v<R, int &>) {
            return slot;
        } else if constexpr (std::is_same_v<R, void>) {
        } else if constexpr (std::is_same_v<R, Ma>) {
            return Ma(static_cast<int>(calls.size()));
        } else {
            return R{calls};
        }
    }
    template <typename... Xs> R operator()(Xs &&...xs) & { return result("L", std::forward<Xs>(xs)...); }
    template <typename... Xs> R operator()(Xs &&...xs) const & { return result("C", std::forward<Xs>(xs)...); }
    template <typename... Xs> R operator()(Xs &&...xs) && { return result("R", std::forward<Xs>(xs)...); }
    template <typename... Xs> R operator()(Xs &&...xs) const && { return result("CR", std::forward<Xs>(xs)...); }
};
template <typename R> struct MoveFn : Fn<R> {
    std::unique_ptr<int> p = std::make_unique<int>(1);
    explicit MoveFn(int i) : Fn<R>{i} {}
};
// Plain function with exactly these parameters.
template <typename... Ps> Wrap<int> plain(Ps... ps) {
    calls += "f(";
    (arg<Ps>(ps), ...);
    calls += ")";
    return Wrap<int>{calls};
}

// Accepts between Lo and Hi arguments of the listed types, in any order and by any kind of reference.
template <typename T, typename... Ok> constexpr bool listed = (std::is_same_v<std::remove_cvref_t<T>, Ok> or ...);
template <typename R, std::size_t Lo, std::size_t Hi, typename... Ok> struct Only {
    char const *who;
    template <typename... Xs>
        requires(sizeof...(Xs) >= Lo and sizeof...(Xs) <= Hi and (listed<Xs, Ok...> and ...))
    R operator()(Xs &&...xs) const {
        args(who, std::forward<Xs>(xs)...);
        if constexpr (not std::is_void_v<R>) {
            return R{who};
        }
    }
};
// a function that can only be called as an rvalue
template <typename F> struct Once {
    F f;
    template <typename... Xs>
        requires std::is_invocable_v<F &, Xs...>
    auto operator()(Xs &&...xs) && -> decltype(auto) {
        return f(std::forward<Xs>(xs)...);
    }
};
template <typename F> Once(F) -> Once<F>;
template <typename R> struct Any {
    char const *who;
    template <typename... Xs> R operator()(Xs &&...xs) const {
        args(who, std::forward<Xs>(xs)...);
        if constexpr (not std::is_void_v<R>) {
            return R{who};
        }
    }
};
} // namespace c21
