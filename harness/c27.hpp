// Vocabulary of the generated environment and type_map programs.
#pragma once
#include <stdx/env.hpp>
#include <stdx/utility.hpp>

#include "vf.hpp"

#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

template <int N> struct K; // keys and mapped types: never complete
enum struct En { a, b, c };
struct Point { // a structural class
    int x, y;
    friend constexpr bool operator==(Point const &, Point const &) = default;
};

template <int N> struct Query {
    template <typename T>
    [[nodiscard]] consteval auto operator()(T &&t) const -> decltype(std::forward<T>(t).query(*this)) {
        return std::forward<T>(t).query(*this);
    }
};
template <int N> struct QueryD { // answers 1000 + N by itself when unbound
    template <typename T>
        requires true
    [[nodiscard]] consteval auto operator()(T &&t) const -> decltype(std::forward<T>(t).query(*this)) {
        return std::forward<T>(t).query(*this);
    }
    [[nodiscard]] consteval auto operator()(auto &&) const { return 1000 + N; }
};
template <int N> constexpr inline Query<N> q{};
template <int N> constexpr inline QueryD<N> qd{};

namespace c27 {
template <typename T> std::string show(T const &t) {
    if constexpr (std::is_same_v<T, int>) {
        return "int:" + std::to_string(t);
    } else if constexpr (std::is_same_v<T, char>) {
        return std::string("char:") + t;
    } else if constexpr (std::is_same_v<T, bool>) {
        return std::string("bool:") + (t ? "1" : "0");
    } else if constexpr (std::is_same_v<T, long>) {
        return "long:" + std::to_string(t);
    } else if constexpr (std::is_same_v<T, En>) {
        return "En:" + std::to_string(static_cast<int>(t));
    } else if constexpr (std::is_same_v<T, Point>) {
        return "Point:" + std::to_string(t.x) + "," + std::to_string(t.y);
    } else if constexpr (requires { std::string_view(t); }) {
        return "string:" + std::string(std::string_view(t));
    } else {
        static_assert(stdx::always_false_v<T>, "a value of unexpected type");
    }
}
template <typename E, typename Q> constexpr bool answers = requires { Q{}(E{}); };

// an unbound query hands on the very default it was given, in its category
template <typename E, typename Q> void defaults(vf::Ctx &c, Q q) {
    std::string text = "a default that is kept on the heap, not inline";
    static_assert(std::is_same_v<decltype(stdx::query<E>(q, text)), std::string &>);
    static_assert(std::is_same_v<decltype(stdx::query<E>(q, std::as_const(text))), std::string const &>);
    c.check(&stdx::query<E>(q, text) == &text, "default-object", "lvalue");
    c.check(&stdx::query<E>(q, std::as_const(text)) == &text, "default-object", "const lvalue");
    auto owner = std::make_unique<int>(7);
    auto *const at = owner.get();
    std::unique_ptr<int> const next = stdx::query<E>(q, std::move(owner));
    c.check(next.get() == at and owner == nullptr, "default-object", "rvalue");
}
} // namespace c27
