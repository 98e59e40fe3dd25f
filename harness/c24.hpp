// Vocabulary of the generated ct_format programs.
#pragma once
#include <stdx/ct_format.hpp>

#include "vf.hpp"

#include <cstdint>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

struct Widget;
struct Gadget {};
template <typename... Ts> struct Box {};
enum struct Colour { red, green, blue_2 };
enum Plain { plain_zero, plain_one };
namespace deep::er {
enum struct Level : std::uint8_t { lo, hi };
struct Holder {
    enum struct Inner { x, longer_name };
};
} // namespace deep::er
struct MoveOnly {
    std::unique_ptr<int> p;
    explicit MoveOnly(int i) : p{std::make_unique<int>(i)} {}
};
template <typename T, T...> struct Chars {};
template <typename T, T... As, T... Bs> constexpr auto operator+(Chars<T, As...>, Chars<T, Bs...>) {
    return Chars<T, As..., Bs...>{};
}
struct User { // formatted through ct_format_as
    int x;
};
constexpr auto ct_format_as(User const &u) { return stdx::ct_format<"user {} of {n}">(u.x, CX_VALUE(7)); }
struct User0 {
    int x;
};
constexpr auto ct_format_as(User0 const &) { return stdx::ct_format<"nobody">(); }
struct UserM { // shown differently by value category, and moved from as an rvalue
    MoveOnly m;
};
inline auto ct_format_as(UserM &&u) { return stdx::ct_format<"owner {}">(std::move(u.m)); }
inline auto ct_format_as(UserM const &u) { return stdx::ct_format<"seen {}">(*u.m.p); }

namespace c24 {
using namespace stdx::literals;
using namespace std::string_view_literals;

template <typename T> std::string show(T const &t) {
    if constexpr (std::is_same_v<T, MoveOnly>) {
        return "MoveOnly:" + (t.p ? std::to_string(*t.p) : std::string("gone"));
    } else if constexpr (std::is_same_v<T, std::string>) {
        return "string:" + t;
    } else if constexpr (std::is_same_v<T, std::string_view>) {
        return "string_view:" + std::string(t);
    } else if constexpr (std::is_same_v<T, char const *>) {
        return std::string("cstr:") + t;
    } else if constexpr (std::is_same_v<T, Colour>) {
        return "Colour:" + std::to_string(static_cast<int>(t));
    } else if constexpr (std::is_same_v<T, int>) {
        return "int:" + std::to_string(t);
    } else if constexpr (std::is_same_v<T, double>) {
        return "double:" + std::to_string(t);
    } else if constexpr (std::is_same_v<T, char>) {
        return std::string("char:") + t;
    } else if constexpr (std::is_same_v<T, std::uint64_t>) {
        return "u64:" + std::to_string(t);
    } else if constexpr (std::is_same_v<T, stdx::tuple<int, char>>) {
        return "tuple:" + show(get<0>(t)) + "," + show(get<1>(t));
    } else if constexpr (std::is_same_v<T, bool>) {
        return std::string("bool:") + (t ? "1" : "0");
    } else {
        static_assert(stdx::always_false_v<T>, "an argument of unexpected type");
    }
}
template <typename S> std::string text(S const &s) {
    if constexpr (requires { stdx::ct_string_from_type(s); }) {
        constexpr auto cts = stdx::ct_string_from_type(S{});
        return std::string(static_cast<std::string_view>(cts));
    } else {
        return std::string(static_cast<std::string_view>(S::value));
    }
}
template <stdx::ct_string S> std::string as_argument() { return std::string(static_cast<std::string_view>(S)); }

template <typename L> struct named;
template <typename... As> struct named<stdx::type_list<As...>> {
    static std::string get() {
        std::string r;
        auto one = [&]<typename A>(stdx::type_identity<A>) {
            r += std::string(static_cast<std::string_view>(A::name)) + "@" + std::to_string(A::begin);
            r += A::is_runtime() ? std::string(" ") : "-" + std::to_string(A::end) + " ";
        };
        (one(stdx::type_identity<As>{}), ...);
        return r;
    }
    // a name of a run-time argument stands for the argument at that place, and has no extent in the text
    template <typename R> static void types(vf::Ctx &c) {
        auto one = [&]<typename A>(stdx::type_identity<A>) {
            if constexpr (A::is_runtime()) {
                using at = decltype(stdx::get<static_cast<std::size_t>(A::begin)>(std::declval<R>().args));
                c.check(std::is_same_v<typename A::type, std::remove_cvref_t<at>>, "named-type", "");
                c.eq(A::end, A::begin - 1, "named-extent");
            }
        };
        (one(stdx::type_identity<As>{}), ...);
    }
};

template <typename R>
void is(vf::Ctx &c, R const &r, std::string const &want, std::string const &args, std::string const &names) {
    c.eq(text(r.str), want, "text");
    std::string a;
    r.args.apply([&](auto const &...xs) { ((a += show(xs) + "|"), ...); });
    c.eq(a, args, "arguments");
    c.eq(named<typename R::named_args_t>::get(), names, "named-arguments");
    named<typename R::named_args_t>::template types<R>(c);
    if constexpr (decltype(r.args)::size() == 0 and requires { r.str.value; }) {
        c.eq(std::string(static_cast<std::string_view>(+r)), want, "unary-plus");
        c.eq(std::string(static_cast<std::string_view>(r())), want, "call");
        static_assert(stdx::is_cx_value_v<R>);
        c.eq(as_argument<R{}>(), want, "template-argument");
        c.check(r == stdx::make_format_result<typename R::named_args_t>(r.str), "equal", "");
    }
}
} // namespace c24
