// Vocabulary of the generated type-introspection programs.
#pragma once
#include <stdx/concepts.hpp>
#include <stdx/ct_conversions.hpp>
#include <stdx/ct_string.hpp>
#include <stdx/function_traits.hpp>
#include <stdx/tuple.hpp>
#include <stdx/type_traits.hpp>
#include <stdx/utility.hpp>

#include "vf.hpp"

#include <array>
#include <cstdlib>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

template <int N> struct K; // never complete
enum struct En { a, b, c };
struct S {
    int x{};
};
struct M {
    std::unique_ptr<int> p;
};
struct Point {
    int x, y;
    friend constexpr bool operator==(Point const &, Point const &) = default;
};
template <typename T> struct Box {};
template <typename T, typename U> struct Two {};
template <typename T, typename U = int> struct Def {};
template <typename... Ts> struct Pack {};
template <auto V> struct VBox {};
template <auto... Vs> struct VPack {};
struct DBox : Box<int> {};
struct DVBox : VBox<1> {};

// named things
struct Ta {};
enum Plain { PlainA, PlainB = 4, PlainC = -3 };
enum struct Colour : unsigned char { red, green = 3, blue };
namespace ns1 {
struct Tb {};
template <typename T> struct Box {};
enum Shade { light, dark };
enum struct Tone { low = -7, high = 1000000 };
namespace ns2 {
struct Tc {};
enum struct Tone : long { deep, thin };
} // namespace ns2
} // namespace ns1
struct Outer {
    struct In {};
    enum struct Kind { x, y };
    enum Old { old1, old2 };
    template <typename T> struct Tmpl {};
};
template <typename T> struct Holder {
    enum struct In { x, y };
    enum Old { old1, old2 };
    struct Type {};
    template <typename U> struct First {};
    template <typename... Us> struct Second {};
    template <auto V> struct Third {
        template <typename U> struct Fourth {};
    };
};

// callable or not
struct Functor {
    auto operator()(int) const -> char;
};
struct FunctorNonConst {
    auto operator()(int) -> char;
};
struct FunctorRef {
    auto operator()(int) & -> char;
};
struct Overloaded {
    auto operator()(int) const -> char;
    auto operator()(char) const -> int;
};
struct Generic {
    template <typename T> auto operator()(T) const -> T;
};
struct GenericMutable {
    template <typename T> auto operator()(T) -> T;
};
struct GenericRvalue {
    template <typename T> auto operator()(T) && -> T;
};
struct GenericRvalueTwo {
    template <typename T, typename U> auto operator()(T const &, U) && -> U;
};
struct GenericTwo {
    template <typename T, typename U> auto operator()(T, U const &) & -> T;
};
struct GenericThree {
    template <typename T> auto operator()(T &&, int, S const &) const & -> int;
};
struct Inherits : Functor {};
struct InheritsGeneric : Generic {};
class PrivateCall {
    auto operator()(int) const -> char;
};
struct AbstractCall {
    virtual auto operator()(int) -> char = 0;
};
struct VariadicCall {
    auto operator()(int, ...) const -> char;
};
struct NamedCall {
    auto call(int) const -> char;
    static int operator_call;
};
struct Converts { // usable as a function, but has no call operator
    using F = int(char);
    operator F *() const;
};
union Un {
    int a;
    char b;
};
inline auto lambda = [](int) { return 'c'; };
inline auto lambda_mutable = [n = 1](int) mutable { return ++n; };
inline auto lambda_generic = [](auto) { return 'c'; };
inline auto lambda_generic2 = []<typename T, typename U>(T, U) mutable noexcept { return 'c'; };
using Lambda = decltype(lambda);
using LambdaMutable = decltype(lambda_mutable);
using LambdaGeneric = decltype(lambda_generic);
using LambdaGeneric2 = decltype(lambda_generic2);

// structural or not
struct Empty {};
struct Agg {
    Point p;
    int a[3];
    En e;
};
struct Built { // not default constructible
    int x;
    char y;
    constexpr Built(int a, char b) : x{a}, y{b} {}
};
struct Built9 {
    int x[9];
    constexpr Built9(int a, int b, int d, int e, int f, int g, int h, int i, int j) : x{a, b, d, e, f, g, h, i, j} {}
};
struct Sized28 { // a size, but no elements
    constexpr static auto size() -> std::size_t { return 3; }
};
struct Derived28 : Point {
    int z;
};
class Private {
    int x{};
};
struct PrivatePart {
    Private p{};
    int y{};
};
class ProtectedBase : protected Point {};
struct MutablePart {
    mutable int x{};
};
struct NotLiteral {
    int x{};
    ~NotLiteral() { std::abort(); }
};
struct NoConstexpr {
    int x;
    NoConstexpr() : x{1} {}
};

namespace c28 {
template <typename...> struct List;
template <typename...> struct Other;
struct Count {
    std::size_t n;
    Count(std::size_t i) : n{i} {}
    Count(Count const &) = delete;
};
template <typename T> [[noreturn]] T any() { std::abort(); }

inline std::string squeeze(std::string_view s) { // spacing differs between compilers
    std::string r;
    for (char ch : s) {
        if (ch != ' ') {
            r += ch;
        }
    }
    return r;
}
template <typename T> struct Num;
template <int N> struct Num<K<N>> {
    constexpr static int value = N;
};
template <> struct Num<int> {
    constexpr static int value = -1;
};
template <> struct Num<void> {
    constexpr static int value = -2;
};
template <> struct Num<S &> {
    constexpr static int value = -3;
};
template <typename T> struct Num<T const> {
    constexpr static int value = 10000 + Num<T>::value;
};
template <typename T> std::string show(T const &t) {
    if constexpr (std::is_same_v<T, int>) {
        return "int:" + std::to_string(t);
    } else if constexpr (std::is_same_v<T, char>) {
        return std::string("char:") + t;
    } else if constexpr (std::is_same_v<T, bool>) {
        return std::string("bool:") + (t ? "1" : "0");
    } else if constexpr (std::is_same_v<T, long>) {
        return "long:" + std::to_string(t);
    } else if constexpr (std::is_same_v<T, unsigned long>) {
        return "ulong:" + std::to_string(t);
    } else if constexpr (std::is_same_v<T, short>) {
        return "short:" + std::to_string(t);
    } else if constexpr (std::is_same_v<T, unsigned char>) {
        return "uchar:" + std::to_string(t);
    } else if constexpr (std::is_same_v<T, En>) {
        return "En:" + std::to_string(static_cast<int>(t));
    } else if constexpr (std::is_same_v<T, Point>) {
        return "Point:" + std::to_string(t.x) + "," + std::to_string(t.y);
    } else if constexpr (std::is_same_v<T, std::string_view>) {
        return "view:" + std::string(t);
    } else {
        return "unexpected type " + std::string(stdx::type_as_string<T>());
    }
}
// a wrapper around a compile-time value: what it holds, as a constant
template <typename T> std::string held(T t) {
    constexpr auto v = t();
    return show(v);
}
template <typename T> std::string held_ct(T) {
    constexpr auto v = T::value;
    return show(v);
}
} // namespace c28
