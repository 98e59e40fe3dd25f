// The concepts the library defines itself when the standard library has none,
// next to the standard ones.
#include <concepts>
#include <version>
#undef __cpp_lib_concepts
#define __cpp_lib_concepts 1L

#include <stdx/concepts.hpp>
#include <stdx/ranges.hpp>

#include "vf.hpp"

#include <array>
#include <initializer_list>
#include <map>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace {
template <int> struct K;
struct Empty {};
enum Plain { plain };
enum struct Scoped : short { one };

struct Eq {
    bool operator==(Eq const &) const = default;
};
struct Ord {
    int i;
    auto operator<=>(Ord const &) const = default;
};
struct EqNonConst {
    bool operator==(EqNonConst &) { return true; }
    bool operator!=(EqNonConst &) { return true; }
};
// comparison operators, one left out (or none)
template <int Out> struct Part {
    friend bool operator==(Part const &, Part const &) requires(Out != 0) { return true; }
    friend bool operator!=(Part const &, Part const &) requires(Out != 1) { return true; }
    friend bool operator!=(Part const &, Part const &) requires(Out == 1) = delete;
    friend bool operator<(Part const &, Part const &) requires(Out != 2) { return true; }
    friend bool operator<=(Part const &, Part const &) requires(Out != 3) { return true; }
    friend bool operator>(Part const &, Part const &) requires(Out != 4) { return true; }
    friend bool operator>=(Part const &, Part const &) requires(Out != 5) { return true; }
};
struct NoOrder {
    bool operator==(NoOrder const &) const = default;
    bool operator<(NoOrder const &) const = delete;
};
struct NotBool {
    friend Empty operator==(NotBool const &, NotBool const &) { return {}; }
    friend Empty operator!=(NotBool const &, NotBool const &) { return {}; }
};

struct From {
    operator int() const;
    explicit operator std::string() const;
};
struct To {
    To(Empty const &);
    explicit To(int);
};
struct OnlyImplicit { // convertible, but not by static_cast
    operator struct Target() const;
};
struct Target {
    Target(Target const &) = default;
    template <typename T> requires std::same_as<T, OnlyImplicit> explicit Target(T &&) = delete;
};
struct Base {};
struct Mid1 : Base {};
struct Mid2 : Base {};
struct Pub : Base {};
struct Priv : private Base {};
struct Prot : protected Base {};
struct Virt : virtual Base {};
struct Twice : Mid1, Mid2 {};
struct Far : Pub {};

struct Call {
    int operator()(int) const;
};
struct CallL {
    bool operator()(int &) &;
};
struct CallR {
    bool operator()(std::string &&) &&;
};
struct Mem {
    int f(char);
    bool g() const;
    int m;
};
struct Truthy {
    explicit operator bool() const;
};
struct Implicit {
    operator bool() const;
};
struct NoNot {
    operator bool() const;
    void operator!() const;
};
struct NotGone {
    operator bool() const;
    bool operator!() const = delete;
};
struct NotRvalue {
    operator bool() const;
    bool operator!() const &;
    bool operator!() && = delete;
};
struct NotLvalue {
    operator bool() const;
    bool operator!() &&;
    bool operator!() const & = delete;
};
template <typename R> using Fn = R (*)(int);

template <typename T> void one(vf::Ctx &c, char const *t) {
    auto eq = [&](bool got, bool want, char const *key) {
        c.op(key, t);
        c.check(got == want, key, t);
    };
    eq(stdx::floating_point<T>, std::floating_point<T>, "floating_point");
    eq(stdx::integral<T>, std::integral<T>, "integral");
    eq(stdx::signed_integral<T>, std::signed_integral<T>, "signed_integral");
    eq(stdx::unsigned_integral<T>, std::unsigned_integral<T>, "unsigned_integral");
    eq(stdx::equality_comparable<T>, std::equality_comparable<T>, "equality_comparable");
    eq(stdx::totally_ordered<T>, std::totally_ordered<T>, "totally_ordered");
}
template <typename T, typename U> void two(vf::Ctx &c, char const *t) {
    auto eq = [&](bool got, bool want, char const *key) {
        c.op(key, t);
        c.check(got == want, key, t);
    };
    eq(stdx::convertible_to<T, U>, std::convertible_to<T, U>, "convertible_to");
    eq(stdx::derived_from<T, U>, std::derived_from<T, U>, "derived_from");
    eq(stdx::same_as<T, U>, std::same_as<T, U>, "same_as");
    eq(stdx::same_as<U, T>, std::same_as<U, T>, "same_as");
}
template <typename F, typename... As> void call(vf::Ctx &c, char const *t) {
    c.op("invocable", t);
    c.check(stdx::invocable<F, As...> == std::invocable<F, As...>, "invocable", t);
    c.op("predicate", t);
    c.check(stdx::predicate<F, As...> == std::predicate<F, As...>, "predicate", t);
}
} // namespace

#define ONE(...) one<__VA_ARGS__>(c, #__VA_ARGS__)
#define TWO(...) two<__VA_ARGS__>(c, #__VA_ARGS__)
#define CALL(...) call<__VA_ARGS__>(c, #__VA_ARGS__)

VF_SUITE(kinds, 1) {
    ONE(bool);
    ONE(char);
    ONE(signed char);
    ONE(unsigned char);
    ONE(wchar_t);
    ONE(char32_t);
    ONE(short);
    ONE(int);
    ONE(int const);
    ONE(unsigned volatile);
    ONE(long);
    ONE(unsigned long long);
    ONE(float);
    ONE(double);
    ONE(long double const);
    ONE(int &);
    ONE(double &&);
    ONE(int *);
    ONE(Empty *);
    ONE(int[3]);
    ONE(Plain);
    ONE(Scoped);
    ONE(Empty);
    ONE(Eq);
    ONE(Eq const);
    ONE(Ord);
    ONE(EqNonConst);
    ONE(Part<-1>);
    ONE(Part<1>);
    ONE(Part<2>);
    ONE(Part<3>);
    ONE(Part<4>);
    ONE(Part<5>);
    ONE(NoOrder);
    ONE(NotBool);
    ONE(std::string);
    ONE(void (*)());
    ONE(int Mem::*);
    ONE(std::nullptr_t);
}
VF_SUITE(relations, 1) {
    TWO(int, int);
    TWO(int, int const);
    TWO(int &, int);
    TWO(int, long);
    TWO(double, char);
    TWO(int, int *);
    TWO(int *, bool);
    TWO(std::nullptr_t, int *);
    TWO(int *, void *);
    TWO(int const *, void *);
    TWO(char const *, std::string);
    TWO(std::string, char const *);
    TWO(int &, int const &);
    TWO(int const &, int &);
    TWO(int, int &&);
    TWO(int &, int &&);
    TWO(void, void);
    TWO(int, void);
    TWO(Scoped, short);
    TWO(Plain, int);
    TWO(From, int);
    TWO(From, std::string);
    TWO(Empty, To);
    TWO(int, To);
    TWO(OnlyImplicit, Target);
    TWO(Base, Base);
    TWO(Base const, Base);
    TWO(Base, Base volatile);
    TWO(Base, Pub);
    TWO(Pub, Base);
    TWO(Pub const, Base);
    TWO(Pub, Base const);
    TWO(Priv, Base);
    TWO(Prot, Base);
    TWO(Virt, Base);
    TWO(Twice, Base);
    TWO(Twice, Mid1);
    TWO(Far, Base);
    TWO(Far, Pub);
    TWO(Pub &, Base &);
    TWO(Pub *, Base *);
    TWO(int, Base);
}
VF_SUITE(calls, 1) {
    CALL(Call, int);
    CALL(Call);
    CALL(Call, int, int);
    CALL(Call, char);
    CALL(Call, std::string);
    CALL(CallL, int &);
    CALL(CallL &, int &);
    CALL(CallL &, int);
    CALL(CallL const &, int &);
    CALL(CallR, std::string);
    CALL(CallR &&, std::string &&);
    CALL(CallR, std::string &);
    CALL(CallR &, std::string);
    CALL(int (Mem::*)(char), Mem &, char);
    CALL(int (Mem::*)(char), Mem const &, char);
    CALL(int (Mem::*)(char), Mem *, char);
    CALL(int (Mem::*)(char), Mem *);
    CALL(bool (Mem::*)() const, Mem);
    CALL(int Mem::*, Mem const &);
    CALL(int Mem::*, int);
    CALL(int);
    CALL(bool (&)(char), int);
    CALL(Fn<bool>, int);
    CALL(Fn<int>, int);
    CALL(Fn<void>, int);
    CALL(Fn<std::string>, int);
    CALL(Fn<int *>, int);
    CALL(Fn<Scoped>, int);
    CALL(Fn<Plain>, int);
    CALL(Fn<Truthy>, int);
    CALL(Fn<Implicit>, int);
    CALL(Fn<Implicit &>, int);
    CALL(Fn<NoNot>, int);
    CALL(Fn<NotGone>, int);
    CALL(Fn<NotRvalue>, int);
    CALL(Fn<NotRvalue &>, int);
    CALL(Fn<NotLvalue>, int);
    CALL(Fn<NotLvalue &>, int);
    CALL(Fn<bool const &>, int);
}

namespace {
// ranges: what std::begin and std::end accept as an lvalue
struct BeginOnly {
    int *begin();
};
struct EndOnly {
    int *end();
};
struct Both {
    int *begin();
    int *end();
};
struct ConstBoth {
    int const *begin() const;
    int const *end() const;
};
struct RvalueOnly {
    int *begin() &&;
    int *end() &&;
};
struct Sentinel {
    int *begin();
    char end(); // any end will do
};
} // namespace
namespace friendly {
struct FreeOnly {};
[[maybe_unused]] inline int *begin(FreeOnly &) { return nullptr; }
[[maybe_unused]] inline int *end(FreeOnly &) { return nullptr; }
} // namespace friendly
namespace {
VF_EXHAUSTIVE(ranges, 1) {
    auto is = [&](bool got, bool want, char const *what) {
        c.op(what);
        c.eq(got, want, what);
    };
#define RANGE(want, ...) is(stdx::range<__VA_ARGS__>, want, #__VA_ARGS__)
    RANGE(true, Both);
    RANGE(true, Both &);
    RANGE(true, Both &&);
    RANGE(false, Both const);
    RANGE(false, Both const &);
    RANGE(true, ConstBoth);
    RANGE(true, ConstBoth const);
    RANGE(true, ConstBoth const &);
    RANGE(false, BeginOnly);
    RANGE(false, EndOnly);
    RANGE(false, RvalueOnly);
    RANGE(false, RvalueOnly &&);
    RANGE(true, Sentinel);
    RANGE(false, friendly::FreeOnly);
    RANGE(true, int[3]);
    RANGE(true, int (&)[3]);
    RANGE(true, char const[4]);
    RANGE(false, int *);
    RANGE(false, int);
    RANGE(false, char const *);
    RANGE(false, Empty);
    RANGE(true, std::array<int, 0>);
    RANGE(true, std::array<int, 2> const);
    RANGE(true, std::vector<bool>);
    RANGE(true, std::string_view);
    RANGE(true, std::initializer_list<int>);
    RANGE(true, std::map<int, int> const &);
#undef RANGE
}

// expand of a value that was never shrunk is that value: the same object for
// an lvalue, moved for an rvalue.
struct MovedFrom {
    int id;
    explicit MovedFrom(int i) : id{i} {}
    MovedFrom(MovedFrom &&o) noexcept : id{std::exchange(o.id, -1)} {}
};
VF_SUITE(expand_value, 1) {
    auto const n = static_cast<int>(c.below(1000));
    c.op("expand", n);
    MovedFrom m{n};
    static_assert(std::is_same_v<decltype(stdx::expand(m)), MovedFrom &>);
    static_assert(std::is_same_v<decltype(stdx::expand(std::as_const(m))), MovedFrom const &>);
    static_assert(std::is_same_v<decltype(stdx::expand(std::move(m))), MovedFrom>);
    c.check(&stdx::expand(m) == &m and &stdx::expand(std::as_const(m)) == &m, "expand-lvalue", "another object");
    auto const out = stdx::expand(std::move(m));
    c.eq(out.id, n, "expand-rvalue");
    c.eq(stdx::expand(n), n, "expand-value");
    std::vector<int> v(3, n);
    c.eq(stdx::expand(std::vector<int>(v)).size(), 3u, "expand-vector");
    stdx::expand(v).push_back(n);
    c.eq(v.size(), 4u, "expand-reference");
    auto const shrunk = stdx::shrink(Empty{});
    static_assert(std::is_same_v<decltype(stdx::expand(shrunk)), Empty>);
    static_assert(std::is_same_v<decltype(stdx::expand(stdx::shrink(Empty{}))), Empty>);
}
} // namespace
