// Vocabulary of the generated ct_string programs.
#pragma once
#include <stdx/ct_string.hpp>

#include "vf.hpp"

#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

template <typename T, T... Cs> struct Pack {
    static std::string text() { return std::string({Cs...}); }
};

namespace c23 {
using namespace stdx::literals;

template <typename T, T... Cs> std::string text(Pack<T, Cs...>) { return std::string({Cs...}); }
template <typename T, T... Cs> std::string text(std::integer_sequence<T, Cs...>) { return std::string({Cs...}); }

// Everything a ct_string says about itself.
template <std::size_t N> void is(vf::Ctx &c, stdx::ct_string<N> const &s, std::string const &want, char const *what) {
    std::string const key{what};
    c.eq(s.size(), want.size(), (key + "-size").c_str());
    c.eq(s.capacity(), want.size() + 1, (key + "-capacity").c_str());
    c.eq(s.empty(), want.empty(), (key + "-empty").c_str());
    c.eq(std::string(s.begin(), s.end()), want, (key + "-text").c_str());
    c.eq(std::string(s.rbegin(), s.rend()), std::string(want.rbegin(), want.rend()), (key + "-reversed").c_str());
    c.eq(std::string(static_cast<std::string_view>(s)), want, (key + "-string_view").c_str());
    c.check(s.value.size() == want.size() + 1 and s.value.back() == '\0', (key + "-terminator").c_str(), "");
    auto m = s;
    std::string r;
    for (auto &ch : m) {
        r += ch;
        ch = 'x';
    }
    c.eq(r, want, (key + "-mutable").c_str());
    c.eq(std::string(std::string_view(m)), std::string(want.size(), 'x'), (key + "-mutable").c_str());
    static_assert(stdx::ct_string<N>::size() == N - 1 and stdx::ct_string<N>::capacity() == N);
}
template <stdx::ct_string S> void is(vf::Ctx &c, stdx::cts_t<S> s, std::string const &want, char const *what) {
    is(c, S, want, what);
    is(c, s.value, want, what);
    is(c, +s, want, what);
    is(c, s(), want, what);
    c.eq(s.size(), want.size(), what);
    static_assert(stdx::is_ct_v<stdx::cts_t<S>> and stdx::is_cx_value_v<stdx::cts_t<S>>);
    static_assert(std::is_same_v<typename stdx::cts_t<S>::value_type, std::remove_cvref_t<decltype(S)>>);
}
template <stdx::ct_string S> std::string arg() { // as a template argument
    return std::string(static_cast<std::string_view>(S));
}
} // namespace c23
