// Vocabulary of the generated programs for the preprocessor map and the
// asserting and forwarding macros.
#pragma once
#include <stdx/pp_map.hpp>
#include <stdx/static_assert.hpp>
#include <stdx/utility.hpp>

#include "vf.hpp"

#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

#define VF_TEXT_(...) #__VA_ARGS__
#define VF_TEXT(...) VF_TEXT_(__VA_ARGS__)

struct Widget;
struct Gadget {};
template <typename... Ts> struct Box {};
enum struct Colour { red, green, blue_2 };
enum Plain { plain_zero, plain_one };
namespace deep::er {
enum struct Level : std::uint8_t { lo, hi };
struct Holder {
    enum struct Inner { x, longer_name };
};
} // namespace deep::er

namespace c29 {
using Log = std::vector<std::string>;

// the text of an expansion with the space between tokens taken out
inline std::string squeeze(std::string_view s) {
    std::string r;
    char quote{};
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (quote == 0 and (s[i] == ' ' or s[i] == '\n' or s[i] == '\t')) {
            continue;
        }
        r += s[i];
        if (quote != 0 and s[i] == '\\') {
            r += s[++i];
        } else if (s[i] == '"' or s[i] == '\'') {
            quote = quote == 0 ? s[i] : quote == s[i] ? char{} : quote;
        }
    }
    return r;
}

template <typename T> std::string show(T const &t) {
    if constexpr (std::is_convertible_v<T const &, std::string_view>) {
        return std::string(std::string_view(t));
    } else {
        return std::to_string(t);
    }
}
struct Note { // one application of the mapped macro, in the order evaluated
    Log *log;
    template <typename T> int operator()(T const &t) const {
        log->push_back(show(t));
        return static_cast<int>(log->size());
    }
};
inline int add(int a, int b) { return a + b; }
inline int neg(int a) { return -a; }
struct Counter {
    int n{};
    int operator()() { return n++; }
};
template <typename... Ts> std::size_t count(Ts const &...) { return sizeof...(Ts); }

inline std::string join(Log const &l) {
    std::string r = std::to_string(l.size());
    for (auto const &s : l) {
        r += "|" + s;
    }
    return r;
}

template <typename... Ts> struct Types {};
template <typename T> std::string category() {
    return std::string(std::is_const_v<std::remove_reference_t<T>> ? "const" : "") +
           (std::is_lvalue_reference_v<T> ? "&" : std::is_rvalue_reference_v<T> ? "&&" : "");
}
struct Sink {
    void const *at{};
    std::string cat;
    template <typename T> auto operator()(T &&t) -> T && {
        at = std::addressof(t);
        cat = category<T &&>();
        return static_cast<T &&>(t);
    }
};
} // namespace c29
