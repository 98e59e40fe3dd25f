// An argument of an rvalue tuple that two functions take by value.
#include <stdx/call_by_need.hpp>

#include "vf.hpp"

#include <memory>
#include <string>
#include <vector>

VF_SUITE(used_twice, 1) {
    int const n = static_cast<int>(c.range(20, 60));
    std::string const want(static_cast<std::size_t>(n), 'x');
    c.op("call_by_need", n);
    std::string a, b;
    stdx::tuple args{std::string(want)};
    auto r = stdx::call_by_need(stdx::tuple{[&](std::string s) { a = s; }, [&](std::string s) { b = s; }}, std::move(args));
    static_assert(stdx::tuple_size_v<decltype(r)> == 0);
    c.eq(a, want, "first-use");
    c.eq(b, want, "second-use");
}
