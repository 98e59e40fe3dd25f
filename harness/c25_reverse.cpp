// Walking a counting_iterator interval backwards through std::reverse_iterator.
#include <stdx/iterator.hpp>

#include "vf.hpp"

#include <iterator>
#include <vector>

namespace {
VF_SUITE(reverse_iterator, 1) {
    auto const a = static_cast<int>(c.range(-50, 50));
    auto const n = static_cast<int>(c.below(20)) + 1;
    c.op("reverse", a, n);
    std::reverse_iterator<stdx::counting_iterator<int>> r{stdx::counting_iterator{a + n}}, e{stdx::counting_iterator{a}};
    int want = a + n;
    for (; r != e; ++r) {
        c.eq(*r, --want, "reverse-value");
    }
    c.eq(want, a, "reverse-count");
}
} // namespace
