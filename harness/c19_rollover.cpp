#include <stdx/rollover.hpp>

#include "vf.hpp"

#include <algorithm>
#include <chrono>
#include <vector>

using vf::u64;
using u128 = unsigned __int128;

namespace {
template <typename T> struct Ops {
    using R = stdx::rollover_t<T>;
    static constexpr unsigned bits = 8 * sizeof(T);
    static u64 mod(u128 v) { return static_cast<T>(v); }

    static void pair(vf::Ctx &c, T a, T b) {
        R x{a}, y{b};
        auto val = [&](R r, u64 want, char const *key) {
            ++vf::g.checks;
            if (r.as_underlying() != want or static_cast<T>(r) != want) {
                c.fail(key, vf::str(u64{a}) + " and " + vf::str(u64{b}) + ": observed " +
                                vf::str(u64{r.as_underlying()}) + ", expected " + vf::str(want));
            }
        };
        u128 const A = a, B = b, M = u128{1} << bits;
        val(x, a, "value");
        val(+x, a, "plus");
        val(-x, mod(M - A), "negate");
        val(x + y, mod(A + B), "add");
        val(x - y, mod(A + M - B), "subtract");
        val(x * y, mod(A * B), "multiply");
        if (b != 0) {
            val(x / y, a / b, "divide");
            val(x % y, a % b, "remainder");
        }
        auto t = x;
        auto *p = &(t += y);
        c.check(p == &t, "compound-returns-itself");
        val(t, mod(A + B), "add-assign");
        t = x;
        c.check(&(t -= y) == &t, "compound-returns-itself");
        val(t, mod(A + M - B), "subtract-assign");
        t = x;
        c.check(&(t *= y) == &t, "compound-returns-itself");
        val(t, mod(A * B), "multiply-assign");
        if (b != 0) {
            t = x;
            c.check(&(t /= y) == &t, "compound-returns-itself");
            val(t, a / b, "divide-assign");
            t = x;
            c.check(&(t %= y) == &t, "compound-returns-itself");
            val(t, a % b, "remainder-assign");
        }
        t = x;
        c.check(&++t == &t, "increment-returns-itself");
        val(t, mod(A + 1), "pre-increment");
        val(t--, mod(A + 1), "post-decrement-result");
        val(t, a, "post-decrement");
        val(t++, a, "post-increment-result");
        val(t, mod(A + 1), "post-increment");
        c.check(&--t == &t, "decrement-returns-itself");
        val(t, a, "pre-decrement");
        t = x;
        --t;
        val(t, mod(A + M - 1), "pre-decrement-wrap");
        t = x;
        val(t += t, mod(A * 2), "self-add");
        t = x;
        val(t *= t, mod(A * A), "self-multiply");
        t = x;
        val(t -= t, 0, "self-subtract");
        c.check((x == y) == (a == b), "equal");
        c.check((x != y) == (a != b), "not-equal");
        auto const ahead = mod(B + M - A);
        c.check(cmp_less(x, y) == (ahead >= 1 and ahead <= (u64{1} << (bits - 1))), "cmp_less");
        auto const back = mod(A + M - B);
        c.check(cmp_less(y, x) == (back >= 1 and back <= (u64{1} << (bits - 1))), "cmp_less");
        val(x, a, "operand-changed");
        val(y, b, "operand-changed");
    }

    template <typename From> static void from(vf::Ctx &c, From f) {
        R r{f};
        c.eq(r.as_underlying(), static_cast<T>(f), "convert-value");
        if constexpr (std::is_unsigned_v<From>) {
            stdx::rollover_t<From> g{f};
            R h{g};
            c.eq(h.as_underlying(), static_cast<T>(f), "convert-rollover");
        }
        c.check(not std::is_convertible_v<From, R>, "explicit");
    }
    static void conversions(vf::Ctx &c) {
        auto v = c.interesting(64);
        c.op("convert", v);
        from(c, static_cast<std::uint8_t>(v));
        from(c, static_cast<std::uint16_t>(v));
        from(c, static_cast<std::uint32_t>(v));
        from(c, v);
        from(c, static_cast<unsigned long long>(v));
        from(c, static_cast<std::int8_t>(v));
        from(c, static_cast<std::int16_t>(v));
        from(c, static_cast<std::int32_t>(v));
        from(c, static_cast<std::int64_t>(v));
        c.eq(R{}.as_underlying(), 0u, "default");
    }
    // a timer that only ever advances by less than half the range
    static void timer(vf::Ctx &c) {
        R now{c.value<T>()};
        T model = now.as_underlying();
        auto const half = (u64{1} << (bits - 1));
        auto const n = 3 + c.below(20);
        std::vector<R> window;
        auto const start = model;
        u64 gone = 0;
        for (u64 i = 0; i < n; ++i) {
            auto step = 1 + c.below(c.coin() ? half - 1 : std::min<u64>(half - 1, 40));
            c.op("advance", step);
            auto next = now + R{step};
            model = static_cast<T>(model + step);
            c.eq(next.as_underlying(), model, "timer-value");
            c.check(cmp_less(now, next), "timer-order", "a later value compares earlier");
            c.check(not cmp_less(next, now) or step == half, "timer-order", "an earlier value compares later");
            gone = step >= half - std::min(gone, half) ? half : gone + step;
            if (gone < half) {
                window.push_back(next);
            }
            now = next;
        }
        // values within half the range of each other sort by age
        auto const order = window;
        std::vector<R> w;
        while (not window.empty()) {
            auto k = c.below(window.size());
            w.push_back(window[k]);
            window.erase(window.begin() + static_cast<long>(k));
        }
        std::sort(w.begin(), w.end(), [](R a, R b) { return cmp_less(a, b); });
        c.check(w == order, "timer-sort", "values inside one half-range window do not sort by age");
        c.state(vf::mix(model ^ (u64{start} << 1)));
    }
    static void chrono(vf::Ctx &c) {
        using D = std::chrono::duration<R, std::micro>;
        T a = c.value<T>(), b = c.value<T>();
        c.op("chrono", u64{a}, u64{b});
        D x{R{a}}, y{R{b}};
        c.eq((x + y).count().as_underlying(), static_cast<T>(a + b), "chrono-add");
        c.eq((x - y).count().as_underlying(), static_cast<T>(a - b), "chrono-subtract");
        x += y;
        c.eq(x.count().as_underlying(), static_cast<T>(a + b), "chrono-add-assign");
        c.check((D{R{a}} == y) == (a == b), "chrono-equal");
    }
};
template <typename T> void rnd(vf::Ctx &c) {
    switch (c.below(8)) {
    case 0: Ops<T>::conversions(c); break;
    case 1: Ops<T>::timer(c); break;
    case 2:
        if constexpr (sizeof(T) >= 4) {
            Ops<T>::chrono(c);
        } else {
            Ops<T>::timer(c);
        }
        break;
    default:
        for (int i = 0; i < 10; ++i) {
            auto a = c.value<T>();
            auto b = c.value<T>();
            if (c.chance(30)) {
                b = static_cast<T>(a + (u64{1} << (8 * sizeof(T) - 1)) + c.below(5) - 2);
            } else if (c.chance(20)) {
                b = static_cast<T>(a + c.below(5) - 2);
            }
            c.op("pair", u64{a}, u64{b});
            Ops<T>::pair(c, a, b);
        }
    }
}
VF_SUITE(u8, 1) { rnd<std::uint8_t>(c); }
VF_SUITE(u16, 2) { rnd<std::uint16_t>(c); }
VF_SUITE(u32, 2) { rnd<std::uint32_t>(c); }
VF_SUITE(u64_, 2) { rnd<std::uint64_t>(c); }
VF_SUITE(ull, 1) { rnd<unsigned long long>(c); }
VF_EXHAUSTIVE(u8_pairs, 256) { // every pair of bytes
    c.op("row", c.case_no);
    for (unsigned b = 0; b < 256; ++b) {
        Ops<std::uint8_t>::pair(c, static_cast<std::uint8_t>(c.case_no), static_cast<std::uint8_t>(b));
    }
}
// deduction
static_assert(std::is_same_v<decltype(stdx::rollover_t{std::uint16_t{}}), stdx::rollover_t<std::uint16_t>>);
static_assert(std::is_same_v<std::common_type_t<stdx::rollover_t<std::uint8_t>, stdx::rollover_t<std::uint32_t>>,
                             stdx::rollover_t<std::uint32_t>>);
static_assert(std::is_same_v<std::common_type_t<stdx::rollover_t<std::uint32_t>, int>, stdx::rollover_t<std::uint32_t>>);
template <typename T, typename U, typename V>
constexpr bool common = std::is_same_v<std::common_type_t<stdx::rollover_t<T>, U>, stdx::rollover_t<V>>;
static_assert(common<std::uint8_t, int, std::uint32_t> and common<std::uint16_t, int, std::uint32_t>);
static_assert(common<std::uint8_t, unsigned, std::uint32_t> and common<std::uint16_t, std::int64_t, std::uint64_t>);
static_assert(common<std::uint32_t, std::int64_t, std::uint64_t> and common<std::uint64_t, int, std::uint64_t>);
static_assert(common<std::uint32_t, std::int8_t, std::uint32_t> and common<std::uint8_t, std::int8_t, std::uint8_t>);
static_assert(common<std::uint32_t, stdx::rollover_t<std::uint64_t>, std::uint64_t>);
static_assert(common<std::uint64_t, stdx::rollover_t<std::uint16_t>, std::uint64_t>);
} // namespace
