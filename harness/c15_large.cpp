// Tuples of more elements than narrow integers count.
#include <stdx/tuple_algorithms.hpp>

#include "vf.hpp"

#include <numeric>
#include <type_traits>
#include <utility>
#include <vector>

namespace {
template <std::size_t I> struct At {
    unsigned v;
};
template <std::size_t From, std::size_t N> auto make(unsigned salt) {
    return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        return stdx::tuple{At<From + Is>{static_cast<unsigned>(From + Is) ^ salt}...};
    }(std::make_index_sequence<N>{});
}
template <typename T> constexpr std::size_t place{};
template <std::size_t I> constexpr std::size_t place<At<I>> = I;

template <std::size_t From, std::size_t N, std::size_t Step, typename T>
void holds(vf::Ctx &c, T const &t, unsigned salt, char const *key) {
    c.eq(std::size_t{T::size()}, N, key);
    if constexpr (T::size() == N) {
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            c.check((std::is_same_v<stdx::tuple_element_t<Is, T>, At<From + Is * Step>> and ...), key, "types");
            unsigned const vs[]{get<Is>(t).v...};
            for (std::size_t i = 0; i < N; ++i) {
                c.eq(vs[i], static_cast<unsigned>(From + i * Step) ^ salt, key);
            }
        }(std::make_index_sequence<N>{});
    }
}

template <typename T> using third = std::bool_constant<place<T> % 3 == 0>;

#if PART == 1
VF_SUITE(large, 1) {
    auto const salt = static_cast<unsigned>(c.below(1u << 20));
    c.op("large", salt);
    c.state(salt);
    constexpr std::size_t n = 140, m = 124;
    auto const a = make<0, n>(salt);
    auto const b = make<n, m>(salt);
    holds<0, n, 1>(c, a, salt, "made");
    holds<n, m, 1>(c, b, salt, "made");
    auto const t = stdx::tuple_cat(a, b);
    holds<0, n + m, 1>(c, t, salt, "cat");
    holds<0, n + m, 1>(c, stdx::tuple_snoc(make<0, n + m - 1>(salt), At<n + m - 1>{static_cast<unsigned>(n + m - 1) ^ salt}), salt, "snoc");
    holds<0, n + m, 1>(c, stdx::tuple_cons(At<0>{salt}, make<1, n + m - 1>(salt)), salt, "cons");
    holds<0, (n + m + 2) / 3, 3>(c, stdx::filter<third>(t), salt, "filter");

    std::vector<unsigned> seen, want;
    for (unsigned i = 0; i < n + m; ++i) {
        want.push_back(i ^ salt);
    }
    stdx::for_each([&](auto const &e) { seen.push_back(e.v); }, t);
    c.check(seen == want, "for_each", vf::str(seen).c_str());
    seen.clear();
    std::size_t at = 0;
    stdx::enumerate(
        [&]<auto I>(auto const &e) {
            c.eq(std::size_t{I}, at, "enumerate-index");
            seen.push_back(e.v);
            ++at;
        },
        t);
    c.check(seen == want, "enumerate", vf::str(seen).c_str());
    auto const doubled = stdx::transform([](auto const &e) { return At<2 * place<std::remove_cvref_t<decltype(e)>>>{e.v}; }, t);
    seen.clear();
    stdx::apply([&](auto const &...es) { (seen.push_back(es.v), ...); }, doubled);
    c.check(seen == want, "transform", vf::str(seen).c_str());
    c.check(std::is_same_v<stdx::tuple_element_t<n + m - 1, decltype(doubled)>, At<2 * (n + m - 1)> const> or
                std::is_same_v<stdx::tuple_element_t<n + m - 1, std::remove_cvref_t<decltype(doubled)>>, At<2 * (n + m - 1)>>,
            "transform-type", "");
    auto const sum = t.fold_left(vf::u64{}, [](vf::u64 s, auto const &e) { return s * 31 + e.v; });
    auto const rsum = t.fold_right(vf::u64{}, [](auto const &e, vf::u64 s) { return s * 31 + e.v; });
    c.eq(sum, std::accumulate(want.begin(), want.end(), vf::u64{}, [](vf::u64 s, unsigned v) { return s * 31 + v; }), "fold_left");
    c.eq(rsum, std::accumulate(want.rbegin(), want.rend(), vf::u64{}, [](vf::u64 s, unsigned v) { return s * 31 + v; }), "fold_right");
    auto const hit = static_cast<unsigned>(c.below(n + m)) ^ salt;
    c.eq(stdx::any_of([&](auto const &e) { return e.v == hit; }, t), true, "any_of");
    c.eq(stdx::all_of([&](auto const &e) { return e.v != hit; }, t), false, "all_of");
    c.eq(stdx::none_of([&](auto const &e) { return e.v == hit; }, t), false, "none_of");
}
#else
VF_SUITE(many, 1) {
    auto const salt = static_cast<unsigned>(c.below(1u << 20));
    c.op("many", salt);
    c.state(salt);
    constexpr std::size_t n = 258;
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        holds<0, n, 1>(c, stdx::tuple_cat(stdx::tuple{At<Is>{static_cast<unsigned>(Is) ^ salt}}...), salt, "cat-many");
        auto const vs = stdx::apply([](auto const &...es) { return std::vector<unsigned>{es.v...}; },
                                    stdx::tuple{At<Is>{static_cast<unsigned>(Is) ^ salt}}...);
        for (std::size_t i = 0; i < vs.size(); ++i) {
            c.eq(vs[i], static_cast<unsigned>(i) ^ salt, "apply-many");
        }
        c.eq(vs.size(), n, "apply-many");
    }(std::make_index_sequence<n>{});
}
#endif
} // namespace
