// Stand-in for the baremetal concurrency library's atomic layer (not available
// here): the same interface over compiler builtins, plus a monitoring hook
// called before and after every access.
#pragma once

#include <atomic>
#include <concepts>
#include <cstddef>
#include <type_traits>

namespace atomic {
template <typename T> struct atomic_type {
    using type = T;
};
template <typename T> using atomic_type_t = typename atomic_type<T>::type;

template <typename T>
constexpr inline auto alignment_of = alignof(atomic_type_t<T>);

enum class vf_access { load, store, exchange, add, sub, and_, or_, xor_ };
using vf_hook_t = void (*)(bool before, vf_access, void const *, std::size_t,
                           std::memory_order);
inline vf_hook_t vf_hook = nullptr;
} // namespace atomic

#ifdef ATOMIC_CFG
#include ATOMIC_CFG
#endif

namespace atomic {
namespace vf_detail {
struct watch {
    vf_access k;
    void const *p;
    std::size_t n;
    std::memory_order mo;
    watch(vf_access kk, void const *pp, std::size_t nn, std::memory_order o)
        : k{kk}, p{pp}, n{nn}, mo{o} {
        if (vf_hook != nullptr) {
            vf_hook(true, k, p, n, mo);
        }
    }
    ~watch() {
        if (vf_hook != nullptr) {
            vf_hook(false, k, p, n, mo);
        }
    }
};
// keep the order a constant for the builtins
template <typename F>
[[gnu::always_inline]] inline auto with_order(std::memory_order mo, F f) {
    switch (mo) {
    case std::memory_order_relaxed:
        return f(std::integral_constant<int, __ATOMIC_RELAXED>{});
    case std::memory_order_consume:
    case std::memory_order_acquire:
        return f(std::integral_constant<int, __ATOMIC_ACQUIRE>{});
    case std::memory_order_release:
        return f(std::integral_constant<int, __ATOMIC_RELEASE>{});
    case std::memory_order_acq_rel:
        return f(std::integral_constant<int, __ATOMIC_ACQ_REL>{});
    default: return f(std::integral_constant<int, __ATOMIC_SEQ_CST>{});
    }
}
} // namespace vf_detail

template <typename T>
[[nodiscard]] auto load(T const &t,
                        std::memory_order mo = std::memory_order_seq_cst)
    -> T {
    vf_detail::watch w{vf_access::load, &t, sizeof(T), mo};
    return vf_detail::with_order(mo, [&](auto o) {
        constexpr int m =
            o() == __ATOMIC_RELEASE or o() == __ATOMIC_ACQ_REL
                ? __ATOMIC_SEQ_CST
                : o();
        T r;
        __atomic_load(&t, &r, m);
        return r;
    });
}
template <typename T, std::convertible_to<T> U>
auto store(T &t, U u, std::memory_order mo = std::memory_order_seq_cst)
    -> void {
    vf_detail::watch w{vf_access::store, &t, sizeof(T), mo};
    T v = static_cast<T>(u);
    vf_detail::with_order(mo, [&](auto o) {
        constexpr int m =
            o() == __ATOMIC_ACQUIRE or o() == __ATOMIC_ACQ_REL
                ? __ATOMIC_SEQ_CST
                : o();
        __atomic_store(&t, &v, m);
    });
}
template <typename T, std::convertible_to<T> U>
[[nodiscard]] auto exchange(T &t, U u,
                            std::memory_order mo = std::memory_order_seq_cst)
    -> T {
    vf_detail::watch w{vf_access::exchange, &t, sizeof(T), mo};
    T v = static_cast<T>(u);
    return vf_detail::with_order(mo, [&](auto o) {
        T r;
        __atomic_exchange(&t, &v, &r, o());
        return r;
    });
}
#define VF_FETCH(NAME, KIND)                                                   \
    template <typename T, std::convertible_to<T> U>                            \
    auto fetch_##NAME(T &t, U u,                                               \
                      std::memory_order mo = std::memory_order_seq_cst) -> T { \
        vf_detail::watch w{vf_access::KIND, &t, sizeof(T), mo};                \
        T const v = static_cast<T>(u);                                         \
        return vf_detail::with_order(mo, [&](auto o) {                         \
            return __atomic_fetch_##NAME(&t, v, o());                          \
        });                                                                    \
    }
VF_FETCH(add, add)
VF_FETCH(sub, sub)
VF_FETCH(and, and_)
VF_FETCH(or, or_)
VF_FETCH(xor, xor_)
#undef VF_FETCH
} // namespace atomic
