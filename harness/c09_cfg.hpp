// A user's configuration of the atomic layer.
#pragma once
#include <cstdint>
#include <type_traits>

template <> struct atomic::atomic_type<std::uint8_t> {
    using type = std::uint32_t;
};
template <> struct atomic::atomic_type<std::int8_t> {
    using type = std::int32_t;
};
template <> struct atomic::atomic_type<bool> {
    using type = std::uint32_t;
};
template <> struct atomic::atomic_type<std::uint16_t> {
    using type = std::uint64_t;
};
template <typename T>
    requires(std::is_enum_v<T>)
struct atomic::atomic_type<T> : atomic::atomic_type<std::underlying_type_t<T>> {
};
template <> constexpr inline auto atomic::alignment_of<std::uint32_t> = 16u;
template <> constexpr inline auto atomic::alignment_of<std::uint8_t> = 8u;
