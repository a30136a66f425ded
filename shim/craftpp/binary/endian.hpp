// Offline stand-in for craftpp: byte order conversion.
#pragma once

#include <bit>
#include <cstdint>
#include <cstring>

namespace craftpp::binary {

namespace details {
template<typename T>
constexpr T swap_if_le(T v) noexcept {
    if constexpr (std::endian::native == std::endian::big) {
        return v;
    } else {
        T r = 0;
        for (unsigned i = 0; i < sizeof(T); ++i) {
            r = static_cast<T>((r << 8) | ((v >> (8 * i)) & 0xFF));
        }
        return r;
    }
}
}

constexpr uint16_t network_to_host_u16(uint16_t v) noexcept { return details::swap_if_le(v); }
constexpr uint32_t network_to_host_u32(uint32_t v) noexcept { return details::swap_if_le(v); }
constexpr uint64_t network_to_host_u64(uint64_t v) noexcept { return details::swap_if_le(v); }
constexpr uint16_t host_to_network_u16(uint16_t v) noexcept { return details::swap_if_le(v); }
constexpr uint32_t host_to_network_u32(uint32_t v) noexcept { return details::swap_if_le(v); }
constexpr uint64_t host_to_network_u64(uint64_t v) noexcept { return details::swap_if_le(v); }

}
