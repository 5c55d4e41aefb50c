// Stand-in for the crc32c library, which is not installed here: the same function (Castagnoli CRC).
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
namespace crc32c
{
    namespace detail
    {
        constexpr std::array<uint32_t, 256> table = [] {
            std::array<uint32_t, 256> t{};
            for (uint32_t i = 0; i < 256; i++)
            {
                uint32_t c = i;
                for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0x82F63B78u : c >> 1;
                t[i] = c;
            }
            return t;
        }();
    }
    inline uint32_t Extend(uint32_t crc, const uint8_t* p, size_t n)
    {
        crc = ~crc;
        for (size_t i = 0; i < n; i++) crc = detail::table[(crc ^ p[i]) & 0xff] ^ (crc >> 8);
        return ~crc;
    }
    inline uint32_t Crc32c(const uint8_t* p, size_t n) { return Extend(0, p, n); }
    inline uint32_t Crc32c(const char* p, size_t n) { return Extend(0, (const uint8_t*) p, n); }
}
