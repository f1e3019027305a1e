// Stand-in for google/crc32c (not installed here): CRC-32C, table driven.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>

namespace crc32c
{
    namespace detail
    {
        inline const std::array<std::array<uint32_t, 256>, 8>& tables()
        {
            static const auto t = [] {
                std::array<std::array<uint32_t, 256>, 8> r{};
                for (uint32_t i = 0; i < 256; ++i)
                {
                    uint32_t c = i;
                    for (int k = 0; k < 8; ++k) c = (c >> 1) ^ ((c & 1) ? 0x82F63B78u : 0);
                    r[0][i] = c;
                }
                for (uint32_t i = 0; i < 256; ++i)
                    for (size_t k = 1; k < 8; ++k) r[k][i] = (r[k - 1][i] >> 8) ^ r[0][r[k - 1][i] & 0xFF];
                return r;
            }();
            return t;
        }
    }  // namespace detail

    inline uint32_t Extend(uint32_t crc, const uint8_t* p, size_t n)
    {
        const auto& t = detail::tables();
        uint32_t c = ~crc;
        while (n >= 8)
        {
            uint32_t lo = c ^ (uint32_t(p[0]) | uint32_t(p[1]) << 8 | uint32_t(p[2]) << 16 | uint32_t(p[3]) << 24);
            c = t[7][lo & 0xFF] ^ t[6][(lo >> 8) & 0xFF] ^ t[5][(lo >> 16) & 0xFF] ^ t[4][lo >> 24] ^ t[3][p[4]] ^ t[2][p[5]] ^ t[1][p[6]] ^ t[0][p[7]];
            p += 8;
            n -= 8;
        }
        while (n--) c = (c >> 8) ^ t[0][(c ^ *p++) & 0xFF];
        return ~c;
    }
    inline uint32_t Crc32c(const uint8_t* p, size_t n) { return Extend(0, p, n); }
    inline uint32_t Crc32c(const char* p, size_t n) { return Extend(0, reinterpret_cast<const uint8_t*>(p), n); }
}  // namespace crc32c
