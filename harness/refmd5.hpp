#pragma once
#include <cmath>
#include "refcrypto.hpp"
namespace ref {
inline Bytes md5(const Bytes& in) {   // RFC 1321
    static const int S[] = {7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21}; uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476}; Bytes m = in; m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0); for (int i = 0; i < 8; ++i) m.push_back(uint8_t(uint64_t(in.size()) * 8 >> (8 * i)));
    for (size_t o = 0; o < m.size(); o += 64) { uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
        for (int i = 0; i < 64; ++i) { uint32_t f; int g; if (i < 16) f = (b & c) | (~b & d), g = i; else if (i < 32) f = (d & b) | (~d & c), g = (5 * i + 1) % 16; else if (i < 48) f = b ^ c ^ d, g = (3 * i + 5) % 16; else f = c ^ (b | ~d), g = 7 * i % 16;
            uint32_t k = uint32_t(std::floor(std::fabs(std::sin(double(i + 1))) * 4294967296.0)); const uint8_t* w = &m[o + 4 * g]; f += a + k + (uint32_t(w[0]) | uint32_t(w[1]) << 8 | uint32_t(w[2]) << 16 | uint32_t(w[3]) << 24); a = d; d = c; c = b; int s = S[i / 16 * 4 + i % 4]; b += f << s | f >> (32 - s); }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; }
    Bytes r; for (int i = 0; i < 16; ++i) r.push_back(uint8_t(h[i / 4] >> (8 * (i % 4)))); return r;
}
}
