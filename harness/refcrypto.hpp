// Boring reference implementations, written from the standards.
#pragma once
#include <array>
#include <cstdint>
#include <vector>
#include <string>
namespace ref {
using Bytes = std::vector<uint8_t>;
inline std::array<uint8_t, 20> sha1(const Bytes& in) {   // FIPS 180-4
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    Bytes m = in; uint64_t bits = uint64_t(in.size()) * 8;
    m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0);
    for (int i = 7; i >= 0; --i) m.push_back(uint8_t(bits >> (8 * i)));
    auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[80];
        for (int t = 0; t < 16; ++t) w[t] = uint32_t(m[o + 4 * t]) << 24 | uint32_t(m[o + 4 * t + 1]) << 16 | uint32_t(m[o + 4 * t + 2]) << 8 | m[o + 4 * t + 3];
        for (int t = 16; t < 80; ++t) w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int t = 0; t < 80; ++t) {
            uint32_t f, k;
            if (t < 20) { f = (b & c) | (~b & d); k = 0x5A827999; } else if (t < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; }
            else if (t < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; } else { f = b ^ c ^ d; k = 0xCA62C1D6; }
            uint32_t T = rol(a, 5) + f + e + k + w[t]; e = d; d = c; c = rol(b, 30); b = a; a = T;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    std::array<uint8_t, 20> r;
    for (int i = 0; i < 20; ++i) r[i] = uint8_t(h[i / 4] >> (24 - 8 * (i % 4)));
    return r;
}
inline Bytes block_key(const Bytes& key) {
    Bytes k = key;
    if (k.size() > 64) { auto d = sha1(k); k.assign(d.begin(), d.end()); }
    k.resize(64, 0);
    return k;
}
inline std::array<uint8_t, 20> hmac_sha1(const Bytes& key, const Bytes& msg) {   // RFC 2104
    Bytes k = block_key(key);
    Bytes i, o;
    for (auto b : k) { i.push_back(b ^ 0x36); o.push_back(b ^ 0x5c); }
    i.insert(i.end(), msg.begin(), msg.end());
    auto d = sha1(i); o.insert(o.end(), d.begin(), d.end());
    return sha1(o);
}
inline uint32_t crc32(const uint8_t* p, size_t n) {      // ITU V.42, bit by bit
    uint32_t c = 0xffffffff;
    for (size_t i = 0; i < n; ++i) { c ^= p[i]; for (int k = 0; k < 8; ++k) c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1; }
    return ~c;
}
}
