// Independent STUN encoder/decoder (RFC 5389 / 8489 / 8445) used as the oracle.
#pragma once
#include <optional>
#include <string>
#include <vector>
#include <set>
#include "refcrypto.hpp"
namespace ref {
enum Cause { // one bit per rejection cause
    c_size, c_not_padded, c_length, c_cookie, c_type, c_attr_size, c_fp_not_last, c_fp_invalid, c_fp_size, c_mi_size, c_mapped, c_xor_mapped, c_ip,
    c_priority, c_controlling, c_controlled, c_use_candidate, c_error_code, c_unknown_attrs };
struct Addr { bool v6 = false; Bytes b; uint16_t port = 0; bool operator==(const Addr&) const = default; };
// addresses that code is tempted to treat specially: unspecified, loopback, private, mapped, translated, multicast, ...
inline const std::vector<Addr>& special_addresses() {
    static const std::vector<Addr> v = [] {
        std::vector<Addr> r; auto a4 = [&](Bytes b) { r.push_back({false, b, 0}); };
        for (int x : {0, 1, 10, 33, 100, 127, 169, 172, 192, 224, 240, 255}) { a4({uint8_t(x), 0, 0, 0}); a4({uint8_t(x), 0, 0, 1}); a4({uint8_t(x), 168, 254, 255}); a4({uint8_t(x), 255, 255, 255}); }
        static const std::vector<Bytes> P{{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}, {0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0, 0}, {0, 0x64, 0xff, 0x9b, 0, 0, 0, 0, 0, 0, 0, 0}, {0x20, 2}, {0xfe, 0x80}, {0xfe, 0xc0}, {0xfd}, {0xff, 2}, {0x20, 1}, {0x20, 1, 0xd, 0xb8}, {1}, {0x21, 0x12, 0xa4, 0x42}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}};
        static const std::vector<Bytes> T{{0, 0, 0, 0}, {0, 0, 0, 1}, {127, 0, 0, 1}, {192, 168, 0, 1}, {0xff, 0xff, 0xff, 0xff}};
        for (auto p : P) for (auto& t : T) { p.resize(16); std::copy(t.begin(), t.end(), p.begin() + 12); r.push_back({true, p, 0}); }
        return r;
    }();
    return v;
}
struct Err { unsigned code; std::string reason; bool operator==(const Err&) const = default; };
struct Unk { uint16_t type; Bytes data; bool operator==(const Unk&) const = default; };
struct Msg {
    unsigned cls = 0, method = 1; Bytes tid; bool rfc3489 = false;
    std::optional<Addr> mapped, alternate, xored /* as on the wire, port decoded */; std::optional<std::string> username, software;
    std::optional<Bytes> integrity; std::optional<uint32_t> fingerprint /* wire value */, priority; std::optional<uint64_t> controlling, controlled; bool use_candidate = false;
    std::optional<std::vector<uint16_t>> unknown_attributes; std::optional<Err> error; std::vector<Unk> unknown;
    std::optional<size_t> integrity_at;
};
struct Parsed { bool ok = false; uint32_t causes = 0; Msg m; };
inline unsigned u16(const Bytes& b, size_t o) { return unsigned(b[o]) << 8 | b[o + 1]; }
inline uint32_t u32(const Bytes& b, size_t o) { return uint32_t(u16(b, o)) << 16 | u16(b, o + 2); }
inline uint64_t u64(const Bytes& b, size_t o) { return uint64_t(u32(b, o)) << 32 | u32(b, o + 4); }
inline void p16(Bytes& b, unsigned v) { b.push_back(uint8_t(v >> 8)); b.push_back(uint8_t(v)); }
inline void p32(Bytes& b, uint32_t v) { p16(b, v >> 16); p16(b, v & 0xffff); }
inline void p64(Bytes& b, uint64_t v) { p32(b, uint32_t(v >> 32)); p32(b, uint32_t(v)); }
inline bool known(unsigned t) { static const std::set<unsigned> k{1, 6, 8, 9, 0xa, 0x20, 0x24, 0x25, 0x8022, 0x8023, 0x8028, 0x8029, 0x802a}; return k.count(t); }
inline unsigned msg_type(unsigned cls, unsigned method) { return (method & 0xf) | (cls & 1) << 4 | (method & 0x70) << 1 | (cls >> 1) << 8 | (method & 0xf80) << 2; }
inline unsigned type_class(unsigned t) { return (t >> 4 & 1) | (t >> 8 & 1) << 1; }
inline unsigned type_method(unsigned t) { return (t & 0xf) | (t >> 1 & 0x70) | (t >> 2 & 0xf80); }
constexpr uint32_t COOKIE = 0x2112A442, FPXOR = 0x5354554e;
inline Bytes xor_bytes(const Addr& a, const Bytes& tid12) { Bytes m; p32(m, COOKIE); m.insert(m.end(), tid12.begin(), tid12.end()); m.resize(16, 0); Bytes r = a.b; for (size_t i = 0; i < r.size(); ++i) r[i] ^= m[i]; return r; }

inline Parsed parse(const Bytes& b) {
    Parsed r; auto bad = [&](Cause c) { r.causes |= 1u << c; };
    if (b.size() < 20) { bad(c_size); return r; }
    unsigned t = u16(b, 0), len = u16(b, 2); uint32_t ck = u32(b, 4);
    if (t & 0xc000) bad(c_type);
    if (len % 4) bad(c_not_padded);
    if (len != b.size() - 20) bad(c_length);
    Msg& m = r.m; m.cls = type_class(t); m.method = type_method(t & 0x3fff);
    m.rfc3489 = ck != COOKIE;
    if (m.rfc3489 && m.cls != 0) bad(c_cookie);
    if (r.causes) return r;
    m.tid.assign(b.begin() + (m.rfc3489 ? 4 : 8), b.begin() + 20);
    bool after_mi = false; size_t o = 20, fp_at = 0;
    struct A { unsigned type; Bytes v; }; std::vector<A> as;
    while (o < b.size()) {
        if (b.size() - o < 4) { bad(c_attr_size); break; }
        unsigned type = u16(b, o), l = u16(b, o + 2);
        if (l > b.size() - o - 4) { bad(c_attr_size); break; }
        size_t al = (l + 3u) / 4 * 4;
        Bytes v(b.begin() + o + 4, b.begin() + o + 4 + l);
        bool last = o + 4 + al >= b.size();
        if (type == 0x8028) { if (!last) bad(c_fp_not_last); fp_at = o; as.push_back({type, v}); }
        else if (after_mi) {}
        else { if (type == 8) { after_mi = true; m.integrity_at = o; } as.push_back({type, v}); }
        o += 4 + al;
    }
    auto address = [&](const Bytes& v, Cause shortc) -> std::optional<Addr> {
        if (v.size() < 4) { bad(shortc); return {}; }
        if (!((v[1] == 1 && v.size() == 8) || (v[1] == 2 && v.size() == 20))) { bad(c_ip); if (shortc == c_mapped) bad(c_mapped); else bad(c_xor_mapped); return {}; }
        return Addr{v[1] == 2, Bytes(v.begin() + 4, v.end()), uint16_t(u16(v, 2))};
    };
    auto set = [](auto& dst, auto v) { if (!dst) dst = v; };
    for (auto& a : as) {
        const Bytes& v = a.v; std::string s(v.begin(), v.end());
        switch (a.type) {
        case 0x0001: { auto x = address(v, c_mapped); if (x) set(m.mapped, *x); break; }
        case 0x8023: { auto x = address(v, c_mapped); if (x) set(m.alternate, *x); break; }
        case 0x0020: { auto x = address(v, c_xor_mapped); if (x) { x->port ^= 0x2112; set(m.xored, *x); } break; }
        case 0x0006: set(m.username, s); break;
        case 0x8022: set(m.software, s); break;
        case 0x0008: if (v.size() != 20) bad(c_mi_size); else set(m.integrity, v); break;
        case 0x8028: if (v.size() < 4) bad(c_fp_size); else set(m.fingerprint, u32(v, 0)); break;
        case 0x0024: if (v.size() < 4) bad(c_priority); else set(m.priority, u32(v, 0)); break;
        case 0x8029: if (v.size() < 8) bad(c_controlled); else set(m.controlled, u64(v, 0)); break;
        case 0x802a: if (v.size() < 8) bad(c_controlling); else set(m.controlling, u64(v, 0)); break;
        case 0x0025: if (!v.empty()) bad(c_use_candidate); else m.use_candidate = true; break;
        case 0x000a: if (v.size() % 2) bad(c_unknown_attrs); else { std::vector<uint16_t> ts; for (size_t i = 0; i < v.size(); i += 2) ts.push_back(u16(v, i)); set(m.unknown_attributes, ts); } break;
        case 0x0009: if (v.size() < 4) bad(c_error_code); else set(m.error, Err{(v[2] & 7u) * 100u + v[3], std::string(v.begin() + 4, v.end())}); break;
        default: m.unknown.push_back({uint16_t(a.type), v});
        }
    }
    if (m.fingerprint && *m.fingerprint != (crc32(b.data(), fp_at) ^ FPXOR)) bad(c_fp_invalid);
    r.ok = r.causes == 0;
    return r;
}
// is the integrity attribute right under this password?  nullopt = absent
inline std::optional<bool> integrity(const Bytes& b, const Msg& m, const Bytes& key) {
    if (!m.integrity_at) return {};
    Bytes p(b.begin(), b.begin() + *m.integrity_at); size_t l = *m.integrity_at + 24 - 20; p[2] = uint8_t(l >> 8); p[3] = uint8_t(l);
    auto d = hmac_sha1(key, p);
    return Bytes(d.begin(), d.end()) == *m.integrity;
}
// ---- encoder
struct Enc {
    Bytes b;
    Enc(unsigned type, const Bytes& tid, bool cookie = true) { p16(b, type); p16(b, 0); if (cookie) p32(b, COOKIE); b.insert(b.end(), tid.begin(), tid.end()); }
    Enc& len(int extra = 0) { size_t l = b.size() - 20 + extra; b[2] = uint8_t(l >> 8); b[3] = uint8_t(l); return *this; }
    Enc& attr(unsigned type, const Bytes& v, uint8_t pad = 0) { p16(b, type); p16(b, v.size()); b.insert(b.end(), v.begin(), v.end()); while (b.size() % 4) b.push_back(pad); return len(); }
    Enc& str(unsigned type, const std::string& s) { return attr(type, Bytes(s.begin(), s.end())); }
    Enc& addr(unsigned type, const Addr& a) { Bytes v{0, uint8_t(a.v6 ? 2 : 1)}; p16(v, a.port); v.insert(v.end(), a.b.begin(), a.b.end()); return attr(type, v); }
    Enc& xaddr(const Addr& a, const Bytes& tid) { Bytes v{0, uint8_t(a.v6 ? 2 : 1)}; p16(v, a.port ^ 0x2112); Bytes x = xor_bytes(a, tid); v.insert(v.end(), x.begin(), x.end()); return attr(0x20, v); }
    Enc& word(unsigned type, uint32_t w) { Bytes v; p32(v, w); return attr(type, v); }
    Enc& quad(unsigned type, uint64_t w) { Bytes v; p64(v, w); return attr(type, v); }
    Enc& error(unsigned code, const std::string& why = "") { Bytes v{0, 0, uint8_t(code / 100), uint8_t(code % 100)}; v.insert(v.end(), why.begin(), why.end()); return attr(9, v); }
    Enc& mi(const Bytes& key) { len(24); auto d = hmac_sha1(key, b); return attr(8, Bytes(d.begin(), d.end())); }
    Enc& fp(uint32_t flip = 0) { len(8); return word(0x8028, crc32(b.data(), b.size()) ^ FPXOR ^ flip); }
};
}
