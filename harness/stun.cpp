// STUN codec (S01-S06): Message::parse / build / is_valid, CRC-32, XOR addresses
// against an independent encoder and decoder.
// DEPS: src/stun/stun_message.cpp src/stun/stun_attribute.cpp src/stun/stun_attribute_set.cpp src/stun/stun_header.cpp src/stun/stun_method.cpp src/stun/stun_address.cpp src/stun/stun_password.cpp src/stun/stun_error.cpp src/stun/details src/crypto/openssl src/net src/util/util_error_code.cpp
// LIBS: -lcrypto
#include "vh.hpp"
#include "stunlib.hpp"
#include "stun/details/stun_fingerprint.hpp"
using namespace freewebrtc;
using namespace ref;
static std::string N(uint64_t v) { return std::to_string(v); }
static std::string hx(const Bytes& b) { return b.size() > 400 ? vh::hex(Bytes(b.begin(), b.begin() + 200)) + "..(" + N(b.size()) + " bytes)" : vh::hex(b); }
static Bytes tid12() { Bytes t; for (int i = 0; i < 12; ++i) t.push_back(uint8_t(0xb7 + 17 * i)); return t; }
static Bytes tid16() { Bytes t; for (int i = 0; i < 16; ++i) t.push_back(uint8_t(0x31 + 29 * i)); return t; }
static const char* KEY = "VOkJxbRl1RmTxUk/WvJxBt";

struct St { const char* n; stat::Counter stun::ParseStat::*p; uint32_t causes; };
static uint32_t B(Cause c) { return 1u << c; }
static const std::vector<St>& causes() {
    using P = stun::ParseStat;
    static const std::vector<St> v{
        {"invalid_size", &P::invalid_size, B(c_size)}, {"not_padded", &P::not_padded, B(c_not_padded)}, {"message_length_error", &P::message_length_error, B(c_length)},
        {"magic_cookie_error", &P::magic_cookie_error, B(c_cookie)}, {"invalid_attr_size", &P::invalid_attr_size, B(c_attr_size)}, {"fingerprint_not_last", &P::fingerprint_not_last, B(c_fp_not_last)},
        {"invalid_fingerprint", &P::invalid_fingerprint, B(c_fp_invalid)}, {"invalid_fingerprint_size", &P::invalid_fingerprint_size, B(c_fp_size)}, {"invalid_message_integrity", &P::invalid_message_integrity, B(c_mi_size)},
        {"invalid_mapped_address", &P::invalid_mapped_address, B(c_mapped)}, {"invalid_xor_mapped_address", &P::invalid_xor_mapped_address, B(c_xor_mapped)}, {"invalid_ip_address", &P::invalid_ip_address, B(c_ip)},
        {"invalid_priority_size", &P::invalid_priority_size, B(c_priority)}, {"invalid_ice_controlling_size", &P::invalid_ice_controlling_size, B(c_controlling)}, {"invalid_ice_controlled_size", &P::invalid_ice_controlled_size, B(c_controlled)},
        {"invalid_use_candidate_size", &P::invalid_use_candidate_size, B(c_use_candidate)}, {"invalid_error_code_size", &P::invalid_error_code_size, B(c_error_code)},
        {"invalid_unknown_attributes_attr_size", &P::invalid_unknown_attributes_attr_size, B(c_unknown_attrs)}, {"unknown_comprehension_required_attr", &P::unknown_comprehension_required_attr, 0}, {"invalid_message_type", &P::invalid_message_type, B(c_type)}};
    return v;
}
// the central comparison: one datagram through the real parser and the reference
static void observe(vh::Ctx& c, const Bytes& in) {
    c.state(vh::hash_bytes(in.data(), in.size())); c.step();
    Parsed want = ref::parse(in);
    lib::Exact buf(in);
    stun::ParseStat st;
    auto r = stun::Message::parse(buf.view(), st);
    auto W = [&] { return "datagram " + hx(in) + ": "; };
    c.outcome(vh::mix(want.causes, want.ok ? 1 : 0));
    c.sample([&] { return W() + (want.ok ? "accepted" : "rejected, causes " + N(want.causes)); });
    if (c.active("S01")) {
        c.require(buf.same(in), "input-modified", [&] { return W() + "parsing changed the buffer"; });
        uint64_t n = 0; std::string names; bool matches = true;
        for (auto& x : causes()) { uint64_t k = (st.*x.p).count(); n += k; if (k) { names += std::string(" ") + x.n; if (!(want.causes & x.causes)) matches = false; } }
        if (r.is_ok()) {
            c.require(st.success.count() == 1 && st.error.count() == 0 && n == 0, "count:accepted", [&] { return W() + "accepted, but counted success=" + N(st.success.count()) + " error=" + N(st.error.count()) + names; });
        } else {
            c.require(st.success.count() == 0 && st.error.count() == 1 && n == 1, "count:rejected", [&] { return W() + "rejected, but counted success=" + N(st.success.count()) + " error=" + N(st.error.count()) + " and causes:" + names; });
            // the two decide acceptance differently: S02's business, the cause cannot be judged
            if (!want.ok) c.require(matches, "count:cause", [&] { return W() + "rejected and counted as" + names + ", which is not what is wrong with it (causes " + N(want.causes) + ")"; });
        }
        stun::ParseStat st2;
        auto r2 = stun::Message::parse(buf.view(), st2);
        c.require(r.is_ok() == r2.is_ok(), "nondeterministic", [&] { return W() + "the second parse gave a different verdict"; });
        if (r.is_ok()) {
            auto b1 = r.unwrap().build(), b2 = r2.unwrap().build();
            c.require(b1.is_ok() == b2.is_ok() && (b1.is_err() || b1.unwrap() == b2.unwrap()), "nondeterministic", [&] { return W() + "two parses gave different messages"; });
        } else {
            c.require(r.unwrap_err() == r2.unwrap_err(), "nondeterministic", [&] { return W() + "two parses gave different errors"; });
        }
        return;
    }
    c.require(r.is_ok() == want.ok, want.ok ? "rejected-valid" : "accepted-invalid", [&] { return W() + (want.ok ? "well-formed, but rejected" : "ill-formed (causes " + N(want.causes) + "), but accepted"); });
    if (!want.ok) return;
    const auto& m = r.unwrap();
    std::string d = lib::diff(m, want.m);
    c.require(d.empty(), "decode", [&] { return W() + "decoded differently from what the bytes say: " + d; });
    // the range under integrity protection, seen through is_valid
    auto ok = m.is_valid(buf.view(), lib::integrity(KEY).unwrap());
    auto w = ref::integrity(in, want.m, lib::key(KEY));
    c.require(ok.is_ok() && lib::some(ok.unwrap()) == bool(w) && (!w || ok.unwrap().unwrap() == *w), "integrity", [&] { return W() + "message integrity is " + (w ? (*w ? "valid" : "invalid") : "absent") + ", the library disagrees"; });
    if (!want.m.unknown.empty()) {   // raw bytes of unknown attributes are only visible by building
        auto b = m.build();
        c.require(b.is_ok(), "rebuild", [&] { return W() + "cannot be built again"; });
        Bytes rb(b.unwrap().begin(), b.unwrap().end());
        Parsed again = ref::parse(rb);
        c.require(again.ok && again.m.unknown == want.m.unknown, "unknown-attributes", [&] { return W() + "unknown attributes were not kept in order with their bytes; built again as " + hx(rb); });
    }
}
// ------------------------------------------------------------------ header
VH_SECTION("header: every message type x cookie x length field", "S01,S02") {
    uint32_t hi = c.choose(256), shape = c.choose(4);
    for (unsigned lo = 0; lo < 256; ++lo) {
        Bytes b; p16(b, hi << 8 | lo); p16(b, 0);
        p32(b, shape == 1 ? COOKIE ^ 1 : shape == 2 ? COOKIE ^ 0x80000000u : COOKIE);
        Bytes t = tid12(); b.insert(b.end(), t.begin(), t.end());
        if (shape == 3) { p32(b, 0x7f010003); p32(b, 0x61626300); b[3] = 8; }
        observe(c, b);
    }
}
VH_SECTION("header: every cookie that differs in one byte, and every rearrangement", "S01,S02") {
    uint32_t cls = c.choose(4), i = c.choose(5), v = c.choose(256); Bytes k{0x21, 0x12, 0xa4, 0x42};
    if (i < 4) k[i] = uint8_t(v); else if (v < 24) { std::vector<int> o{0, 1, 2, 3}; for (uint32_t n = 0; n < v; ++n) std::next_permutation(o.begin(), o.end()); Bytes q; for (int j : o) q.push_back(k[size_t(j)]); k = q; } else if (v < 40) for (auto& x : k) x = uint8_t((v - 24) * 17); else return;
    for (bool attr : {false, true}) { Bytes b; p16(b, ref::msg_type(cls, 1)); p16(b, attr ? 8 : 0); b.insert(b.end(), k.begin(), k.end()); Bytes t = tid12(); b.insert(b.end(), t.begin(), t.end()); if (attr) { p32(b, 0x7f010003); p32(b, 0x61626300); } observe(c, b); }
}
VH_SECTION("header: every datagram size x length field", "S01,S02") {
    uint32_t size = c.choose(73), cls = c.choose(4);
    for (unsigned len = 0; len <= 80; ++len) for (int fill = 0; fill < 4; ++fill) {
        Bytes b; p16(b, msg_type(cls, 1)); p16(b, len); p32(b, fill == 3 ? 0x01020304 : COOKIE); Bytes t = tid12(); b.insert(b.end(), t.begin(), t.end());
        while (b.size() < size) b.push_back(fill == 1 ? 0xff : fill == 2 ? uint8_t((b.size() % 4 == 2) ? 0 : (b.size() % 4 == 3) ? 0 : 0x7f) : 0);
        b.resize(size);
        observe(c, b);
    }
    if (size == 0) for (unsigned len : {0xfffcu, 0xffffu, 0x8000u, 0xffecu}) for (size_t n : {20u, 24u, 65535u, 65532u + 20u, 65536u + 20u, 65536u + 24u}) {
        Bytes b; p16(b, msg_type(cls, 1)); p16(b, len); p32(b, COOKIE); b.resize(20, 7);
        if (n > 20) { p16(b, 0x7fff); p16(b, n - 24); } b.resize(n, 1); observe(c, b);
    }
}
// ------------------------------------------------------------------ attribute atoms
struct Atom { const char* n; unsigned type; unsigned len; Bytes body; int kind = 0; };   // kind 1: integrity under KEY, 2: correct fingerprint, 3: fingerprint with one bit flipped
static Atom mk(const char* n, unsigned t, Bytes v, uint8_t pad = 0) { Atom a{n, t, unsigned(v.size()), v}; while (a.body.size() % 4) a.body.push_back(pad); return a; }
static Atom lie(const char* n, unsigned t, unsigned len, Bytes v) { while (v.size() % 4) v.push_back(0); return Atom{n, t, len, v}; }
static Bytes S(const char* s) { return Bytes(s, s + strlen(s)); }
static Bytes R(size_t n, uint8_t f = 0x5a) { Bytes b; for (size_t i = 0; i < n; ++i) b.push_back(uint8_t(f + 7 * i)); return b; }
static Bytes AD(uint8_t fam, size_t n, uint16_t port = 0xbeef, uint8_t x = 0) { Bytes v{x, fam}; p16(v, port); Bytes r = R(n); v.insert(v.end(), r.begin(), r.end()); return v; }
static const std::vector<Atom>& atoms() {
    static const std::vector<Atom> v{
        mk("mapped4", 1, AD(1, 4)), mk("mapped6", 1, AD(2, 16, 1, 0xff)), mk("mapped-short", 1, AD(1, 3)), mk("mapped-family", 1, AD(3, 4)),
        mk("xor4", 0x20, AD(1, 4)), mk("xor6", 0x20, AD(2, 16, 0x2112)), mk("xor-header-only", 0x20, AD(2, 0)), mk("xor-short", 0x20, Bytes{0, 1}),
        mk("user", 6, S("evtj:h6vY"), 0x20), mk("user2", 6, S("bob")), mk("user-empty", 6, {}),
        mk("software", 0x8022, S("STUN test client"), 0), mk("software1", 0x8022, S("x"), 0xff),
        Atom{"integrity", 8, 20, Bytes(20), 1}, mk("integrity-wrong", 8, R(20)), mk("integrity-19", 8, R(19)), mk("integrity-24", 8, R(24)),
        Atom{"fingerprint", 0x8028, 4, Bytes(4), 2}, Atom{"fingerprint-bad", 0x8028, 4, Bytes(4), 3}, mk("fingerprint-3", 0x8028, R(3)), Atom{"fingerprint-8", 0x8028, 8, Bytes(8), 2},
        mk("priority", 0x24, R(4)), mk("priority2", 0x24, R(4, 9)), mk("priority-3", 0x24, R(3)), mk("controlled", 0x8029, R(8)), mk("controlled-7", 0x8029, R(7)),
        mk("controlling", 0x802a, R(8, 0xf0)), mk("controlling-4", 0x802a, R(4)), mk("use-candidate", 0x25, {}), mk("use-candidate-1", 0x25, R(1)),
        mk("error", 9, Bytes{0, 0, 4, 1, 'n', 'o'}), mk("error-reserved", 9, Bytes{0xff, 0xff, 0xfb, 0x63, 'x'}), mk("error-3", 9, R(3)), mk("error-nophrase", 9, Bytes{0, 0, 5, 0}),
        mk("unknown-list", 0xa, Bytes{0x7f, 1, 0x80, 2, 0, 6}), mk("unknown-list-odd", 0xa, R(3)), mk("unknown-list-empty", 0xa, {}),
        mk("alternate", 0x8023, AD(1, 4, 3478)), mk("alternate-bad", 0x8023, AD(2, 4)),
        mk("req-unknown", 0x7f01, R(5), 0xee), mk("req-unknown2", 0x0014, R(4)), mk("opt-unknown", 0xc001, R(3), 1), mk("opt-unknown-dup", 0xc001, {}), mk("nonce", 0x15, S("abc")),
        lie("too-long", 0x24, 5, R(4)), lie("way-too-long", 0x8022, 0xfffd, R(4)), lie("covers-next", 0x8022, 12, R(4)), Atom{"half-header", 0x2400, 0, {}, 9},
    };
    return v;
}
static Bytes assemble(unsigned type, bool cookie, const std::vector<const Atom*>& as, const std::string& key = KEY) {
    Enc e(type, cookie ? tid12() : tid16(), cookie);
    std::vector<std::pair<size_t, int>> fix;
    for (auto* a : as) {
        if (a->kind == 9) { p16(e.b, 0x24); p16(e.b, 4); continue; }
        if (a->kind) fix.push_back({e.b.size(), a->kind});
        p16(e.b, a->type); p16(e.b, a->len); e.b.insert(e.b.end(), a->body.begin(), a->body.end());
    }
    e.len();
    for (auto& [at, k] : fix) if (k == 1) {
        Bytes p(e.b.begin(), e.b.begin() + at); size_t l = at + 24 - 20; p[2] = uint8_t(l >> 8); p[3] = uint8_t(l);
        auto d = hmac_sha1(lib::key(key), p); std::copy(d.begin(), d.end(), e.b.begin() + at + 4);
    }
    for (auto& [at, k] : fix) if (k >= 2) { uint32_t v = ref::crc32(e.b.data(), at) ^ FPXOR ^ (k == 3 ? 0x00800000u : 0); for (int i = 0; i < 4; ++i) e.b[at + 4 + i] = uint8_t(v >> (24 - 8 * i)); }
    return e.b;
}
VH_SECTION("attributes: every sequence of up to 3 (thorough 4) attribute forms", "S01,S02") {
    const auto& A = atoms();
    uint32_t n = c.choose(vh::thorough() ? 5 : 4), kind = c.choose(n >= 3 ? 1 : 5);   // class, or classic request
    std::vector<const Atom*> as;
    for (uint32_t i = 0; i < n; ++i) as.push_back(&A[c.choose(A.size())]);
    Bytes b = assemble(kind == 4 ? msg_type(0, 1) : msg_type((kind + 2) & 3, 1), kind != 4, as);
    c.note([&] { std::string s = "attributes:"; for (auto* a : as) s += std::string(" ") + a->n; return s; });
    observe(c, b);
}
VH_SECTION("attributes: one of every type with every length 0..24 and every lying length", "S01,S02") {
    static const std::vector<unsigned> T{1, 2, 3, 4, 5, 6, 7, 8, 9, 0xa, 0xb, 0x14, 0x15, 0x20, 0x24, 0x25, 0x26, 0x7fff, 0x8000, 0x8020, 0x8022, 0x8023, 0x8027, 0x8028, 0x8029, 0x802a, 0x802b, 0x802c, 0xffff, 0};
    unsigned t = c.pick(T), real = c.choose(29), fam = c.choose(5);
    for (unsigned len = 0; len <= 32; ++len) for (int pre = 0; pre < 2; ++pre) {
        Enc e(msg_type(2, 1), tid12());
        if (pre) e.word(0x24, 77);
        Bytes v = R(real, 0x11); if (real > 1) v[1] = uint8_t(fam); while (v.size() % 4) v.push_back(0xaa);
        size_t at = e.b.size();
        p16(e.b, t); p16(e.b, len); e.b.insert(e.b.end(), v.begin(), v.end()); e.len();
        if (t == 0x8028 && real >= 4) { uint32_t f = ref::crc32(e.b.data(), at) ^ FPXOR; for (int i = 0; i < 4; ++i) e.b[at + 4 + i] = uint8_t(f >> (24 - 8 * i)); }
        observe(c, e.b);
    }
}
VH_SECTION("attributes: every value of each single byte in the fixed-size attributes", "S01,S02") {
    static const std::vector<std::string> names{"mapped4", "mapped6", "xor4", "xor6", "priority", "controlled", "controlling", "error", "error-reserved", "unknown-list", "alternate", "integrity", "fingerprint", "fingerprint-8", "user", "software1", "req-unknown", "opt-unknown"};
    const Atom* a = nullptr; const auto& nm = c.pick(names); for (auto& x : atoms()) if (nm == x.n) a = &x;
    uint32_t cls = c.choose(2); Bytes b = assemble(msg_type(cls * 2, 1), true, {a});
    size_t i = 20 + c.choose(b.size() - 20);
    for (unsigned v = 0; v < 256; ++v) { Bytes m = b; m[i] = uint8_t(v); observe(c, m); }
}
static Bytes full_message(unsigned cls, bool v6, bool cookie = true) {
    Msg m; m.cls = cls; m.tid = cookie ? tid12() : tid16();
    std::vector<const Atom*> as; auto add = [&](const char* n) { for (auto& x : atoms()) if (std::string(n) == x.n) as.push_back(&x); };
    for (const char* n : {"software1", "priority", "controlled", "req-unknown", v6 ? "xor6" : "xor4", v6 ? "mapped6" : "mapped4", "error", "unknown-list", "alternate", "opt-unknown", "user", "use-candidate", "integrity", "fingerprint"}) add(n);
    return assemble(msg_type(cls, 1), cookie, as);
}
VH_SECTION("mutations: every byte value at every position, every truncation and extension of full messages", "S01,S02") {
    uint32_t w = c.choose(4);
    Bytes b = full_message(w == 0 ? 0 : w == 1 ? 2 : w == 2 ? 3 : 0, w & 1, w != 3);
    uint32_t i = c.choose(b.size());
    for (unsigned v = 0; v < 256; ++v) { Bytes m = b; m[i] = uint8_t(v); observe(c, m); }
    Bytes t(b.begin(), b.begin() + i); observe(c, t);
    for (int fix = 0; fix < 2; ++fix) { Bytes x(b.begin(), b.begin() + i); if (fix && x.size() >= 20) { x[2] = uint8_t((x.size() - 20) >> 8); x[3] = uint8_t(x.size() - 20); observe(c, x); } }
    Bytes e = b; for (unsigned k = 0; k < 5; ++k) { e.push_back(uint8_t(i)); observe(c, e); Bytes g = e; g[2] = uint8_t((g.size() - 20) >> 8); g[3] = uint8_t(g.size() - 20); observe(c, g); }
}
VH_SECTION("mutations: every pair of single-bit flips within 64 bits of each other (thorough: within 256)", "S01,S02") {
    Bytes b = full_message(0, false); size_t bits = b.size() * 8; uint32_t i = c.choose(bits);
    for (size_t j = i + 1; j < std::min<size_t>(bits, i + (vh::thorough() ? 257 : 65)); ++j) { Bytes m = b; m[i / 8] ^= uint8_t(0x80 >> (i % 8)); m[j / 8] ^= uint8_t(0x80 >> (j % 8)); observe(c, m); }
}
VH_SECTION("attributes: many repeated attributes and every message length up to 1024", "S01,S02") {
    uint32_t n = c.choose(256);
    Enc e(msg_type(0, 1), tid12()); for (uint32_t i = 0; i < n; ++i) e.attr(i % 3 ? 0xc000 + i : 0x7000 + i, {});
    observe(c, e.b);
    Enc f(msg_type(1, 1), tid12()); f.attr(0xd000, R(n * 4 > 3 ? n * 4 - 3 : 0)); f.fp(); observe(c, f.b);
    Enc g(msg_type(2, 1), tid12()); for (uint32_t i = 0; i < n; ++i) g.word(0x24, i); g.mi(lib::key(KEY)).fp(); observe(c, g.b);
}
static const std::vector<uint32_t>& LENGTHS() { static const std::vector<uint32_t> v = [] { std::set<uint32_t> t; bool th = vh::thorough(); for (uint32_t k = 8; k < 17; ++k) for (int off : {0, 20, 24}) { if (off && !th && k != 16) continue; for (int d = -4; d <= 4; ++d) t.insert(uint32_t((1 << k) + d - off)); } for (uint32_t n = 500; n < 65500; n += th ? 97 : 6997) t.insert(n); for (auto i = t.lower_bound(65533); i != t.end();) i = t.erase(i); return std::vector<uint32_t>(t.begin(), t.end()); }(); return v; }
VH_SECTION("lengths: attribute values and messages up to the 65535-byte limit", "S01,S02") {
    uint32_t len = c.pick(LENGTHS()), k = c.choose(8), first = (k + len / 4) % 2, tail = c.choose(3); size_t want = 4 + (len + 3) / 4 * 4 + (first ? 8 : 0) + (tail == 2 ? 32 : tail ? 8 : 0); if (want > 65532 || (k > 5 && (len % 4 || len > (vh::thorough() ? 20000 : 5000)))) return; static const unsigned T[] = {0xc001, 0x7001, 6, 0x8022, 9, 10};
    Enc e(msg_type(k == 4 ? 3 : 0, 1), tid12()); if (first) e.word(0x24, 7); if (k < 6) { Bytes v(len); for (uint32_t i = 0; i < len; ++i) v[i] = uint8_t(i % 251 + 1); if (k == 4 && len >= 4) { v[0] = v[1] = 0; v[2] = 4; v[3] = 1; } e.attr(T[k], v); } else for (uint32_t i = 0; i * 4 + 4 <= want - (first ? 8 : 0) - (tail == 2 ? 32 : tail ? 8 : 0); ++i) e.attr(k == 6 ? 0xc000 + i % 999 : 0x24 - 0x24 + 0x7000 + i, {});
    if (tail == 2) e.mi(lib::key(KEY)); if (tail) e.fp(); observe(c, e.b); if (len % 16 < 2) { e.b[e.b.size() / 2] ^= 0x10; observe(c, e.b); e.b.pop_back(); observe(c, e.b); }
}
// ------------------------------------------------------------------ building (S03)
static const std::vector<Addr>& A4() { static const std::vector<Addr> v{{false, {192, 0, 2, 1}, 32853}, {false, {0, 0, 0, 0}, 0}, {false, {255, 255, 255, 255}, 65535}, {false, {33, 18, 164, 66}, 0x2112}}; return v; }
static const std::vector<Addr>& A6() { static const std::vector<Addr> v{{true, {0x20, 1, 0xd, 0xb8, 0x12, 0x34, 0x56, 0x78, 0, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77}, 32853}, {true, Bytes(16, 0), 1}, {true, Bytes(16, 0xff), 256}}; return v; }
static void check_build(vh::Ctx& c, const Msg& m, bool fp, const std::optional<std::string>& key, bool stale_mi = false) {
    c.step();
    auto msg = lib::message(m, fp, stale_mi);
    auto r = key ? msg.build(lib::integrity(*key)) : msg.build(none());
    auto D = [&] { return "message class " + N(m.cls) + " method " + N(m.method) + " tid " + vh::hex(m.tid) + (fp ? " with fingerprint" : "") + (key ? " signed" : "") + ": "; };
    c.require(r.is_ok(), "build-failed", [&] { return D() + "build failed"; });
    Bytes b(r.unwrap().begin(), r.unwrap().end());
    auto W = [&] { return D() + "built as " + hx(b) + ": "; };
    c.state(vh::hash_bytes(b.data(), b.size()));
    c.sample([&] { return W() + "ok"; });
    Parsed p = ref::parse(b);
    c.require(p.ok, "ill-formed", [&] { return W() + "not a well-formed message (causes " + N(p.causes) + ")"; });
    std::string d = lib::diff(p.m, m);
    c.require(d.empty(), "encode", [&] { return W() + "decodes to a different " + d; });
    c.require(bool(p.m.fingerprint) == fp, "fingerprint", [&] { return W() + (fp ? "fingerprint missing" : "unwanted fingerprint"); });
    c.require(bool(p.m.integrity) == bool(key), "integrity", [&] { return W() + (key ? "integrity missing" : "unwanted integrity attribute"); });
    size_t o = 20, idx = 0, mi_at = 0, last = 0, cnt = 0;
    while (o + 4 <= b.size()) { unsigned t = u16(b, o), l = u16(b, o + 2); if (t == 8) mi_at = idx; last = idx; ++idx; ++cnt;
        for (size_t k = l; k % 4; ++k) c.require(b[o + 4 + k] == 0, "padding", [&] { return W() + "padding is not zero at offset " + N(o + 4 + k); });
        o += 4 + (l + 3) / 4 * 4; }
    if (key) {
        c.require(mi_at + (fp ? 1 : 0) == last, "integrity-position", [&] { return W() + "integrity is not after all attributes but the fingerprint"; });
        c.require(ref::integrity(b, p.m, lib::key(*key)).value_or(false), "integrity-value", [&] { return W() + "integrity digest is wrong"; });
    }
    lib::Exact e(b); stun::ParseStat st;
    auto own = stun::Message::parse(e.view(), st);
    c.require(own.is_ok(), "own-parser", [&] { return W() + "the library's own parser rejects it"; });
    d = lib::diff(own.unwrap(), p.m);
    c.require(d.empty(), "own-decode", [&] { return W() + "the library's own parser decodes a different " + d; });
    c.trace();
}
VH_SECTION("build: every subset of attribute kinds, with and without integrity and fingerprint", "S03") {
    Msg m; uint32_t kind = c.choose(5), fp = c.choose(2), ki = c.choose(3), var = c.choose(vh::thorough() ? 3 : 2);
    m.cls = kind & 3; m.tid = kind == 4 ? tid16() : tid12(); if (kind == 4) { m.rfc3489 = true; }
    uint32_t mask0 = c.choose(64);
    for (uint32_t mask1 = 0; mask1 < 64; ++mask1) {
        uint32_t mask = mask0 | mask1 << 6; Msg x = m;
        if (mask & 1) x.mapped = var ? A4()[1] : A6()[0]; if (mask & 2) x.xored = var ? A6()[0] : A4()[0]; if (mask & 4) x.alternate = var == 2 ? A4()[2] : A6()[2 - var];
        if (mask & 8) x.username = var ? "ab" : "evtj:h6vY"; if (mask & 16) x.software = var ? "" : "x"; if (mask & 32) x.priority = var ? 0x01020304 : 0x6e0001ff;
        if (mask & 64) x.controlling = var ? 0xffffffffffffffffull : 0x0102030405060708ull; if (mask & 128) x.controlled = var ? 1 : 0x932ff9b151263b36ull; if (mask & 256) x.use_candidate = true;
        if (mask & 512) x.unknown_attributes = var ? std::vector<uint16_t>{} : std::vector<uint16_t>{0x7f01, 0x14, 0x8022}; if (mask & 1024) x.error = var ? Err{420, "Unknown"} : Err{699, ""};
        if (mask & 2048) { x.unknown.push_back({uint16_t(0x7f02), R(3)}); if (var) x.unknown.push_back({uint16_t(0xc001), {}}); x.unknown.push_back({uint16_t(0x0014), R(8)}); }
        check_build(c, x, fp, ki == 0 ? std::optional<std::string>() : ki == 1 ? std::optional<std::string>("pw") : std::optional<std::string>(std::string(80, 'k')), mask0 == 5);
    }
}
VH_SECTION("build: all methods and classes, transaction ids bit by bit", "S03") {
    uint32_t hi = c.choose(64), fp = c.choose(2);
    for (unsigned lo = 0; lo < 64; ++lo) for (unsigned cls = 0; cls < 4; ++cls) { Msg m; m.cls = cls; m.method = hi * 64 + lo; m.tid = tid12(); m.priority = 5; check_build(c, m, fp, {}); }
    if (hi < 17) for (unsigned bit = 0; bit < 8; ++bit) {
        Msg m; m.cls = 0; m.tid = Bytes(12, 0); if (hi < 12) m.tid[hi] = uint8_t(1 << bit); m.xored = A6()[0]; check_build(c, m, fp, "k");
        if (hi < 16) { Msg n; n.cls = 0; n.rfc3489 = true; n.tid = Bytes(16, 0); n.tid[hi] = uint8_t(1 << bit); n.mapped = A4()[0]; check_build(c, n, fp, "k"); }
    }
}
VH_SECTION("build: contents of every attribute kind in depth", "S03") {
    uint32_t k = c.choose(12), i = c.choose(256), fp = c.choose(2);
    Msg base; base.cls = 2; base.tid = tid12();
    auto go = [&](auto f) { Msg m = base; f(m); check_build(c, m, fp, (i & 1) ? std::optional<std::string>("secret") : std::nullopt); };
    switch (k) {
    case 0: case 1: case 2: for (unsigned j = 0; j < 256; ++j) { Addr a = j & 1 ? A6()[0] : A4()[0]; a.port = uint16_t(i << 8 | j); if (j < 128) a.b[j % a.b.size()] = uint8_t(i);
        go([&](Msg& m) { if (k == 0) m.mapped = a; else if (k == 1) m.alternate = a; else m.xored = a; }); } break;
    case 3: go([&](Msg& m) { m.username = std::string(i, char(i)); }); go([&](Msg& m) { m.username = std::string(i * 2 + 1, 0); }); break;
    case 4: go([&](Msg& m) { m.software = std::string(i, char(255 - i)); }); go([&](Msg& m) { m.software = std::string(i * 3, 'z'); }); break;
    case 5: for (unsigned s = 0; s < 32; s += 8) { go([&](Msg& m) { m.priority = uint32_t(i) << s; }); go([&](Msg& m) { m.priority = ~(uint32_t(i) << s); }); } break;
    case 6: for (unsigned s = 0; s < 64; s += 8) { go([&](Msg& m) { m.controlling = uint64_t(i) << s; }); go([&](Msg& m) { m.controlling = ~(uint64_t(i) << s); }); } break;
    case 7: for (unsigned s = 0; s < 64; s += 8) { go([&](Msg& m) { m.controlled = uint64_t(i) << s; }); go([&](Msg& m) { m.controlled = ~(uint64_t(i) << s); }); } break;
    case 8: for (unsigned j = 0; j < 4; ++j) { unsigned code = j * 256 + i; if (code < 800) { go([&](Msg& m) { m.error = Err{code, ""}; }); go([&](Msg& m) { m.error = Err{code, std::string(i, 'r')}; }); } } break;
    case 9: go([&](Msg& m) { m.unknown_attributes = std::vector<uint16_t>(); for (unsigned j = 0; j < i; ++j) m.unknown_attributes->push_back(uint16_t(j * 0x0101 + i)); }); break;
    case 10: for (unsigned j = 0; j < 256; ++j) { uint16_t t = uint16_t(i << 8 | j); if (known(t)) continue; go([&](Msg& m) { m.unknown.push_back({t, R(j % 7, uint8_t(i))}); }); } break;
    case 11: go([&](Msg& m) { for (unsigned j = 0; j < i % 40; ++j) m.unknown.push_back({uint16_t(0x7f00 + j % 5), R(j)}); }); break;
    }
}
VH_SECTION("build: attribute values and messages up to the 65535-byte limit", "S03") {
    uint32_t len = c.pick(LENGTHS()), k = c.choose(7), fp = c.choose(2), sign = c.choose(2); if (k == 5 && (len % 4 || (len > 5000 && len < 65470))) return; size_t want = 8 + (len + 3) / 4 * 4 + fp * 8 + sign * 24 + (k > 4 ? 64 : 0); if (want > 65532) return; Msg m; m.cls = k == 3 ? 3 : 2; m.tid = tid12(); std::string s(len, 'a'); for (uint32_t i = 0; i < len; ++i) s[i] = char(i % 251 + 1);
    switch (k) { case 0: m.username = s; break; case 1: m.software = s; break; case 2: m.unknown.push_back({uint16_t(0xc001), Bytes(s.begin(), s.end())}); break; case 3: m.error = Err{420, s.substr(0, len - 4)}; break; case 4: m.unknown_attributes = std::vector<uint16_t>(len / 2, uint16_t(0x7abc)); m.unknown_attributes->back() = 0x1234; break; case 5: for (uint32_t i = 0; i < len / 4; ++i) m.unknown.push_back({uint16_t(0x7000 + i % 3000), {}}); break; case 6: m.username = s.substr(0, len / 2); m.software = s.substr(len / 2 + len / 4); m.unknown.push_back({uint16_t(0xff01), Bytes(len / 4 - len / 8, 7)}); m.unknown.push_back({uint16_t(0xff02), Bytes(len / 8 - len / 8 % 4, 8)}); break; }
    check_build(c, m, fp, sign ? std::optional<std::string>("secret") : std::nullopt);
}
// ------------------------------------------------------------------ fingerprint (S04)
VH_SECTION("fingerprint: CRC-32 of every byte in every state byte, lengths, splits", "S04") {
    uint32_t i = c.choose(256);
    auto one = [&](const Bytes& b) {
        lib::Exact e(b); c.step(); c.state(vh::hash_bytes(b.data(), b.size()));
        uint32_t want = ref::crc32(b.data(), b.size()), got = stun::crc32(e.view());
        c.require(got == want, "crc", [&] { return "crc32 of " + hx(b) + " is " + N(got) + ", must be " + N(want); });
        for (size_t cut = 0; cut <= b.size(); cut += (b.size() > 40 ? 7 : 1)) {
            Bytes x(b.begin(), b.begin() + cut), y(b.begin() + cut, b.end()); lib::Exact ex(x), ey(y);
            uint32_t g2 = stun::crc32(std::vector<util::ConstBinaryView>{ex.view(), lib::Exact({}).view(), ey.view()});
            c.require(g2 == want, "crc-gather", [&] { return "crc32 of " + hx(b) + " in two parts cut at " + N(cut) + " is " + N(g2) + ", must be " + N(want); });
        }
    };
    for (unsigned j = 0; j < 256; ++j) one({uint8_t(i), uint8_t(j)});
    one({uint8_t(i)}); one(Bytes(i, 0)); one(Bytes(i, 0xff)); one(R(i)); one(R(i * 5, uint8_t(i)));
    for (unsigned s = 0; s < 3; ++s) { Bytes b(4, 0); b[s] = uint8_t(i); one(b); }
}
static std::vector<Bytes> fp_family() {
    std::vector<Bytes> v; Msg m; m.tid = tid12();
    auto add = [&](Msg x, std::optional<std::string> k, unsigned cls) { x.cls = cls; auto r = lib::message(x, true).build(k ? lib::integrity(*k) : stun::MaybeIntegrity(none())); v.push_back(r.is_ok() ? Bytes(r.unwrap().begin(), r.unwrap().end()) : Bytes{}); };
    add(m, {}, 0); m.xored = A4()[0]; add(m, {}, 2); m.username = "evtj:h6vY"; m.priority = 7; m.controlled = 9; add(m, KEY, 0); m.unknown.push_back({0x7f01, R(9)}); m.xored = A6()[0]; m.software = "test"; m.error = Err{401, "no"}; add(m, KEY, 3);
    Msg q; q.tid = tid16(); q.mapped = A4()[0]; add(q, {}, 0); Msg z; z.tid = Bytes(12, 0); z.software = std::string(40, '\0'); add(z, {}, 1);
    Msg l; l.tid = tid12(); l.software = std::string(500, 'L'); if (vh::thorough()) add(l, KEY, 0);
    return v;
}
VH_SECTION("fingerprint: built value, and every single-bit and burst corruption", "S04") {
    static const std::vector<Bytes> F = fp_family();
    const Bytes& b = c.pick(F);
    c.require(b.size() >= 28, "build-failed");
    Parsed p = ref::parse(b);
    c.require(u16(b, b.size() - 8) == 0x8028 && u16(b, b.size() - 6) == 4 && u32(b, b.size() - 4) == (ref::crc32(b.data(), b.size() - 8) ^ FPXOR), "value", [&] { return "built message " + hx(b) + " does not end in the right fingerprint"; });
    { lib::Exact e(b); stun::ParseStat st; auto r = stun::Message::parse(e.view(), st); c.require(r.is_ok() && r.unwrap().attribute_set.has_fingerprint(), "rejected", [&] { return "own fingerprinted message " + hx(b) + " is rejected"; }); }
    uint32_t i = c.choose(b.size() * 8);
    auto probe = [&](uint64_t pat, unsigned len) {   // pat: len bits, first and last set
        if (i + len > b.size() * 8) return;
        Bytes m = b; for (unsigned k = 0; k < len; ++k) if (pat >> k & 1) m[(i + k) / 8] ^= uint8_t(0x80 >> ((i + k) % 8));
        c.step(); c.state(vh::hash_bytes(m.data(), m.size()));
        lib::Exact e(m); stun::ParseStat st; auto r = stun::Message::parse(e.view(), st);
        bool claims = r.is_ok() && r.unwrap().attribute_set.has_fingerprint();
        // the low 16 bits of a run can turn the attribute into another one with the same bytes; the reference decides
        c.require(!claims || ref::parse(m).ok, "undetected", [&] { return "corrupting " + hx(b) + " into " + hx(m) + " is accepted as fingerprinted"; });
        c.require(!claims, "undetected-burst", [&] { return "corrupting " + N(len) + " bits at bit " + N(i) + " of " + hx(b) + " is accepted as fingerprinted"; });
        c.outcome(r.is_ok() ? "accepted without fingerprint" : "rejected");
    };
    probe(1, 1);
    for (unsigned len = 2; len <= 10; ++len) for (uint64_t mid = 0; mid < (1ull << (len - 2)); ++mid) probe(1 | mid << 1 | 1ull << (len - 1), len);
    for (unsigned len = 11; len <= 32; ++len) { uint64_t all = (1ull << len) - 1, ends = 1 | 1ull << (len - 1); for (uint64_t pat : std::vector<uint64_t>{all, ends, ends | 0x5555555555555555ull & all, ends | 0x3333333333333333ull & all, ends | 0x0f0f0f0f0f0f0f0full & all, ends | 0x9e3779b97f4a7c15ull & all}) probe(pat, len); }
}
VH_SECTION("fingerprint: every wrong value near the right one and every single-byte value", "S04") {
    uint32_t i = c.choose(4), v = c.choose(256), len = c.choose(8);
    Enc e(msg_type(0, 1), tid12()); e.attr(0x8022, R(len * 5)); Bytes b = e.fp().b; Bytes m = b; m[m.size() - 4 + i] ^= uint8_t(v);
    c.step(); lib::Exact x(m); stun::ParseStat st; auto r = stun::Message::parse(x.view(), st);
    c.require(r.is_ok() == (v == 0), v ? "undetected" : "rejected", [&] { return "fingerprint byte xor " + N(v) + " in " + hx(m); });
    for (unsigned bit = 0; bit < 8; ++bit) if (uint32_t w = v ^ 1u << bit; w) { Bytes q = m; q[q.size() - 1 - i] ^= uint8_t(1 << bit); if (q == b) continue; lib::Exact y(q); stun::ParseStat s2; c.require(stun::Message::parse(y.view(), s2).is_err(), "undetected", [&] { return "wrong fingerprint accepted: " + hx(q); }); }
}
// ------------------------------------------------------------------ integrity (S05)
static std::optional<bool> verdict(vh::Ctx& c, const Bytes& b, const stun::IntegrityData& id, bool& parsed) {
    lib::Exact e(b); stun::ParseStat st; auto r = stun::Message::parse(e.view(), st); parsed = r.is_ok(); if (!parsed) return {};
    auto v = r.unwrap().is_valid(e.view(), id);
    c.require(v.is_ok(), "is_valid-error", [&] { return "checking integrity of " + hx(b) + " failed"; });
    if (!lib::some(v.unwrap())) return {};
    return v.unwrap().unwrap();
}
static std::string vn(const std::optional<bool>& v) { return v ? (*v ? "valid" : "invalid") : "absent"; }
static void check_integrity(vh::Ctx& c, const Bytes& b, const std::string& key, const char* k) {
    bool parsed; auto got = verdict(c, b, lib::integrity(key).unwrap(), parsed); c.step(); c.state(vh::hash_bytes(b.data(), b.size(), vh::hash_str(key)));
    Parsed p = ref::parse(b);
    if (!parsed || !p.ok) { c.outcome("not parsed"); return; }
    auto want = ref::integrity(b, p.m, lib::key(key)); c.outcome(vn(want));
    c.sample([&] { return "integrity of " + hx(b) + " is " + vn(want); });
    c.require(got == want, k, [&] { return "message " + hx(b) + " under password of " + N(key.size()) + " bytes: integrity is " + vn(want) + ", is_valid says " + vn(got); });
}
VH_SECTION("integrity: every password length around the block size, every other length", "S05") {
    uint32_t n = c.choose(vh::thorough() ? 300 : 150), cookie = c.choose(2), fp = c.choose(2);
    std::string pw; for (uint32_t i = 0; i < n; ++i) pw += char(1 + (i * 37 + 11) % 255);
    Msg m; m.tid = cookie ? tid12() : tid16(); m.rfc3489 = !cookie; m.username = "bob"; m.software = std::string(n % 9, 's');
    auto r = lib::message(m, fp).build(lib::integrity(pw)); c.require(r.is_ok(), "build-failed");
    Bytes b(r.unwrap().begin(), r.unwrap().end());
    Parsed p = ref::parse(b);
    c.require(p.ok && ref::integrity(b, p.m, lib::key(pw)).value_or(false), "signature", [&] { return "message signed with a password of " + N(n) + " bytes carries the wrong digest: " + hx(b); });
    check_integrity(c, b, pw, "own-key");
    for (uint32_t k = 0; k < 150; ++k) { std::string o; for (uint32_t i = 0; i < k; ++i) o += char(1 + (i * 37 + 11) % 255); check_integrity(c, b, o, "other-key"); }
    for (uint32_t i = 0; i < n; ++i) { std::string o = pw; o[i] ^= 1; check_integrity(c, b, o, "near-key"); o = pw; o[i] ^= char(0x80); check_integrity(c, b, o, "near-key"); o = pw; o.erase(i, 1); check_integrity(c, b, o, "near-key"); }
    check_integrity(c, b, pw + std::string(1, 'x'), "near-key");
}
VH_SECTION("integrity: every single-bit change, every byte of the digest, trailing attributes", "S05") {
    uint32_t w = c.choose(5); bool cookie = w != 3;
    Enc e(msg_type(w == 4 ? 2 : 0, 1), cookie ? tid12() : tid16(), cookie); if (w) e.str(6, "evtj:h6vY"); if (w == 2) e.xaddr(A6()[0], tid12()).attr(0x7f01, R(7), 0xcc);
    size_t covered = e.b.size(); e.mi(lib::key(KEY)); size_t end = e.b.size();
    if (w == 1 || w == 4) e.attr(0x8022, R(6)).attr(8, R(20)); else if (w == 2) e.fp();
    const Bytes b = e.b;
    uint32_t i = c.choose(b.size() * 8 + 1);
    check_integrity(c, b, KEY, "intact");
    if (i == b.size() * 8) return;
    Bytes m = b; m[i / 8] ^= uint8_t(0x80 >> (i % 8));
    if (w == 2 && i / 8 < end) { uint32_t f = ref::crc32(m.data(), end) ^ FPXOR; for (int k = 0; k < 4; ++k) m[end + 4 + k] = uint8_t(f >> (24 - 8 * k)); }   // attacker repairs the fingerprint
    check_integrity(c, m, KEY, "changed");
    bool parsed; auto v = verdict(c, m, lib::integrity(KEY).unwrap(), parsed);
    if (parsed && i / 8 < covered) c.require(!v || !*v, "forged", [&] { return "bit " + N(i) + " of the protected part changed, still valid: " + hx(m); });
    if (parsed && i / 8 >= covered + 4 && i / 8 < end) c.require(v && !*v, "forged-digest", [&] { return "bit " + N(i) + " of the digest changed: " + vn(v); });
    if (parsed && i / 8 >= end) c.require(v && *v, "trailing", [&] { return "bytes after the integrity attribute must not matter: " + vn(v) + " for " + hx(m); });
    if (parsed && w == 0) for (unsigned j = 0; j < b.size() * 8; j += 3) { Bytes q = m; q[j / 8] ^= uint8_t(0x80 >> (j % 8)); check_integrity(c, q, KEY, "changed-2"); }
}
VH_SECTION("integrity: messages of every length, and any length after the attribute", "S05") {
    uint32_t words = c.choose(vh::thorough() ? 800 : 400), tail = c.choose(4), cookie = c.choose(2), big = c.choose(2); static const size_t T[] = {0, 8, 24, 260}; size_t len = words * 4; if (big) { if (words > 40) return; len = 65300 + words * 4 - (words % 2 ? 32768 : 0); if (len + 24 + 4 + T[tail] + 8 > 65532) return; }
    Enc e(msg_type(0, 1), cookie ? tid12() : tid16(), cookie); if (len) e.attr(0xc001, Bytes(len, uint8_t(words))); e.mi(lib::key(KEY)); if (tail == 1) e.fp(); else if (T[tail]) { e.attr(0x8022, Bytes(T[tail] - 4, 'x')); if (tail == 3) e.fp(); }
    check_integrity(c, e.b, KEY, "length"); check_integrity(c, e.b, "other", "length-other"); if (!big && len) { Bytes m = e.b; m[24 + len / 2] ^= 1; if (tail == 1 || tail == 3) { uint32_t f = ref::crc32(m.data(), m.size() - 8) ^ FPXOR; for (int k = 0; k < 4; ++k) m[m.size() - 4 + k] = uint8_t(f >> (24 - 8 * k)); } check_integrity(c, m, KEY, "length-changed"); }
    if (big) return; Msg q; q.tid = cookie ? tid12() : tid16(); q.rfc3489 = !cookie; if (len) q.unknown.push_back({0xc001, Bytes(len, uint8_t(words))}); auto r = lib::message(q, tail & 1).build(lib::integrity(KEY)); c.require(r.is_ok(), "build-failed"); Bytes b(r.unwrap().begin(), r.unwrap().end()); Parsed p = ref::parse(b); c.require(p.ok && ref::integrity(b, p.m, lib::key(KEY)).value_or(false), "signature", [&] { return "a message of " + N(b.size()) + " bytes carries the wrong digest"; }); check_integrity(c, b, KEY, "own-key");
}
VH_SECTION("integrity: attribute in every position and multiplicity", "S05") {
    static const std::vector<std::string> names{"integrity", "integrity-wrong", "user", "software1", "priority", "xor6", "opt-unknown", "req-unknown", "fingerprint", "error", "mapped4"};
    uint32_t n = 1 + c.choose(vh::thorough() ? 5 : 4), cookie = c.choose(2); std::vector<const Atom*> as;
    for (uint32_t i = 0; i < n; ++i) { const auto& nm = c.pick(names); for (auto& x : atoms()) if (nm == x.n) as.push_back(&x); }
    Bytes b = assemble(msg_type(cookie ? 2 : 0, 1), cookie, as);
    check_integrity(c, b, KEY, "position"); if (n < 3) check_integrity(c, b, "other", "position-other");
}
VH_SECTION("integrity: failing hash function and unsigned messages", "S05") {
    uint32_t when = c.choose(4); Msg m; m.tid = tid12(); m.username = "u";
    auto id = lib::integrity(KEY).unwrap(); int n = 0;
    id.hash = [&n, when](const crypto::SHA1Hash::Input& in) -> crypto::SHA1Hash::Result { if (n++ == int(when)) return stun::make_error_code(stun::ParseError::invalid_message_size); return crypto::openssl::sha1(in); };
    n = 0; auto r = lib::message(m, true).build(id);
    if (n > int(when)) c.require(r.is_err(), "build-hash-failure", "signing succeeded although hashing failed");
    auto good = lib::message(m, true).build(lib::integrity(KEY)); c.require(good.is_ok(), "build-failed"); Bytes b(good.unwrap().begin(), good.unwrap().end());
    lib::Exact e(b); stun::ParseStat st; auto p = stun::Message::parse(e.view(), st); c.require(p.is_ok(), "parse");
    n = 0; auto v = p.unwrap().is_valid(e.view(), id);
    if (n > int(when)) c.require(v.is_err() || (lib::some(v.unwrap()) && !v.unwrap().unwrap()), "hash-failure", "integrity reported valid or absent although hashing failed");
    else c.require(v.is_ok() && lib::some(v.unwrap()) && v.unwrap().unwrap(), "valid", "a valid message is not valid");
    auto plain = lib::message(m, when & 1).build(none()); c.require(plain.is_ok(), "build-failed"); Bytes q(plain.unwrap().begin(), plain.unwrap().end()); check_integrity(c, q, KEY, "absent");
}
// ------------------------------------------------------------------ XOR addresses (S06)
static void check_xor(vh::Ctx& c, const Addr& a, const Bytes& t) {
    c.step(); c.state(vh::hash_bytes(a.b.data(), a.b.size(), vh::hash_bytes(t.data(), t.size())));
    auto x = stun::XoredAddress::from_address(lib::addr(a), lib::tid(t));
    auto W = [&] { return "address " + vh::hex(a.b) + " tid " + vh::hex(t) + ": "; };
    Bytes got = lib::bytes(x.view());
    c.sample([&] { return W() + vh::hex(got); });
    c.require((x.family().type() == stun::Family::IPv6) == a.v6, "family", [&] { return W() + "family changed"; });
    if (t.size() == 12) { Bytes want = xor_bytes(a, t); c.require(got == want, "encode", [&] { return W() + "encoded as " + vh::hex(got) + ", must be " + vh::hex(want); }); }
    c.require(lib::addr(x.to_address(lib::tid(t)), 0).b == a.b && lib::addr(x.to_address(lib::tid(t)), 0).v6 == a.v6, "decode", [&] { return W() + "decoding gives " + vh::hex(lib::addr(x.to_address(lib::tid(t)), 0).b); });
    auto y = stun::XoredAddress::from_view(a.v6 ? stun::Family::ipv6() : stun::Family::ipv4(), lib::view(got));
    c.require(y.is_ok() && y.unwrap() == x, "equality", [&] { return W() + "equal bytes compare unequal"; });
    Bytes o = got; o[o.size() - 1 - a.b[0] % o.size()] ^= 1; auto z = stun::XoredAddress::from_view(x.family(), lib::view(o)); c.require(z.is_ok() && !(z.unwrap() == x), "equality", [&] { return W() + "different bytes compare equal"; });
}
VH_SECTION("xor address: every byte value in every position of address and transaction id", "S06") {
    uint32_t v = c.choose(256), base = c.choose(4);
    for (bool v6 : {false, true}) for (size_t tl : {size_t(12), size_t(16)}) {
        Addr a{v6, v6 ? R(16, 3) : R(4, 3), 0}; Bytes t = tl == 12 ? tid12() : tid16(); if (base == 1) { a.b.assign(a.b.size(), 0); t.assign(tl, 0); } if (base == 2) t.assign(tl, 0xff); if (base == 3) a.b.assign(a.b.size(), 0xff);
        for (size_t i = 0; i < a.b.size(); ++i) { Addr x = a; x.b[i] = uint8_t(v); check_xor(c, x, t); }
        for (size_t i = 0; i < tl; ++i) { Bytes x = t; x[i] = uint8_t(v); check_xor(c, a, x); }
    }
}
VH_SECTION("xor address: addresses that look special, under ids that look special", "S06") {
    const Addr& a = c.pick(ref::special_addresses()); uint32_t k = c.choose(6); Bytes t(12, k == 1 ? 0xff : 0);
    for (size_t i = 0; i < 12; ++i) { if (k == 2) t[i] = Bytes{0x21, 0x12, 0xa4, 0x42}[i % 4]; if (k == 3) t[i] = a.b[(i + 4) % a.b.size()]; if (k == 4) t[i] = uint8_t(~a.b[(i + 4) % a.b.size()]); if (k == 5) t[i] = uint8_t(i * 37 + 11); }
    check_xor(c, a, t); Bytes x = t; for (auto& v : x) v = uint8_t(~v); check_xor(c, a, x); Addr o = a; o.b = xor_bytes(a, t); check_xor(c, o, t);   // special before and after
}
VH_SECTION("xor address: pairs of bits of address and transaction id", "S06") {
    uint32_t i = c.choose(128 + 96); Bytes t(12, 0); Addr a{true, Bytes(16, 0), 0};
    auto flip = [&](Addr& x, Bytes& y, unsigned k) { if (k < 128) x.b[k / 8] ^= uint8_t(0x80 >> (k % 8)); else y[(k - 128) / 8] ^= uint8_t(0x80 >> (k % 8)); };
    flip(a, t, i); for (unsigned j = 0; j < 224; ++j) { Addr x = a; Bytes y = t; flip(x, y, j); check_xor(c, x, y); }
}
VH_SECTION("xor address: all ports through build and parse, both families", "S06") {
    uint32_t hi = c.choose(256), v6 = c.choose(2), tv = c.choose(3); Bytes t = tv == 0 ? tid12() : Bytes(12, tv == 1 ? 0 : 0xff);
    for (unsigned lo = 0; lo < 256; ++lo) {
        Addr a = v6 ? A6()[lo % 3] : A4()[lo % 4]; a.port = uint16_t(hi << 8 | lo); c.step(); c.state(vh::mix(a.port, v6 * 3 + tv));
        Msg m; m.cls = 2; m.tid = t; auto msg = lib::message(m, false);
        msg.attribute_set = stun::AttributeSet::create({stun::XorMappedAddressAttribute{stun::XoredAddress::from_address(lib::addr(a), lib::tid(t)), lib::port(a.port)}});
        auto r = msg.build(none()); c.require(r.is_ok(), "build-failed"); Bytes b(r.unwrap().begin(), r.unwrap().end());
        Enc e(msg_type(2, 1), t); e.xaddr(a, t);
        c.require(b == e.b, "wire", [&] { return "address " + vh::hex(a.b) + " port " + N(a.port) + " built as " + hx(b) + ", must be " + hx(e.b); });
        lib::Exact x(e.b); stun::ParseStat st; auto p = stun::Message::parse(x.view(), st); c.require(p.is_ok() && lib::some(p.unwrap().attribute_set.xor_mapped()), "parse", [&] { return "not parsed: " + hx(e.b); });
        const auto& xm = p.unwrap().attribute_set.xor_mapped().unwrap().get();
        c.require(lib::addr(xm.addr.to_address(p.unwrap().header.transaction_id), xm.port.value()) == a, "parse", [&] { return "decoded differently: " + hx(e.b); });
    }
}
