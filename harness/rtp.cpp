// RTP packet parser (R01, R02).
// DEPS: src/rtp src/util/util_error_code.cpp
#include "vh.hpp"
#include <memory>
#include <optional>
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
using namespace freewebrtc;
using Bytes = std::vector<uint8_t>; using View = util::ConstBinaryView;
static std::string N(int64_t v) { return std::to_string(v); }
enum { b_size, b_version, b_csrc, b_pt, b_clock, b_ext, b_pad };
struct Ref { bool ok = false; uint32_t causes = 0; bool marker = false; unsigned pt = 0, seq = 0; uint32_t ts = 0, ssrc = 0; std::vector<uint32_t> csrc; std::optional<std::array<size_t, 3>> ext; size_t payload = 0, count = 0; };
static bool mapped(unsigned pt) { return pt == 0 || pt == 8 || pt == 96 || pt == 127 || pt == 111; }
static const rtp::PayloadMap& pmap() { static const rtp::PayloadMap m = [] { auto p = [](uint8_t v, unsigned r) { return rtp::PayloadMap::InitPair{rtp::PayloadType::from_uint8(v).unwrap(), rtp::PayloadMapItem{rtp::ClockRate{r}}}; }; return rtp::PayloadMap{p(0, 8000), p(8, 8000), p(96, 90000), p(127, 48000), p(111, 1)}; }(); return m; }
static Ref reference(const Bytes& b) {   // RFC 3550 section 5.1
    Ref r; auto bad = [&](int c) { r.causes |= 1u << c; }; auto u16 = [&](size_t o) { return unsigned(b[o]) << 8 | b[o + 1]; }; auto u32 = [&](size_t o) { return uint32_t(u16(o)) << 16 | u16(o + 2); };
    if (b.size() < 12) { bad(b_size); return r; }
    if (b[0] >> 6 != 2) bad(b_version); bool pad = b[0] >> 5 & 1, ext = b[0] >> 4 & 1; unsigned cc = b[0] & 15; r.marker = b[1] >> 7; r.pt = b[1] & 127; r.seq = u16(2); r.ts = u32(4); r.ssrc = u32(8);
    if (!mapped(r.pt)) bad(b_clock); size_t o = 12 + 4 * cc; if (o > b.size()) { bad(b_csrc); return r; } for (unsigned i = 0; i < cc; ++i) r.csrc.push_back(u32(12 + 4 * i));
    if (ext) { if (o + 4 > b.size()) { bad(b_ext); return r; } size_t l = 4 * size_t(u16(o + 2)); if (o + 4 + l > b.size()) { bad(b_ext); return r; } r.ext = {u16(o), o + 4, l}; o += 4 + l; }
    size_t left = b.size() - o, p = 0; if (pad) { if (!left) { bad(b_pad); return r; } p = b.back(); if (p == 0 || p > left) { bad(b_pad); return r; } }
    r.payload = o; r.count = left - p; r.ok = !r.causes; return r;
}
static const char* cause_name(int i) { static const char* n[] = {"invalid_size", "invalid_version", "invalid_csrc", "invalid_payload_type", "unknown_rtp_clock", "invalid_extension", "invalid_padding"}; return n[i]; }
static std::vector<uint64_t> counts(const rtp::ParseStat& s) { return {s.invalid_size.count(), s.invalid_version.count(), s.invalid_csrc.count(), s.invalid_payload_type.count(), s.unknown_rtp_clock.count(), s.invalid_extension.count(), s.invalid_padding.count()}; }
static void one(vh::Ctx& c, const Bytes& b, const rtp::PayloadMap& map = pmap()) {
    std::unique_ptr<uint8_t[]> mem(new uint8_t[b.size()]); if (!b.empty()) memcpy(mem.get(), b.data(), b.size()); View v(mem.get(), b.size()); c.step();
    Ref w = reference(b); rtp::ParseStat st; auto g = rtp::Packet::parse(v, map, st); c.trace(); c.outcome(w.causes); auto W = [&] { return "packet " + vh::hex(b) + ": "; };
    if (c.active("R01")) {
        c.require(g.is_ok() == w.ok, w.ok ? "rejected" : "accepted", [&] { return W() + (w.ok ? "well-formed but rejected" : "malformed but accepted"); }); if (!w.ok) { std::error_code e = g.unwrap_err(); c.require(bool(e), "error"); return; }
        const auto& p = g.unwrap(); const auto& h = p.header;
        c.require(h.marker == rtp::MarkerBit(w.marker) && !(h.marker == rtp::MarkerBit(!w.marker)), "marker", [&] { return W() + "marker"; }); c.require(h.payload_type.value() == w.pt, "payload-type", [&] { return W() + "payload type " + N(h.payload_type.value()); }); c.require(h.sequence.value() == w.seq, "sequence", [&] { return W() + "sequence number " + N(h.sequence.value()); });
        c.require(h.timestamp.value() == w.ts, "timestamp", [&] { return W() + "timestamp " + N(h.timestamp.value()); }); c.require(h.ssrc.value() == w.ssrc, "ssrc", [&] { return W() + "source " + N(h.ssrc.value()); }); c.require(h.csrcs.size() == w.csrc.size(), "csrc", [&] { return W() + N(h.csrcs.size()) + " contributing sources"; }); for (size_t i = 0; i < w.csrc.size(); ++i) c.require(h.csrcs[i].value() == w.csrc[i], "csrc", [&] { return W() + "contributing source " + N(i); });
        c.require(h.maybe_extension.is_some() == bool(w.ext), "extension", [&] { return W() + "extension present or absent"; });
        if (w.ext) { const auto& e = h.maybe_extension.unwrap(); c.require(e.profile_defined == (*w.ext)[0], "profile", [&] { return W() + "extension profile " + N(e.profile_defined); }); c.require(e.data.offset == (*w.ext)[1] && e.data.count == (*w.ext)[2], "extension-data", [&] { return W() + "extension data at " + N(e.data.offset) + "+" + N(e.data.count); }); }
    } else {
        c.require(b.empty() || !memcmp(mem.get(), b.data(), b.size()), "modified", "the packet was modified");
        auto n = counts(st); uint64_t total = 0; int which = -1; for (int i = 0; i < 7; ++i) { total += n[i]; if (n[i]) which = i; }
        auto S = [&] { std::string s = "success=" + N(st.success.count()) + " error=" + N(st.error.count()); for (int i = 0; i < 7; ++i) if (n[i]) s += std::string(" ") + cause_name(i) + "=" + N(n[i]); return s; };
        c.require(g.is_ok() ? st.success.count() == 1 && st.error.count() == 0 && total == 0 : st.success.count() == 0 && st.error.count() == 1 && total == 1, "counters", [&] { return W() + (g.is_ok() ? "accepted, " : "rejected, ") + S(); });
        if (g.is_err()) { if (w.causes) c.require(w.causes >> which & 1, "cause", [&] { return W() + "counted as " + cause_name(which); }); }
        else if (w.ok) {
            const auto& p = g.unwrap(); size_t at = 12 + 4 * p.header.csrcs.size(); if (p.header.maybe_extension.is_some()) { auto& e = p.header.maybe_extension.unwrap(); c.require(e.data.offset == at + 4 && e.data.offset <= b.size() && e.data.count <= b.size() - e.data.offset, "extension-range", [&] { return W() + "extension data at " + N(e.data.offset) + "+" + N(e.data.count); }); at = e.data.offset + e.data.count; }
            size_t padding = b[0] & 0x20 ? b.back() : 0; c.require(p.payload.offset == at && p.payload.count <= b.size() - at && at + p.payload.count + padding == b.size(), "payload-range", [&] { return W() + "payload at " + N(p.payload.offset) + "+" + N(p.payload.count) + ", padding " + N(padding); }); c.require(v.contains(p.payload), "inside");
        }
        // again: same verdict, counters add up
        auto g2 = rtp::Packet::parse(v, map, st); c.require(g2.is_ok() == g.is_ok() && st.success.count() + st.error.count() == 2, "repeat", [&] { return W() + "second attempt differs: " + S(); });
    }
}
static Bytes base(uint8_t b0, uint8_t b1, size_t n) { Bytes b(n); for (size_t i = 0; i < n; ++i) b[i] = uint8_t(i * 29 + 17); if (n > 0) b[0] = b0; if (n > 1) b[1] = b1; return b; }
VH_SECTION("packets: every first byte, size, extension length and last byte", "R01,R02") {
    unsigned b0 = c.choose(256); bool x = b0 & 16; unsigned cc = b0 & 15; static const std::vector<int> D{-13, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 8, 11, 12}; int size = 12 + int(4 * cc) + c.pick(D); if (size < 0) return; size_t o = 12 + 4 * cc;
    Bytes b = base(uint8_t(b0), 96, size_t(size)); if (x) { static const std::vector<unsigned> L{0, 1, 2, 3, 4, 255, 256, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xfffe, 0xffff}; unsigned l = c.pick(L); if (o + 2 < b.size()) b[o + 2] = uint8_t(l >> 8); if (o + 3 < b.size()) b[o + 3] = uint8_t(l); }
    if ((b0 & 0x20) && !b.empty() && b.size() > 12) { static const std::vector<unsigned> P{0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 127, 128, 255}; b.back() = uint8_t(c.pick(P)); } c.state(vh::hash_bytes(b.data(), b.size())); one(c, b);
}
VH_SECTION("packets: every pair of first bytes", "R01,R02") { unsigned v = c.choose(65536); Bytes b = base(uint8_t(v >> 8), uint8_t(v), c.choose(2) ? 12 + 60 + 8 : 12); if (b.size() > 12) b[b.size() - 1] = 3; size_t o = 12 + 4 * (v >> 8 & 15); if (b.size() > o + 3) b[o + 2] = 0, b[o + 3] = uint8_t(c.choose(3)); c.state(vh::hash_bytes(b.data(), b.size())); one(c, b); }
VH_SECTION("packets: every padding count and payload size", "R01,R02") { unsigned n = c.choose(300), p = c.choose(256), sh = c.choose(3); Bytes b = base(uint8_t(0xa0 | (sh == 1 ? 2 : 0) | (sh == 2 ? 0x11 : 0)), 8, 12 + (sh == 1 ? 8 : sh == 2 ? 12 : 0) + n); if (sh == 2) b[18] = 0, b[19] = 1; if (n) b.back() = uint8_t(p); else if (p > 0 && sh == 0) b.back() = uint8_t(p); c.state(vh::hash_bytes(b.data(), b.size())); one(c, b); }
VH_SECTION("packets: every extension length against every size", "R01,R02") { unsigned l = c.choose(vh::thorough() ? 600 : 70); unsigned n = c.choose(vh::thorough() ? 600 : 300), cc = c.choose(3); Bytes b = base(uint8_t(0x90 | cc), 0x80, 12 + 4 * cc + n); size_t o = 12 + 4 * cc; if (n > 2) b[o + 2] = uint8_t(l >> 8); if (n > 3) b[o + 3] = uint8_t(l); c.state(vh::mix(l, vh::mix(n, cc))); one(c, b); }
VH_SECTION("packets: huge extensions", "R01,R02") { static const std::vector<unsigned> L{0x3ffe, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xfffe, 0xffff}; unsigned l = c.pick(L), d = c.choose(9), cc = c.choose(2) * 15; size_t o = 12 + 4 * cc; Bytes b = base(uint8_t(0x90 | cc | (c.choose(2) ? 0x20 : 0)), 0, o + 4 + 4 * size_t(l) + d - 4); b[o + 2] = uint8_t(l >> 8); b[o + 3] = uint8_t(l); b.back() = 2; c.state(c.prefix_hash()); one(c, b); }
VH_SECTION("packets: every size", "R01,R02") { unsigned n = c.choose(1600), k = c.choose(4); one(c, base(k == 0 ? 0x80 : k == 1 ? 0xa0 : k == 2 ? 0x90 : 0x8f, 96, n)); c.state(vh::mix(n, k)); }
VH_SECTION("packets: every bit of every field", "R01,R02") { unsigned k = c.choose(4); Bytes b = base(uint8_t(k == 0 ? 0x80 : k == 1 ? 0x84 : k == 2 ? 0x93 : 0xbf), 0xe0, 120); size_t o = 12 + 4 * (b[0] & 15); if (k >= 2) b[o + 2] = 0, b[o + 3] = 3; b.back() = 5; unsigned x = c.choose(121 * 8), y = c.choose(x + 1); if (x < 960) b[x / 8] ^= uint8_t(1 << x % 8); if (y < 960 && y != x) b[y / 8] ^= uint8_t(1 << y % 8); c.state(vh::hash_bytes(b.data(), b.size())); one(c, b); }
VH_SECTION("packets: every value of every byte", "R01,R02") { unsigned k = c.choose(3), i = c.choose(40); Bytes b = base(uint8_t(k == 0 ? 0x80 : k == 1 ? 0xb2 : 0x81), 127, 40); if (k == 1) b[22] = 0, b[23] = 1; b.back() = 4; b[i] = uint8_t(c.choose(256)); c.state(vh::hash_bytes(b.data(), b.size())); one(c, b); }
VH_SECTION("packets: every value of every pair of bytes, over zeros and over ones", "R01,R02") {
    unsigned at = 2 + 2 * c.choose(11), hi = c.choose(256), fill = c.choose(2);
    for (unsigned lo = 0; lo < 256; ++lo) { Bytes b(27, fill ? 0xff : 0); b[0] = 0x91; b[1] = 0x80 | 96; b[18] = 0; b[19] = 1; b[at] = uint8_t(hi); b[at + 1] = uint8_t(lo); c.state(vh::mix(at * 2 + fill, hi << 8 | lo)); one(c, b); }
}
VH_SECTION("packets: every packet of up to 14 bytes over a small alphabet in the variable part", "R01,R02") { static const std::vector<uint8_t> A{0x80, 0xa0, 0x90, 0xb0, 0x81, 0x91, 0xb1, 0x60, 0xc0}; Bytes b = base(c.pick(A), 96, 12); unsigned n = c.choose(vh::thorough() ? 9 : 8); for (unsigned i = 0; i < n; ++i) b.push_back(std::array<uint8_t, 4>{0, 1, 2, 9}[c.choose(4)]); c.state(vh::hash_bytes(b.data(), b.size())); one(c, b); }
VH_SECTION("packets: every payload type with every map of one type", "R01,R02") {
    unsigned pt = c.choose(128), in = c.choose(129); auto p = rtp::PayloadType::from_uint8(uint8_t(in & 127)).unwrap(); rtp::PayloadMap m = in < 128 ? rtp::PayloadMap{{p, rtp::PayloadMapItem{rtp::ClockRate{8000}}}} : rtp::PayloadMap{std::initializer_list<rtp::PayloadMap::InitPair>{}}; Bytes b = base(0x80, uint8_t(pt | 0x80), 20); rtp::ParseStat st; auto g = rtp::Packet::parse(View(b.data(), b.size()), m, st); c.step(); bool ok = in == pt;
    c.require(g.is_ok() == ok, "clock", [&] { return "payload type " + N(pt) + " with a map of " + N(in); }); c.require(st.success.count() == ok && st.error.count() == !ok && st.unknown_rtp_clock.count() == !ok, "counters"); c.state(vh::mix(pt, in)); c.outcome(ok);
}
VH_SECTION("packets: counters over sequences of packets", "R02") {
    static std::vector<Bytes> P; if (P.empty()) { P = {base(0x80, 96, 20), base(0x80, 96, 5), base(0x40, 96, 20), base(0x8f, 96, 20), base(0x80, 1, 20), base(0x90, 96, 14), base(0xa0, 96, 12), base(0xa0, 96, 20)}; P[7].back() = 9; } rtp::ParseStat st; uint64_t ok = 0, err = 0; std::vector<uint64_t> want(7); uint32_t n = vh::thorough() ? 6 : 5;
    for (uint32_t i = 0; i < n; ++i) { auto& b = c.pick(P); Ref w = reference(b); if (w.ok) ++ok; else { ++err; for (int k = 0; k < 7; ++k) if (w.causes >> k & 1) ++want[k]; } rtp::Packet::parse(View(b.data(), b.size()), pmap(), st); c.step(); c.require(st.success.count() == ok && st.error.count() == err && counts(st) == want, "counters", [&] { return "after " + N(i + 1) + " packets success=" + N(st.success.count()) + " error=" + N(st.error.count()); }); } c.state(c.prefix_hash()); c.trace();
}
