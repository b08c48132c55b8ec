// Calls that depend on nothing but their arguments, each giving all it returns as text.
#pragma once
#include "vh.hpp"
#include "stunlib.hpp"
#include "iceref.hpp"
#include "refcrypto.hpp"
#ifndef ICE_PREFERENCE_INCLUDED   // that header has no guard of its own
#define ICE_PREFERENCE_INCLUDED
#include "ice/candidate/ice_candidate_preference.hpp"
#endif
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "rtp/rtp_error.hpp"
#include "net/net_path_hash.hpp"
#include "net/net_error.hpp"
#include "net/ip/ip_address_hash.hpp"
#include "stun/details/stun_fingerprint.hpp"
#include "stun/stun_transaction_id_hash.hpp"
#include "crypto/crypto_hmac.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "clock/clock_timepoint.hpp"
#include "util/util_token_stream.hpp"
#include "util/util_string_view.hpp"
#include "util/util_flat.hpp"
using lib::View;
// Every input lies at the same address, so whatever is remembered by address is found out.
alignas(16) static uint8_t g_arena[1 << 16]; struct At { size_t n; explicit At(const Bytes& b) : n(b.size()) { std::copy(b.begin(), b.end(), g_arena); } View view() const { return View(g_arena, n); } };
struct Tx { size_t n; explicit Tx(const std::string& t) : n(t.size()) { std::copy(t.begin(), t.end(), g_arena); } std::string_view view() const { return {reinterpret_cast<char*>(g_arena), n}; } };
struct Op { std::string props, name; std::function<std::string()> f; };
static std::string err(const std::error_code& e) { return std::string(e.category().name()) + ":" + N(e.value()) + ":" + e.message(); }
template<class C> static std::string H(const C& b) { std::string s; for (auto x : b) s += "0123456789abcdef"[uint8_t(x) >> 4], s += "0123456789abcdef"[uint8_t(x) & 15]; return s; }
static const Bytes ID{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
static ref::Addr A4() { return {false, {192, 0, 2, 33}, 32853}; } static ref::Addr A6() { return {true, {0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9}, 443}; }
static std::vector<std::pair<std::string, Bytes>> datagrams() {
    std::vector<std::pair<std::string, Bytes>> v; auto add = [&](const char* n, const ref::Enc& e) { v.push_back({n, e.b}); };
    { ref::Enc e(1, ID); add("an empty request", e); e.fp(); add("a request with a fingerprint", e); }
    { ref::Enc e(0x101, ID); e.xaddr(A4(), ID).addr(1, A6()).str(0x8022, "soft").word(0x24, 7).str(6, "user").addr(0x8023, A4()); e.mi(lib::key("key")).fp(); add("a full signed response", e); v.push_back({"the same with a wrong fingerprint", e.b}); v.back().second.back() ^= 1; v.push_back({"the same without its last byte", e.b}); v.back().second.pop_back(); v.push_back({"the same with a wrong cookie", e.b}); v.back().second[4] ^= 1; v.push_back({"the same with a wrong length", e.b}); v.back().second[3] ^= 4; }
    { ref::Enc e(0x111, ID); e.error(420, "what").attr(10, Bytes{0x70, 1, 0x70, 2}); add("an error response", e); } { ref::Enc e(1, ID); e.word(0x7001, 1).word(0xc001, 2).attr(0x25, {}).attr(0x802a, Bytes(8, 3)); add("a request with unknown attributes", e); } { ref::Enc e(0x101, ID); e.attr(0x20, Bytes{0, 1, 0, 0, 1, 2, 3}); add("a response with a short address", e); } { ref::Enc e(0x101, ID); e.attr(0x20, Bytes{0, 3, 0, 0, 1, 2, 3, 4}); add("a response with an unknown family", e); } { ref::Enc e(0x11, ID); add("an indication", e); }
    { ref::Enc e(1, Bytes(16, 5), false); e.str(6, "user"); add("a classic request", e); } v.push_back({"nothing", {}}); v.push_back({"seven bytes", Bytes(7, 0)});
    return v;
}
static std::string parsed(const Bytes& b) {
    stun::ParseStat st; At x(b); auto r = stun::Message::parse(x.view(), st); std::string k = N(st.success.count()) + "/" + N(st.error.count()) + "/" + N(st.not_padded.count()) + "/" + N(st.magic_cookie_error.count()) + "/" + N(st.invalid_size.count()); if (r.is_err()) { std::error_code e = r.unwrap_err(); return "error " + err(e) + " " + k; }
    auto w = ref::parse(b); std::string s = w.ok ? lib::diff(r.unwrap(), w.m) : "accepted"; if (s.empty()) s = "ok"; auto out = r.unwrap().build(none()); return s + " " + k + " " + (out.is_ok() ? H(out.unwrap()) : "unbuildable");
}
static std::string signature(const Bytes& b, const std::string& key) { stun::ParseStat st; At x(b); auto r = stun::Message::parse(x.view(), st); if (r.is_err()) return "error"; auto v = r.unwrap().is_valid(x.view(), lib::integrity(key).unwrap()); if (v.is_err()) return "failed"; auto& m = v.unwrap(); return m.is_none() ? "unsigned" : m.unwrap() ? "valid" : "invalid"; }
static std::string packet(const Bytes& b, const rtp::PayloadMap& map) {
    rtp::ParseStat st; At x(b); auto r = rtp::Packet::parse(x.view(), map, st); std::string k = N(st.success.count()) + "/" + N(st.error.count()) + "/" + N(st.invalid_size.count()); if (r.is_err()) { std::error_code e = r.unwrap_err(); return err(e) + " " + k; } const auto& p = r.unwrap(); std::string s = N(p.header.payload_type.value()) + " " + N(p.header.sequence.value()) + " " + N(p.header.ssrc.value()) + " " + N(p.payload.offset) + "+" + N(p.payload.count); for (auto& z : p.header.csrcs) s += "," + N(z.value()); if (p.header.maybe_extension.is_some()) s += " ext"; return s + " " + k;
}
static std::string prio(const ic::Priority& p) { for (int64_t v : {1ll, 7ll, 256ll, 257ll, 4294967295ll}) if (p == ic::Priority::from_uint32(uint32_t(v)).unwrap()) return N(v); return "?"; }
static std::string candidate(const std::string& t) {
    Tx x(t); auto r = ic::parse_sdp_attr(x.view()); if (r.is_err()) { std::error_code e = r.unwrap_err(); return err(e); } if (auto* u = std::get_if<ic::Unsupported>(&r.unwrap())) return "unsupported " + u->value; auto& s = std::get<ic::Supported>(r.unwrap()); auto& d = s.candidate; std::string o = d.foundation.to_string() + " " + N(d.component.value()) + " " + prio(d.priority) + " " + d.address.to_string().unwrap() + " " + N(d.port.value()) + " " + d.type.to_string(); if (d.maybe_related_address.is_some()) o += " r"; for (auto& e : s.extensions) o += " " + e.att_name + "=" + e.att_value; return o;
}
static std::vector<Op> make_ops() {
    std::vector<Op> v; auto add = [&](const std::string& p, const std::string& n, std::function<std::string()> f) { v.push_back({p, n, std::move(f)}); };
    for (auto& [n, b] : datagrams()) { add("S01,S02", "parsing " + n, [b = b] { return parsed(b); }); for (const char* k : {"key", "bad"}) add("S05", "checking " + n + " with " + k, [b = b, k] { return signature(b, k); }); add("S04", "the checksum of " + n, [b = b] { At x(b); return N(int64_t(stun::crc32(x.view()))) + "," + N(int64_t(stun::crc32(std::vector<View>{x.view(), x.view()}))); }); }
    for (int i = 0; i < 6; ++i) { ref::Msg m; m.tid = ID; m.cls = unsigned(i % 4); m.method = 1; if (i & 1) { m.software = "some software"; m.xored = A4(); } if (i & 2) { m.username = "u"; m.mapped = A6(); m.priority = 77u; } if (i & 4) m.unknown.push_back({0xc001, Bytes(5, 1)}); bool f = i % 3 == 0; for (int s = 0; s < 2; ++s) { auto msg = std::make_shared<stun::Message>(lib::message(m, f, false)); add("S03", "building message " + N(i) + (s ? " signed" : ""), [msg, s] { auto r = s ? msg->build(lib::integrity("key")) : msg->build(none()); return r.is_ok() ? H(r.unwrap()) : "failed"; }); } }
    for (int i = 0; i < 4; ++i) add("S06", "the exclusive-or address " + N(i), [i] { ref::Addr a = i & 1 ? A6() : A4(); Bytes t = ID; t[5] = uint8_t(i); auto x = stun::XoredAddress::from_address(lib::addr(a), lib::tid(t)); auto y = x.to_address(lib::tid(t)); return H(lib::bytes(x.view())) + " " + H(lib::addr(y, 0).b); });
    for (unsigned t : {1u, 0x101u, 0x111u, 0x3eefu, 0x11u}) add("S07", "message type " + N(t), [t] { auto c = stun::Class::from_msg_type(uint16_t(t)); auto m = stun::Method::from_msg_type(uint16_t(t)); return N(c.to_msg_type()) + " " + N(m.to_msg_type()) + " " + N(c == stun::Class::request()) + N(m == stun::Method::binding()); });
    for (unsigned t : {1u, 0x20u, 0x7fffu, 0x8000u, 0x8022u, 0xffffu}) add("S08", "attribute type " + N(t), [t] { auto x = lib::atype(uint16_t(t)); return N(x.value()) + " " + N(x.is_comprehension_required()); });
    for (size_t nn : {0, 1, 55, 56, 64, 200, 1001, 1056, 1064, 1200}) { size_t n = nn % 1000; Bytes d(n, uint8_t(nn + 3)); add("K01", "hashing " + N(int64_t(n)) + " bytes", [d] { At x(d); auto a = crypto::openssl::sha1({x.view()}); auto b = crypto::openssl::md5({x.view()}); return (H(a.unwrap().value()) == H(ref::sha1(d)) ? "right " : "wrong ") + H(a.unwrap().value()) + H(b.unwrap().value()); }); std::string k(n + 1, nn >= 1000 ? 'j' : 'k'); add("K01", "signing with a key of " + N(int64_t(n + 1)) + " bytes", [d, k] { At x(d); auto p = stun::Password::short_term(precis::OpaqueString{k}, crypto::openssl::sha1).unwrap(); crypto::SHA1Hash::Func f = crypto::openssl::sha1; auto h = crypto::hmac::digest(std::vector<View>{x.view()}, p.opad(), p.ipad(), f).unwrap(); return (H(h.value.value()) == H(ref::hmac_sha1(lib::key(k), d)) ? "right " : "wrong ") + H(h.value.value()); }); add("K02", "the password of " + N(int64_t(n + 1)) + " bytes", [k] { auto p = stun::Password::short_term(precis::OpaqueString{k}, crypto::openssl::sha1).unwrap(); auto q = stun::Password::short_term(precis::OpaqueString{k + "x"}, crypto::openssl::sha1).unwrap(); return H(p.ipad().view()) + H(p.opad().view()) + N(p == q) + N(p == p); }); }
    for (int i = 0; i < 10; ++i) { Bytes b(size_t(12 + 4 * (i % 3) + 9), uint8_t(0x40 + i)); b[0] = uint8_t(0x80 | (i & 1 ? 0x20 : 0) | (i & 2 ? 0x10 : 0) | (i % 3)); b[1] = uint8_t(96 + i % 2); b.back() = 3; if (i & 2) { size_t o = 12 + 4 * size_t(i % 3); b[o + 2] = 0; b[o + 3] = uint8_t(i & 4 ? 1 : 9); } if (i == 8) b[0] = 0x40; if (i == 9) b.resize(11); add("R01,R02", "RTP packet " + N(i), [b] { static const rtp::PayloadMap map{{rtp::PayloadType::from_uint8(96).unwrap(), rtp::PayloadMapItem{rtp::ClockRate{90000}}}}; return packet(b, map); }); }
    for (int i : {0, 5, 127, 128, 255}) add("R03", "RTP values " + N(i), [i] { auto p = rtp::PayloadType::from_uint8(uint8_t(i)); return (p.is_some() ? N(p.unwrap().value()) : "none") + std::string(" ") + N(rtp::SequenceNumber::from_uint16(uint16_t(i * 257)).value()) + " " + N(rtp::SSRC::from_uint32(uint32_t(i) * 16843009u).value()); });
    for (const char* t : {"1.2.3.4", "1.2.3.5", "1.2.3.x", "255.255.255.255", "1.2.3", "01.2.3.4", "::", "2001:db8::1", "::ffff:1.2.3.4", "1::2::3", "fe80::1%1", ""}) add("N01", std::string("the address '") + t + "'", [t] { auto r = net::ip::Address::from_string(Tx(t).view()); if (r.is_err()) { std::error_code e = r.unwrap_err(); return err(e); } auto s = r.unwrap().to_string(); return H(r.unwrap().view()) + " " + s.unwrap(); });
    for (const char* t : {"example.org", "example.com", "example-org", "b", "-", "a", "a-b", "-a", "a-", "a.b.c.", "a..b", "", "1a"}) add("N02", std::string("the name '") + t + "'", [t] { auto r = net::Fqdn::from_string(Tx(t).view()); if (r.is_err()) { std::error_code e = r.unwrap_err(); return err(e); } return r.unwrap().to_string(); });
    for (const char* t : {"0", "7", "x", "80", "81", "8x", "65535", "65536", "00080", "+1", "", "8 0"}) add("N03", std::string("the port '") + t + "'", [t] { auto r = net::Port::from_string(Tx(t).view()); if (r.is_err()) { std::error_code e = r.unwrap_err(); return err(e); } return N(r.unwrap().value()); });
    for (int i = 0; i < 4; ++i) add("N04", "hashes and endpoints " + N(i), [i] { ref::Addr a = i & 1 ? A6() : A4(); a.b[2] ^= uint8_t(i); auto x = lib::addr(a); net::Path p{x, lib::addr(A4())}, q{lib::addr(A4()), x}; net::UdpEndpoint e{x, lib::port(77)}; auto h = stun::MurmurTransactionIdHash<>::create(); Bytes t = ID; t[0] = uint8_t(i); return N(int64_t(net::PathHash{}(p))) + " " + N(int64_t(net::PathHash{}(q))) + " " + N(p == q) + " " + N(int64_t(h(lib::tid(t)))) + " " + H(lib::addr(e.address, e.port.value()).b); });
    for (const char* t : {"candidate:1 1 udp 1 1.2.3.4 5 typ host", "candidate:2 1 udp 7 1.2.3.5 6 typ host", "candidate:1 1 udp 1 1.2.3.4 x typ host", "candidate:1 2 UDP 7 ::1 5 typ srflx raddr 1.1.1.1 rport 9 a b", "candidate:1 1 tcp 1 1.2.3.4 5 typ host", "candidate:1 1 udp 0 1.2.3.4 5 typ host", "candidate:1 1 udp 1 h.local 5 typ relay", "candidate:1 1 udp 1", "candidate:1 1 udp 1 1.2.3.4 5 typ host x", "candidate:1 1 udp 1 1.2.3.4 5 typ other"}) add("I01", std::string("the line '") + t + "'", [t] { return candidate(t); });
    for (const char* t : {"1", "0", "7", "256", "257", "abc", "a b", "", "4294967295", "4294967296", "host", "HOST", "relay", "udp"}) add("I02", std::string("the field '") + t + "'", [t] { std::string s; Tx x(t); auto v = x.view(); auto e = [&](auto r, auto show) { s += r.is_ok() ? show(r.unwrap()) : std::string("no"); s += " "; }; e(ic::Foundation::from_string(v), [](auto& x) { return x.to_string(); }); e(ic::ComponentId::from_string(v), [](auto& x) { return N(x.value()); }); e(ic::Priority::from_string(v), [](auto& x) { return prio(x); }); e(ic::Address::from_string(v), [](auto& x) { return x.to_string().unwrap(); }); return s; });
    for (int i = 0; i < 8; ++i) add("I03", "priority " + N(i), [i] { unsigned a = unsigned(i * 18), b = unsigned(i * 9000), k = unsigned(i + 1); auto t = ic::TypePreference::from_unsigned(a); auto l = ic::LocalPreference::from_unsigned(b); auto c = ic::ComponentId::from_unsigned(k); if (t.is_err() || l.is_err() || c.is_err()) return std::string("none"); auto cp = ic::ComponentPreference::recommended_for(c.unwrap()); auto p = ic::Preference{t.unwrap(), l.unwrap(), cp}.to_priority(); return std::string(p.is_err() ? "none" : p.unwrap() == ic::Priority::from_uint32((a << 24) + (b << 8) + 256 - k).unwrap() ? "right" : "wrong") + " " + N(ic::TypePreference::recommended_for(ic::Type::host()).value()) + " " + N(cp.value()); });
    for (int i = 0; i < 4; ++i) add("U02", "tokens " + N(i), [i] { std::vector<std::string_view> w(size_t(i), "tok"); util::TokenStream s(w); std::string r; for (int k = 0; k < i + 1; ++k) { auto t = k % 2 ? s.optional() : Maybe<std::string_view>(none()); if (k % 2) r += t.is_some() ? "t" : "-"; else { auto q = s.required(); r += q.is_ok() ? std::string(q.unwrap()) : err(std::error_code(q.unwrap_err())); } } return r; });
    for (int64_t d : {0ll, 1ll, -1ll, 1000000ll, 1ll << 40}) add("U03", "time points " + N(d), [d] { auto a = clock::Timepoint::epoch().advance(std::chrono::microseconds(d)); auto b = clock::Timepoint::epoch(); return N((a - b).count()) + N(a.is_after(b)) + N(a.is_before(b)) + N(a == b); });
    for (int i = 1; i < 12; ++i) add("U05", "error messages " + N(i), [i] { std::string s; for (const std::error_code& e : {stun::make_error_code(stun::ParseError(i)), stun::make_error_code(stun::ClientError(i)), rtp::make_error_code(rtp::Error(i)), net::make_error_code(net::Error(i))}) s += err(e) + ";"; return s; });
    for (const char* t : {"", ",", "x", "a,b", "ab,", ",ab", "abc", "a,,b", "abc,"}) add("U09", std::string("splitting '") + t + "'", [t] { auto p = util::string_view::split_all(Tx(t).view(), ','); std::string s; for (auto x : p) s += std::string(x) + "|"; return s + util::string_view::join(p, ";"); });
    return v;
}
static const std::vector<Op>& ops() { static const auto v = make_ops(); return v; }
static const std::string& first(size_t i) { static std::vector<std::string> v; if (v.empty()) for (auto& o : ops()) v.push_back(o.f()); return v[i]; }
