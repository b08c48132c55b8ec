// The server's decision table and what its answers must hold, as reference.
#pragma once
#include "vh.hpp"
#include "stunlib.hpp"
#include <map>
using ref::Bytes;
static std::string N(int64_t v) { return std::to_string(v); }
static const std::string PW1 = "secret", PW2(70, 'k');
static std::optional<std::string> password_of(const std::string& u) { if (u == "alice") return PW1; if (u == "bob") return PW2; if (u.empty()) return "empty"; return {}; }
struct Want { int code = 0; /* 0 ignore, 1 ignore as unparsed, 200 success, else error */ std::vector<uint16_t> unknown; std::optional<std::string> key; ref::Msg request; };
static Want decide(const Bytes& b, bool users = true) {   // the standard's table
    Want w; ref::Parsed p = ref::parse(b); if (!p.ok) { w.code = 1; return w; }
    const auto& m = w.request = p.m; if (m.cls != 0) return w;
    for (auto& u : m.unknown) if (u.type < 0x8000) w.unknown.push_back(u.type);
    if (!w.unknown.empty()) { w.code = 420; return w; }
    if (bool(m.username) != bool(m.integrity)) { w.code = 400; return w; }
    if (m.username) { auto pw = users ? password_of(*m.username) : std::nullopt; if (!pw || !ref::integrity(b, m, lib::key(*pw)).value_or(false)) { w.code = 401; return w; } w.key = pw; }
    w.code = m.method == 1 ? 200 : 0; return w;
}
static std::string wants(const Want& w) { return w.code == 0 ? "no answer (parsed)" : w.code == 1 ? "no answer (not STUN)" : N(w.code); }
struct Got { int code = -1; std::string text; Bytes wire; };   // text: everything observable
static ref::Parsed parse_answer(const Bytes& wire, bool classic) {   // a classic client's answer has the 16-byte id in place of cookie and id
    if (!classic || wire.size() < 20) return ref::parse(wire);
    Bytes r = wire; r[0] &= 0xfe; r[1] &= 0xef; auto p = ref::parse(r); p.m.cls = ref::type_class(ref::u16(wire, 0)); p.m.method = ref::type_method(ref::u16(wire, 0)); return p;
}
static std::string desc(const Bytes& b) { return "datagram " + vh::hex(b) + ": "; }
static void decision(vh::Ctx& c, const Bytes& b, const Got& g, const Want& w) {
    c.require(g.code == w.code, w.code == 420 ? "unknown-attributes" : w.code == 400 ? "bad-request" : w.code == 401 ? "unauthorized" : w.code == 200 ? "no-success" : "answered", [&] { return desc(b) + "answer is " + (g.code == 0 || g.code == 1 ? "none (" + N(g.code) + ")" : N(g.code)) + ", the table says " + wants(w); });
    if (w.code == 420) { auto p = parse_answer(g.wire, w.request.rfc3489); c.require(p.m.unknown_attributes == std::optional<std::vector<uint16_t>>(w.unknown) || (p.m.unknown_attributes && [&] { std::vector<uint16_t> d; for (auto t : w.unknown) if (std::find(d.begin(), d.end(), t) == d.end()) d.push_back(t); return *p.m.unknown_attributes == d; }()), "unknown-list", [&] { return desc(b) + "420 without the right list of attributes: " + vh::hex(g.wire); }); }
}
static void answer_ok(vh::Ctx& c, const Bytes& b, const Got& g, const Want& w, const ref::Addr& from, bool fp) {
    if (w.code < 2) return; auto p = parse_answer(g.wire, w.request.rfc3489); auto W = [&] { return desc(b) + "answer " + vh::hex(g.wire) + " "; }; bool classic = w.request.rfc3489;
    if (classic) c.require(g.wire.size() >= 20 && Bytes(g.wire.begin() + 4, g.wire.begin() + 20) == w.request.tid, "transaction-id", [&] { return W() + "does not echo the transaction id"; });
    c.require(p.ok || (classic && p.causes == 1u << ref::c_fp_invalid), "ill-formed", [&] { return W() + "is not a well-formed message"; });
    c.require(p.m.tid == w.request.tid, "transaction-id", [&] { return W() + "does not echo the transaction id"; }); c.require(p.m.method == w.request.method, "method", [&] { return W() + "does not echo the method"; });
    c.require(p.m.cls == (w.code == 200 ? 2u : 3u), "class", [&] { return W() + "has the wrong class"; });
    if (w.code != 200) { c.require(p.m.error && int(p.m.error->code) == w.code, "error-code", [&] { return W() + "lacks the error code"; }); c.require(!p.m.xored && !p.m.mapped, "address-in-error", [&] { return W() + "reports an address"; }); return; }
    std::optional<ref::Addr> want = from, none_; if (!classic) { want->b = ref::xor_bytes(from, w.request.tid); }
    c.require(p.m.xored == (classic ? none_ : want), "xor-mapped", [&] { return W() + "has a wrong XOR-MAPPED-ADDRESS"; }); c.require(p.m.mapped == (classic ? want : none_), "mapped", [&] { return W() + "has a wrong MAPPED-ADDRESS"; });
    c.require(!p.m.error && !p.m.alternate && !p.m.unknown_attributes, "extra", [&] { return W() + "carries attributes of an error"; });
    c.require(bool(p.m.fingerprint) == (fp && !classic), "fingerprint", [&] { return W() + "fingerprint"; });
    c.require(bool(p.m.integrity) == bool(w.key), "signed", [&] { return W() + (w.key ? "is not signed" : "is signed"); });
    if (w.key) c.require(ref::integrity(g.wire, p.m, lib::key(*w.key)).value_or(false), "signature", [&] { return W() + "has a signature the client cannot verify"; });
}
static const Bytes T12{0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88, 0x99, 0xaa, 0xbb, 0xcc}, T16{0x21, 0x12, 0xa4, 0x43, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
static const std::vector<ref::Addr>& senders() { static const std::vector<ref::Addr> v{{false, {192, 0, 2, 1}, 32853}, {false, {0, 0, 0, 0}, 0}, {false, {255, 255, 255, 255}, 65535}, {true, {0x20, 1, 0xd, 0xb8, 0x12, 0x34, 0x56, 0x78, 0, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77}, 32853}, {true, Bytes(16, 0), 0x2112}, {false, {33, 18, 164, 66}, 0x1221}, {true, Bytes(16, 0xff), 1}, {true, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 192, 0, 2, 1}, 32853}}; return v; }
// one of the request space; every dimension is a choice
static Bytes request(vh::Ctx& c, unsigned cls, unsigned method, bool classic, uint32_t user, uint32_t mi, uint32_t unk, uint32_t extra, bool fp, uint32_t order) {
    Bytes tid = classic ? T16 : T12; ref::Enc e(ref::msg_type(cls, method), tid, !classic);
    static const std::vector<std::vector<uint16_t>> U{{}, {0x7f01}, {0x7f01, 0x30, 0x7f01}, {0xc001}, {0x7fff, 0x8000}, {0x0002, 0x0000}, {0x8000}};
    auto unknowns = [&] { for (auto t : U[unk]) e.word(t, 0x01020304); };
    auto username = [&] { static const char* NM[] = {"", "alice", "bob", "carol", "Alice", "alic", "alicea"}; if (user == 7) e.str(6, ""); else if (user) e.str(6, NM[user]); };
    if (order == 1) unknowns(); if (order != 2) username();
    if (extra & 1) e.word(0x24, 0x7e0000ff).quad(0x802a, 77); if (extra & 2) e.str(0x8022, "agent").attr(0x25, {}); if (order == 2) username(); if (order == 0) unknowns();
    Bytes before = e.b;
    switch (mi) { case 1: e.mi(lib::key(PW1)); break; case 2: e.mi(lib::key(PW2)); break; case 3: e.mi(lib::key(PW1)); e.b.back() ^= 1; break; case 4: e.mi({}); break; case 5: e.attr(8, Bytes(20, 0)); break; case 6: e.mi(lib::key("empty")); break; case 7: e.mi(lib::key(PW1)); e.word(0x7f22, 1); break; case 8: e.mi(lib::key(PW1)); e.b[24] ^= e.b.size() > 60 ? 1 : 0; break; default: break; }
    if (order == 3) unknowns();      // after the signature: no longer looked at if signed
    if (fp) e.fp(); return e.b;
}
