// Small programs ("actors") on instances of every component. An actor owns all
// its instances; every operation returns everything observable as text.
#pragma once
#include "stunlib.hpp"
#include "netref.hpp"
#include "stun/stun_client_udp.hpp"
#include "stun/stun_server_stateless.hpp"
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#ifndef ICE_PREFERENCE_INCLUDED   // that header has no guard of its own
#define ICE_PREFERENCE_INCLUDED
#include "ice/candidate/ice_candidate_preference.hpp"
#endif
#include "net/net_path_hash.hpp"
#include "net/ip/ip_address_hash.hpp"
#include "clock/clock_std.hpp"
#include "util/util_intrusive_list.hpp"
#include "util/util_token_stream.hpp"
#include "util/util_string_view.hpp"
#include "rtp/rtp_error.hpp"
#include "net/net_error.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#include "crypto/openssl/openssl_error.hpp"
#include <functional>
namespace act {
using namespace freewebrtc; using lib::View;
using us = std::chrono::microseconds;
inline std::string N(int64_t v) { return std::to_string(v); }
inline std::string hx(const uint8_t* p, size_t n) { static const char* d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
template<class C> std::string hx(const C& c) { std::string s; for (auto b : c) { uint8_t x = uint8_t(b); s += hx(&x, 1); } return s; }
struct Actor { virtual ~Actor() = default; virtual std::string op(int i) = 0; };   // i = 0, 1, 2, ...
struct Rng { uint32_t next; using result_type = uint32_t; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 0xffffffffu; } uint32_t operator()() { return next++ * 0x01000193u; } };
inline stun::Password password(const std::string& s) { return stun::Password::short_term(precis::OpaqueString{s}, crypto::openssl::sha1).unwrap(); }
inline std::string key_of(int v) { return v ? std::string(70, char('a' + v)) : "short"; }
inline ref::Addr addr_of(int v) { return v ? ref::Addr{true, Bytes(16, uint8_t(v)), uint16_t(9000 + v)} : ref::Addr{false, {192, 0, 2, 1}, 8000}; }
inline std::string counts(const stun::ParseStat& s) { return N(s.success.count()) + "/" + N(s.error.count()) + "/" + N(s.not_padded.count()) + "/" + N(s.magic_cookie_error.count()) + "/" + N(s.invalid_size.count()); }
inline std::string result(const MaybeError& r) { if (r.is_ok()) return "ok"; std::error_code e = r.unwrap_err(); return e.message(); }
// ---- clients
struct Client : Actor {
    int v; stun::ClientUDP cl; Rng rng; int64_t t = 0, sleep = 0; Bytes last; std::optional<View> held; bool holding = false; std::vector<std::string> all;
    static stun::ClientUDP::Settings conf(int v) { stun::ClientUDP::Settings s; stun::client_udp::Settings::RetransmitDefault r; r.request_count = 3 + unsigned(v); r.max_rto = std::chrono::duration_cast<clock::NativeDuration>(us(900000)); if (v == 2) r.server_error_timeout = std::chrono::duration_cast<clock::NativeDuration>(us(300000)); s.retransmit = r; s.rto_settings.initial_rto = std::chrono::duration_cast<clock::NativeDuration>(us(400000 + 1000 * v)); return s; }
    explicit Client(int v) : v(v), cl(conf(v)), rng{uint32_t(100 + v)} {}
    clock::Timepoint now() const { return clock::Timepoint::epoch().advance(us(t)); }
    std::string poll() {
        std::string s; for (int i = 0; i < 9; ++i) { auto e = cl.next(now());
            if (auto* x = std::get_if<stun::ClientUDP::SendData>(&e)) { held.emplace(x->message_view); holding = true; last = Bytes(held->begin(), held->end()); s += " send " + hx(last); }
            else if (auto* x = std::get_if<stun::ClientUDP::TransactionOk>(&e)) { holding = false; auto a = lib::addr(x->result.address, x->result.port.value()); s += " ok " + hx(a.b) + ":" + N(a.port) + (x->round_trip.is_some() ? " rtt " + N(std::chrono::duration_cast<us>(x->round_trip.unwrap()).count()) : ""); }
            else if (auto* x = std::get_if<stun::ClientUDP::TransactionFailed>(&e)) { holding = false; s += " failed " + N(int64_t(x->reason.index())); if (auto* k = std::get_if<stun::ClientUDP::TransactionFailed::ErrorCode>(&x->reason)) s += " " + N(k->attr.code); }
            else if (auto* x = std::get_if<stun::ClientUDP::Sleep>(&e)) { sleep = std::chrono::duration_cast<us>(x->sleep).count(); return s + " sleep " + N(sleep); } else return s + " idle"; }
        return s + " ...";
    }
    std::string create() { stun::ClientUDP::Request q{net::Path{lib::addr(addr_of(0)), lib::addr(addr_of(1))}, {}, {}, none()}; if (v) q.maybe_auth = stun::ClientUDP::Auth{precis::OpaqueString{"user"}, lib::integrity(key_of(v)).unwrap()}; auto r = cl.create(rng, now(), std::move(q)); return r.is_ok() ? "created" : "not created"; }
    std::string answer(int kind) { ref::Enc e(ref::msg_type(kind == 200 ? 2 : 3, 1), Bytes(last.begin() + 8, last.begin() + 20)); if (kind == 200) e.xaddr(addr_of(v), Bytes(last.begin() + 8, last.begin() + 20)); else e.error(unsigned(kind), "x"); if (v) e.mi(lib::key(key_of(v))); e.fp(); lib::Exact x(e.b); return result(cl.response(now(), x.view())); }
    std::string op(int i) override {
        std::string h = holding && Bytes(held->begin(), held->end()) != last ? " (bytes changed)" : "";
        switch (i % 10) { case 0: return create() + poll() + h; case 1: t += sleep; return poll() + h; case 2: return h + answer(v == 2 ? 500 : 200); case 3: t += 70000; return poll() + h; case 4: return h + create() + poll(); case 5: t += sleep; return poll() + h; case 6: t += sleep; return poll() + h; case 7: return h + answer(401) + poll(); case 8: return h + answer(200); default: t += 5000000; return poll() + h; }
    }
};
// ---- servers
struct Server : Actor {
    int v; stun::server::Stateless s; std::optional<stun::server::Stateless::ProcessResult> kept;
    static stun::server::Stateless::Settings conf(int v) { stun::server::Stateless::Settings s; s.use_fingerprint = v != 1; return s; }
    explicit Server(int v) : v(v), s(crypto::openssl::sha1, conf(v)) { s.add_user(precis::OpaqueString{"user"}, password(key_of(v))); }
    std::string show(const stun::server::Stateless::ProcessResult& r) { if (auto* x = std::get_if<stun::server::Stateless::Respond>(&r)) { auto w = x->response.build(x->maybe_integrity); return "respond " + hx(w.unwrap()); } if (std::get_if<stun::server::Stateless::Ignore>(&r)) return "ignore"; return "error"; }
    std::string ask(bool auth, const std::string& key, uint16_t unknown = 0) { Bytes id(12, uint8_t(7 + v)); ref::Enc e(ref::msg_type(0, 1), id); if (unknown) e.word(unknown, 1); if (auth) { e.str(6, "user"); e.mi(lib::key(key)); } lib::Exact x(e.b); auto a = addr_of(v); auto r = s.process(net::UdpEndpoint{lib::addr(a), lib::port(a.port)}, x.view()); std::string t = show(r); kept.emplace(std::move(r)); return t; }
    std::string op(int i) override { switch (i % 7) { case 0: return ask(true, key_of(v)); case 1: return show(*kept); case 2: return ask(true, key_of(v + 1)); case 3: return ask(false, "", uint16_t(0x7000 + v)); case 4: s.add_user(precis::OpaqueString{"user" + N(v)}, password("x")); return show(*kept); case 5: return ask(false, ""); default: return ask(true, key_of(v)) + show(*kept); } }
};
// ---- message codec
struct Codec : Actor {
    int v; stun::ParseStat st; Maybe<stun::Message> m = none(); Bytes wire; explicit Codec(int v) : v(v) {}
    std::string parse(const Bytes& b) { lib::Exact x(b); auto r = stun::Message::parse(x.view(), st); std::string s = r.is_ok() ? "ok " : "error "; if (r.is_ok()) { const auto& a = r.unwrap().attribute_set; s += a.software().is_some() ? a.software().unwrap().get() : ""; m = Maybe<stun::Message>(std::move(r).unwrap()); } else { std::error_code e = r.unwrap_err(); s += e.message(); } return s + " " + counts(st); }
    std::string op(int i) override {
        Bytes id(12, uint8_t(0x30 + v)); ref::Enc e(ref::msg_type(2, 1), id); e.xaddr(addr_of(v), id).str(0x8022, "software " + std::string(size_t(v * 5 + 1), 's')); e.mi(lib::key(key_of(v))); e.fp();
        switch (i % 6) { case 0: wire = e.b; return parse(wire); case 1: { wire = e.b; wire[wire.size() - 1] ^= 1; return parse(wire); } case 2: { if (m.is_none()) return "none"; auto r = m.unwrap().build(lib::integrity(key_of(v + 1))); return hx(r.unwrap()); } case 3: { lib::Exact x(e.b); stun::ParseStat s2; auto r = stun::Message::parse(x.view(), s2).unwrap().is_valid(x.view(), lib::integrity(key_of(v)).unwrap()); return r.is_ok() ? r.unwrap().is_some() ? r.unwrap().unwrap() ? "valid" : "invalid" : "absent" : "error"; } case 4: { wire = Bytes(size_t(v + 3), 0); return parse(wire); } default: { Bytes c2(16, uint8_t(9 + v)); Bytes b{0, 1, 0, 0}; b.insert(b.end(), c2.begin(), c2.end()); return parse(b); } }
    }
};
// ---- RTP
struct Rtp : Actor {
    int v; rtp::ParseStat st; rtp::PayloadMap map; static rtp::PayloadMap::InitPair pair(int t, unsigned r) { return {rtp::PayloadType::from_uint8(uint8_t(t)).unwrap(), rtp::PayloadMapItem{rtp::ClockRate{r}}}; }
    explicit Rtp(int v) : v(v), map{pair(96 + v, 8000u + unsigned(v)), pair(0, 8000)} {}
    std::string op(int i) override {
        Bytes b(12 + 4 * size_t(v + 1) + 8, uint8_t(0x40 + i)); b[0] = uint8_t(0x80 | (i % 3 == 1 ? 0x20 : 0) | (v + 1)); b[1] = uint8_t(96 + (i % 4 == 2 ? v + 1 : v)); b.back() = uint8_t(2 + v); if (i % 5 == 4) b.resize(size_t(9 + v)); lib::Exact x(b); auto r = rtp::Packet::parse(x.view(), map, st); std::string s = r.is_ok() ? "ok " : "error ";
        if (r.is_ok()) { const auto& p = r.unwrap(); s += N(p.header.payload_type.value()) + " " + N(p.header.sequence.value()) + " " + N(int64_t(p.header.csrcs.size())) + " " + N(p.payload.offset) + "+" + N(p.payload.count); for (auto& z : p.header.csrcs) s += "," + N(z.value()); } else { std::error_code e = r.unwrap_err(); s += e.message(); }
        return s + " " + N(st.success.count()) + "/" + N(st.error.count()) + "/" + N(st.unknown_rtp_clock.count()) + "/" + N(st.invalid_size.count());
    }
};
// ---- ICE
struct Ice : Actor {
    int v; Maybe<ice::candidate::SDPAttrParseResult> kept = none(); explicit Ice(int v) : v(v) {}
    std::string show() const { if (kept.is_none()) return "-"; auto& r = kept.unwrap(); if (auto* u = std::get_if<ice::candidate::Unsupported>(&r)) return "unsupported " + u->value; auto& s = std::get<ice::candidate::Supported>(r); std::string t = s.candidate.foundation.to_string() + " " + N(s.candidate.component.value()) + " " + s.candidate.address.to_string().unwrap() + " " + N(s.candidate.port.value()) + " " + s.candidate.type.to_string() + " " + s.candidate.transport_type.to_string(); for (auto& e : s.extensions) t += " " + e.att_name + "=" + e.att_value; return t; }
    std::string op(int i) override {
        static const char* const K[] = {"host", "srflx", "relay"}; std::string f = "f" + N(v * 7), tail = std::string(" typ ") + K[v % 3] + " gen" + N(v) + " " + N(i); std::string line = "candidate:" + f + " " + N(v + 1) + (i % 4 == 2 ? " TCP " : " udp ") + N(1000 + v) + " 10.0.0." + N(v + 1) + " " + N(5000 + v) + tail; if (i % 4 == 3) line = "candidate:" + f + " 1 udp x" + tail;
        if (i % 4 == 1) return show(); auto r = ice::candidate::parse_sdp_attr(line); if (r.is_err()) { std::error_code e = r.unwrap_err(); return "error " + e.message() + " " + show(); } kept = Maybe<ice::candidate::SDPAttrParseResult>(std::move(r).unwrap()); return show();
    }
};
// ---- crypto and hashes
struct Seed1 { size_t operator()() { return 0x1234567; } };
struct Crypto : Actor {
    int v; Maybe<stun::Password> pw = none(); explicit Crypto(int v) : v(v) {}
    std::string op(int i) override {
        Bytes d(size_t(30 + 40 * v + i), uint8_t(v + i)); std::vector<View> parts{View(d.data(), 10), View(d.data() + 10, d.size() - 10)};
        switch (i % 5) { case 0: pw = Maybe<stun::Password>(password(key_of(v))); return hx(pw.unwrap().ipad().view()) + hx(pw.unwrap().opad().view()); case 1: return hx(crypto::openssl::sha1(parts).unwrap().value()); case 2: { if (pw.is_none()) return "-"; crypto::SHA1Hash::Func f = crypto::openssl::sha1; return hx(crypto::hmac::digest(parts, pw.unwrap().opad(), pw.unwrap().ipad(), f).unwrap().value.value()); } case 3: { auto h = v ? stun::MurmurTransactionIdHash<Seed1>::create() : stun::MurmurTransactionIdHash<>::create(); stun::TransactionId id{View(d.data(), 12)}; return N(int64_t(h(id))); } default: { auto a = lib::addr(addr_of(v)); return N(int64_t(net::PathHash{}(net::Path{a, a}))) + " " + N(int64_t(net::ip::AddressHash{}(a))) + " " + N(int64_t(util::hash::murmur(View(d.data(), d.size()), uint64_t(v)))); } }
    }
};
// ---- addresses, names, priorities, errors, tokens, lists, clocks
struct FakeClock { using duration = std::chrono::duration<int64_t, std::nano>; using rep = int64_t; using period = std::nano; using time_point = std::chrono::time_point<FakeClock>; static constexpr bool is_steady = true; static int64_t& at() { static thread_local int64_t t = 0; return t; } static time_point now() { return time_point(duration(at())); } };
struct Misc : Actor {
    int v; util::TokenStream toks; std::vector<std::string> text; std::string line; int64_t ns; std::optional<clock::ChronoClockConverter<FakeClock>> conv;
    struct Item { int id; util::IntrusiveList<Item>::Link link; explicit Item(int i) : id(i), link(*this) {} }; std::vector<std::unique_ptr<Item>> items; util::IntrusiveList<Item> list{&Item::link};
    static std::vector<std::string_view>& words(int v) { static thread_local std::vector<std::string_view> w; w = v == 0 ? std::vector<std::string_view>{"a", "b", "c", "d", "e"} : v == 1 ? std::vector<std::string_view>{"x", "y"} : std::vector<std::string_view>{"p", "q", "r"}; return w; }
    explicit Misc(int v) : v(v), toks(words(v)), ns(1500 * v) {}
    std::string op(int i) override {
        std::string s; auto k = toks.optional(); s += k.is_some() ? std::string(k.unwrap()) : "end";
        ns += 700 + 13 * v; FakeClock::at() = ns; if (!conv) conv.emplace(); s += " " + N((conv->now() - clock::Timepoint::epoch()).count());
        items.push_back(std::make_unique<Item>(i)); if (i % 2) list.push_front(*items.back()); else list.push_back(*items.back()); s += " " + N(list.front().unwrap().get().id) + N(list.back().unwrap().get().id);
        auto a = lib::addr(addr_of(v)); s += " " + a.to_string().unwrap(); auto b = net::ip::Address::from_string(v ? "2001:db8::" + N(v) : "10.2.3." + N(i)); s += " " + hx(b.unwrap().view()); auto f = net::Fqdn::from_string("host" + N(v) + ".example"); s += " " + f.unwrap().to_string(); auto p = net::Port::from_string(N(70000 - 5000 * v)); s += p.is_ok() ? " port" : " no port";
        for (const std::error_code& e : {std::error_code(stun::ParseError(v + i % 3 + 1) == stun::ParseError{} ? std::error_code() : stun::make_error_code(stun::ParseError(v + i % 3 + 1))), stun::make_error_code(stun::ClientError(v + 1)), rtp::make_error_code(rtp::Error(v + 1)), net::make_error_code(net::Error(v + 1)), ice::candidate::make_error_code(ice::candidate::Error(v + 2))}) s += " " + std::string(e.category().name()) + ":" + e.message();
        s += " " + N(ice::candidate::TypePreference::recommended_for(v ? ice::candidate::Type::host() : ice::candidate::Type::relayed()).value()); return s;
    }
};
constexpr int KINDS = 7, VARIANTS = 3;
inline const char* kind_name(int k) { static const char* n[] = {"client", "server", "codec", "rtp", "ice", "crypto", "misc"}; return n[k]; }
inline std::unique_ptr<Actor> make(int kind, int v) { switch (kind) { case 0: return std::make_unique<Client>(v); case 1: return std::make_unique<Server>(v); case 2: return std::make_unique<Codec>(v); case 3: return std::make_unique<Rtp>(v); case 4: return std::make_unique<Ice>(v); case 5: return std::make_unique<Crypto>(v); default: return std::make_unique<Misc>(v); } }
inline std::vector<std::string> solo(int kind, int v, int n) { auto a = make(kind, v); std::vector<std::string> r; for (int i = 0; i < n; ++i) r.push_back(a->op(i)); return r; }
}
