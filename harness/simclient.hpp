// Driver around the real STUN client: creates transactions, polls, answers,
// and records every effect as plain data.
#pragma once
#include "vh.hpp"
#include "stunlib.hpp"
#include "stun/stun_client_udp.hpp"
namespace sim {
using namespace freewebrtc;
using ref::Bytes;
using stun::ClientUDP;
using us = std::chrono::microseconds;
using Dur = clock::NativeDuration;
using Settings = ClientUDP::Settings;
constexpr int64_t MS = 1000, SEC = 1000000;
inline std::string N(int64_t v) { return std::to_string(v); }
inline Dur dur(int64_t v) { return std::chrono::duration_cast<Dur>(us(v)); }

struct Conf {
    int64_t rto = 500 * MS, max_rto = -1, delay5 = -1, history = 3600 * SEC; unsigned rc = 7, rm = 16, max5 = 4; bool fp = true, unauth_alt = false; unsigned hash = 0;
    std::string str() const { return "Rc=" + N(rc) + " Rm=" + N(rm) + " rto=" + N(rto) + (max_rto >= 0 ? " max=" + N(max_rto) : "") + (delay5 >= 0 ? " delay5xx=" + N(delay5) + " max5xx=" + N(max5) : ""); }
};
inline Settings settings(const Conf& k) {
    Settings s; s.use_fingerprint = Settings::UseFingerprint{k.fp}; s.allow_unauthenticated_alternate = k.unauth_alt;
    Settings::RetransmitDefault r; r.request_count = k.rc; r.retransmission_multiplier = k.rm; r.server_error_max_retransmits = k.max5;
    if (k.max_rto >= 0) r.max_rto = dur(k.max_rto);
    if (k.delay5 >= 0) r.server_error_timeout = dur(k.delay5);
    s.retransmit = r; s.rto_settings.initial_rto = dur(k.rto); s.rto_settings.history_duration = dur(k.history);
    return s;
}
// random device: 32-bit words; every request consumes three
struct Rng {
    uint32_t next = 1; std::vector<uint32_t> script; size_t at = 0; size_t drawn = 0; bool constant = false;
    using result_type = uint32_t; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 0xffffffffu; }
    uint32_t operator()() { if (++drawn > (constant ? 1000u : 100000u)) throw vh::Violation{"endless-random", "creating a request never stops drawing random numbers"}; if (constant) return 0x5eed; if (at < script.size()) return script[at++]; return next++ * 0x01000193u; }
};
struct Ev { int64_t t; int tx; char kind; std::string what;   // S send, O ok, F failed
    bool operator==(const Ev&) const = default;
    std::string str() const { return "[" + N(t) + "us] tx" + N(tx) + (kind == 'S' ? " send " : kind == 'O' ? " success " : " failure ") + what; } };
inline std::string show(const std::vector<Ev>& v) { std::string s; for (auto& e : v) s += "\n    " + e.str(); return s.empty() ? " (nothing)" : s; }
struct Tx { ClientUDP::Handle h; bool sent = false; Bytes data, tid; std::string key; int path = 0; int terminals = 0; int64_t created = 0; std::vector<util::ConstBinaryView> views; int sends = 0; std::string outcome; };
inline std::string addr_str(const net::ip::Address& a, net::Port p) { auto x = lib::addr(a, p.value()); return vh::hex(x.b) + ":" + N(x.port); }
inline std::string addr_str(const ref::Addr& x) { return vh::hex(x.b) + ":" + N(x.port); }
inline std::string list_str(const std::vector<stun::AttributeType>& v) { std::string s; for (auto t : v) s += N(t.value()) + ","; return s; }
inline std::string reason_str(const stun::client_udp::TransactionFailed::Reason& r) {
    using TF = stun::client_udp::TransactionFailed;
    if (auto* p = std::get_if<TF::UnknownComprehensionRequiredAttribute>(&r)) return "unknown-required " + list_str(p->attrs);
    if (auto* p = std::get_if<TF::UnknownAttributeReported>(&r)) return "unknown-reported " + list_str(p->attrs);
    if (auto* p = std::get_if<TF::AlternateServer>(&r)) return "alternate " + addr_str(p->server.address, p->server.port);
    if (auto* p = std::get_if<TF::ErrorCode>(&r)) return "code " + N(p->attr.code) + " " + (p->attr.reason_phrase.is_some() ? p->attr.reason_phrase.unwrap() : std::string());
    if (auto* p = std::get_if<TF::Error>(&r)) { std::error_code ec = p->code; return std::string("error ") + ec.category().name() + " " + N(ec.value()); }
    if (std::get_if<TF::Timeout>(&r)) return "timeout";
    return "?";
}
inline std::string err_str(stun::ClientError e) { std::error_code ec = stun::make_error_code(e); return std::string("error ") + ec.category().name() + " " + N(ec.value()); }
inline net::Path path(int i) {
    ref::Addr s{false, {192, 168, 0, 1}, 0}, d{false, {10, 0, 0, uint8_t(2 + i)}, 0};
    if (i == 2) s.b[3] = 9, d.b[3] = 2;                      // same target as path 0, other source
    if (i == 3) { s = {true, Bytes(16, 1), 0}; d = {true, Bytes(16, 2), 0}; }
    if (i == 4) { s.b = {10, 0, 0, 2}; d.b = {192, 168, 0, 1}; }   // path 0 reversed
    if (i >= 200) { d.b[2] = uint8_t(1 + i / 200); d.b[3] = uint8_t(2 + i % 200); }
    return net::Path{lib::addr(s), lib::addr(d)};
}
enum Step { IDLE, SLEEP, EFFECT };
struct Sim {
    vh::Ctx& c; Conf conf; Rng rng; ClientUDP cl; clock::Timepoint base; int64_t t = 0, sleep = 0; std::vector<Tx> tx; std::vector<Ev> log; int polls = 0; bool verify_views = false; std::string user = "user";
    Sim(vh::Ctx& cc, const Conf& k, uint64_t start = 0) : c(cc), conf(k), cl(settings(k)), base(clock::Timepoint::epoch().advance(us(int64_t(start)))) {}
    Sim(vh::Ctx& cc, const Conf& k, const Settings& s, uint64_t start) : c(cc), conf(k), cl(s), base(clock::Timepoint::epoch().advance(us(int64_t(start)))) {}
    clock::Timepoint now() const { return base.advance(us(t)); }
    int create(int p = 0, const std::string& key = "", stun::AttributeSet::AttrVec attrs = {}, stun::AttributeSet::UnknownAttrVec unk = {}) {
        ClientUDP::Request rq{path(p), std::move(attrs), std::move(unk), none()};
        if (!key.empty()) rq.maybe_auth = ClientUDP::Auth{precis::OpaqueString{user}, lib::integrity(key).unwrap()};
        auto r = cl.create(rng, now(), std::move(rq));
        c.require(r.is_ok(), "create", "a request could not be created");
        Tx x{r.unwrap()}; x.key = key; x.path = p; x.created = t;
        for (auto& o : tx) c.require(!(o.h == x.h) || o.terminals, "handle-reused", "two live transactions share a handle");
        tx.push_back(std::move(x));
        c.note([&] { return "[" + N(t) + "us] create tx" + N(tx.size() - 1) + " on path " + N(p) + (key.empty() ? "" : " authenticated"); });
        return int(tx.size()) - 1;
    }
    int find(const ClientUDP::Handle& h) const { for (int i = int(tx.size()) - 1; i >= 0; --i) if (tx[i].h == h) return i; return -1; }
    Step step() {   // one poll
        ++polls; c.step();
        auto e = cl.next(now());
        if (auto* s = std::get_if<ClientUDP::Sleep>(&e)) { sleep = std::chrono::duration_cast<us>(s->sleep).count(); c.note([&] { return "[" + N(t) + "us] sleep " + N(sleep); }); return SLEEP; }
        if (std::get_if<ClientUDP::Idle>(&e)) { c.note([&] { return "[" + N(t) + "us] idle"; }); return IDLE; }
        Ev ev{t, -1, '?', ""};
        if (auto* s = std::get_if<ClientUDP::SendData>(&e)) {
            ev.kind = 'S'; ev.tx = find(s->handle); Bytes d(s->message_view.begin(), s->message_view.end());
            if (ev.tx >= 0) {
                auto& x = tx[ev.tx];
                if (!x.sent) { x.sent = true; x.data = d; x.tid = d.size() >= 20 ? Bytes(d.begin() + 8, d.begin() + 20) : Bytes(12); }
                else if (d != x.data) ev.what = "different bytes";
                ++x.sends; x.views.push_back(s->message_view);
            }
        } else if (auto* o = std::get_if<ClientUDP::TransactionOk>(&e)) {
            ev.kind = 'O'; ev.tx = find(o->handle); ev.what = addr_str(o->result.address, o->result.port) + " rtt=" + (o->round_trip.is_some() ? N(std::chrono::duration_cast<us>(o->round_trip.unwrap()).count()) : std::string("-"));
        } else if (auto* f = std::get_if<ClientUDP::TransactionFailed>(&e)) {
            ev.kind = 'F'; ev.tx = find(f->handle); ev.what = reason_str(f->reason);
        }
        if (ev.tx >= 0 && ev.kind != 'S') { auto& x = tx[ev.tx]; ++x.terminals; x.outcome = std::string(1, ev.kind) + " " + ev.what; }
        log.push_back(ev);
        c.note([&] { return ev.str(); });
        return EFFECT;
    }
    Step drain() { for (size_t i = 0; i < 300 + 4 * tx.size(); ++i) { Step s = step(); if (s != EFFECT) return s; } c.fail("endless-effects", "hundreds of effects in a row at the same moment: " + show(log)); }
    // answer; result: 0 ok, else error
    std::error_code respond(const Bytes& d, bool preparsed = false) {
        lib::Exact e(d); c.step();
        MaybeErrorCode r;
        if (preparsed) {
            stun::ParseStat st; auto m = stun::Message::parse(e.view(), st);
            if (m.is_ok()) r = code(cl.response(now(), e.view(), Maybe<stun::Message>(std::move(m).unwrap()))); else r = code(cl.response(now(), e.view()));
        } else r = code(cl.response(now(), e.view()));
        c.note([&] { return "[" + N(t) + "us] response " + vh::hex(d) + " -> " + (r ? r.message() : std::string("ok")); });
        return r;
    }
    using MaybeErrorCode = std::error_code;
    static std::error_code code(const MaybeError& r) { if (r.is_ok()) return {}; return r.unwrap_err(); }
    int live() const { int n = 0; for (auto& x : tx) if (!x.terminals) ++n; return n; }
};
// ---- answers
inline ref::Addr pub(int i = 0) { return ref::Addr{false, {198, 51, 100, uint8_t(7 + i)}, uint16_t(40000 + i)}; }
enum Kind { A_OK, A_MAPPED, A_NOADDR, A_401, A_500, A_NOCODE, A_300ALT, A_300, A_420, A_UNK, A_600, A_401ALT, A_OKALT, A_KINDS };
inline const char* kind_name(int k) { static const char* n[] = {"success", "success (mapped)", "success without address", "401", "500", "error without code", "300 with alternate", "300 without alternate", "420", "unknown required attribute", "600", "401 with alternate", "success with alternate"}; return n[k]; }
inline Bytes answer(const Bytes& tid, int kind, const std::string& key, bool fp = false, int who = 0) {
    unsigned cls = kind <= A_NOADDR || kind == A_UNK || kind == A_OKALT ? 2 : 3;
    ref::Enc e(ref::msg_type(cls, 1), tid);
    switch (kind) {
    case A_OK: e.xaddr(pub(who), tid); break; case A_MAPPED: e.addr(1, pub(who)); break; case A_401: e.error(401, "no"); break; case A_500: e.error(500, "oops"); break;
    case A_300ALT: e.error(300).addr(0x8023, pub(9)); break; case A_300: e.error(300); break; case A_420: e.error(420).attr(0xa, Bytes{0x7f, 1, 0, 0x30}); break; case A_UNK: e.xaddr(pub(who), tid).word(0x7f01, 1); break; case A_600: e.error(600, "global"); break; case A_401ALT: e.error(401, "no").addr(0x8023, pub(9)); break; case A_OKALT: e.xaddr(pub(who), tid).addr(0x8023, pub(9)); break;
    default: e.str(0x8022, "srv"); break;
    }
    if (!key.empty()) e.mi(lib::key(key)); if (fp) e.fp();
    return e.b;
}
inline std::string pub_str(int i = 0) { return addr_str(pub(i)); }
}
