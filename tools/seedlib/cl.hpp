// A small driver around the STUN client for the demonstrations.
#pragma once
#include "demo.hpp"
#include "stunlib.hpp"
#include "stun/stun_client_udp.hpp"
using namespace freewebrtc;
using ref::Bytes;
using stun::ClientUDP;
using us = std::chrono::microseconds;
constexpr int64_t MS = 1000, S = 1000000;
struct Rng { uint32_t n = 1; using result_type = uint32_t; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return ~0u; } uint32_t operator()() { return n++ * 2654435761u; } };
struct Cl {
    ClientUDP cl; Rng rng; clock::Timepoint base = clock::Timepoint::epoch(); int64_t t = 0, sleep = 0; Bytes data, tid; ClientUDP::Handle last{0};
    explicit Cl(const ClientUDP::Settings& s = {}) : cl(s) {}
    clock::Timepoint now() { return base.advance(us(t)); }
    ClientUDP::Handle create(const std::string& key = "", int host = 2) {
        ref::Addr a{false, {192, 168, 0, 1}, 0}, b{false, {10, 0, 0, uint8_t(host)}, 0};
        ClientUDP::Request rq{net::Path{lib::addr(a), lib::addr(b)}, {}, {}, none()};
        if (!key.empty()) rq.maybe_auth = ClientUDP::Auth{precis::OpaqueString{"user"}, lib::integrity(key).unwrap()};
        return cl.create(rng, now(), std::move(rq)).unwrap();
    }
    // next effect: S send, O ok, F<code>/A/U/R/E/T failed, Z sleep, I idle
    std::string step() {
        using TF = ClientUDP::TransactionFailed;
        auto e = cl.next(now());
        if (auto* p = std::get_if<ClientUDP::SendData>(&e)) { data = lib::bytes(p->message_view); tid.assign(data.begin() + 8, data.begin() + 20); last = p->handle; return "S"; }
        if (auto* p = std::get_if<ClientUDP::TransactionOk>(&e)) { last = p->handle; return "O"; }
        if (auto* p = std::get_if<ClientUDP::TransactionFailed>(&e)) {
            last = p->handle;
            if (auto* q = std::get_if<TF::ErrorCode>(&p->reason)) return "F" + std::to_string(q->attr.code);
            if (std::get_if<TF::AlternateServer>(&p->reason)) return "A";
            if (std::get_if<TF::UnknownComprehensionRequiredAttribute>(&p->reason)) return "U";
            if (std::get_if<TF::UnknownAttributeReported>(&p->reason)) return "R";
            if (std::get_if<TF::Error>(&p->reason)) return "E";
            return "T";
        }
        if (auto* p = std::get_if<ClientUDP::Sleep>(&e)) { sleep = p->sleep.count(); return "Z"; }
        return "I";
    }
    // runs to the next event; true time of it is in t
    std::string event() { for (;;) { auto s = step(); if (s != "Z") return s; t += sleep; } }
    bool answer(const ref::Enc& e) { auto v = std::make_unique<Bytes>(e.b); return cl.response(now(), lib::view(*v)).is_ok(); }
    ref::Enc ok(const Bytes& id) { return ref::Enc(0x0101, id).xaddr({false, {1, 2, 3, 4}, 99}, id); }
    ref::Enc err(const Bytes& id, unsigned code) { return ref::Enc(0x0111, id).error(code); }
};
inline ClientUDP::Settings conf(unsigned rc = 7, unsigned rm = 16, int64_t rto = 500 * MS, int64_t max_rto = -1, int64_t d5 = -1, unsigned m5 = 4) {
    ClientUDP::Settings s; ClientUDP::Settings::RetransmitDefault r; r.request_count = rc; r.retransmission_multiplier = rm; r.server_error_max_retransmits = m5;
    if (max_rto >= 0) r.max_rto = us(max_rto);
    if (d5 >= 0) r.server_error_timeout = us(d5);
    s.retransmit = r; s.rto_settings.initial_rto = us(rto); return s;
}
