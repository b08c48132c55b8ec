// Small programs on the objects and functions of the Node bindings.
#pragma once
#include <chrono>
#include "nodejs.hpp"
#include "stunlib.hpp"
#include "util/util_result.hpp"
#include "util/util_maybe.hpp"
#include "node/node_stun/node_stun_message.hpp"
#include "node/node_stun/node_stun_server_stateless.hpp"
#include "node/node_stun/node_stun_client_udp.hpp"
#include "node/node_ice/node_ice_candidate.hpp"
#include "node/openssl/node_openssl_hash.hpp"
#include "refmd5.hpp"
// every program has its own monotonic clock
inline thread_local int64_t g_us = 1000000;
namespace std::chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_us * 1000)); } } }
namespace act {
using ref::Bytes; using js::Value; using js::Res; using namespace freewebrtc;
inline std::string N(int64_t v) { return std::to_string(v); }
struct Actor { virtual ~Actor() = default; virtual std::string op(int i) = 0; };
inline std::string key_of(int v) { return v ? std::string(20, 'k') + std::string(size_t(50 + v), char('a' + v)) : "short"; }
inline std::string ip_of(int v) { return v == 0 ? "192.0.2.1" : v == 1 ? "192.0.2.11" : "2001:db8::1"; }
inline Bytes id_of(int v) { return Bytes(12, uint8_t(7 + v)); }
struct Parser : Actor {
    int v; craftnapi::Env env; Value kept = js::undefined(); explicit Parser(int v) : v(v) {}
    std::string op(int i) override {
        ref::Enc e(ref::msg_type(unsigned(i % 4), 1), id_of(v)); e.str(6, "user" + N(v)).str(0x8022, std::string(size_t(3 * v + i), 's')).xaddr(ref::Addr{v == 2, Bytes(v == 2 ? 16 : 4, uint8_t(v)), uint16_t(80 + v)}, id_of(v)); if (i % 3 == 1) e.error(400 + unsigned(v), "e" + N(v)); if (i % 3 == 2) e.mi(lib::key(key_of(v))).fp(); if (i % 5 == 4) e.b.resize(19 + size_t(v));
        std::string was = js::text(kept); Value in = js::buf(e.b); Res r = node_stun::message_parse(env, js::info(js::undefined(), {in})); js::scribble(in); std::string s = was + " | " + js::text(kept) + " | " + js::show(r); if (r.is_ok()) kept = r.unwrap(); return s;
    }
};
struct Server : Actor {
    int v; craftnapi::Env env; js::Class k; Value o = js::obj({}), kept = js::undefined();
    explicit Server(int v) : v(v), k(node_stun::server_stateless_class(env, "Server")) { (void)k.construct(env, o, {}); (void)k.call(env, o, "addUser", {js::str("user"), js::str(key_of(v))}); }
    std::string op(int i) override {
        ref::Enc e(ref::msg_type(i % 6 == 5 ? 1 : 0, 1), id_of(v)); if (i % 3 != 2) e.str(6, i % 7 == 3 ? "user" + N(v) : "user").mi(lib::key(key_of(i % 4 == 1 ? v + 1 : v))); else if (i % 2) e.word(uint16_t(0x7000 + v), 1);
        if (i == 4) (void)k.call(env, o, "addUser", {js::str("user" + N(v)), js::str(key_of(v))});
        std::string was = js::text(kept); Value in = js::buf(e.b); Res r = k.call(env, o, "process", {in, js::obj({{"address", js::str(ip_of((v + i) % 3))}, {"port", js::num(8000 + v)}})}); js::scribble(in); std::string s = was + " | " + js::text(kept) + " | " + js::show(r); if (r.is_ok()) kept = r.unwrap(); return s;
    }
};
struct Client : Actor {   // ids and handles are the client's own affair: left out
    int v; craftnapi::Env env; js::Class k; Value o = js::obj({}); int64_t at, sleep = 0; Bytes last; std::vector<std::pair<Value, std::string>> kept;
    explicit Client(int v) : v(v), k(node_stun::client_udp_class(env, "Client")), at(1000000 + 777 * v) { (void)k.construct(env, o, {v == 2 ? js::obj({{"use_fingerprint", js::boolean(false)}}) : js::obj({})}); }
    std::string poll() {
        std::string s; for (int i = 0; i < 9; ++i) {
            Res r = k.call(env, o, "next", {}); if (r.is_err()) return s + " " + js::show(r); Value e = r.unwrap(); kept.push_back({e, js::text(e)}); std::string t = js::get(e, "type").data()->s;
            if (t == "send_data") { last = js::bytes(js::get(e, "message")); auto p = ref::parse(last); s += " send" + N(p.ok) + N(int64_t(last.size())) + p.m.username.value_or("-") + N(p.m.integrity_at && ref::integrity(last, p.m, lib::key(key_of(v))).value_or(false)) + N(bool(p.m.fingerprint)); }
            else { Value x = e; if (t == "sleep") sleep = int64_t(js::get(e, "timeout_ms").data()->n) * 1000; else s += " " + js::text(js::get(e, "result")) + js::text(js::get(e, "reason")) + js::text(js::get(e, "rtt_us")); s += " " + t; if (t == "sleep" || t == "idle") return s + N(sleep); } }
        return s + " ...";
    }
    std::string create() { Value r = js::obj({{"source", js::str(ip_of(0))}, {"target", js::str(ip_of(v))}}); if (v) r.data()->props["auth"] = js::obj({{"username", js::str("user" + N(v))}, {"password", js::str(key_of(v))}}).data(); Res h = k.call(env, o, "create", {r}); return h.is_ok() ? "created" : js::show(h); }
    std::string answer(bool bad) { if (last.size() < 20) return "-"; Bytes id(last.begin() + 8, last.begin() + 20); ref::Enc e(ref::msg_type(bad ? 3 : 2, 1), id); if (bad) e.error(500, "no"); else e.xaddr(ref::Addr{v == 2, Bytes(v == 2 ? 16 : 4, uint8_t(v)), uint16_t(80 + v)}, id); if (v) e.mi(lib::key(key_of(v))); Value in = js::buf(e.b); Res r = k.call(env, o, "response", {in}); js::scribble(in); return r.is_ok() ? "taken" : js::show(r); }
    std::string op(int i) override {
        g_us = at; std::string s; switch (i % 6) { case 0: s = create() + poll(); break; case 1: at += sleep; g_us = at; s = poll(); break; case 2: at += 12345 + 100 * v; g_us = at; s = answer(v == 1) + poll(); break; case 3: s = create() + create() + poll(); break; case 4: s = answer(false) + poll(); break; default: at += sleep; g_us = at; s = poll(); }
        for (auto& [x, t] : kept) if (js::text(x) != t) s += " (an earlier effect changed)"; return s;
    }
};
struct Ice : Actor {
    int v; craftnapi::Env env; Value kept = js::undefined(); explicit Ice(int v) : v(v) {}
    std::string op(int i) override {
        static const char* const K[] = {"host", "srflx", "relay"}; std::string l = "candidate:f" + N(v * 7) + " " + N(v + 1) + (i % 4 == 3 ? " tcp " : " udp ") + N(100 + i) + " " + ip_of((v + i) % 3) + " " + N(9 + v) + " typ " + K[v] + (i % 3 ? " raddr " + ip_of(v) + " rport " + N(i) : "") + " gen" + N(v) + " " + N(i); if (i % 5 == 4) l += " odd";
        std::string was = js::text(kept); Res r = node_ice::ice_candidate_parse(env, js::info(js::undefined(), {js::str(l)})); std::string s = was + " | " + js::text(kept) + " | " + js::show(r); if (r.is_ok()) kept = r.unwrap(); return s;
    }
};
struct Hash : Actor {
    int v; explicit Hash(int v) : v(v) {}
    std::string op(int i) override {
        Bytes d(size_t(30 + 400 * v + i), uint8_t(v + i)); std::vector<lib::View> p; for (int k = 0; k < 3 + v; ++k) p.push_back(lib::view(d)); bool md = (i + v) % 2; std::string s;
        if (md) { auto r = crypto::node_openssl::md5(p); if (r.is_err()) return "error"; for (auto b : r.unwrap().value()) s += N(b) + " "; } else { auto r = crypto::node_openssl::sha1(p); if (r.is_err()) return "error"; for (auto b : r.unwrap().value()) s += N(b) + " "; } return s;
    }
};
constexpr int KINDS = 5, VARIANTS = 3;
inline const char* kind_name(int k) { static const char* n[] = {"message parser", "server object", "client object", "candidate parser", "hash functions"}; return n[k]; }
inline std::unique_ptr<Actor> make(int k, int v) { switch (k) { case 0: return std::make_unique<Parser>(v); case 1: return std::make_unique<Server>(v); case 2: return std::make_unique<Client>(v); case 3: return std::make_unique<Ice>(v); default: return std::make_unique<Hash>(v); } }
inline std::vector<std::string> solo(int k, int v, int n) { auto a = make(k, v); std::vector<std::string> r; for (int i = 0; i < n; ++i) r.push_back(a->op(i)); return r; }
}
