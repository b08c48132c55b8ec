// What stays allocated after each history of calls (C10, U10).
// DEPS: src/stun src/rtp src/ice src/crypto src/net src/util node/node_stun node/node_ice node/openssl
// INCS: .
// SAN: no
// LIBS: -lcrypto -ldl
#include <chrono>
#include <cstdlib>
#include <new>
// ---- blocks allocated while the code under test runs and still not freed
namespace mem { inline thread_local int inside = 0; inline thread_local long blocks = 0; struct In { In() { ++inside; } ~In() { --inside; } }; }
static void* mem_new(size_t n) { void* p = std::malloc(n + 16); if (!p) abort(); *static_cast<long*>(p) = mem::inside ? 1 : 0; mem::blocks += mem::inside ? 1 : 0; return static_cast<char*>(p) + 16; }
static void mem_del(void* q) noexcept { if (!q) return; void* p = static_cast<char*>(q) - 16; mem::blocks -= *static_cast<long*>(p); std::free(p); }
void* operator new(size_t n) { return mem_new(n); } void* operator new[](size_t n) { return mem_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return mem_new(n); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return mem_new(n); }
void operator delete(void* p) noexcept { mem_del(p); } void operator delete[](void* p) noexcept { mem_del(p); } void operator delete(void* p, size_t) noexcept { mem_del(p); } void operator delete[](void* p, size_t) noexcept { mem_del(p); }
#include "actors_node.hpp"
#include "simclient.hpp"
#include "faultssl.hpp"
#include "stun/stun_server_stateless.hpp"
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "net/net_fqdn.hpp"
#include "util/util_intrusive_list.hpp"
using namespace sim;
struct Mark { long b = mem::blocks, x = fault::live; bool operator==(const Mark&) const = default; };
static std::string str(const Mark& a, const Mark& b) { return N(a.b) + " blocks and " + N(a.x) + " digest contexts before, " + N(b.b) + " and " + N(b.x) + " after"; }
// fn run again and again must not hold more and more
template<class F> static void steady(vh::Ctx& c, const char* key, int rounds, F fn, const std::function<std::string()>& what, bool* live = nullptr) {
    std::vector<Mark> m; for (int i = 0; i < 3 * rounds; ++i) { fn(i); m.push_back(Mark{}); if (live && *live) return; }
    Mark a = m[size_t(rounds) - 1], b = m[2 * size_t(rounds) - 1], d = m.back(); c.state(vh::mix(uint64_t(d.b), c.prefix_hash())); c.outcome(uint64_t(d.b)); c.sample([&] { return what() + ": " + str(a, d); });
    c.require(!(b.b - a.b >= rounds && d.b - b.b >= rounds) && !(d.x - b.x >= rounds && b.x - a.x >= rounds), key, [&] { return what() + ": memory held grows with every repetition: " + str(a, b) + " " + N(rounds) + " repetitions, " + N(d.b) + " and " + N(d.x) + " after as many again"; });
}
// ---------------------------------------------------------------- C10
struct MClient {
    ClientUDP cl; Rng rng; int64_t t = 0; int fresh = 0; std::vector<Bytes> ids; bool auth_last = false; int effects = 0;
    explicit MClient(const Conf& k) : cl([&] { return settings(k); }()) {}
    clock::Timepoint now() const { return clock::Timepoint::epoch().advance(us(t)); }
    void create(int p, bool auth) {
        ref::Addr s{false, {192, 168, 0, 1}, 0}, d{false, {10, 0, 0, uint8_t(2 + p)}, 0}; if (p < 0) { ++fresh; d.b = {11, uint8_t(fresh >> 16), uint8_t(fresh >> 8), uint8_t(fresh)}; }
        mem::In in; ClientUDP::Request q{net::Path{lib::addr(s), lib::addr(d)}, {}, {}, none()}; if (auth) q.maybe_auth = ClientUDP::Auth{precis::OpaqueString{"some user name that is not short"}, lib::integrity("key").unwrap()}; (void)cl.create(rng, now(), std::move(q)); auth_last = auth;
    }
    bool poll() {   // returns whether idle
        for (int i = 0; i < 4000; ++i) { bool more = false, idle = false; Bytes b; { mem::In in; auto e = cl.next(now()); if (auto* x = std::get_if<ClientUDP::SendData>(&e)) { more = true; b = Bytes(x->message_view.begin(), x->message_view.end()); } else if (std::get_if<ClientUDP::Idle>(&e)) idle = true; else if (!std::get_if<ClientUDP::Sleep>(&e)) more = true; }
            if (b.size() >= 20) { Bytes id(b.begin() + 8, b.begin() + 20); if (std::find(ids.begin(), ids.end(), id) == ids.end()) ids.push_back(id); } if (!more) return idle; ++effects; } return false;
    }
    void respond(const Bytes& b) { lib::Exact x(b); mem::In in; (void)cl.response(now(), x.view()); }
    Bytes answer(const Bytes& id, int code, bool damage = false) { ref::Enc e(ref::msg_type(code == 200 ? 2 : 3, 1), id); if (code == 200) e.xaddr(ref::Addr{false, {1, 2, 3, 4}, 5}, id); else e.error(unsigned(code), "a reason phrase longer than a small string"); if (code == 300) e.attr(0x8023, {0, 1, 0, 9, 1, 2, 3, 4}); if (auth_last) { e.mi(lib::key("key")); if (damage) e.b[e.b.size() - 3] ^= 1; } else if (damage) e.b[1] ^= 0x40; return e.b; }
    void settle() { for (int i = 0; i < 400 && !poll(); ++i) t += 5 * SEC; ids.clear(); }
};
static void client_growth(vh::Ctx& c, const Conf& k, const std::vector<int>& ops, const std::function<std::string()>& what) {
    MClient m(k); bool idle = true;
    steady(c, "client-grows", 4, [&](int) {
        for (int op : ops) { const Bytes id = m.ids.empty() ? Bytes(12, 9) : op == 4 ? m.ids.front() : m.ids.back(); c.step();
            switch (op) { case 0: m.create(0, false); m.poll(); break; case 1: m.create(1, true); break; case 2: m.create(-1, false); m.poll(); break; case 3: case 4: m.respond(m.answer(id, 200)); break; case 5: m.respond(m.answer(id, 401)); m.poll(); break; case 6: m.respond(m.answer(id, 500)); break; case 7: m.respond(m.answer(id, 200, true)); break;
            case 8: m.t += 40 * MS; m.poll(); break; case 9: m.t += 640 * MS; m.poll(); break; case 10: m.respond(m.answer(id, 300)); m.respond(m.answer(id, 200)); break; case 11: m.create(-1, true); m.poll(); break; } }
        m.settle(); idle = idle && m.poll(); m.t += 20 * SEC;
    }, what);
    c.require(idle, "never-idle", [&] { return what() + ": the client never becomes idle"; }); c.trace();
}
VH_SECTION("memory: every script of client calls, repeated", "C10") {
    Conf k; k.rto = 300 * MS; k.rc = 3; k.rm = 2; k.history = 10 * SEC; uint32_t v = c.choose(3); if (v == 1) k.delay5 = 100 * MS; if (v == 2) k.fp = false, k.hash = 1, k.history = 1000 * SEC; uint32_t n = vh::thorough() ? 5 : 4; std::vector<int> ops; static const char* NAME[] = {"create", "create-auth", "create-new-path", "ok", "ok-first", "401", "500", "damaged", "wait40", "wait640", "300", "create-auth-new-path"};
    for (uint32_t i = 0; i < n; ++i) { int op = int(c.choose(12)); if (v == 2 && (op == 2 || op == 11)) return; ops.push_back(op); } client_growth(c, k, ops, [&] { std::string s = "script of"; for (int o : ops) s += std::string(" ") + NAME[o]; return s + " (settings " + N(v) + ")"; });
}
// repeat: create n requests (auth as told), answer each with datagrams given by f(id, request number), run until idle
template<class F> static void ended(vh::Ctx& c, const Conf& k, int n, bool auth, bool fresh, F f, const std::function<std::string()>& what) {
    MClient m(k); bool idle = true; steady(c, "client-grows", 3, [&](int) { for (int i = 0; i < n; ++i) m.create(fresh ? -1 : i % 3, auth); m.poll(); auto ids = m.ids; for (size_t i = 0; i < ids.size(); ++i) for (const Bytes& b : f(ids[i], int(i))) { c.step(); m.t += 2 * MS; m.respond(b); } m.settle(); idle = idle && m.poll(); m.t += 20 * SEC; }, what);
    c.require(idle, "never-idle", [&] { return what() + ": the client never becomes idle"; }); c.trace();
}
VH_SECTION("memory: every answer, alone and before another, repeated", "C10") {
    Conf k; k.rto = 300 * MS; k.rc = 3; k.history = 10 * SEC; if (c.choose(2)) k.delay5 = 100 * MS; bool auth = c.choose(2), fresh = c.choose(2), fp = c.choose(2); static const std::vector<std::string> KEYS{"key", "", "bad"}; std::string k1 = c.pick(KEYS); int a = int(c.choose(A_KINDS)), b = int(c.choose(A_KINDS + 1)); k.fp = fp;
    ended(c, k, 1, auth, fresh, [&](const Bytes& id, int) { std::vector<Bytes> v{answer(id, a, k1, fp)}; if (b < A_KINDS) v.push_back(answer(id, b, auth ? "key" : "", fp)); return v; }, [&] { return "answer " + N(a) + " under key '" + k1 + "'" + (b < A_KINDS ? " and then " + N(b) : std::string()) + (auth ? ", authenticated" : "") + (fresh ? ", always a new path" : ""); });
}
VH_SECTION("memory: every error code with every attribute, repeated", "C10") {
    Conf k; k.rto = 300 * MS; k.rc = 3; k.history = 10 * SEC; uint32_t code = 300 + c.choose(400), at = c.choose(8); bool auth = c.choose(2); 
    ended(c, k, 2, auth, false, [&](const Bytes& id, int) { ref::Enc e(ref::msg_type(3, 1), id); e.error(code, at & 1 ? "a reason phrase longer than a small string" : ""); if (at & 2) e.attr(0xa, {0x70, 1, 0x70, 2, 0x70, 3, 0x70, 4}); if (at & 4) e.attr(0x8023, {0, 1, 0, 9, 1, 2, 3, 4}); if (auth) e.mi(lib::key("key")); return std::vector<Bytes>{e.b}; }, [&] { return "error " + N(code) + " with attributes " + N(at) + (auth ? ", authenticated" : ""); });
}
VH_SECTION("memory: many requests at once, repeated", "C10") {
    static const std::vector<int> NS{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100}; int n = c.pick(NS); uint32_t how = c.choose(8); bool auth = c.choose(2), fresh = c.choose(2); Conf k; k.rto = 300 * MS; k.rc = 3; k.history = 10 * SEC; k.delay5 = 50 * MS;
    ended(c, k, n, auth, fresh, [&](const Bytes& id, int i) { std::vector<Bytes> v; std::string key = auth ? "key" : ""; switch (how) { case 0: break; case 1: v.push_back(answer(id, A_OK, key)); break; case 2: if (i & 1) v.push_back(answer(id, A_OK, key)); break; case 3: v.push_back(answer(id, i % 3 ? A_401 : A_420, key)); break; case 4: v.push_back(answer(id, A_500, key)); if (i % 4) v.push_back(answer(id, A_OK, key)); break; case 5: v.push_back(answer(id, i % A_KINDS, key)); break; case 6: v.push_back(answer(id, A_OK, "bad")); v.push_back(answer(id, A_OK, key)); v.push_back(answer(id, A_401, key)); break; case 7: for (int j = 0; j < 6; ++j) v.push_back(answer(id, A_500, key)); break; } return v; }, [&] { return N(n) + " requests at once, ending " + N(how) + (auth ? ", authenticated" : "") + (fresh ? ", always new paths" : ""); });
}
VH_SECTION("memory: a client and all its results gone", "C10") {   // everything is given back whatever was going on
    uint32_t n = vh::thorough() ? 5 : 4; Conf k; k.rto = 300 * MS; k.rc = 3; k.delay5 = 100 * MS; std::vector<int> ops; for (uint32_t i = 0; i < n; ++i) ops.push_back(int(c.choose(9))); auto run = [&] { std::optional<MClient> m; { mem::In in; m.emplace(k); }
        for (int op : ops) { Bytes id = m->ids.empty() ? Bytes(12, 9) : m->ids.back(); c.step(); switch (op) { case 0: m->create(0, false); break; case 1: m->create(-1, true); break; case 2: m->poll(); break; case 3: m->respond(m->answer(id, 200)); break; case 4: m->respond(m->answer(id, 401)); break; case 5: m->respond(m->answer(id, 500)); break; case 6: m->respond(m->answer(id, 200, true)); break; case 7: m->t += 640 * MS; break; case 8: m->create(0, true); m->poll(); break; } } { mem::In in; m.reset(); } };
    run(); Mark a; run(); Mark b; c.require(a == b, "client-leaks", [&] { std::string s; for (int o : ops) s += " " + N(o); return "a client destroyed after the calls" + s + " leaves memory behind: " + str(a, b); }); c.trace(); c.state(c.prefix_hash());
}
// ---------------------------------------------------------------- U10
static std::vector<Bytes> datagrams() {
    std::vector<Bytes> v; Bytes id(12, 7), cl{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}; auto add = [&](const ref::Enc& e) { v.push_back(e.b); }; std::string lng(200, 'u');
    { ref::Enc e(1, id); add(e); } { ref::Enc e(1, cl, false); add(e); } { ref::Enc e(1, id); e.str(6, "a user with a long name indeed").mi(lib::key("key")).fp(); add(e); } { ref::Enc e(1, id); e.str(6, "a user with a long name indeed").mi(lib::key("kez")); add(e); } { ref::Enc e(1, id); e.str(6, lng).mi(lib::key("key")); add(e); }
    { ref::Enc e(1, id); e.word(0x7001, 1).word(0x7002, 2).str(0x8022, lng); add(e); } { ref::Enc e(0x101, id); e.xaddr(ref::Addr{true, Bytes(16, 3), 9}, id).str(0x8022, lng).fp(); add(e); } { ref::Enc e(0x111, id); e.error(420, lng).attr(0xa, {0x70, 1, 0x70, 2}).attr(0x8023, {0, 1, 0, 9, 1, 2, 3, 4}); add(e); } { ref::Enc e(0x11, id); e.quad(0x8029, 7).quad(0x802a, 8).attr(0x25, {}).word(0x24, 9).attr(0xc000, Bytes(99, 1)).attr(0x7fff, Bytes(40, 2)); add(e); }
    { ref::Enc e(1, id); e.fp(); e.b.back() ^= 1; add(e); } { ref::Enc e(0xfff & 0x3eef, id); add(e); } v.push_back({}); v.push_back(Bytes(19, 0)); return v;
}
static const std::vector<Bytes>& DG() { static const auto v = datagrams(); return v; }
VH_SECTION("memory: every sequence of datagrams to a server, repeated", "U10") {
    bool node = c.flag(); uint32_t n = vh::thorough() ? 4 : 3; std::vector<size_t> seq; for (uint32_t i = 0; i < n; ++i) seq.push_back(c.choose(DG().size())); auto what = [&] { std::string s = node ? "Node server: datagrams" : "server: datagrams"; for (auto i : seq) s += " " + N(int64_t(i)); return s; };
    if (!node) { stun::server::Stateless s(crypto::openssl::sha1, {}); s.add_user(precis::OpaqueString{"a user with a long name indeed"}, stun::Password::short_term(precis::OpaqueString{"key"}, crypto::openssl::sha1).unwrap()); steady(c, "server-grows", 3, [&](int r) { for (auto i : seq) { ref::Addr a{bool(r & 1), Bytes(r & 1 ? 16 : 4, uint8_t(r)), uint16_t(1000 + r)}; lib::Exact x(DG()[i]); c.step(); mem::In in; auto g = s.process(net::Endpoint(net::UdpEndpoint{lib::addr(a), lib::port(a.port)}), x.view()); if (auto* p = std::get_if<stun::server::Stateless::Respond>(&g)) (void)p->response.build(p->maybe_integrity); } }, what); }
    else { craftnapi::Env env; js::Class k(node_stun::server_stateless_class(env, "S")); js::Value o = js::obj({}); (void)k.construct(env, o, {}); (void)k.call(env, o, "addUser", {js::str("a user with a long name indeed"), js::str("key")}); steady(c, "server-grows", 3, [&](int r) { for (auto i : seq) { c.step(); mem::In in; (void)k.call(env, o, "process", {js::buf(DG()[i]), js::obj({{"address", js::str(r & 1 ? "2001:db8::" + N(r) : "10.0.0." + N(r))}, {"port", js::num(1000 + r)}})}); } }, what); }
    c.trace();
}
// one call with all its results dropped holds nothing
template<class F> static void gone(vh::Ctx& c, const char* key, F fn, const std::function<std::string()>& what) { { mem::In in; fn(); } c.step(); Mark a; { mem::In in; fn(); } Mark b; { mem::In in; fn(); } Mark d; c.trace(); c.require(!(b.b > a.b && d.b > b.b) && !(b.x > a.x && d.x > b.x), key, [&] { return what() + ": memory is left behind by every call: " + str(a, b); }); }
VH_SECTION("memory: every datagram, every cut, every changed byte", "U10") {
    size_t i = c.choose(DG().size()); Bytes b = DG()[i]; uint32_t how = c.choose(3); if (b.empty() && how) return; if (how == 1) b.resize(c.choose(uint32_t(b.size()))); if (how == 2) { size_t p = c.choose(uint32_t(b.size())); static const uint8_t X[] = {1, 0x80, 0xff, 0x40}; b[p] ^= X[c.choose(4)]; } uint32_t who = c.choose(2); c.state(vh::hash_bytes(b.data(), b.size(), who));
    if (!who) { stun::ParseStat st; gone(c, "parser-leaks", [&] { auto r = stun::Message::parse(lib::view(b), st); if (r.is_ok()) { auto m = std::move(r).unwrap(); (void)m.is_valid(lib::view(b), lib::integrity("key").unwrap()); (void)m.build(lib::integrity("key")); (void)m.build(none()); } }, [&] { return "datagram " + vh::hex(b); }); }
    else { craftnapi::Env env; gone(c, "parser-leaks", [&] { auto v = js::buf(b); (void)node_stun::message_parse(env, js::info(js::undefined(), {v})); }, [&] { return "Node parser, datagram " + vh::hex(b); }); }
}
VH_SECTION("memory: every cut and changed character of texts", "U10") {
    static const std::vector<std::string> T{"candidate:1 1 UDP 2130706431 a.name.that.is.not.short.example.org 9 typ srflx raddr 2001:db8::1 rport 7 a-long-extension-name with-a-long-extension-value b c", "candidate:2 1 udp 99 192.0.2.1 80 typ host", "2001:db8:1:2:3:4:5:6", "192.168.100.200", "a.name.that.is.not.short.example.org"};
    std::string s = c.pick(T); uint32_t how = c.choose(2); size_t p = c.choose(uint32_t(s.size())); if (how == 0) s = s.substr(0, p); else s[p] = " :.-/x"[c.choose(6)]; craftnapi::Env env; c.state(vh::hash_str(s));
    gone(c, "text-leaks", [&] { (void)ice::candidate::parse_sdp_attr(s); (void)net::ip::Address::from_string(s); (void)net::Fqdn::from_string(s); (void)node_ice::ice_candidate_parse(env, js::info(js::undefined(), {js::str(s)})); }, [&] { return "text " + vh::jesc(s); });
}
VH_SECTION("memory: RTP packets of every shape and cut", "U10") {
    uint32_t cc = c.choose(16), x = c.choose(4), pad = c.choose(2), n = c.choose(12 + 15 * 4 + 24); rtp::PayloadMap map{{rtp::PayloadType::from_uint8(96).unwrap(), rtp::PayloadMapItem{rtp::ClockRate{8000}}}}; Bytes b(n, 2); if (n) b[0] = uint8_t(0x80 | pad << 5 | (x ? 0x10 : 0) | cc); if (n > 1) b[1] = 96; size_t at = 12 + cc * 4; if (x && at + 3 < n) { b[at + 2] = 0; b[at + 3] = uint8_t(x - 1); } rtp::ParseStat st; c.state(c.prefix_hash());
    gone(c, "rtp-leaks", [&] { (void)rtp::Packet::parse(lib::view(b), map, st); }, [&] { return "RTP packet " + vh::hex(b); });
}
VH_SECTION("memory: hashing, whatever call of the library fails", "U10") {
    uint32_t pieces = c.choose(4), at = c.choose(9), which = c.choose(7); bool quiet = c.flag(); std::vector<Bytes> d; for (uint32_t i = 0; i < pieces; ++i) d.push_back(Bytes(30 * i, 3)); std::vector<lib::View> v; for (auto& b : d) v.push_back(lib::view(b)); c.state(c.prefix_hash());
    gone(c, "hash-leaks", [&] { fault::arm(at ? int(at) - 1 : -1, quiet); switch (which) { case 0: (void)crypto::openssl::sha1(v); break; case 1: (void)crypto::openssl::md5(v); break; case 2: (void)crypto::node_openssl::sha1(v); break; case 3: (void)crypto::node_openssl::md5(v); break; case 4: (void)stun::Password::short_term(precis::OpaqueString{std::string(80, 'p')}, crypto::openssl::sha1); break; case 5: { auto m = stun::Message::parse(lib::view(DG()[2]), *std::make_unique<stun::ParseStat>()); if (m.is_ok()) { auto k = lib::integrity("key"); (void)m.unwrap().is_valid(lib::view(DG()[2]), k.unwrap()); } break; }
        case 6: { auto k = stun::Password::short_term(precis::OpaqueString{"key"}, crypto::openssl::sha1); if (k.is_ok()) { crypto::SHA1Hash::Func f = crypto::openssl::sha1; (void)crypto::hmac::digest(v, k.unwrap().opad(), k.unwrap().ipad(), f); } break; } } fault::disarm(); }, [&] { return "hash " + N(which) + " of " + N(pieces) + " pieces, failing call " + N(int(at) - 1); });
}
VH_SECTION("memory: Node client scripts, repeated", "U10") {
    int v = int(c.choose(3)), shift = int(c.choose(6)); uint32_t mask = c.choose(64); std::unique_ptr<act::Client> a; { mem::In in; a = std::make_unique<act::Client>(v); } bool live = false;
    steady(c, "node-client-grows", 3, [&](int) { for (int i = 0; i < 6; ++i) { if (mask >> i & 1) continue; { mem::In in; (void)a->op(i + shift); a->kept.clear(); } c.step(); } bool idle = false; for (int i = 0; i < 200 && !idle; ++i) { a->at += 600000000; g_us = a->at; mem::In in; idle = a->poll().find(" idle") != std::string::npos; a->kept.clear(); } a->kept.shrink_to_fit(); a->last.clear(); a->last.shrink_to_fit(); if (!idle) a->at += 4000000000;   // a path whose interval has been doubled for ever: still live, not judged
        live = live || !idle; }, [&] { return "Node client script " + N(mask) + " of variant " + N(v) + " from " + N(shift); }, &live); c.outcome(live); c.trace();
}
