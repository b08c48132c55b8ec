// How much work a call does (U11): basic blocks executed, bytes copied, hashed
// and allocated, over inputs and histories of doubling sizes.
// DEPS: src/stun src/rtp src/ice src/crypto src/net src/util node/node_stun node/node_ice node/openssl
// INCS: .
// SAN: no
// FLAGS: -fsanitize-coverage=trace-pc -fno-builtin
// LIBS: -lcrypto -ldl
#include <chrono>
#include <cstdlib>
#include <cstdint>
#include <cstddef>
#include <new>
#define QUIET __attribute__((no_sanitize_coverage))
namespace work { inline thread_local uint64_t n = 0; inline thread_local int inside = 0; struct In { In() { ++inside; } ~In() { --inside; } }; QUIET inline void add(uint64_t x) { if (inside) n += x; } }
extern "C" { void* vw_copy(void*, const void*, size_t) __asm__("memcpy"); void* vw_move(void*, const void*, size_t) __asm__("memmove"); void* vw_set(void*, int, size_t) __asm__("memset"); int vw_cmp(const void*, const void*, size_t) __asm__("memcmp"); void* vw_chr(const void*, int, size_t) __asm__("memchr"); size_t vw_len(const char*) __asm__("strlen"); void __sanitizer_cov_trace_pc(); }
extern "C" {
QUIET void __sanitizer_cov_trace_pc() { if (work::inside) ++work::n; }
QUIET void* vw_copy(void* d, const void* s, size_t n) { work::add(n / 16); void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
QUIET void* vw_move(void* d, const void* s, size_t n) { if (size_t((const char*)d - (const char*)s) >= n) return vw_copy(d, s, n); work::add(n / 16); void* r = d; char* e = (char*)d + n - 1; const char* f = (const char*)s + n - 1; asm volatile("std; rep movsb; cld" : "+D"(e), "+S"(f), "+c"(n) : : "memory"); return r; }
QUIET void* vw_set(void* d, int v, size_t n) { work::add(n / 16); void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r; }
QUIET int vw_cmp(const void* a, const void* b, size_t n) { const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b; size_t i = 0; while (i < n && p[i] == q[i]) { ++i; asm volatile(""); } work::add(i / 16); return i == n ? 0 : p[i] < q[i] ? -1 : 1; }
QUIET void* vw_chr(const void* a, int v, size_t n) { const unsigned char* p = (const unsigned char*)a; size_t i = 0; while (i < n && p[i] != (unsigned char)v) { ++i; asm volatile(""); } work::add(i / 16); return i == n ? nullptr : (void*)(p + i); }
QUIET size_t vw_len(const char* s) { size_t i = 0; while (s[i]) { ++i; asm volatile(""); } work::add(i / 16); return i; }
}
QUIET static void* take(size_t n) { work::add(4 + n / 64); void* p = std::malloc(n); if (!p) abort(); return p; }
QUIET void* operator new(size_t n) { return take(n); } QUIET void* operator new[](size_t n) { return take(n); }
QUIET void operator delete(void* p) noexcept { work::add(2); std::free(p); } QUIET void operator delete[](void* p) noexcept { work::add(2); std::free(p); } QUIET void operator delete(void* p, size_t) noexcept { work::add(2); std::free(p); } QUIET void operator delete[](void* p, size_t) noexcept { work::add(2); std::free(p); }
#include "actors_node.hpp"
#include "simclient.hpp"
#include "stun/stun_server_stateless.hpp"
#include "stun/details/stun_fingerprint.hpp"
#include "rtp/rtp_packet.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "ice/candidate/ice_candidate_sdp.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "crypto/crypto_hmac.hpp"
#include "net/net_fqdn.hpp"
#include "util/util_intrusive_list.hpp"
#include "util/util_token_stream.hpp"
#include "util/util_string_view.hpp"
#include <dlfcn.h>
#include <openssl/evp.h>
extern "C" QUIET int EVP_DigestUpdate(EVP_MD_CTX* x, const void* d, size_t n) { static auto f = reinterpret_cast<int (*)(EVP_MD_CTX*, const void*, size_t)>(dlsym(RTLD_NEXT, "EVP_DigestUpdate")); work::add(8 + n / 4); int k = work::inside; work::inside = 0; int r = f(x, d, n); work::inside = k; return r; }
using namespace sim; using Stateless = stun::server::Stateless;
template<class F> static uint64_t cost(F&& f) { uint64_t b = work::n; { work::In in; f(); } return work::n - b; }
static double most_ratio = 0;
// The work of a call over inputs or histories of growing size. In proportion:
// no point is more than four times (six times, for the points themselves as
// they come) what the cheap half (the first four) says.
struct Curve {
    vh::Ctx& c; const char* key; std::function<std::string()> what; std::vector<std::pair<size_t, uint64_t>> p;
    Curve(vh::Ctx& x, const char* k, std::function<std::string()> w) : c(x), key(k), what(std::move(w)) {}
    std::string show() const { std::string s; for (auto& [n, w] : p) s += " " + N(int64_t(n)) + ":" + N(int64_t(w)); return s; }
    void judge(size_t cheap, double factor, size_t from) const {
        double slope = 0, base = 0; for (size_t i = 0; i < cheap; ++i) { base = std::max(base, double(p[i].second)); if (i) slope = std::max(slope, (double(p[i].second) - double(p[i - 1].second)) / double(p[i].first - p[i - 1].first)); }
        for (size_t i = from; i < p.size(); ++i) { auto [n, w] = p[i]; double most = factor * (base + 100 + slope * double(n)); most_ratio = std::max(most_ratio, double(w) / most); c.require(double(w) <= most, key, [&] { return what() + ": the work grows out of proportion: size " + N(int64_t(p[i].first)) + " takes " + N(int64_t(p[i].second)) + " steps, in proportion it would be about " + N(int64_t(most / factor)) + " (size:steps" + show() + ")"; }); }
    }
    void add(size_t n, uint64_t w) { p.push_back({n, w}); if (p.size() > 4) judge(4, 6, p.size() - 1); }
    // For one operation on a state of growing size: at most four times the work of the small states.
    void flat() const { c.trace(); c.state(c.prefix_hash()); c.sample([&] { return what() + ":" + show(); }); uint64_t base = 0; for (size_t i = 0; i < p.size() && i < 3; ++i) base = std::max(base, p[i].second); for (auto& [n, w] : p) c.require(w <= 4 * (base + 50), key, [&, n = n, w = w] { return what() + ": the work grows with what is there already: with " + N(int64_t(n)) + " it takes " + N(int64_t(w)) + " steps (number:steps" + show() + ")"; }); c.outcome(p.back().second * 4 / (base + 1)); }
    void done() const { c.trace(); c.state(c.prefix_hash()); c.sample([&] { return what() + ":" + show(); }); if (p.size() < 5) return; judge(p.size() / 2, 4, 0); c.outcome(uint64_t(double(p.back().second) / double(p[p.size() / 2 - 1].second + 1))); }
};
// ---------------------------------------------------------------- datagrams
static Bytes tid() { Bytes b(12); for (int i = 0; i < 12; ++i) b[size_t(i)] = uint8_t(i * 29 + 3); return b; }
static Bytes tid_classic() { Bytes b(16); for (int i = 0; i < 16; ++i) b[size_t(i)] = uint8_t(i * 13 + 5); return b; }
struct Pump { const char* name; unsigned type; Bytes value; bool vary; };
static const std::vector<Pump>& pumps() {
    static const std::vector<Pump> v{{"empty optional unknown attributes", 0xc001, {}, false}, {"empty required unknown attributes", 0x7001, {}, false}, {"distinct optional unknown attributes", 0xc000, {1}, true}, {"distinct required unknown attributes", 0x7000, {}, true}, {"unknown attributes of 40 bytes", 0x7002, Bytes(40, 7), false}, {"user names", 6, {'b', 'o', 'b'}, false}, {"empty user names", 6, {}, false}, {"software", 0x8022, {'s'}, false}, {"mapped addresses", 1, {0, 1, 0, 9, 1, 2, 3, 4}, false}, {"XOR-mapped addresses", 0x20, {0, 1, 0, 9, 1, 2, 3, 4}, false}, {"XOR-mapped IPv6 addresses", 0x20, {0, 2, 0, 9, 1, 2, 3, 4, 5, 6, 7, 8, 1, 2, 3, 4, 5, 6, 7, 8}, false}, {"alternate servers", 0x8023, {0, 1, 0, 9, 1, 2, 3, 4}, false}, {"priorities", 0x24, {1, 2, 3, 4}, false}, {"controlling", 0x802a, Bytes(8, 1), false}, {"controlled", 0x8029, Bytes(8, 1), false}, {"use-candidate", 0x25, {}, false}, {"error codes", 9, {0, 0, 4, 20, 'x'}, false}, {"lists of unknown attributes", 10, {0x70, 1, 0x70, 2}, false}, {"integrity attributes", 8, Bytes(20, 3), false}, {"fingerprints", 0x8028, Bytes(4, 3), false}};
    return v;
}
static const std::vector<unsigned>& LONG() { static const std::vector<unsigned> v{0xc001, 0x7001, 6, 0x8022, 9, 10, 1, 0x20, 8}; return v; }
constexpr size_t TOP = 65532;
static std::vector<size_t> sizes(size_t from, size_t to) { std::vector<size_t> v; for (size_t n = from; n < to; n *= 2) v.push_back(n); v.push_back(to); return v; }
// the n-byte datagram of a family
struct Family {
    unsigned cls, pump; bool cookie; uint32_t tail, head;   // tail: nothing, fingerprint, integrity and fingerprint, wrong integrity; head: nothing or user name and XOR address
    std::string str() const { static const char* C[] = {"request", "indication", "success response", "error response"}; static const char* T[] = {"", ", fingerprint", ", signed", ", wrongly signed"}; return std::string(cookie ? "" : "classic ") + C[cls] + " with " + (pump < pumps().size() ? std::string("many ") + pumps()[pump].name : "one long attribute " + N(LONG()[pump - pumps().size()])) + (head ? " after the usual ones" : "") + T[tail]; }
    Bytes make(size_t n, const Bytes& id) const {
        ref::Enc e(ref::msg_type(cls, 1), id, cookie); if (head) { e.str(6, "user"); e.xaddr(pub(), id); if (cls == 3) e.error(420, "no"); } size_t end = n - (tail == 0 ? 0 : tail == 1 ? 8 : 32);
        if (pump < pumps().size()) { auto& p = pumps()[pump]; size_t each = 4 + (p.value.size() + 3) / 4 * 4; for (unsigned i = 0; e.b.size() - 20 + each <= end; ++i) e.attr(p.vary ? p.type + i % 4000 : p.type, p.value); }
        else { size_t have = e.b.size() - 20 + 4; Bytes v(end > have ? end - have : 0, 'x'); unsigned t = LONG()[pump - pumps().size()]; if (t == 9 && v.size() > 3) { v[0] = v[1] = 0; v[2] = 4; v[3] = 20; } if ((t == 1 || t == 0x20) && v.size() > 1) { v[0] = 0; v[1] = 1; } e.attr(t, v); }
        if (tail > 1) e.mi(lib::key(tail == 2 ? "key" : "bad")); if (tail) e.fp(); return e.b;
    }
};
static Family family(vh::Ctx& c) { Family f; f.cls = c.choose(4); f.cookie = f.cls || !c.choose(2); f.pump = c.choose(uint32_t(pumps().size() + LONG().size())); f.tail = c.choose(4); f.head = c.choose(2); return f; }
static const std::vector<size_t>& DS() { static const auto v = sizes(128, TOP - 40); return v; }
VH_SECTION("work: parsing, checking and building every family of datagrams", "U11") {
    Family f = family(c); Curve parse(c, "parse", [&] { return "parsing a " + f.str(); }); Curve check(c, "check", [&] { return "checking the integrity of a " + f.str(); }); Curve build(c, "build", [&] { return "building a " + f.str(); }); auto key = lib::integrity("key").unwrap();
    for (size_t n : DS()) { Bytes b = f.make(n, f.cookie ? tid() : tid_classic()); lib::View v = lib::view(b); stun::ParseStat st; std::optional<Result<stun::Message>> r; c.step(); parse.add(n, cost([&] { r.emplace(stun::Message::parse(v, st)); })); if (r->is_ok()) { check.add(n, cost([&] { (void)r->unwrap().is_valid(v, key); })); build.add(n, cost([&] { (void)r->unwrap().build(key); })); } }
    parse.done(); check.done(); build.done();
}
static Stateless server(size_t users = 1) { Stateless s(crypto::openssl::sha1, Stateless::Settings{}); for (size_t i = 0; i < users; ++i) s.add_user(precis::OpaqueString{i ? "user" + N(int64_t(i)) : "user"}, stun::Password::short_term(precis::OpaqueString{"key"}, crypto::openssl::sha1).unwrap()); return s; }
static void serve(Stateless& s, const Bytes& b) { auto r = s.process(net::UdpEndpoint{lib::addr(pub()), lib::port(9)}, lib::view(b)); if (auto* x = std::get_if<Stateless::Respond>(&r)) (void)x->response.build(x->maybe_integrity); }
VH_SECTION("work: serving every family of datagrams", "U11") {
    Family f = family(c); Curve k(c, "serve", [&] { return "serving a " + f.str(); }); Stateless s = server(); for (size_t n : DS()) { Bytes b = f.make(n, f.cookie ? tid() : tid_classic()); c.step(); k.add(n, cost([&] { serve(s, b); })); } k.done();
}
VH_SECTION("work: a client's answer of every family of datagrams", "U11") {
    Family f = family(c); if (!f.cookie) return; bool auth = c.choose(2); Curve k(c, "client", [&] { return std::string(auth ? "an authenticated" : "a") + " client's answer: " + f.str(); }); for (size_t n : DS()) {
        Conf cf; ClientUDP cl(settings(cf)); Rng rng; auto now = clock::Timepoint::epoch(); ClientUDP::Request q{path(0), {}, {}, none()}; if (auth) q.maybe_auth = ClientUDP::Auth{precis::OpaqueString{"user"}, lib::integrity("key").unwrap()}; (void)cl.create(rng, now, std::move(q)); auto e = cl.next(now); auto* sd = std::get_if<ClientUDP::SendData>(&e); c.require(sd != nullptr, "internal", "no request"); Bytes id(sd->message_view.begin() + 8, sd->message_view.begin() + 20);
        Bytes b = f.make(n, id); c.step(); now = now.advance(us(3000)); k.add(n, cost([&] { (void)cl.response(now, lib::view(b)); (void)cl.next(now); })); }
    k.done();
}
VH_SECTION("work: the Node bindings on every family of datagrams", "U11") {
    Family f = family(c); if (f.tail == 3) return; Curve parse(c, "node-parse", [&] { return "Node binding: parsing a " + f.str(); }); Curve srv(c, "node-serve", [&] { return "Node binding: serving a " + f.str(); }); craftnapi::Env env; js::Class k(node_stun::server_stateless_class(env, "Server")); js::Value o = js::obj({}); (void)k.construct(env, o, {}); (void)k.call(env, o, "addUser", {js::str("user"), js::str("key")}); js::Value from = js::obj({{"address", js::str("1.2.3.4")}, {"port", js::num(9)}});
    for (size_t n : DS()) { js::Value b = js::buf(f.make(n, f.cookie ? tid() : tid_classic())); c.step(); parse.add(n, cost([&] { (void)node_stun::message_parse(env, js::info(js::undefined(), {b})); })); srv.add(n, cost([&] { (void)k.call(env, o, "process", {b, from}); })); }
    parse.done(); srv.done();
}
VH_SECTION("work: requests with attributes of every size", "U11") {
    uint32_t what = c.choose(5), auth = c.choose(2); Curve k(c, "request", [&] { return "making a message, content " + N(what); }); for (size_t n : sizes(128, 65000)) {
        Conf cf; ClientUDP cl(settings(cf)); Rng rng; auto now = clock::Timepoint::epoch(); ref::Msg m; m.tid = Bytes(12); if (what == 0) m.software = std::string(n, 's'); if (what == 1) m.unknown.push_back({0xc001, Bytes(n, 1)}); if (what == 2) for (size_t i = 0; i < n / 4; ++i) m.unknown.push_back({uint16_t(0xc001 + i % 999), {}}); if (what == 3) for (size_t i = 0; i < n / 12; ++i) m.unknown.push_back({0x7001, Bytes(8, 1)});
        auto msg = lib::message(m, false, false); c.step(); auto key = lib::integrity("key").unwrap(); k.add(n, cost([&] { ClientUDP::Request q{path(0), {}, {}, none()}; if (auth) q.maybe_auth = ClientUDP::Auth{precis::OpaqueString{what == 4 ? std::string(std::min<size_t>(n, 60000), 'u') : "user"}, key}; if (what == 4) (void)cl.create(rng, now, std::move(q)); else if (auth) (void)msg.build(key); else (void)msg.build(none()); (void)cl.next(now); })); }
    k.done();
}
// ---------------------------------------------------------------- histories
static std::vector<size_t> counts() { return sizes(32, vh::thorough() ? 65536 : 8192); }
VH_SECTION("work: a client with many transactions", "U11") {
    uint32_t how = c.choose(6), paths = c.choose(3), auth = c.choose(2); auto W = [&](const char* s) { return [&, s] { return std::string(s) + " (variant " + N(how) + (auth ? ", authenticated" : "") + ", paths " + N(paths) + ")"; }; }; Curve create(c, "create", W("creating n transactions")); Curve poll(c, "poll", W("sending n transactions")); Curve idle(c, "idle-poll", W("polling n times with n transactions waiting")); Curve answers(c, "answers", W("taking n answers with n transactions waiting")); Curve rest(c, "rest", W("running n transactions to their end")); for (size_t n : counts()) {
        Conf cf; cf.rto = 100 * MS; cf.rc = 3; cf.rm = 2; cf.history = 10 * SEC; cf.delay5 = how == 5 ? 50 * MS : -1; ClientUDP cl(settings(cf)); Rng rng; int64_t t = 0; std::vector<Bytes> ids; auto now = [&] { return clock::Timepoint::epoch().advance(us(t)); }; auto key = lib::integrity("key").unwrap();
        auto drain = [&] { uint64_t w = 0; for (;;) { bool more = false; Bytes b; w += cost([&] { auto e = cl.next(now()); if (auto* x = std::get_if<ClientUDP::SendData>(&e)) { more = true; b = Bytes(x->message_view.begin(), x->message_view.end()); } else more = !std::get_if<ClientUDP::Idle>(&e) && !std::get_if<ClientUDP::Sleep>(&e); }); if (b.size() >= 20 && ids.size() < n) ids.push_back(Bytes(b.begin() + 8, b.begin() + 20)); if (!more) return w; } };
        uint64_t w = 0; for (size_t i = 0; i < n; ++i) { net::Path p = path(paths == 0 ? 0 : paths == 1 ? int(200 + i) : int(i % 7)); w += cost([&] { ClientUDP::Request q{p, {}, {}, none()}; if (auth) q.maybe_auth = ClientUDP::Auth{precis::OpaqueString{"user"}, key}; (void)cl.create(rng, now(), std::move(q)); }); rng.drawn = 0; } create.add(n, w); w = drain(); poll.add(n, w); c.require(ids.size() == n, "internal", "requests missing"); c.step(n);
        w = 0; for (size_t i = 0; i < n; ++i) { t += i % 16 ? 0 : 1; w += cost([&] { (void)cl.next(now()); }); } idle.add(n, w);
        t += 5 * MS; w = 0; if (how != 0) for (size_t j = 0; j < n; ++j) { size_t i = how == 1 ? n - 1 - j : how == 2 ? j * 7919 % n : j; Bytes b = answer(ids[i], how == 4 ? A_401 : how == 5 ? A_500 : A_OK, auth ? "key" : ""); if (how == 3) b[25] ^= 1; if (how == 3 && j % 2) b[10] ^= 1; w += cost([&] { (void)cl.response(now(), lib::view(b)); }); if (j % 3 == 0) w += drain(); } answers.add(n, w);
        w = 0; for (int i = 0; i < 12; ++i) { w += drain(); t += 300 * MS; } t += 20 * SEC; w += drain(); for (int i = 0; i < 3; ++i) { net::Path p = path(3); w += cost([&] { (void)cl.create(rng, now(), ClientUDP::Request{p, {}, {}, none()}); }); rng.drawn = 0; w += drain(); } rest.add(n, w);
    }
    create.done(); poll.done(); idle.done(); answers.done(); rest.done();
}
VH_SECTION("work: a client with many transactions in its past", "U11") {
    uint32_t how = c.choose(4), paths = c.choose(2), old = c.choose(2); Curve k(c, "past", [&] { return "n transactions one after the other (variant " + N(how) + ", paths " + N(paths) + ")"; }); Conf cf; cf.rto = 100 * MS; cf.rc = 3; cf.rm = 2; cf.history = how == 3 ? 1000000 * SEC : 10 * SEC; ClientUDP cl(settings(cf)); Rng rng; int64_t t = 0; auto now = [&] { return clock::Timepoint::epoch().advance(us(t)); }; size_t done = 0;
    auto exchange = [&](bool answered) { uint64_t w = 0; net::Path p = path(paths ? int(200 + done) : 0); ++done; w += cost([&] { (void)cl.create(rng, now(), ClientUDP::Request{p, {}, {}, none()}); }); rng.drawn = 0; Bytes id; for (int i = 0; i < 400; ++i) { bool stop = false; w += cost([&] { auto e = cl.next(now()); if (auto* x = std::get_if<ClientUDP::SendData>(&e)) { if (x->message_view.size() >= 20) id = Bytes(x->message_view.begin() + 8, x->message_view.begin() + 20); } else if (std::get_if<ClientUDP::Idle>(&e)) stop = true; else if (auto* s = std::get_if<ClientUDP::Sleep>(&e)) { if (answered) stop = true; else t += std::chrono::duration_cast<us>(s->sleep).count() + 1; } else if (!answered) stop = true; }); if (stop) break; }
        if (answered) { t += 2 * MS; Bytes b = answer(id, how == 1 ? A_401 : A_OK, ""); w += cost([&] { (void)cl.response(now(), lib::view(b)); (void)cl.next(now()); (void)cl.next(now()); }); } return w; };
    if (old) exchange(true); size_t top = vh::thorough() ? 65536 : 8192; uint64_t total = 0; size_t next = 32; for (size_t i = 1; i <= top; ++i) { total += exchange(how != 2); c.step(); if (i == next) { k.add(i, total); next *= 2; } }
    k.done();
}
template<class F> static uint64_t least(int times, F&& f) { uint64_t m = ~0ull; for (int i = 0; i < times; ++i) m = std::min(m, f(i)); return m; }
VH_SECTION("work: one more operation of a client that has a lot to do", "U11") {
    uint32_t paths = c.choose(3), phase = c.choose(4), late = c.choose(2); static const char* OPS[] = {"creating a transaction", "sending it", "polling with nothing to do", "a response nobody waits for", "a damaged response", "a response to the oldest", "its outcome", "a response to the newest", "a server error"};
    static const char* PH[] = {"transactions waiting", "transactions waiting after a retransmission", "transactions that have ended", "transactions that failed"}; std::vector<Curve> k; for (size_t i = 0; i < 9; ++i) k.emplace_back(c, OPS[i], [&, i] { return std::string(OPS[i]) + " with n " + PH[phase] + ", paths " + N(paths); });
    for (size_t n : counts()) {
        Conf cf; cf.rto = 100 * MS; cf.rc = 3; cf.rm = 2; cf.history = 3600 * SEC; cf.delay5 = 50 * MS; cf.max5 = 100; ClientUDP cl(settings(cf)); Rng rng; int64_t t = 0; std::vector<Bytes> ids; auto now = [&] { return clock::Timepoint::epoch().advance(us(t)); }; auto one = [&](size_t i) { return ClientUDP::Request{path(paths == 0 ? 0 : paths == 1 ? int(200 + i) : int(i % 7)), {}, {}, none()}; };
        auto drain = [&](bool keep) { for (;;) { auto e = cl.next(now()); if (auto* x = std::get_if<ClientUDP::SendData>(&e)) { if (keep && x->message_view.size() >= 20) ids.push_back(Bytes(x->message_view.begin() + 8, x->message_view.begin() + 20)); } else if (std::get_if<ClientUDP::Idle>(&e) || std::get_if<ClientUDP::Sleep>(&e)) return; } };
        for (size_t i = 0; i < n; ++i) { (void)cl.create(rng, now(), one(i)); rng.drawn = 0; if (late) t += 1; } drain(true); if (phase == 1) { t += 110 * MS; drain(false); } if (phase >= 2) { t += 3 * MS; for (auto& id : ids) (void)cl.response(now(), lib::view(answer(id, phase == 2 ? A_OK : A_401, ""))); drain(false); ids.clear(); }
        size_t had = ids.size(); c.step(n); t += 2; std::vector<uint64_t> w(9); auto next = [&] { return cost([&] { (void)cl.next(now()); }); }; auto resp = [&](const Bytes& b) { lib::View v = lib::view(b); return cost([&] { (void)cl.response(now(), v); }); };
        w[2] = least(3, [&](int) { return next(); });
        w[0] = least(5, [&](int i) { auto q = one(n + 5 + size_t(i)); rng.drawn = 0; return cost([&] { (void)cl.create(rng, now(), std::move(q)); }); });
        w[1] = least(4, [&](int) { Bytes b; uint64_t x = cost([&] { auto e = cl.next(now()); if (auto* y = std::get_if<ClientUDP::SendData>(&e)) { work::In q; b = Bytes(y->message_view.begin(), y->message_view.end()); } }); if (b.size() >= 20) ids.push_back(Bytes(b.begin() + 8, b.begin() + 20)); return x; }); drain(true); c.require(ids.size() == had + 5, "internal", "requests missing"); t += 500;
        Bytes strange(12, 0xd7); w[3] = least(3, [&](int) { return resp(answer(strange, A_OK, "")); }); w[4] = least(3, [&](int) { Bytes b = answer(ids[0], A_OK, ""); b[22] = 0xff; return resp(b); });
        if (had > 5) { w[8] = least(3, [&](int i) { return resp(answer(ids[size_t(i)], A_500, "")); }); w[5] = least(3, [&](int i) { return resp(answer(ids[size_t(i)], A_OK, "")); }); w[6] = least(3, [&](int) { return next(); }); }
        w[7] = least(3, [&](int i) { return resp(answer(ids[ids.size() - 1 - size_t(i)], A_OK, "")); }); w[6] = std::max(w[6], least(3, [&](int) { return next(); }));
        for (size_t i = 0; i < 9; ++i) k[i].p.push_back({n, w[i]});
    }
    for (auto& x : k) x.flat();
}
VH_SECTION("work: one more operation of a server that knows many users", "U11") {
    uint32_t how = c.choose(3), node = c.choose(2); static const char* OPS[] = {"adding a user", "a request of a user", "a request of an unknown user", "a request with a wrong password", "a request without a user"}; std::vector<Curve> k; for (size_t i = 0; i < 5; ++i) k.emplace_back(c, OPS[i], [&, i] { return std::string(node ? "Node binding: " : "") + OPS[i] + " with n users (names " + N(how) + ")"; });
    for (size_t n : counts()) {
        if (node && n > 4096) break; auto name = [&](size_t i) { return how == 1 ? "a-common-prefix-of-user-names-" + N(int64_t(i)) : how == 2 ? N(int64_t(i)) + "@h" : "u" + N(int64_t(i)); }; Stateless s(crypto::openssl::sha1, Stateless::Settings{}); auto pw = stun::Password::short_term(precis::OpaqueString{"key"}, crypto::openssl::sha1).unwrap(); craftnapi::Env env; js::Class kl(node_stun::server_stateless_class(env, "Server")); js::Value o = js::obj({}); (void)kl.construct(env, o, {}); js::Value from = js::obj({{"address", js::str("1.2.3.4")}, {"port", js::num(9)}});
        auto add = [&](size_t i) { std::string x = name(i); if (node) { js::Value a = js::str(x), b = js::str("key"); return cost([&] { (void)kl.call(env, o, "addUser", {a, b}); }); } return cost([&] { s.add_user(precis::OpaqueString{x}, pw); }); }; for (size_t i = 0; i < n; ++i) add(i); c.step(n);
        auto ask = [&](const Bytes& b) { if (node) { js::Value v = js::buf(b); return cost([&] { (void)kl.call(env, o, "process", {v, from}); }); } return cost([&] { serve(s, b); }); }; auto req = [&](size_t i, const char* p) { ref::Enc e(1, tid()); e.str(6, name(i)); e.mi(lib::key(p)); return e.b; };
        uint64_t w[5]; w[0] = least(5, [&](int i) { return add(n + size_t(i)); }); w[1] = 0; for (size_t i : {size_t(0), n / 2, n - 1}) w[1] = std::max(w[1], ask(req(i, "key"))); w[2] = ask(req(n + 100, "key")); w[3] = ask(req(n / 3, "bad")); w[4] = ask(ref::Enc(1, tid()).b); for (size_t i = 0; i < 5; ++i) k[i].p.push_back({n, w[i]});
    }
    for (auto& x : k) x.flat();
}
VH_SECTION("work: a server with many users", "U11") {
    uint32_t how = c.choose(4); Curve add(c, "add-user", [&] { return "adding n users (variant " + N(how) + ")"; }); Curve ask(c, "ask", [&] { return "n requests to a server with n users (variant " + N(how) + ")"; }); for (size_t n : counts()) { Stateless s(crypto::openssl::sha1, Stateless::Settings{}); auto pw = stun::Password::short_term(precis::OpaqueString{"key"}, crypto::openssl::sha1).unwrap(); uint64_t w = 0; auto name = [&](size_t i) { return how == 1 ? "a-common-prefix-of-user-names-" + N(int64_t(i)) : "u" + N(int64_t(i)); }; for (size_t i = 0; i < n; ++i) { auto nm = name(i); w += cost([&] { s.add_user(precis::OpaqueString{nm}, stun::Password(pw)); }); } add.add(n, w); c.step(n);
        w = 0; for (size_t i = 0; i < n; ++i) { ref::Enc e(1, tid()); if (how != 3) { e.str(6, name(how == 2 ? i + n : i)); e.mi(lib::key("key")); } w += cost([&] { serve(s, e.b); }); } ask.add(n, w); }
    add.done(); ask.done();
}
// ---------------------------------------------------------------- texts, packets, hashes, lists
static const std::vector<std::string>& PIECES() { static const std::vector<std::string> v{"a", "0", ".", "-", " ", ":", "a.", "a-", "-a", "1.", "ab.", "::", "1:", " a", " a b", " 1", "  ", "f", "\xff", "+", "%", "raddr ", " raddr 1.2.3.4 rport 5", "25"}; return v; }
static std::string pumped(const std::string& a, const std::string& p, const std::string& z, size_t n) { std::string s = a; while (s.size() + p.size() + z.size() <= n) s += p; return s + z; }
VH_SECTION("work: names, addresses, ports and numbers of every pumped form", "U11") {
    static const std::vector<std::string> A{"", "a", "1", "-", "1.2.3.", "::", "a."}, Z{"", "a", "-", ".", " ", "1"}; std::string a = c.pick(A), p = c.pick(PIECES()), z = c.pick(Z); static const char* W[] = {"a domain name", "an address", "a port", "a foundation", "a component", "splitting a text"}; std::vector<Curve> k; for (size_t i = 0; i < 6; ++i) k.emplace_back(c, W[i], [&, i] { return std::string(W[i]) + ": '" + a + "' and many '" + p + "' and '" + z + "'"; });
    for (size_t n : sizes(128, 65536)) { std::string s = pumped(a, p, z, n); std::string_view v(s); c.step(); k[0].add(n, cost([&] { (void)net::Fqdn::from_string(v); })); k[1].add(n, cost([&] { (void)net::ip::Address::from_string(v); })); k[2].add(n, cost([&] { (void)net::Port::from_string(v); })); k[3].add(n, cost([&] { (void)ice::candidate::Foundation::from_string(v); })); k[4].add(n, cost([&] { (void)ice::candidate::ComponentId::from_string(v); })); k[5].add(n, cost([&] { (void)util::string_view::split_all(v, '.'); })); }
    for (auto& x : k) x.done();
}
VH_SECTION("work: candidate lines of every pumped form", "U11") {
    static const std::vector<std::string> F{"candidate:1", "1", "UDP", "2130706431", "10.0.1.1", "8998", "typ", "host", "raddr", "10.2.3.4", "rport", "9"}; uint32_t at = c.choose(uint32_t(F.size() + 1)), glue = c.choose(3), node = c.choose(2); std::string p = c.pick(PIECES()); Curve k(c, "candidate", [&] { return std::string(node ? "Node binding: " : "") + "a candidate line with many '" + p + "' at token " + N(at) + (glue == 0 ? "" : glue == 1 ? ", after it" : ", before it"); }); craftnapi::Env env;
    for (size_t n : sizes(256, 65536)) { std::string s; size_t i = 0; auto put = [&](const std::string& x) { s += (s.empty() ? "" : " ") + x; }; std::string pump = pumped("", p, "", n > 100 ? n - 100 : n); for (; i < F.size(); ++i) { if (i == at) { if (glue == 0) put(pump); else if (glue == 1) { put(F[i] + pump); continue; } else { put(pump + F[i]); continue; } } put(F[i]); } if (at == F.size()) s += pump; c.step(); js::Value js_s = js::str(s); k.add(n, cost([&] { if (node) (void)node_ice::ice_candidate_parse(env, js::info(js::undefined(), {js_s})); else { auto r = ice::candidate::parse_sdp_attr(s); (void)r; } })); }
    k.done();
}
VH_SECTION("work: RTP packets of every size", "U11") {
    uint32_t csrc = c.choose(16), ext = c.choose(3), pad = c.choose(3); Curve k(c, "rtp", [&] { return "an RTP packet with " + N(csrc) + " sources, extension " + N(ext) + ", padding " + N(pad); }); rtp::PayloadMap map{{rtp::PayloadType::from_uint8(96).unwrap(), rtp::PayloadMapItem{rtp::ClockRate{90000}}}};
    for (size_t n : sizes(128, 65536)) { Bytes b(n, 1); b[0] = uint8_t(0x80 | csrc | (ext ? 0x10 : 0) | (pad ? 0x20 : 0)); b[1] = 96; size_t x = 12 + 4 * csrc; size_t words = ext == 2 && n > x + 8 ? (n - x - 4) / 4 - 2 : 1; if (x + 4 <= n) { b[x + 2] = uint8_t(words >> 8); b[x + 3] = uint8_t(words); } b.back() = pad == 2 ? 255 : 4; rtp::ParseStat st; c.step(); k.add(n, cost([&] { (void)rtp::Packet::parse(lib::view(b), map, st); })); }
    k.done();
}
VH_SECTION("work: hashing, signing and checksumming in many pieces", "U11") {
    uint32_t what = c.choose(9), piece = c.choose(5); static const size_t P[] = {0, 1, 7, 64, 100000}; static const char* W[] = {"SHA-1", "MD5", "HMAC", "CRC-32 of pieces", "CRC-32", "a password", "joining", "Node SHA-1", "Node MD5"}; Curve k(c, "hash", [&] { return std::string(W[what]) + " of n bytes in pieces of " + N(int64_t(P[piece])); }); auto pw = stun::Password::short_term(precis::OpaqueString{"key"}, crypto::openssl::sha1).unwrap();
    for (size_t n : sizes(128, 65536)) { Bytes d(n, 3); std::vector<lib::View> v; if (P[piece] == 0) { for (size_t i = 0; i < n; ++i) v.push_back(lib::View(d.data(), 0)); } else for (size_t i = 0; i < n; i += P[piece]) v.push_back(lib::View(d.data() + i, std::min(P[piece], n - i))); std::string s(n, 'k'); crypto::SHA1Hash::Func f = crypto::openssl::sha1; c.step();
        k.add(n, cost([&] { switch (what) { case 0: (void)crypto::openssl::sha1(v); break; case 1: (void)crypto::openssl::md5(v); break; case 2: (void)crypto::hmac::digest(v, pw.opad(), pw.ipad(), f); break; case 3: (void)stun::crc32(v); break; case 4: (void)stun::crc32(lib::View(d.data(), n)); break; case 5: (void)stun::Password::short_term(precis::OpaqueString{s}, crypto::openssl::sha1); break; case 6: (void)util::ConstBinaryView::concat(v); break; case 7: (void)crypto::node_openssl::sha1(v); break; case 8: (void)crypto::node_openssl::md5(v); break; } })); }
     k.done();
}
struct Item { int id; util::IntrusiveList<Item>::Link link; explicit Item(int i) : id(i), link(*this) {} };
VH_SECTION("work: list and token operations on many elements", "U11") {
    uint32_t build = c.choose(2), how = c.choose(7); Curve b(c, "list-build", [&] { return "adding n elements " + std::string(build ? "at the front" : "at the back"); }); Curve k(c, "list", [&] { return "list and token operations, variant " + N(how); }); for (size_t n : counts()) {
        std::vector<std::unique_ptr<Item>> v; for (size_t i = 0; i < n; ++i) v.push_back(std::make_unique<Item>(int(i))); std::optional<util::IntrusiveList<Item>> l; l.emplace(&Item::link); c.step(n); b.add(n, cost([&] { for (auto& x : v) { if (build) l->push_front(*x); else l->push_back(*x); } }));
        std::vector<std::string> t; std::vector<std::string_view> tv; if (how == 6) for (size_t i = 0; i < n; ++i) t.push_back("t" + N(int64_t(i))); for (auto& x : t) tv.push_back(x);
        k.add(n, cost([&] { switch (how) { case 0: for (size_t i = 0; i < n; ++i) l->pop_front(); break; case 1: for (size_t i = 0; i < n; ++i) l->pop_back(); break; case 2: for (auto& x : v) x->link.remove(); break; case 3: for (auto& x : v) { (void)l->front(); (void)l->back(); (void)l->empty(); (void)x->link.in_list(); } break; case 4: for (size_t i = 0; i < n; ++i) { l->push_front(*v[i]); l->push_back(*v[n - 1 - i]); } break; case 5: for (size_t i = 0; i < n; ++i) { util::IntrusiveList<Item> m(std::move(*l)); *l = std::move(m); } l->clear(); break;
            case 6: { util::TokenStream s(tv); for (size_t i = 0; i < n; ++i) (void)s.required(); (void)s.optional(); (void)util::string_view::join(tv, ", "); l.reset(); break; } } })); l.reset(); }
    b.done(); k.done();
}
