// Node bindings: STUN client (B03), in lockstep with the library's own client.
// DEPS: src/stun src/net src/crypto/openssl src/util/util_error_code.cpp src/util/util_hash_murmur.cpp node/node_stun node/openssl
// INCS: .
// LIBS: -lcrypto
#include "nodejs.hpp"
#include "simclient.hpp"
#include "clock/clock_std.hpp"
#include <arpa/inet.h>
#include "node/node_stun/node_stun_client_udp.hpp"
using namespace sim; using js::Value; using js::Env; using js::Res;
// ---- the monotonic clock is the explorer's
static int64_t g_us = 1000000;
namespace std::chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_us * 1000)); } } }
static clock::Timepoint native_now() { return clock::Timepoint::epoch().advance(us(g_us)); }
static std::string ip(const ref::Addr& a) { char t[64]; inet_ntop(a.v6 ? AF_INET6 : AF_INET, a.b.data(), t, sizeof t); return t; }
static std::string path_text(const net::ip::Address& a) { return ip(lib::addr(a, 0)); }
static const std::string USER = "user";
static std::string message_text(const ref::Msg& m) {   // what the message becomes; B01 covers this in depth
    static const char* C[] = {"request", "indication", "success_response", "error_response"}; js::Text h, a, o; using js::quote;
    h.set("class", quote(C[m.cls])).set("method", quote("binding")).set("transaction", js::buffer_text(m.tid)); if (m.username) a.set("username", quote(*m.username)); if (m.software) a.set("software", quote(*m.software)); if (m.priority) a.set("priority", js::number(*m.priority));
    if (m.error) a.set("error_code", js::Text().set("code", js::number(m.error->code)).set("reason", quote(m.error->reason)).str()); if (m.xored) a.set("xor_mapped", js::Text().set("addr", "ip:" + vh::hex(ref::xor_bytes(*m.xored, m.tid))).set("port", js::number(m.xored->port)).str());
    return o.set("header", h.str()).set("is_rfc3489", "false").set("attributes", a.str()).str();
}
// a request as another id would make it
static Bytes retarget(const Bytes& b, const Bytes& tid, const std::string& key) {
    auto p = ref::parse(b); Bytes r = b; std::copy(tid.begin(), tid.end(), r.begin() + 8); if (p.m.integrity_at) r.resize(*p.m.integrity_at); else if (p.m.fingerprint) r.resize(r.size() - 8);
    ref::Enc e(0, tid); e.b = r; if (p.m.integrity_at) e.mi(lib::key(key)); if (p.m.fingerprint) e.fp(); e.len(); return e.b;
}
struct BTx { ClientUDP::Handle h; std::string jh, key; Bytes nt, bt, data, ok; bool sent = false, over = false; };
struct Pair {
    vh::Ctx& c; Env env; js::Class k; Value o; Rng rng; ClientUDP n; std::vector<BTx> tx; std::vector<std::pair<Value, std::string>> kept; int64_t sleep = 0; int effects = 0;
    static Settings native(std::optional<bool> fp) { Settings s; if (fp) s.use_fingerprint = Settings::UseFingerprint{*fp}; return s; }
    Pair(vh::Ctx& cc, std::optional<bool> fp = {}) : c(cc), k(node_stun::client_udp_class(env, "Client")), n(native(fp)) {
        c.require(k.cls.kind() == js::Kind::function && k.has("create") && k.has("next") && k.has("response"), "class", "the client class cannot be made"); Value st = js::obj({}); if (fp) st.data()->props["use_fingerprint"] = js::boolean(*fp).data(); o = k.make(env, {st}, c);
    }
    static Value request(int p, const std::string& key) { auto path = sim::path(p); Value r = js::obj({{"source", js::str(path_text(path.source))}, {"target", js::str(path_text(path.target))}}); if (!key.empty()) r.data()->props["auth"] = js::obj({{"username", js::str(USER)}, {"password", js::str(key)}}).data(); return r; }
    static std::string T() { return "[" + N(g_us) + "us] "; }
    int create(int p, const std::string& key) {
        c.step(); Res r = k.call(env, o, "create", {request(p, key)}); ClientUDP::Request q{sim::path(p), {}, {}, none()}; if (!key.empty()) q.maybe_auth = ClientUDP::Auth{precis::OpaqueString{USER}, lib::integrity(key).unwrap()};
        auto h = n.create(rng, native_now(), std::move(q)); c.note([&] { return T() + "create tx" + N(tx.size()) + " on path " + N(p) + (key.empty() ? "" : " authenticated") + " -> " + js::show(r); }); c.require(r.is_ok() && h.is_ok(), "create", [&] { return "creating a request fails: " + js::show(r); });
        BTx x{h.unwrap(), js::text(r.unwrap()), key}; c.require(r.unwrap().kind() == js::Kind::object, "handle", [&] { return "the handle is " + x.jh; }); for (auto& y : tx) c.require(y.over || y.jh != x.jh, "handle-reused", [&] { return "two live requests share the handle " + x.jh; }); tx.push_back(x); keep(r.unwrap()); return int(tx.size()) - 1;
    }
    void keep(const Value& v) { kept.push_back({v, js::text(v)}); }
    Step step() {
        c.step(); Res r = k.call(env, o, "next", {}); auto e = n.next(native_now()); std::string g = js::show(r); c.note([&] { return T() + "next -> " + g; }); c.require(r.is_ok(), "next", [&] { return T() + "next fails: " + g; }); Value v = r.unwrap(); using js::quote; js::Text w; Step st = EFFECT;
        auto own = [&](const ClientUDP::Handle& h) -> BTx& { for (size_t i = tx.size(); i-- > 0;) if (tx[i].h == h) return tx[i]; c.fail("internal", "unknown handle in the library's client"); };
        if (auto* s = std::get_if<ClientUDP::Sleep>(&e)) { sleep = std::chrono::duration_cast<us>(s->sleep).count(); w.set("type", quote("sleep")).set("timeout_ms", js::number(double((sleep + 999) / 1000))); st = SLEEP; }
        else if (std::get_if<ClientUDP::Idle>(&e)) { w.set("type", quote("idle")); st = IDLE; }
        else if (auto* s = std::get_if<ClientUDP::SendData>(&e)) {
            BTx& x = own(s->handle); Bytes nb(s->message_view.begin(), s->message_view.end()), bb = js::get(v, "message").kind() == js::Kind::buffer ? js::bytes(js::get(v, "message")) : Bytes{}; c.require(bb.size() >= 20, "send", [&] { return T() + "the library's client sends a request, the binding's gives " + g; });
            if (!x.sent) { x.sent = true; x.nt = Bytes(nb.begin() + 8, nb.begin() + 20); x.bt = Bytes(bb.begin() + 8, bb.begin() + 20); x.data = retarget(nb, x.bt, x.key); for (auto& y : tx) c.require(&y == &x || !y.sent || y.bt != x.bt, "id-reused", [&] { return "two requests have the id " + vh::hex(x.bt); }); }
            w.set("type", quote("send_data")).set("handle", x.jh).set("message", js::buffer_text(x.data)); ++effects;
        } else if (auto* t = std::get_if<ClientUDP::TransactionOk>(&e)) {
            BTx& x = own(t->handle); x.over = true; ref::Addr a = lib::addr(t->result.address, t->result.port.value()); w.set("type", quote("transaction_ok")).set("handle", x.jh).set("result", js::Text().set("addr", "ip:" + vh::hex(a.b)).set("port", js::number(a.port)).str()).set("response", message_text(ref::parse(x.ok).m)); if (t->round_trip.is_some()) w.set("rtt_us", js::number(double(std::chrono::duration_cast<us>(t->round_trip.unwrap()).count()))); ++effects; c.outcome("ok" + N(t->round_trip.is_some()));
        } else if (auto* f = std::get_if<ClientUDP::TransactionFailed>(&e)) { BTx& x = own(f->handle); x.over = true; std::string why = reason(f->reason); w.set("type", quote("transaction_fail")).set("handle", x.jh).set("reason", quote(why)); ++effects; c.outcome(why); }
        std::string wt = w.str(); c.require(g == wt, "effect", [&] { return T() + "the binding's effect is\n    " + g + "\n  but the library's client gives\n    " + wt; });
        if (js::get(v, "message").kind() == js::Kind::buffer) js::scribble(js::get(v, "message")); keep(v); return st;
    }
    static std::string reason(const ClientUDP::TransactionFailed::Reason& r) {
        using TF = ClientUDP::TransactionFailed; if (std::get_if<TF::UnknownComprehensionRequiredAttribute>(&r)) return "unknown comprehension required attribute"; if (std::get_if<TF::UnknownAttributeReported>(&r)) return "unknown required attribute reported"; if (std::get_if<TF::AlternateServer>(&r)) return "alternate server"; if (std::get_if<TF::Timeout>(&r)) return "timeout";
        if (auto* p = std::get_if<TF::ErrorCode>(&r)) return "stun error: " + N(p->attr.code) + ": " + (p->attr.reason_phrase.is_some() ? p->attr.reason_phrase.unwrap() : std::string()); if (auto* p = std::get_if<TF::Error>(&r)) { std::error_code e = p->code; return "error: " + e.message(); } return "?";
    }
    Step drain() { for (size_t i = 0; i < 60 + 6 * tx.size(); ++i) { Step s = step(); if (s != EFFECT) return s; } c.fail("endless-effects", "too many effects in a row"); }
    template<class F> void respond(int i, F&& make) {   // make(id) gives the datagram for that id
        BTx& x = tx[size_t(i)]; Bytes nb = make(x.nt), bb = make(x.bt); c.step(); Value in = js::buf(bb); Res r = k.call(env, o, "response", {in}); c.require(r.is_ok(), "response", [&] { return "handing in a response fails: " + js::show(r); }); c.require(js::bytes(in) == bb, "modified", "the caller's buffer was modified"); js::scribble(in);
        lib::Exact ne(nb); auto code = Sim::code(n.response(native_now(), ne.view())); if (!code && x.ok.empty() && ref::parse(bb).m.cls == 2) x.ok = bb; c.note([&] { return T() + "response " + vh::hex(bb) + " -> " + (code ? code.message() : "ok"); });
    }
    void respond(int i, int kind, const std::string& key, bool fp = false) { respond(i, [&](const Bytes& t) { return answer(t, kind, key, fp); }); }
    void finish() { for (size_t i = 0; i < 40 + 10 * tx.size(); ++i) { if (drain() == IDLE) break; g_us += (sleep + 999) / 1000 * 1000; } for (auto& x : tx) c.require(x.over, "no-outcome", "a request never ends"); for (auto& [v, t] : kept) { if (js::get(v, "message").kind() == js::Kind::buffer) continue; c.require(js::text(v) == t, "changed", [&] { return "a value handed out earlier changed from " + t + " to " + js::text(v); }); } c.trace(); c.state(c.prefix_hash()); g_us += 1000000; }
};
static const std::vector<std::optional<bool>>& FP() { static const std::vector<std::optional<bool>> v{std::nullopt, true, false}; return v; }
VH_SECTION("lockstep: every script", "B03") {
    Pair p(c); p.create(0, ""); uint32_t depth = vh::thorough() ? 6 : 5;
    for (uint32_t i = 0; i < depth; ++i) {
        uint32_t op = c.choose(12); auto sent = [&](size_t k) { return k < p.tx.size() && p.tx[k].sent; };
        if (op == 0) p.step(); else if (op == 1) p.drain(); else if (op == 2) { if (p.tx.size() > 2) return; p.create(int(p.tx.size()) % 2, "pw"); } else if (op == 3) { p.drain(); g_us += (p.sleep + 999) / 1000 * 1000; } else if (op == 4) g_us += 250001; else if (op == 5) g_us += 39500000;
        else if (op < 9) { if (!sent(0)) return; static const int K[] = {A_OK, A_401, A_500}; p.respond(0, K[op - 6], p.tx[0].key); } else { if (!sent(1)) return; if (op == 11) p.respond(1, A_OK, "bad"); else p.respond(1, op == 9 ? A_OK : A_420, p.tx[1].key); }
    }
    p.finish();
}
VH_SECTION("lockstep: every answer at every moment", "B03") {
    auto fp = c.pick(FP()); std::string key = c.choose(2) ? "pw" : ""; Pair p(c, fp); p.create(c.choose(5), key); p.drain(); int64_t t0 = g_us; static const std::vector<int64_t> D{0, 1, 999, 1000, 1001, 20500, 499999, 500000, 2000007, 39400000}; int64_t d = c.pick(D);
    while (g_us - t0 + p.sleep <= d) { g_us += p.sleep; p.drain(); } g_us = t0 + d; uint32_t kind = c.choose(A_KINDS); static const std::vector<std::string> KEYS{"pw", "", "bad"}; p.respond(0, int(kind), c.pick(KEYS), c.choose(2)); if (c.choose(2)) p.respond(0, A_OK, key); p.finish();
}
VH_SECTION("lockstep: round-trip times and rounding of sleeps", "B03") { int64_t rtt = int64_t(c.choose(vh::thorough() ? 4000 : 1200)) * (c.choose(2) ? 1 : 501) + 1; int64_t off = int64_t(c.choose(3)); Pair p(c); p.create(0, ""); p.drain(); g_us += rtt; p.respond(0, A_OK, ""); p.drain(); p.create(0, ""); g_us += off; p.drain(); g_us += 250007 * off; p.drain(); p.finish(); }
VH_SECTION("reasons: every error code with and without a phrase", "B03") { uint32_t code = c.choose(800), ph = c.choose(4); static const char* P[] = {"", "no", "Try: Alternate", "\"quoted\""}; if (code % 100 > 99) return; Pair p(c); p.create(0, ""); p.drain(); g_us += 1000; p.respond(0, [&](const Bytes& t) { ref::Enc e(ref::msg_type(3, 1), t); e.error(code, P[ph]); return e.b; }); p.finish(); }
VH_SECTION("answers: every bit of the address and port", "B03") { bool v6 = c.choose(2), xored = c.choose(2); ref::Addr a{v6, Bytes(v6 ? 16 : 4, 0x5a), 0x1234}; uint32_t nb = v6 ? 128 : 32, bit = c.choose(nb + 16); if (bit < nb) a.b[bit / 8] ^= uint8_t(1 << bit % 8); else a.port ^= uint16_t(1 << (bit - nb)); Pair p(c); p.create(0, ""); p.drain(); g_us += 1000; p.respond(0, [&](const Bytes& t) { ref::Enc e(ref::msg_type(2, 1), t); if (xored) e.xaddr(a, t); else e.addr(1, a); return e.str(0x8022, "srv").word(0x24, 7).b; }); p.finish(); }
VH_SECTION("answers: damaged, foreign and other datagrams", "B03") {
    Pair p(c); std::string key = c.choose(2) ? "pw" : ""; p.create(0, key); p.drain(); g_us += 1000; uint32_t how = c.choose(4), n = how < 2 ? c.choose(answer(Bytes(12), A_OK, key, true).size()) : 0; p.respond(0, [&](const Bytes& t) { Bytes b = answer(t, A_OK, key, true); if (how == 0) b.resize(n); if (how == 1) b[n] ^= 0x40; if (how == 2) b.clear(); if (how == 3) b.assign(1500, 0); return b; }); p.drain(); g_us += 1000; p.respond(0, A_OK, key); p.finish();
}
VH_SECTION("clients: two clients interleaved do not affect each other", "B03") { Pair p(c), q2(c, false); uint32_t n = vh::thorough() ? 7 : 6; for (uint32_t i = 0; i < n; ++i) { uint32_t op = c.choose(8); Pair& x = op & 1 ? q2 : p; op /= 2; if (op == 0) { if (x.tx.size() > 1) return; x.create(0, op ? "pw" : ""); } else if (op == 1) x.drain(); else if (op == 2) { if (x.tx.empty() || !x.tx[0].sent) return; x.respond(0, A_OK, ""); } else g_us += 500000; } p.finish(); q2.finish(); }
VH_SECTION("scale: up to hundreds of requests live together", "B03") {
    static std::vector<int> S; if (S.empty()) { for (int i = 1; i <= (vh::thorough() ? 70 : 10); ++i) S.push_back(i); for (int b : {16, 32, 50, 64, 100, 128, 200, 256, 500, 512}) for (int d = -1; d <= 1; ++d) S.push_back(b + d); }
    int n = c.pick(S), how = int(c.choose(4)), paths = int(c.choose(2)); if (n > 260 && how > 1) return; Pair p(c, true); static const std::vector<int> K{A_OK, A_401, A_UNK, A_MAPPED, A_420, A_300ALT};
    for (int i = 0; i < n; ++i) { p.create(paths ? 200 + i : 0, i % 3 == 1 ? "pw" : i % 3 == 2 ? "key" + N(i) : ""); if (how == 2) p.drain(); } p.drain(); g_us += 41000; p.drain();
    for (int j = 0; j < n; ++j) { int i = how == 0 ? j : how == 1 ? n - 1 - j : how == 2 ? (j * 2 < n ? j * 2 : (j * 2 - (n | 1)) | 1) : -1; if (i >= n || i < 0) continue; p.respond(i, K[size_t(i) % K.size()], p.tx[size_t(i)].key, true); if (j % 50 == 49 || n < 40) p.drain(); }
    p.drain(); if (how == 3) { p.respond(n - 1, A_OK, p.tx.back().key, true); p.drain(); } p.create(0, "pw"); p.finish();
}
VH_SECTION("scale: thousands of requests in a row, some living through all of them", "B03") {
    uint32_t v = c.choose(4), old = c.choose(2); Pair p(c); if (old) { p.create(6, ""); p.create(7, "pw"); } p.drain(); const size_t n = vh::thorough() ? 20000 : 1100;
    for (size_t i = 0; i < n; ++i) { int k = p.create(int(i % 3), v & 1 ? "pw" : ""); p.drain(); g_us += 1000; p.respond(k, v < 2 ? A_OK : i % 2 ? A_401 : A_OK, p.tx.back().key); p.drain(); if (p.tx.size() > 8) { std::vector<BTx> t(p.tx.begin(), p.tx.begin() + 2); t.insert(t.end(), p.tx.end() - 2, p.tx.end()); p.tx = t; p.kept.clear(); } }
    for (size_t i = 0; i < 2 && old; ++i) if (!p.tx[i].over) { p.respond(int(i), A_OK, p.tx[i].key); p.drain(); } p.finish();
}
static void still_works(vh::Ctx& c, Pair& p) { c.require(js::show(p.k.call(p.env, p.o, "next", {})) == "{type:\"idle\"}", "effect-of-error", "a rejected call left something behind"); p.n.next(native_now()); p.create(0, "pw"); p.drain(); g_us += 1000; p.respond(0, A_OK, "pw"); p.finish(); }
VH_SECTION("arguments: requests and responses of every kind", "B03") {
    auto& K = js::kinds(); uint32_t how = c.choose(8), k = c.choose(K.size() + 1); Value v = k < K.size() ? K[k] : js::undefined(); auto kn = [&] { return std::string(js::kind_name(v)); }; auto is = [&](js::Kind x) { return v.kind() == x; }; Pair p(c); Value rq = Pair::request(0, "pw"); Value au = js::get(rq, "auth"); c.state(how * 100 + k);
    auto set = [&](Value& o, const char* f) { if (k < K.size()) o.data()->props[f] = v.data(); else o.data()->props.erase(f); };
    switch (how) {
    case 0: js::rejected(c, p.k.call(p.env, p.o, "create", {v}), "a request that is a " + kn()); break;
    case 1: set(rq, "source"); js::rejected(c, p.k.call(p.env, p.o, "create", {rq}), "a source that is a " + kn()); break;
    case 2: set(rq, "target"); js::rejected(c, p.k.call(p.env, p.o, "create", {rq}), "a target that is a " + kn()); break;
    case 3: if (is(js::Kind::undefined) || is(js::Kind::null)) return; set(rq, "auth"); js::rejected(c, p.k.call(p.env, p.o, "create", {rq}), "authentication that is a " + kn()); break;
    case 4: if (is(js::Kind::string)) return; set(au, "username"); js::rejected(c, p.k.call(p.env, p.o, "create", {rq}), "a user name that is a " + kn()); break;
    case 5: if (is(js::Kind::string)) return; set(au, "password"); js::rejected(c, p.k.call(p.env, p.o, "create", {rq}), "a password that is a " + kn()); break;
    case 6: if (is(js::Kind::buffer)) return; js::rejected(c, p.k.call(p.env, p.o, "response", {v}), "a response that is a " + kn()); break;
    case 7: js::rejected(c, p.k.call(p.env, v, "create", {rq}), "create on a " + kn()); js::rejected(c, p.k.call(p.env, v, "next", {}), "next on a " + kn()); js::rejected(c, p.k.call(p.env, v, "response", {js::buf({1})}), "response on a " + kn()); break;
    }
    still_works(c, p);
}
VH_SECTION("arguments: settings of every kind", "B03") {
    auto& K = js::kinds(); uint32_t how = c.choose(2), k = c.choose(K.size() + 1); Value v = k < K.size() ? K[k] : js::undefined(); Env env; js::Class cl(node_stun::client_udp_class(env, "Client")); Value o = js::obj({}); c.step(); c.state(how * 100 + k); std::string kn = js::kind_name(v);
    if (how == 0) { if (v.is_object()) return; Res r = cl.construct(env, o, {v}); js::rejected(c, r, "settings that are a " + kn); } else { if (v.kind() == js::Kind::null) return; Value s = js::obj({}); if (k < K.size()) s.data()->props["use_fingerprint"] = v.data(); Res r = cl.construct(env, o, {s}); if (v.kind() == js::Kind::undefined || v.kind() == js::Kind::boolean) { c.require(r.is_ok(), "settings", [&] { return "use_fingerprint " + js::text(v) + " is rejected: " + js::show(r); }); return; } js::rejected(c, r, "use_fingerprint that is a " + kn); }
    js::rejected(c, cl.call(env, o, "next", {}), "an object whose construction failed");
}
VH_SECTION("arguments: every address text, user name and password", "B03") {
    uint32_t how = c.choose(3); Pair p(c, true); Value rq = Pair::request(0, "pw"); static const std::vector<std::string> A{"1.2.3.4", "::1", "2001:db8::5", "", "1.2.3", "256.1.1.1", "localhost", "::1%lo", "1.2.3.4:80"}; static const std::vector<std::string> S{"", "a", "pw", "user:name", "p\xc3\xa4ss", std::string(63, 'k'), std::string(64, 'k'), std::string(65, 'k'), std::string(300, 'z'), "with space", std::string("nul\0x", 5)};
    if (how < 2) { std::string t = c.pick(A); rq.data()->props[how ? "source" : "target"] = js::str(t).data(); Res r = p.k.call(p.env, p.o, "create", {rq}); c.step(); c.state(vh::hash_str(t, how)); if (!ref_addr(t)) { js::rejected(c, r, "the address '" + t + "'"); still_works(c, p); } else c.require(r.is_ok(), "address", [&] { return "the address '" + t + "' is rejected: " + js::show(r); }); return; }
    std::string u = c.pick(S), w = c.pick(S); Value a = js::obj({{"username", js::str(u)}, {"password", js::str(w)}}); rq.data()->props["auth"] = a.data(); Res r = p.k.call(p.env, p.o, "create", {rq}); c.require(r.is_ok(), "auth", [&] { return "user " + js::quote(u) + " with password " + js::quote(w) + " is rejected: " + js::show(r); }); a.data()->props.clear(); Res e = p.k.call(p.env, p.o, "next", {}); c.step(2); c.trace(); c.state(c.prefix_hash());
    Bytes b = e.is_ok() && js::get(e.unwrap(), "message").kind() == js::Kind::buffer ? js::bytes(js::get(e.unwrap(), "message")) : Bytes{}; auto m = ref::parse(b); c.require(m.ok && m.m.cls == 0 && m.m.method == 1 && m.m.username == std::optional<std::string>(u) && m.m.fingerprint && ref::integrity(b, m.m, lib::key(w)).value_or(false), "auth-request", [&] { return "the request for user " + js::quote(u) + " with password " + js::quote(w) + " is " + vh::hex(b); });
    // an answer under that password ends it, under another it does not
    Bytes t(b.begin() + 8, b.begin() + 20); auto resp = [&](const std::string& key) { ref::Enc x(ref::msg_type(2, 1), t); x.xaddr(pub(), t).mi(lib::key(key)); p.k.call(p.env, p.o, "response", {js::buf(x.b)}); auto n = js::show(p.k.call(p.env, p.o, "next", {})); return n.find("transaction_ok") != std::string::npos; }; c.require(!resp(w + "x"), "auth-answer", "an answer signed with another password is taken"); c.require(resp(w), "auth-answer", [&] { return "the answer signed with the password " + js::quote(w) + " is not taken"; });
}
// ---- transaction ids
static std::vector<Bytes> ids(int n) { std::vector<Bytes> r; Env env; js::Class k(node_stun::client_udp_class(env, "Client")); Value o = js::obj({}); k.construct(env, o, {js::obj({})}); for (int i = 0; i < n; ++i) { k.call(env, o, "create", {Pair::request(i % 3, "")}); Res e = k.call(env, o, "next", {}); if (e.is_ok() && js::get(e.unwrap(), "message").kind() == js::Kind::buffer) { Bytes b = js::bytes(js::get(e.unwrap(), "message")); if (b.size() >= 20) r.push_back(Bytes(b.begin() + 8, b.begin() + 20)); } } return r; }
static const bool g_child = [] { if (!getenv("VH_IDS")) return false; for (auto& b : ids(4)) printf("%s\n", vh::hex(b).c_str()); fflush(stdout); _exit(0); }();
VH_SECTION("ids: all different, every bit varies, and so does every run of the program", "B03") {
    if (c.choose(2)) { auto v = ids(vh::thorough() ? 4000 : 400); c.step(v.size()); std::set<Bytes> s(v.begin(), v.end()); c.require(v.size() >= 400 && s.size() == v.size(), "id-reused", "two requests have the same id"); for (int b = 0; b < 96; ++b) { int ones = 0; for (auto& x : v) ones += x[size_t(b / 8)] >> b % 8 & 1; c.require(ones > 0 && ones < int(v.size()), "id-bit", [&] { return "bit " + N(b) + " is the same in all of " + N(int64_t(v.size())) + " ids"; }); } return; }
    char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n <= 0) throw std::logic_error("no own path"); exe[n] = 0; std::set<std::string> all; size_t total = 0;
    for (int run = 0; run < 3; ++run) { std::string cmd = std::string("VH_IDS=1 '") + exe + "'"; FILE* f = popen(cmd.c_str(), "r"); char t[128]; size_t got = 0; while (f && fgets(t, sizeof t, f)) { all.insert(t); ++got; } if (f) pclose(f); c.require(got == 4, "ids", "a fresh run of the program makes no requests"); total += got; c.step(got); }
    c.require(all.size() == total, "id-repeated", "two runs of the program use the same transaction ids");
}
