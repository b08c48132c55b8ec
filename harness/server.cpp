// STUN server (V01, V02).
// DEPS: src/stun src/crypto/openssl src/net src/util/util_error_code.cpp src/util/util_hash_murmur.cpp
// LIBS: -lcrypto
#include "vh.hpp"
#include "serverref.hpp"
#include "stun/stun_server_stateless.hpp"
using namespace freewebrtc;
using stun::server::Stateless;
static Stateless server(bool fp, bool users = true, crypto::SHA1Hash::Func f = crypto::openssl::sha1) {
    Stateless::Settings st; st.use_fingerprint = fp; Stateless s(f, st);
    if (users) { auto pw = [](const std::string& p) { return stun::Password::short_term(precis::OpaqueString{p}, crypto::openssl::sha1).unwrap(); }; s.add_user(precis::OpaqueString{"alice"}, pw(PW1)); s.add_user(precis::OpaqueString{"bob"}, pw(PW2)); s.add_user(precis::OpaqueString{""}, pw("empty")); }
    return s;
}
static net::Endpoint endpoint(const ref::Addr& a, bool udp) { if (udp) return net::UdpEndpoint{lib::addr(a), lib::port(a.port)}; return net::TcpEndpoint{lib::addr(a), lib::port(a.port)}; }
static Got run(vh::Ctx& c, Stateless& s, const ref::Addr& from, bool udp, const Bytes& b, std::optional<Stateless::ProcessResult>* keep = nullptr) {
    lib::Exact e(b); c.step(); auto r = s.process(endpoint(from, udp), e.view()); c.require(e.same(b), "modified", "the datagram was modified"); Got g;
    if (auto* i = std::get_if<Stateless::Ignore>(&r)) { g.code = i->message.is_some() ? 0 : 1; g.text = "ignore " + N(g.code); if (g.code == 0) { std::string d = lib::diff(i->message.unwrap(), ref::parse(b).m); c.require(d.empty(), "ignored-message", [&] { return "the message passed on differs from the datagram: " + d; }); } }
    else if (auto* x = std::get_if<Stateless::Respond>(&r)) {
        auto wire = x->response.build(x->maybe_integrity); c.require(wire.is_ok(), "build", "the answer cannot be serialised"); for (auto z : wire.unwrap()) g.wire.push_back(z);
        auto p = ref::parse(g.wire); bool err = x->response.header.cls == stun::Class::error_response(); g.code = err ? (x->response.attribute_set.error_code().is_some() ? int(x->response.attribute_set.error_code().unwrap().get().code) : 1000) : 200;
        g.text = "respond " + vh::hex(g.wire); std::string d = lib::diff(x->request, ref::parse(b).m); c.require(d.empty(), "request", [&] { return "the request reported with the answer differs from the datagram: " + d; });
        c.require(bool(x->response.is_rfc3489) == bool(ref::parse(b).m.rfc3489), "classic-flag", "the answer to a classic request is not marked classic, or the other way round");
    } else { g.code = 2000; std::error_code e2 = std::get<Stateless::Error>(r).error; g.text = "error " + e2.message(); }
    if (keep) keep->emplace(std::move(r));
    c.note([&] { return vh::hex(b) + " -> " + g.text; });
    return g;
}
VH_SECTION("decisions: all classes, methods, users, signatures and unknown attributes", "V01,V02") {
    static const std::vector<unsigned> M{1, 2, 0, 0xfff, 0x81, 0x11, 3}; bool th = vh::thorough();
    unsigned cls = c.choose(4), m = cls ? c.pick(std::vector<unsigned>{1, 2}) : c.pick(M); bool classic = c.choose(2); if (classic && cls) return; uint32_t user = c.choose(8), mi = c.choose(9), unk = c.choose(7), extra = th ? c.choose(4) : c.choose(2) * 3, order = c.choose(4); bool fp = c.choose(2), sfp = c.choose(2); uint32_t who = th ? c.choose(senders().size()) : 3 * c.choose(2); bool users = !(user > 0 && user < 3 && mi == 1) || c.choose(2) == 0;
    Bytes b = request(c, cls, m, classic, user, mi, unk, extra, fp, order); Want w = decide(b, users); Stateless s = server(sfp, users); const auto& from = senders()[who]; Got g = run(c, s, from, true, b);
    c.outcome(uint64_t(w.code)); c.state(vh::mix(vh::hash_bytes(b.data(), b.size()), who * 4 + sfp * 2 + users)); c.trace();
    if (c.active("V01")) decision(c, b, g, w); else { if (g.code != w.code) return; answer_ok(c, b, g, w, from, sfp); }
}
VH_SECTION("decisions: every class and every method", "V01") {
    unsigned cls = c.choose(4), m = c.choose(4096); ref::Enc e(ref::msg_type(cls, m), T12); Want w = decide(e.b); Stateless s = server(true); Got g = run(c, s, senders()[0], true, e.b); decision(c, e.b, g, w); c.state(vh::mix(cls, m)); c.outcome(uint64_t(w.code));
}
VH_SECTION("decisions: every attribute type alone", "V01") {
    uint32_t t = c.choose(65536); ref::Enc e(ref::msg_type(0, 1), T12); e.word(t, 0x00010000); Want w = decide(e.b); Stateless s = server(true); Got g = run(c, s, senders()[0], true, e.b); decision(c, e.b, g, w); c.state(t); c.outcome(uint64_t(w.code));
}
VH_SECTION("decisions: every changed bit and every truncation of signed requests", "V01") {
    uint32_t k = c.choose(4); Bytes b = request(c, 0, 1, false, k & 1 ? 1 : 2, k & 1 ? 1 : 2, 0, 3, k & 2, 0); uint32_t n = c.choose(b.size() * 9); if (n < b.size() * 8) b[n / 8] ^= uint8_t(1 << n % 8); else b.resize(n - b.size() * 8);
    Want w = decide(b); Stateless s = server(true); Got g = run(c, s, senders()[0], true, b); decision(c, b, g, w); c.state(vh::hash_bytes(b.data(), b.size())); c.outcome(uint64_t(w.code));
}
VH_SECTION("decisions: every sequence of up to three attributes", "V01") {
    static const std::vector<std::pair<unsigned, Bytes>> A{{6, {'a', 'l', 'i', 'c', 'e'}}, {6, {'b', 'o', 'b'}}, {0x7f01, {1}}, {0x30, {}}, {0xc000, {1, 2}}, {0x24, {0, 0, 0, 1}}, {8, {}}, {0x108, {}}, {0x25, {}}, {0x8022, {'x'}}};
    ref::Enc e(ref::msg_type(0, 1), T12); uint32_t n = c.choose(vh::thorough() ? 6 : 5); for (uint32_t i = 0; i < n; ++i) { auto& [t, v] = c.pick(A); if (t == 8) e.mi(lib::key(PW1)); else if (t == 0x108) e.mi(lib::key(PW2)); else e.attr(t, v); } if (c.choose(2)) e.fp();
    Want w = decide(e.b); Stateless s = server(true); Got g = run(c, s, senders()[0], true, e.b); decision(c, e.b, g, w); c.state(vh::hash_bytes(e.b.data(), e.b.size())); c.outcome(uint64_t(w.code)); c.trace();
}
VH_SECTION("decisions: a failing hash function never authenticates", "V01") {
    uint32_t user = 1 + c.choose(3), mi = 1 + c.choose(3), at = c.choose(3), n = 0; bool failed = false; crypto::SHA1Hash::Func f = [&](const crypto::SHA1Hash::Input& in) -> crypto::SHA1Hash::Result { if (n++ == at) { failed = true; return std::make_error_code(std::errc::io_error); } return crypto::openssl::sha1(in); };
    Bytes b = request(c, 0, 1, false, user, mi, 0, 0, false, 0); Stateless s = server(true, true, f); Want w = decide(b); lib::Exact e(b); auto r = s.process(endpoint(senders()[0], true), e.view()); c.step();
    if (failed) { c.require(std::get_if<Stateless::Error>(&r), "hidden-failure", "the hash function failed and the server did not report an error"); return; } n = 100; c.require(std::get_if<Stateless::Respond>(&r), "answer"); auto& m = std::get<Stateless::Respond>(r).response; int code = m.header.cls == stun::Class::success_response() ? 200 : int(m.attribute_set.error_code().unwrap().get().code); c.require(code == w.code, "decision", [&] { return desc(b) + "answer " + N(code) + ", the table says " + wants(w); });
}
// ---------------------------------------------------------------- V02
VH_SECTION("answers: every address, port and id bit of the sender comes back", "V02") {
    uint32_t shape = c.choose(6), who = c.choose(4); ref::Addr from = who < 2 ? ref::Addr{who == 1, Bytes(who ? 16 : 4, 0x5a), 0x1234} : senders()[who == 2 ? 0 : 3]; bool classic = shape & 1, fp = shape & 2; uint32_t nb = uint32_t(from.b.size() * 8), bit = c.choose(nb + 16 + 96); Bytes tid = classic ? T16 : T12;
    if (bit < nb) from.b[bit / 8] ^= uint8_t(1 << bit % 8); else if (bit < nb + 16) from.port ^= uint16_t(1 << (bit - nb)); else { uint32_t t = bit - nb - 16; tid[tid.size() - 12 + t / 8] ^= uint8_t(1 << t % 8); }
    ref::Enc e(ref::msg_type(0, 1), tid, !classic); if (shape >= 4) { e.str(6, "bob").mi(lib::key(PW2)); } Want w = decide(e.b); Stateless s = server(fp); Got g = run(c, s, from, c.choose(2), e.b); c.require(g.code == w.code, "decision", [&] { return desc(e.b) + "answer " + N(g.code); }); answer_ok(c, e.b, g, w, from, fp); c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("answers: every port", "V02") { uint32_t p = c.choose(65536); bool v6 = c.choose(2), classic = c.choose(2); ref::Addr from = senders()[v6 ? 3 : 0]; from.port = uint16_t(p); ref::Enc e(ref::msg_type(0, 1), classic ? T16 : T12, !classic); Want w = decide(e.b); Stateless s = server(false); Got g = run(c, s, from, true, e.b); c.require(g.code == 200, "decision"); answer_ok(c, e.b, g, w, from, false); c.state(vh::mix(p, v6 * 2 + classic)); }
VH_SECTION("answers: errors echo any method and id", "V02") { uint32_t m = c.choose(4096), how = c.choose(3); bool classic = c.choose(2); ref::Enc e(ref::msg_type(0, m), classic ? T16 : T12, !classic); if (how == 0) e.word(0x7f01, 1); else if (how == 1) e.str(6, "alice"); else e.str(6, "carol").mi(lib::key(PW1)); Want w = decide(e.b); Stateless s = server(true); Got g = run(c, s, senders()[0], true, e.b); c.require(g.code == w.code, "decision"); answer_ok(c, e.b, g, w, senders()[0], true); c.state(vh::mix(m, how)); }
VH_SECTION("answers: what was processed before does not matter", "V02") {
    struct D { ref::Addr from; Bytes b; }; static std::vector<D> ds; if (ds.empty()) { auto add = [&](int s, Bytes b) { ds.push_back({senders()[s], b}); }; auto rq = [&](uint32_t user, uint32_t mi, uint32_t unk, bool fp, bool classic, unsigned m = 1) { return request(c, 0, m, classic, user, mi, unk, 0, fp, 0); };
        add(0, rq(0, 0, 0, false, false)); add(3, rq(0, 0, 0, true, false)); add(0, rq(1, 1, 0, true, false)); add(2, rq(2, 2, 0, false, false)); add(0, rq(1, 2, 0, false, false)); add(0, rq(1, 3, 0, false, false)); add(0, rq(3, 1, 0, false, false)); add(0, rq(1, 0, 0, false, false)); add(0, rq(0, 1, 0, false, false)); add(3, rq(1, 1, 2, false, false)); add(0, rq(0, 0, 0, false, true)); add(3, rq(1, 1, 0, false, true)); add(0, rq(0, 0, 0, false, false, 2)); add(0, Bytes{1, 2, 3}); add(0, Bytes(30, 0x80)); { Bytes b = rq(0, 0, 0, true, false); b.back() ^= 1; add(0, b); } add(0, request(c, 1, 1, false, 0, 0, 0, 0, false, 0)); add(4, request(c, 2, 1, false, 1, 1, 0, 0, false, 0)); add(5, rq(7, 6, 0, false, false)); { Bytes b = rq(0, 0, 0, false, false); b[9] ^= 0xff; add(0, b); } }
    bool fp = c.choose(2); uint32_t n = vh::thorough() ? 4 : 3; Stateless s = server(fp); std::vector<std::optional<Stateless::ProcessResult>> keep(n); std::vector<std::string> texts;
    for (uint32_t i = 0; i < n; ++i) { uint32_t k = c.choose(ds.size()); if (i + 1 == n || i == 0 || true) { Got g = run(c, s, ds[k].from, true, ds[k].b, &keep[i]); Stateless f = server(fp); Got h = run(c, f, ds[k].from, true, ds[k].b); texts.push_back(g.text); c.require(g.text == h.text, "history", [&] { return desc(ds[k].b) + "a fresh server gives " + h.text + ", this one after " + N(i) + " datagrams " + g.text; }); } }
    // earlier results stay as they were
    for (uint32_t i = 0; i < n; ++i) if (auto* x = std::get_if<Stateless::Respond>(&*keep[i])) { auto wire = x->response.build(x->maybe_integrity); Bytes b; for (auto z : wire.unwrap()) b.push_back(z); c.require("respond " + vh::hex(b) == texts[i], "result-changed", "an answer handed out earlier changed when later datagrams were processed"); }
    c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("answers: users added in any order and at any time", "V02") {
    Stateless::Settings st; Stateless s(crypto::openssl::sha1, st); std::map<std::string, std::string> have; static const char* NM[] = {"alice", "bob", "carol", ""}; uint32_t n = vh::thorough() ? 4 : 3;
    for (uint32_t i = 0; i < n; ++i) { uint32_t u = c.choose(4), p = c.choose(2); if (have.count(NM[u])) return; std::string pw = p ? PW2 : PW1; have[NM[u]] = pw; s.add_user(precis::OpaqueString{NM[u]}, stun::Password::short_term(precis::OpaqueString{pw}, crypto::openssl::sha1).unwrap());
        for (auto nm : NM) for (auto& key : {PW1, PW2}) { ref::Enc e(ref::msg_type(0, 1), T12); e.str(6, nm).mi(lib::key(key)); Got g = run(c, s, senders()[0], true, e.b); bool ok = have.count(nm) && have[nm] == key; c.require(g.code == (ok ? 200 : 401), "users", [&] { return std::string("user '") + nm + "' with the " + (ok ? "right" : "wrong") + " password gets " + N(g.code); }); } }
    c.trace(); c.state(c.prefix_hash());
}
// ---------------------------------------------------------------- many users, many datagrams
VH_SECTION("scale: up to a thousand users, each with a password of its own", "V01") {
    static std::vector<int> S; if (S.empty()) { for (int i = 1; i <= (vh::thorough() ? 300 : 20); ++i) S.push_back(i); for (int b : {32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024}) for (int d = -1; d <= 1; ++d) S.push_back(b + d); }
    int n = c.pick(S), shape = int(c.choose(6)); Stateless s(crypto::openssl::sha1, Stateless::Settings{});
    auto name = [&](int i) { return shape == 5 ? std::string(size_t((i + 1) % 7), '-') + N(i) : shape == 4 ? (i < 60 ? std::string(1, char('@' + i)) : std::string(1, char('0' + i / 60 % 60)) + char('0' + i % 60)) : shape == 0 ? "u" + N(i) : shape == 1 ? std::string(size_t(i), 'x') : shape == 2 ? std::string("common-prefix-of-many-characters-") + char('a' + i % 26) + N(i / 26) : N(i) + "@example.org"; };
    auto pass = [&](int i) { return "p" + N(i * 7919 % 100003); }; auto pw = [&](const std::string& p) { return stun::Password::short_term(precis::OpaqueString{p}, crypto::openssl::sha1).unwrap(); };
    for (int i = 0; i < n; ++i) s.add_user(precis::OpaqueString{name(i)}, pw(pass(i)));
    for (int i = -1; i <= n; ++i) for (int w = 0; w < 2; ++w) { if (i < 0 && shape == 1) continue; bool exists = i >= 0 && i < n; std::string p = pass(w ? (i + 1) % n : i); ref::Enc e(ref::msg_type(0, 1), T12); e.str(6, name(i)).mi(lib::key(p)); bool ok = exists && p == pass(i); Got g = run(c, s, senders()[0], true, e.b); c.require(g.code == (ok ? 200 : 401), "users", [&] { return "with " + N(n) + " users, number " + N(i) + (ok ? " with its own password" : exists ? " with the password of another" : " that does not exist") + " gets " + N(g.code); }); }
    c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("scale: any datagram repeated over a thousand times, everything else in between", "V01,V02") {
    static std::vector<std::pair<ref::Addr, Bytes>> ds; static std::vector<Want> ws; if (ds.empty()) { auto add = [&](int s, Bytes b) { ds.push_back({senders()[s], b}); }; auto rq = [&](uint32_t user, uint32_t mi, uint32_t unk, bool fp, bool classic, unsigned m = 1) { return request(c, 0, m, classic, user, mi, unk, 0, fp, 0); };
        add(0, rq(0, 0, 0, false, false)); add(3, rq(0, 0, 0, true, false)); add(0, rq(1, 1, 0, true, false)); add(2, rq(2, 2, 0, false, false)); add(0, rq(1, 2, 0, false, false)); add(0, rq(3, 1, 0, false, false)); add(0, rq(1, 0, 0, false, false)); add(0, rq(0, 1, 0, false, false)); add(3, rq(1, 1, 2, false, false)); add(0, rq(0, 0, 0, false, true)); add(3, rq(1, 1, 0, false, true)); add(0, rq(0, 0, 0, false, false, 2)); add(0, Bytes{1, 2, 3}); { Bytes b = rq(0, 0, 0, true, false); b.back() ^= 1; add(0, b); } add(0, request(c, 1, 1, false, 0, 0, 0, 0, false, 0)); add(4, request(c, 2, 1, false, 1, 1, 0, 0, false, 0));
        for (auto& d : ds) ws.push_back(decide(d.second)); }
    size_t k = c.choose(ds.size()); bool fp = c.choose(2), other = c.choose(2); Stateless s = server(fp); const int n = vh::thorough() ? 20000 : 1100;
    auto check = [&](size_t i, ref::Addr from, int after) { Got g = run(c, s, from, true, ds[i].second); c.require(g.code == ws[i].code, "decision", [&] { return desc(ds[i].second) + "after " + N(after) + " times " + vh::hex(ds[k].second) + ": answer " + N(g.code) + ", the table says " + wants(ws[i]); }); answer_ok(c, ds[i].second, g, ws[i], from, fp); };
    for (int r = 1; r <= n; ++r) { ref::Addr from = ds[k].first; if (other) { from.b.back() = uint8_t(r); from.b[from.b.size() - 2] = uint8_t(r >> 8); from.port = uint16_t(r * 31); } check(k, from, r - 1); int e = 1; while (e * 2 <= r) e *= 2; bool probe = r <= 20 || r - e <= 1 || e * 2 - r <= 1 || r % 100 == 0 || r % 100 == 1; if (probe) for (size_t i = 0; i < ds.size(); ++i) if (i != k) check(i, ds[i].first, r); }
    c.trace(); c.state(c.prefix_hash());
}
// ---------------------------------------------------------------- special values
VH_SECTION("scale: requests with hundreds of unknown attributes, all different or all the same", "V01,V02") {
    uint32_t n = c.choose(vh::thorough() ? 300 : 150) + 1, kind = c.choose(3); if (n > 140) n = 140 + (n - 140) * 11; bool classic = c.choose(2), sig = c.choose(2);
    ref::Enc e(ref::msg_type(0, 1), classic ? T16 : T12, !classic); for (uint32_t i = 0; i < n; ++i) e.attr(kind == 0 ? 0x3000 + i : kind == 1 ? 0x7f01 : i % 3 ? 0x9000 + i : 0x3000 + i, Bytes(i % 6, uint8_t(i))); if (sig) { e.str(6, "bob").mi(lib::key(PW2)); }
    Want w = decide(e.b); Stateless s = server(false); Got g = run(c, s, senders()[0], true, e.b); if (c.active("V01")) decision(c, e.b, g, w); else { if (g.code != w.code) return; answer_ok(c, e.b, g, w, senders()[0], false); } c.state(vh::mix(n, kind * 4 + classic * 2 + sig)); c.outcome(uint64_t(w.code));
}
VH_SECTION("answers: special ids from special addresses", "V01,V02") {
    static const std::vector<ref::Addr> A{{false, {0, 0, 0, 0}, 0}, {false, {127, 0, 0, 1}, 0}, {false, {33, 18, 164, 66}, 0}, {false, {255, 255, 255, 255}, 0}, {false, {192, 168, 0, 1}, 0}, {true, Bytes(16, 0), 0}, {true, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, 0}, {true, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 127, 0, 0, 1}, 0}, {true, {0xfe, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9}, 0}, {true, Bytes(16, 0xff), 0}}; static const std::vector<uint16_t> P{0, 1, 0x2112, 0x1221, 3478, 0xffff, 0x8000};
    uint32_t id = c.choose(5 + 256 + 2), how = c.choose(4); ref::Addr from = c.pick(A); from.port = id < 5 || id > 260 ? c.pick(P) : uint16_t(id * 257); bool classic = how == 3, fp = id & 1; Bytes t(classic ? 16 : 12, 0);
    if (id >= 5 && id < 261) std::fill(t.begin(), t.end(), uint8_t(id - 5)); else if (id == 1) t.assign(t.size(), 0xff); else if (id == 2) for (size_t i = 0; i < t.size(); ++i) t[i] = Bytes{0x21, 0x12, 0xa4, 0x42}[(i + (classic ? 1 : 0)) % 4]; else if (id == 3) for (size_t i = 0; i < t.size(); ++i) t[i] = uint8_t(i); else if (id == 4) t.back() = 1; else if (id == 261) t[0] = 1; else if (id == 262) for (size_t i = 4; i < t.size(); ++i) t[i] = from.b[i % from.b.size()];
    ref::Enc e(ref::msg_type(0, 1), t, !classic); if (how == 1) e.str(6, "bob").mi(lib::key(PW2)); if (how == 2) e.word(0x7f01, 1); Want w = decide(e.b); Stateless s = server(fp); Got g = run(c, s, from, id & 2, e.b); if (c.active("V01")) decision(c, e.b, g, w); else { c.require(g.code == w.code, "decision", [&] { return desc(e.b) + "answer " + N(g.code); }); answer_ok(c, e.b, g, w, from, fp); } c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("decisions: names and passwords that nearly match", "V01") {
    static const std::vector<std::pair<std::string, std::string>> U{{"alice", PW1}, {"bob", PW2}, {"", "empty"}}; auto [name, pw] = c.pick(U); bool on_name = c.choose(2); uint32_t op = c.choose(6); char ch = char(c.choose(256)); std::string& t = on_name ? name : pw; size_t at = c.choose(uint32_t(std::min<size_t>(t.size(), 8) + 1)); if (at && op > 2) return;
    switch (op) { case 0: t.insert(at, 1, ch); break; case 1: if (at >= t.size()) return; t[at] = ch; break; case 2: if (at >= t.size()) return; t[at] = char(t[at] ^ 32); t += ch; break; case 3: t += std::string(3, ch); break; case 4: t = ch + t + ch; break; default: t = std::string(4 - t.size() % 4, ch).insert(0, t); }
    ref::Enc e(ref::msg_type(0, 1), T12); e.str(6, name).mi(lib::key(pw)); Want w = decide(e.b); Stateless s = server(true); Got g = run(c, s, senders()[0], true, e.b); decision(c, e.b, g, w); c.state(vh::hash_bytes(e.b.data(), e.b.size())); c.outcome(uint64_t(w.code)); c.trace();
}
