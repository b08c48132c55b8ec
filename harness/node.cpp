// Node bindings: message parser, STUN server, hashes (B01, B02, B05).
// DEPS: src/stun src/net src/crypto/openssl src/util/util_error_code.cpp src/util/util_hash_murmur.cpp node/node_stun node/openssl
// INCS: .
// LIBS: -lcrypto -ldl
#include "nodejs.hpp"
#include "faultssl.hpp"
#include "serverref.hpp"
#include <arpa/inet.h>
#include "util/util_result.hpp"
#include "util/util_maybe.hpp"
#include "node/node_stun/node_stun_message.hpp"
#include "node/node_stun/node_stun_server_stateless.hpp"
#include "node/openssl/node_openssl_hash.hpp"
#include "refmd5.hpp"
using js::Value; using js::Env; using js::Res;
static std::string N2(uint64_t v) { return std::to_string(v); }
// ---- the object a message becomes
static bool describable(const ref::Msg& m) { return m.method == 1; }
static std::string msg_text(const ref::Msg& m) {
    static const char* C[] = {"request", "indication", "success_response", "error_response"}; js::Text h, a, o; using js::quote;
    h.set("class", quote(C[m.cls])).set("method", quote("binding")).set("transaction", js::buffer_text(m.tid));
    if (m.username) a.set("username", quote(*m.username)); if (m.software) a.set("software", quote(*m.software)); if (m.priority) a.set("priority", js::number(*m.priority));
    if (m.controlling) a.set("ice-controlling", N2(*m.controlling) + "n"); if (m.controlled) a.set("ice-controlled", N2(*m.controlled) + "n"); if (m.use_candidate) a.set("use-candidate", "true");
    if (m.error) a.set("error_code", js::Text().set("code", js::number(m.error->code)).set("reason", quote(m.error->reason)).str());
    if (m.xored && !m.rfc3489) a.set("xor_mapped", js::Text().set("addr", "ip:" + vh::hex(ref::xor_bytes(*m.xored, m.tid))).set("port", js::number(m.xored->port)).str());
    return o.set("header", h.str()).set("is_rfc3489", m.rfc3489 ? "true" : "false").set("attributes", a.str()).str();
}
// the standard defines no exclusive-or encoding for classic ids
static std::string object_text(const Value& v, const ref::Msg& m) { if (m.rfc3489) js::get(v, "attributes").data()->props.erase("xor_mapped"); return js::text(v); }
static void parse(vh::Ctx& c, const Bytes& b) {
    Env env; Value in = js::buf(b); Res r = freewebrtc::node_stun::message_parse(env, js::info(js::undefined(), {in})); c.step(); c.trace(); c.state(vh::hash_bytes(b.data(), b.size()));
    c.require(js::bytes(in) == b, "modified", [&] { return desc(b) + "the caller's buffer was modified"; }); js::scribble(in);
    auto p = ref::parse(b); bool ok = p.ok && describable(p.m); c.outcome(vh::mix(p.causes, ok)); c.note([&] { return vh::hex(b) + " -> " + js::show(r); });
    if (!ok) { js::rejected(c, r, p.ok ? "a message of an unnamed method, " + vh::hex(b) + "," : "the malformed datagram " + vh::hex(b)); return; }
    c.require(r.is_ok(), "rejected", [&] { return desc(b) + js::show(r); }); std::string g = object_text(r.unwrap(), p.m), w = msg_text(p.m); c.sample([&] { return vh::hex(b) + " -> " + w; });
    c.require(g == w, "object", [&] { return desc(b) + "the object is\n    " + g + "\n  but the bytes say\n    " + w; });
}
struct Form { unsigned type; Bytes v; };
static const std::vector<Form>& forms() {
    static const std::vector<Form> f = [] { auto S = [](const std::string& s) { return Bytes(s.begin(), s.end()); }; Bytes v6{0, 2, 0x80, 0x55}; for (int i = 0; i < 16; ++i) v6.push_back(uint8_t(i * 17 + 1));
        return std::vector<Form>{{6, S("alice")}, {6, {}}, {6, S("b\"\\\n")}, {0x8022, S("agent 1.0")}, {0x8022, {}}, {0x20, {0, 1, 0xa1, 0x47, 0xe1, 0x12, 0xa6, 0x43}}, {0x20, v6}, {1, {0, 1, 0, 9, 1, 2, 3, 4}}, {0x8023, {0, 1, 0, 9, 1, 2, 3, 4}}, {0x24, {0x6e, 0, 1, 0xff}}, {0x24, {0xff, 0xff, 0xff, 0xff}}, {0x802a, {0x93, 0x2f, 0xf9, 0xb1, 0x51, 0x26, 0x3b, 0x36}}, {0x802a, Bytes(8, 0)}, {0x8029, Bytes(8, 0xff)}, {0x8029, {0, 0, 0, 0, 0, 0, 1, 0}}, {0x25, {}}, {9, {0, 0, 4, 20, 'N', 'o'}}, {9, {0, 0, 5, 0}}, {9, {0, 0, 6, 99, '"'}}, {0xa, {0x7f, 1}}, {8, Bytes(20, 7)}, {0x7f01, {1}}, {0xc001, {}}, {0x24, {1, 2}}, {0x20, {0, 3, 0, 0}}}; }();
    return f;
}
VH_SECTION("messages: every subset of attributes in every class", "B01") {
    static const size_t K[] = {0, 3, 5, 9, 11, 13, 15, 16, 19}; uint32_t cls = c.choose(4), set = c.choose(512), alt = c.choose(2); bool fp = c.choose(2), classic = cls == 0 && c.choose(2); ref::Enc e(ref::msg_type(cls, 1), classic ? T16 : T12, !classic);
    for (int i = 0; i < 9; ++i) if (set >> i & 1) { auto& f = forms()[K[i] + (alt && i < 8 ? 1 : 0)]; e.attr(f.type, f.v, uint8_t(alt * 0x20)); } if (fp) e.fp(); parse(c, e.b);
}
VH_SECTION("messages: every sequence of attributes", "B01") { uint32_t n = c.choose(vh::thorough() ? 5 : 4); ref::Enc e(ref::msg_type(2, 1), T12); for (uint32_t i = 0; i < n; ++i) { auto& f = c.pick(forms()); e.attr(f.type, f.v); } parse(c, e.b); }
VH_SECTION("messages: every bit of every value", "B01") {
    uint32_t k = c.choose(forms().size() - 2), fill = c.choose(3); Form f = forms()[k]; if (f.type == 8) return; if (fill && f.v.size() > 4) std::fill(f.v.begin() + (f.type == 9 || f.type == 0x20 ? 4 : 0), f.v.end(), fill == 1 ? 0x20 : 0x7e); if (f.v.empty()) f.v.clear(); else { uint32_t bit = c.choose(f.v.size() * 8); if (f.type == 6 || f.type == 0x8022 || (f.type == 9 && bit >= 32)) bit &= ~7u, bit += 1 + c.choose(4); f.v[bit / 8] ^= uint8_t(1 << bit % 8); }
    ref::Enc e(ref::msg_type(c.choose(4), 1), T12); e.attr(f.type, f.v); parse(c, e.b);
}
VH_SECTION("messages: every bit of the transaction id and address", "B01") {
    bool v6 = c.choose(2); Bytes tid = T12; ref::Addr a{v6, Bytes(v6 ? 16 : 4, 0x5a), 0x1234}; uint32_t nb = v6 ? 128 : 32, bit = c.choose(nb + 96 + 16); if (bit < nb) a.b[bit / 8] ^= uint8_t(1 << bit % 8); else if (bit < nb + 96) tid[(bit - nb) / 8] ^= uint8_t(1 << bit % 8); else a.port ^= uint16_t(1 << (bit - nb - 96)); ref::Enc e(ref::msg_type(2, 1), tid); e.xaddr(a, tid); parse(c, e.b);
}
VH_SECTION("messages: every port and every error code", "B01") { uint32_t v = c.choose(65536 + 2048); ref::Enc e(ref::msg_type(v < 65536 ? 2 : 3, 1), T12); if (v < 65536) e.xaddr(ref::Addr{bool(v & 1), Bytes(v & 1 ? 16 : 4, 9), uint16_t(v)}, T12); else { v -= 65536; e.attr(9, {0, 0, uint8_t(v >> 8), uint8_t(v), 'x'}); } parse(c, e.b); }
VH_SECTION("messages: every class and method", "B01") { uint32_t cls = c.choose(4), m = c.choose(4096); ref::Enc e(ref::msg_type(cls, m), T12); if (c.choose(2)) e.str(0x8022, "x"); parse(c, e.b); }
VH_SECTION("messages: every changed byte and every truncation", "B01") {
    ref::Enc e(ref::msg_type(c.choose(2) * 2, 1), T12); e.str(6, "al").xaddr(senders()[3], T12).word(0x24, 5).attr(0x25, {}).error(420, "no"); if (c.choose(2)) e.mi(lib::key(PW1)).fp(); uint32_t how = c.choose(2); size_t p = c.choose(e.b.size()); if (how) e.b.resize(p); else { static const std::vector<uint8_t> X{1, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x7f}; e.b[p] ^= c.pick(X); } parse(c, e.b);
}
VH_SECTION("messages: every length of text", "B01") { uint32_t n = c.choose(vh::thorough() ? 800 : 300), k = c.choose(3); std::string s(n, 'q'); for (uint32_t i = 0; i < n; ++i) s[i] = char(i % 94 + 32); ref::Enc e(ref::msg_type(k == 2 ? 3 : 0, 1), T12); if (k == 2) e.error(500, s); else e.str(k ? 6 : 0x8022, s); parse(c, e.b); }
VH_SECTION("messages: every character in every place of a text", "B01") { uint32_t ch = c.choose(128), at = c.choose(3), k = c.choose(3); std::string s = "qwe"; s[at] = char(ch); ref::Enc e(ref::msg_type(k == 2 ? 3 : 0, 1), T12); if (k == 2) e.error(500, s); else e.str(k ? 6 : 0x8022, s); parse(c, e.b); }
VH_SECTION("messages: anything but a buffer", "B01") { Env env; auto& K = js::kinds(); uint32_t k = c.choose(K.size() + 1); std::vector<Value> args; if (k < K.size()) args.push_back(K[k]); Res r = freewebrtc::node_stun::message_parse(env, js::info(js::undefined(), args)); c.step(); c.state(k); js::rejected(c, r, k < K.size() ? std::string("a ") + js::kind_name(K[k]) : "no argument"); }
// ---------------------------------------------------------------- B02
static std::string ip(const ref::Addr& a) { char t[64]; inet_ntop(a.v6 ? AF_INET6 : AF_INET, a.b.data(), t, sizeof t); return t; }
static Value rinfo(const ref::Addr& a) { return js::obj({{"address", js::str(ip(a))}, {"family", js::str(a.v6 ? "IPv6" : "IPv4")}, {"port", js::num(a.port)}, {"size", js::num(1)}}); }
struct Server {
    vh::Ctx& c; Env env; js::Class k; Value o;
    explicit Server(vh::Ctx& cc, bool users = true) : c(cc), k(freewebrtc::node_stun::server_stateless_class(env, "Server")) { c.require(k.cls.kind() == js::Kind::function && k.has("process") && k.has("addUser"), "class", "the server class cannot be made"); o = k.make(env, {}, c); if (users) { add("alice", PW1); add("bob", PW2); add("", "empty"); } }
    void add(const std::string& n, const std::string& p) { Res r = k.call(env, o, "addUser", {js::str(n), js::str(p)}); c.step(); c.require(r.is_ok(), "add-user", [&] { return "adding user '" + n + "' fails: " + js::show(r); }); }
    Res process(const Value& b, const Value& r) { c.step(); return k.call(env, o, "process", {b, r}); }
    // everything observable about one datagram, checked for shape
    Got run(const ref::Addr& from, const Bytes& b) { Value in = js::buf(b); Res r = process(in, rinfo(from)); c.require(js::bytes(in) == b, "modified", [&] { return desc(b) + "the caller's buffer was modified"; }); js::scribble(in); return take(r, b); }
    Got take(const Res& r, const Bytes& b) {
        Got g; g.text = js::show(r); c.note([&] { return vh::hex(b) + " -> " + g.text; }); c.require(r.is_ok(), "error", [&] { return desc(b) + g.text; }); Value v = r.unwrap(); auto m = ref::parse(b); std::string res = js::text(js::get(v, "result"));
        if (res == "\"ignore\"") { bool has = js::get(v, "message").kind() != js::Kind::undefined, can = m.ok && describable(m.m); c.require(has == can && v.data()->props.size() <= 2, "ignored-shape", [&] { return desc(b) + (can ? "ignored without passing the message on: " : "ignored with a message that does not exist: ") + g.text; }); g.code = m.ok ? 0 : 1; if (can) { std::string t = object_text(js::get(v, "message"), m.m); c.require(t == msg_text(m.m), "ignored-message", [&] { return desc(b) + "the message passed on is\n    " + t + "\n  but the bytes say\n    " + msg_text(m.m); }); } return g; }
        c.require(res == "\"respond\"" && js::get(v, "data").kind() == js::Kind::buffer && v.data()->props.size() == 2, "result-shape", [&] { return desc(b) + "the result is " + g.text; }); g.wire = js::bytes(js::get(v, "data"));
        if (g.wire.size() >= 20) { auto p = parse_answer(g.wire, m.m.rfc3489); g.code = p.m.cls == 3 ? (p.m.error ? int(p.m.error->code) : 1000) : 200; } else g.code = 2000; return g;
    }
    void judge(const ref::Addr& from, const Bytes& b, bool users = true) { Want w = decide(b, users); Got g = run(from, b); c.trace(); c.outcome(uint64_t(w.code)); c.state(vh::hash_bytes(b.data(), b.size(), vh::hash_bytes(from.b.data(), from.b.size()))); c.sample([&] { return vh::hex(b) + " -> " + wants(w); }); decision(c, b, g, w); answer_ok(c, b, g, w, from, true); }
};
VH_SECTION("server: all classes, users, signatures and unknown attributes", "B02") {
    static const std::vector<unsigned> M{1, 2, 0, 0xfff}; bool th = vh::thorough(); unsigned cls = c.choose(4), m = cls ? 1 : c.pick(M); bool classic = cls == 0 && c.choose(2); uint32_t user = c.choose(8), mi = c.choose(9), unk = c.choose(7), order = c.choose(th ? 4 : 2) * (th ? 1 : 3); bool fp = c.choose(2); uint32_t who = th ? c.choose(senders().size()) : 3 * c.choose(2); bool users = !(user > 0 && user < 3 && mi == 1) || c.choose(2) == 0;
    Server s(c, users); s.judge(senders()[who], request(c, cls, m, classic, user, mi, unk, 3, fp, order), users);
}
VH_SECTION("server: every class and method", "B02") { uint32_t cls = c.choose(4), m = c.choose(4096), how = c.choose(2); ref::Enc e(ref::msg_type(cls, m), T12); if (how) e.word(0x7f01, 1); Server s(c, false); s.judge(senders()[0], e.b, false); }
VH_SECTION("server: every changed bit and every truncation of a signed request", "B02") { uint32_t k = c.choose(2); Bytes b = request(c, 0, 1, false, 1 + k, 1 + k, 0, 0, k, 0); uint32_t n = c.choose(b.size() * 9); if (n < b.size() * 8) b[n / 8] ^= uint8_t(1 << n % 8); else b.resize(n - b.size() * 8); Server s(c); s.judge(senders()[0], b); }
VH_SECTION("server: every bit of the sender and the id", "B02") {
    uint32_t shape = c.choose(3), who = c.choose(4); ref::Addr from = who < 2 ? ref::Addr{who == 1, Bytes(who ? 16 : 4, 0x5a), 0x1234} : senders()[who == 2 ? 0 : 3]; bool classic = shape == 1; uint32_t nb = uint32_t(from.b.size() * 8), bit = c.choose(nb + 16 + 96); Bytes tid = classic ? T16 : T12;
    if (bit < nb) from.b[bit / 8] ^= uint8_t(1 << bit % 8); else if (bit < nb + 16) from.port ^= uint16_t(1 << (bit - nb)); else { uint32_t t = bit - nb - 16; tid[tid.size() - 12 + t / 8] ^= uint8_t(1 << t % 8); } ref::Enc e(ref::msg_type(0, 1), tid, !classic); if (shape == 2) e.str(6, "bob").mi(lib::key(PW2)); Server s(c); s.judge(from, e.b);
}
VH_SECTION("server: every port number, valid or not", "B02") {
    int64_t p = int64_t(c.choose(65536 + 4 + 2000)); if (p >= 65540) { int64_t k = p - 65540; static const int64_t B[] = {-70000, -65800, -40000, -1000, 65536, 98000, 131000, 2147482900, -2147483648LL, 65535 * 3}; p = B[k % 10] + k / 10; } else if (p >= 65536) { static const int64_t B[] = {-1, -65536, -65535, 131072}; p = B[p - 65536]; }
    ref::Addr from = senders()[c.choose(2) * 3]; Value ri = rinfo(from); ri.data()->props["port"] = js::num(double(p)).data(); ref::Enc e(ref::msg_type(0, 1), T12); Server s(c, false); Res r = s.process(js::buf(e.b), ri); c.state(vh::mix(uint64_t(p), from.v6)); c.trace();
    if (p < 0 || p > 65535) { js::rejected(c, r, "the port " + N(p)); return; } from.port = uint16_t(p); Got g = s.take(r, e.b); Want w = decide(e.b); decision(c, e.b, g, w); answer_ok(c, e.b, g, w, from, true);
}
VH_SECTION("server: arguments of every kind", "B02") {
    auto& K = js::kinds(); uint32_t how = c.choose(7), k = c.choose(K.size() + 1); Value v = k < K.size() ? K[k] : js::undefined(); auto is = [&](js::Kind x) { return v.kind() == x; }; Server s(c); ref::Enc e(ref::msg_type(0, 1), T12); e.str(6, "alice").mi(lib::key(PW1)); Value ri = rinfo(senders()[0]); auto kn = [&] { return std::string(js::kind_name(v)); }; c.state(how * 100 + k);
    auto set = [&](const char* f) { if (k < K.size()) ri.data()->props[f] = v.data(); else ri.data()->props.erase(f); };
    switch (how) {
    case 0: if (is(js::Kind::buffer)) return; js::rejected(c, s.process(v, ri), "a datagram that is a " + kn()); break;
    case 1: js::rejected(c, s.process(js::buf(e.b), v), "a sender that is a " + kn()); break;
    case 2: set("address"); js::rejected(c, s.process(js::buf(e.b), ri), "an address that is a " + kn()); break;
    case 3: set("port"); if (is(js::Kind::number)) return; js::rejected(c, s.process(js::buf(e.b), ri), "a port that is a " + kn()); break;
    case 4: if (is(js::Kind::string)) return; js::rejected(c, s.k.call(s.env, s.o, "addUser", {v, js::str("p")}), "a user name that is a " + kn()); break;
    case 5: if (is(js::Kind::string)) return; js::rejected(c, s.k.call(s.env, s.o, "addUser", {js::str("carol"), v}), "a password that is a " + kn()); break;
    case 6: js::rejected(c, s.k.call(s.env, v, "process", {js::buf(e.b), ri}), "a call on a " + kn()); js::rejected(c, s.k.call(s.env, v, "addUser", {js::str("carol"), js::str("p")}), "a call on a " + kn()); break;
    }
    // nothing has changed
    s.judge(senders()[0], e.b); ref::Enc f(ref::msg_type(0, 1), T12); f.str(6, "carol").mi(lib::key("p")); s.judge(senders()[3], f.b); ref::Enc h(ref::msg_type(0, 1), T12); h.str(6, "carol").mi(lib::key("")); s.judge(senders()[3], h.b);
}
VH_SECTION("server: address texts", "B02") {
    static const std::vector<std::string> T{"1.2.3.4", "::1", "2001:DB8::1", "::ffff:1.2.3.4", "255.255.255.255", "", "1.2.3", "1.2.3.256", "localhost", "fe80::1%eth0", "[::1]", "1.2.3.4 ", "::", "01.2.3.4"}; std::string t = c.pick(T); ref::Addr from = senders()[0]; Value ri = rinfo(from); ri.data()->props["address"] = js::str(t).data(); ref::Enc e(ref::msg_type(0, 1), T12); Server s(c); Res r = s.process(js::buf(e.b), ri); c.state(vh::hash_str(t)); auto a = ref_addr(t); if (!a) { js::rejected(c, r, "the address '" + t + "'"); return; } from.b = *a; from.v6 = a->size() == 16; Got g = s.take(r, e.b); Want w = decide(e.b); decision(c, e.b, g, w); answer_ok(c, e.b, g, w, from, true);
}
VH_SECTION("server: every order of users, datagrams and bad calls on two servers", "B02") {
    Server s(c, false), t(c, false); std::map<std::string, std::string> have; uint32_t n = vh::thorough() ? 5 : 4; std::vector<std::pair<Value, std::string>> old;
    for (uint32_t i = 0; i < n; ++i) {
        uint32_t op = c.choose(13); static const char* NM[] = {"alice", "bob", "", "carol"};
        if (op < 4) { if (have.count(NM[op])) return; have[NM[op]] = op == 1 ? PW2 : PW1; s.add(NM[op], have[NM[op]]); }
        else if (op < 12) { bool two = op >= 10; std::string u = NM[(op - 4) % 4], k = op - 4 < 4 ? (u == "bob" ? PW2 : PW1) : (u == "bob" ? PW1 : PW2); ref::Enc e(ref::msg_type(0, 1), T12); e.str(6, u).mi(lib::key(k)); Server& x = two ? t : s; Value in = js::buf(e.b); Res r = x.process(in, rinfo(senders()[0])); js::scribble(in); Got g = x.take(r, e.b); auto it = have.find(u); bool ok = !two && it != have.end() && it->second == k; c.require(g.code == (ok ? 200 : 401), "users", [&] { return "user '" + u + "' with the " + (ok ? "right" : "wrong") + " password gets " + N(g.code); }); if (ok) { Want w = decide(e.b, false); w.code = 200; w.key = k; answer_ok(c, e.b, g, w, senders()[0], true); } old.push_back({r.unwrap(), g.text}); }
        else { Bytes b{1, 2, 3}; s.take(s.process(js::buf(b), rinfo(senders()[0])), b); }
        for (auto& [v, x] : old) c.require(js::text(v) == x, "result-changed", "a result handed out earlier changed later");
    }
    c.trace(); c.state(c.prefix_hash());
}
// ---- texts a user name or password may be
static const std::vector<std::string>& texts() {
    static const std::vector<std::string> v = [] { std::string l(600, 'x'); std::vector<std::string> t{"", "a", std::string("\0", 1), std::string("a\0", 2), std::string("a\0b", 3), "A", "a ", " a", "\xc3\xa9", "e\xcc\x81", "\xff", "a%s%n"};
        for (size_t n : {8, 16, 32, 63, 64, 65, 128, 256, 512}) { t.push_back(l.substr(0, n)); t.push_back(l.substr(0, n - 1) + "y"); } return t; }(); return v;
}
static void text_exchange(vh::Ctx& c, Server& s, const std::map<std::string, std::string>& users, const std::string& u, const std::string& p) {
    ref::Enc e(ref::msg_type(0, 1), T12); e.str(6, u).mi(lib::key(p)); auto it = users.find(u); Want w; w.request = ref::parse(e.b).m; w.code = it != users.end() && lib::key(it->second) == lib::key(p) ? 200 : 401; if (w.code == 200) w.key = p;
    if (w.code == 401 && it != users.end() && ref::integrity(e.b, w.request, lib::key(it->second)).value_or(false)) { w.code = 200; w.key = it->second; } Got g = s.run(senders()[0], e.b); c.trace(); c.outcome(uint64_t(w.code)); decision(c, e.b, g, w); answer_ok(c, e.b, g, w, senders()[0], true);
}
VH_SECTION("server: every pair of user names and of passwords", "B02") {
    auto& T = texts(); uint32_t how = c.choose(2), i = c.choose(T.size()), j = c.choose(T.size()); if (i == j) return; Server s(c, false); std::map<std::string, std::string> users; auto add = [&](const std::string& n, const std::string& p) { s.add(n, p); users[n] = p; };
    std::string n1 = how ? "one" : T[i], n2 = how ? "two" : T[j], p1 = how ? T[i] : "first", p2 = how ? T[j] : "second"; add(n1, p1); text_exchange(c, s, users, n1, p1); text_exchange(c, s, users, n2, p2); add(n2, p2); c.state(c.prefix_hash());
    for (auto& n : {n1, n2}) for (auto& p : {p1, p2}) text_exchange(c, s, users, n, p);
}
VH_SECTION("server: every sequence of senders on two servers", "B02") {
    static const std::vector<std::string> A{"1.2.3.4", "1.2.3.45", "11.2.3.4", "1.2.3.4", "::1", "::11", "::1:2", "1::1", "::ffff:1.2.3.4", "2001:db8::1", "2001:db8::10", "0.0.0.0", "::"}; static const std::vector<uint16_t> P{80, 8080};
    Server s(c, false), t(c, false); uint32_t n = 3; for (uint32_t i = 0; i < n; ++i) {
        std::string a = c.pick(A); uint16_t port = c.pick(P); bool two = i && c.choose(2); auto b = ref_addr(a); c.require(b.has_value(), "internal"); ref::Addr from{b->size() == 16, *b, port}; bool classic = i == 2; ref::Enc e(ref::msg_type(0, 1), classic ? T16 : T12, !classic); Value ri = rinfo(from); ri.data()->props["address"] = js::str(a).data();
        Server& x = two ? t : s; Got g = x.take(x.process(js::buf(e.b), ri), e.b); Want w = decide(e.b); decision(c, e.b, g, w); answer_ok(c, e.b, g, w, from, true);
    }
    c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("scale: up to a thousand users, each with a password of its own", "B02") {
    static std::vector<int> S; if (S.empty()) { for (int i = 1; i <= (vh::thorough() ? 200 : 12); ++i) S.push_back(i); for (int b : {16, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024}) for (int d = -1; d <= 1; ++d) S.push_back(b + d); }
    int n = c.pick(S), shape = int(c.choose(6)); Server s(c, false), other(c, false); auto name = [&](int i) { return shape == 5 ? std::string(size_t((i + 1) % 7), '-') + N(i) : shape == 4 ? (i < 60 ? std::string(1, char('@' + i)) : std::string(1, char('0' + i / 60 % 60)) + char('0' + i % 60)) : shape == 0 ? "u" + N(i) : shape == 1 ? std::string(size_t(i), 'x') : "common-prefix-of-many-characters-" + N(i); }; auto pass = [&](int i) { return "p" + N(i * 7919 % 100003); };
    for (int i = 0; i < n; ++i) s.add(name(i), pass(i));
    for (int i = -1; i <= n; ++i) for (int w = 0; w < 3; ++w) { if ((i < 0 && shape == 1) || (w == 2 && i % 16)) continue; bool exists = i >= 0 && i < n; std::string p = pass(w == 1 ? (i + 1) % n : i); ref::Enc e(ref::msg_type(0, 1), T12); e.str(6, name(i)).mi(lib::key(p)); bool ok = w < 2 && exists && p == pass(i); Got g = (w == 2 ? other : s).run(senders()[0], e.b); c.require(g.code == (ok ? 200 : 401), "users", [&] { return "with " + N(n) + " users, number " + N(i) + (w == 2 ? " on another server" : ok ? " with its own password" : exists ? " with the password of another" : " that does not exist") + " gets " + N(g.code); }); }
    c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("scale: any datagram repeated over a thousand times, everything else in between", "B02") {
    std::vector<std::pair<ref::Addr, Bytes>> ds; auto add = [&](int w, Bytes b) { ds.push_back({senders()[size_t(w)], b}); }; auto rq = [&](uint32_t user, uint32_t mi, uint32_t unk, bool fp, bool classic, unsigned m = 1) { return request(c, 0, m, classic, user, mi, unk, 0, fp, 0); };
    add(0, rq(0, 0, 0, false, false)); add(3, rq(0, 0, 0, true, false)); add(0, rq(1, 1, 0, true, false)); add(2, rq(2, 2, 0, false, false)); add(0, rq(1, 2, 0, false, false)); add(0, rq(3, 1, 0, false, false)); add(0, rq(1, 0, 0, false, false)); add(0, rq(0, 1, 0, false, false)); add(3, rq(1, 1, 2, false, false)); add(0, rq(0, 0, 0, false, true)); add(0, rq(0, 0, 0, false, false, 2)); add(0, Bytes{1, 2, 3}); { Bytes b = rq(0, 0, 0, true, false); b.back() ^= 1; add(0, b); } add(0, request(c, 1, 1, false, 0, 0, 0, 0, false, 0));
    size_t k = c.choose(ds.size() + 1); bool other = c.choose(2); Server s(c); const int n = vh::thorough() ? 20000 : 1100; std::vector<Want> ws; for (auto& d : ds) ws.push_back(decide(d.second));
    auto check = [&](size_t i, ref::Addr from) { Got g = s.run(from, ds[i].second); decision(c, ds[i].second, g, ws[i]); answer_ok(c, ds[i].second, g, ws[i], from, true); };
    for (int r = 1; r <= n; ++r) {
        if (k == ds.size()) { js::rejected(c, s.process(js::str("x"), rinfo(senders()[0])), "a text for a datagram"); Value bad = rinfo(senders()[0]); bad.data()->props.erase("port"); js::rejected(c, s.process(js::buf(ds[0].second), bad), "a sender without port"); }
        else { ref::Addr from = ds[k].first; if (other) { from.b.back() = uint8_t(r); from.b[from.b.size() - 2] = uint8_t(r >> 8); from.port = uint16_t(r * 31); } check(k, from); }
        int e = 1; while (e * 2 <= r) e *= 2; if (r <= 20 || r - e <= 1 || e * 2 - r <= 1 || r % 100 < 2) for (size_t i = 0; i < ds.size(); ++i) if (i != k) check(i, ds[i].first); }
    c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("scale: any message parsed over a thousand times, everything else in between", "B01") {
    std::vector<Bytes> ms; { ref::Enc e(ref::msg_type(0, 1), T12); ms.push_back(e.b); e.str(6, "alice").word(0x24, 77).str(0x8022, "soft").mi(lib::key("k")).fp(); ms.push_back(e.b); } { ref::Enc e(ref::msg_type(2, 1), T12); e.xaddr(senders()[3], T12).addr(1, senders()[0]); ms.push_back(e.b); } { ref::Enc e(ref::msg_type(3, 1), T12); e.error(420, "unknown").attr(0xa, {0x70, 1, 0x70, 2}); ms.push_back(e.b); } { ref::Enc e(ref::msg_type(1, 1), T12); ms.push_back(e.b); } { ref::Enc e(ref::msg_type(0, 1), T16, false); ms.push_back(e.b); } { ref::Enc e(ref::msg_type(0, 1), T12); e.fp(); e.b.back() ^= 1; ms.push_back(e.b); } ms.push_back(Bytes{0, 1, 0, 8}); ms.push_back({});
    size_t k = c.choose(ms.size()); const int n = vh::thorough() ? 70000 : 1100; for (int r = 1; r <= n; ++r) { parse(c, ms[k]); int e = 1; while (e * 2 <= r) e *= 2; if (r <= 8 || r - e <= 1 || e * 2 - r <= 1 || r % 100 < 2) for (auto& m : ms) parse(c, m); } c.state(c.prefix_hash());
}
// ---------------------------------------------------------------- B05
struct Pieces { std::vector<std::unique_ptr<uint8_t[]>> mem; std::vector<lib::View> v; Bytes all; void add(const Bytes& b) { mem.emplace_back(new uint8_t[b.size()]); if (!b.empty()) memcpy(mem.back().get(), b.data(), b.size()); v.push_back(lib::View(mem.back().get(), b.size())); all.insert(all.end(), b.begin(), b.end()); } };
static Bytes pattern(size_t n, uint32_t kind) { Bytes b(n); for (size_t i = 0; i < n; ++i) b[i] = kind == 0 ? uint8_t(i * 37 + 11) : kind == 1 ? 0 : uint8_t(i ^ (i >> 8) ^ 0xa5); return b; }
template<class A, class B> static bool same(const A& a, const B& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
static void digests(vh::Ctx& c, const Pieces& p) {
    auto W = [&] { std::string s = "pieces of"; for (auto& x : p.v) s += " " + N(x.size()); return s + " bytes: "; }; c.step(2); c.trace();
    auto a = freewebrtc::crypto::node_openssl::sha1(p.v); c.require(a.is_ok() && same(a.unwrap().value(), ref::sha1(p.all)), "sha1", [&] { return W() + "wrong SHA-1"; }); auto b = freewebrtc::crypto::node_openssl::md5(p.v); c.require(b.is_ok() && same(b.unwrap().value(), ref::md5(p.all)), "md5", [&] { return W() + "wrong MD5"; });
}
VH_SECTION("hashes: many pieces and large ones", "B05") {
    static const std::vector<size_t> L{4095, 4096, 8192, 32768, 65535, 65536, 65537, 100000, 1048577}; uint32_t k = c.choose(130 + uint32_t(L.size()) * 2); Pieces p; if (k < 130) for (uint32_t i = 0; i <= k; ++i) p.add(pattern(i % 4, int(i % 3))); else { p.add(pattern(L[(k - 130) / 2], 0)); if (k % 2) p.add(pattern(9, 1)); } digests(c, p); c.state(c.prefix_hash());
}
VH_SECTION("hashes: every length", "B05") { Pieces p; size_t n = c.choose(vh::thorough() ? 2050 : 600); p.add(pattern(n, c.choose(3))); digests(c, p); c.state(c.prefix_hash()); }
VH_SECTION("hashes: every split, with empty pieces", "B05") {
    static const std::vector<size_t> L{0, 1, 2, 5, 55, 56, 63, 64, 65, 119, 120, 128}; size_t n = c.pick(L), at = 0; Bytes d = pattern(n, 0); Pieces p; uint32_t k = c.choose(4); for (uint32_t i = 0; i < k; ++i) { size_t left = n - at, w = left < 6 ? c.choose(left + 1) : std::vector<size_t>{0, 1, left / 2, left - 1, left}[c.choose(5)]; p.add(Bytes(d.begin() + at, d.begin() + at + w)); at += w; } if (k < 3 || c.flag()) p.add(Bytes(d.begin() + at, d.end())); digests(c, p); c.state(c.prefix_hash());
}
VH_SECTION("hashes: every failing call of the library is reported", "B05") {
    uint32_t n = c.choose(5), at = c.choose(10); bool quiet = c.flag(), md = c.flag(); Pieces p; for (uint32_t i = 0; i < n; ++i) p.add(pattern(i * 20, i % 3)); c.state(c.prefix_hash()); c.step();
    auto judge = [&](auto r, auto want) { bool hit = fault::hits; fault::disarm(); c.outcome(hit); if (hit) { c.require(r.is_err(), "hidden-failure", [&] { return std::string("a digest of ") + N(n) + " pieces is returned although call " + N(at) + " to the library failed"; }); if (!quiet) { std::error_code e = r.unwrap_err(); c.require(bool(e), "no-error", "the failure is reported without an error"); } return; } c.require(r.is_ok() && same(r.unwrap().value(), want), "digest", "wrong digest"); };
    fault::arm(int(at), quiet); if (md) { auto r = freewebrtc::crypto::node_openssl::md5(p.v); judge(r, ref::md5(p.all)); } else { auto r = freewebrtc::crypto::node_openssl::sha1(p.v); judge(r, ref::sha1(p.all)); }
    digests(c, p);    // and it works again afterwards
}
