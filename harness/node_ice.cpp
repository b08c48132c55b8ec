// Node bindings: ICE candidates (B04).
// DEPS: src/ice src/net src/util/util_error_code.cpp src/util/util_token_stream.cpp src/util/util_hash_murmur.cpp node/node_ice
// INCS: .
#include "nodejs.hpp"
#include "iceref.hpp"
#include "util/util_result.hpp"
#include "node/node_ice/node_ice_candidate.hpp"
using js::Value; using js::Env; using js::Res;
static std::string address(const RAddr& a) { return a.ip.empty() ? js::quote(a.name) : "ip:" + vh::hex(a.ip); }
static void judge(vh::Ctx& c, const std::string& s) {
    Line w = reference(s); Env env; Res r = freewebrtc::node_ice::ice_candidate_parse(env, js::info(js::undefined(), {js::str(s)})); c.step(); c.trace(); c.state(vh::hash_str(s)); c.outcome(w.v); c.note([&] { return q(s) + " -> " + js::show(r); });
    if (w.v == FREE) return; std::string g = js::show(r); c.sample([&] { return q(s) + " -> " + g; });
    bool null_result = r.is_ok() && js::text(js::get(r.unwrap(), "result")) == "null"; Value err = r.is_ok() ? js::get(r.unwrap(), "error") : js::undefined();
    bool unsupported = null_result && err.kind() == js::Kind::string && !err.data()->s.empty() && r.unwrap().data()->props.size() == 2;
    if (w.v == ERROR || w.v == REFUSED) { if (w.v == REFUSED && unsupported) return; js::rejected(c, r, "the line " + q(s)); return; }
    if (w.v == UNSUPPORTED) { c.require(unsupported, "unsupported", [&] { return "line " + q(s) + " is merely unsupported but gives " + g; }); return; }
    js::Text o; std::string ext = "["; for (auto& [n, v] : w.ext) ext += (ext.size() > 1 ? "," : "") + js::Text().set("name", js::quote(n)).set("value", js::quote(v)).str();
    o.set("host", address(w.address)).set("port", N(w.port)).set("type", js::quote(TYPES[size_t(w.type)])).set("transport", js::quote("udp")).set("foundation", js::quote(w.foundation)).set("component", N(w.component)).set("extensions", ext + "]"); if (w.raddr) o.set("raddr", address(*w.raddr)); if (w.rport) o.set("rport", N(*w.rport));
    std::string t = js::Text().set("result", o.str()).set("error", "null").str(); c.require(g == t, "object", [&] { return "line " + q(s) + " gives\n    " + g + "\n  but says\n    " + t; });
}
VH_SECTION("candidates: every pair of fields with every representative", "B04") { uint32_t n = 6 + c.choose(BASE.size() - 5); std::vector<std::string> t(BASE.begin(), BASE.begin() + n); uint32_t ch = c.choose(vh::thorough() ? 4 : 3), from = 0; for (uint32_t k = 0; k < ch && from < n; ++k) { uint32_t p = from + c.choose(n - from); from = p + 1; t[p] = c.pick(REP[p]); } judge(c, join(t)); }
VH_SECTION("candidates: every sequence of required fields valid or not", "B04") { static const std::vector<std::vector<std::string>> V{{"1", "?"}, {"1", "257"}, {"UDP", "tcp"}, {"1", "0"}, {"1.2.3.4", "h.x", "-"}, {"80", "65536"}, {"typ", "tip"}, {"host", "RELAY", "x"}}; std::vector<std::string> t; for (auto& v : V) { uint32_t k = c.choose(v.size() + 1); if (k < v.size()) t.push_back(v[k]); } uint32_t e = c.choose(4); if (e == 1) t.insert(t.end(), {"raddr", "::"}); if (e == 2) t.insert(t.end(), {"rport", "1"}); if (e == 3) t.push_back("q"); judge(c, join(t)); }
VH_SECTION("candidates: every sequence of tokens after the type", "B04") { static const std::vector<std::string> A{"raddr", "rport", "10.0.0.1", "99", "-", "name", "typ", "99999"}; std::vector<std::string> t(BASE.begin(), BASE.begin() + 8); uint32_t n = c.choose(vh::thorough() ? 7 : 6); for (uint32_t i = 0; i < n; ++i) t.push_back(c.pick(A)); judge(c, join(t)); }
VH_SECTION("candidates: every address kind with every optional field and type", "B04") { static const std::vector<std::string> A{"192.0.2.1", "0.0.0.0", "255.255.255.255", "::", "2001:db8::1", "::ffff:1.2.3.4", "fe80::1:2:3:4", "a.example.org", "x", "Host_Name", "1.2.3"}; std::vector<std::string> t(BASE.begin(), BASE.begin() + 8); t[4] = c.pick(A); t[7] = c.pick(std::vector<std::string>{"host", "srflx", "prflx", "relay", "RELAY"}); if (c.flag()) { t.push_back("raddr"); t.push_back(c.pick(A)); } if (c.flag()) { t.push_back("rport"); t.push_back(c.pick(std::vector<std::string>{"0", "1", "65535"})); } uint32_t n = c.choose(3); for (uint32_t i = 0; i < n; ++i) { t.push_back("e" + N(i)); t.push_back(c.pick(std::vector<std::string>{"0", "v\"w", "udp"})); } judge(c, join(t)); }
VH_SECTION("candidates: extensions of every length, and hundreds of them", "B04") { std::vector<std::string> t(BASE.begin(), BASE.begin() + 8); uint32_t h = c.choose(3), n = 1 + c.choose(vh::thorough() ? 600 : 200); if (h == 0) { t.push_back(std::string(n, 'x')); t.push_back("v"); t.push_back("y"); t.push_back(std::string(n, 'w')); } else if (h == 1) for (uint32_t i = 0; i < n * 2; ++i) t.push_back("g" + N(i)); else for (uint32_t i = 0; i < n; ++i) { t.push_back("same"); t.push_back(N(i)); } judge(c, join(t)); }
VH_SECTION("candidates: addresses and ports that look special, in every combination", "B04") {
    static const std::vector<std::string> A{"0.0.0.0", "127.0.0.1", "255.255.255.255", "169.254.1.1", "10.0.0.1", "224.0.0.1", "240.0.0.1", "192.0.2.1", "::", "::1", "::ffff:0.0.0.0", "::ffff:127.0.0.1", "::127.0.0.1", "64:ff9b::1.2.3.4", "fe80::1", "ff02::1", "fd00::1", "2001:db8::1", "localhost", "f81d4fae-7dec-11d0-a765-00a0c91e6bf6.local", "a.local", "0.0.0.0.", "1.2.3.4.5"}; static const std::vector<std::string> P{"0", "1", "9", "3478", "65535"};
    std::vector<std::string> t(BASE.begin(), BASE.begin() + 8); t[4] = c.pick(A); t[5] = c.pick(P); t[7] = TYPES[c.choose(4)]; uint32_t r = c.choose(A.size() + 1); if (r) { t.push_back("raddr"); t.push_back(A[r - 1]); } uint32_t p = c.choose(P.size() + 1); if (p) { t.push_back("rport"); t.push_back(P[p - 1]); } if (r % 2) { t.push_back("tcptype"); t.push_back("passive"); } judge(c, join(t));
}
VH_SECTION("candidates: every component, port and number of extensions", "B04") { std::vector<std::string> t(BASE.begin(), BASE.begin() + 8); uint32_t h = c.choose(4); if (h == 0) t[1] = N(c.choose(1100)); if (h == 1) t[5] = N(c.choose(66000)); if (h == 2) { t.push_back("rport"); t.push_back(N(c.choose(66000))); } if (h == 3) { uint32_t n = c.choose(100); for (uint32_t i = 0; i < n; ++i) t.push_back(std::string(1 + i % 3, char('a' + i % 26)) + N(i)); } judge(c, join(t)); }
VH_SECTION("candidates: every cut, and every character at every position", "B04") { std::string s = join(BASE); uint32_t how = c.choose(3); size_t p = c.choose(s.size() + 1); if (how == 0) s = s.substr(0, p); else if (how == 1) s = s.substr(p); else { if (p == s.size()) return; s[p] = char(c.choose(256)); } judge(c, s); }
VH_SECTION("candidates: anything but a text", "B04") { Env env; auto& K = js::kinds(); uint32_t k = c.choose(K.size() + 1); std::vector<Value> args; if (k < K.size()) args.push_back(K[k]); c.step(); c.state(k); js::rejected(c, freewebrtc::node_ice::ice_candidate_parse(env, js::info(js::undefined(), args)), k < K.size() ? std::string("a ") + js::kind_name(K[k]) : "no argument"); }
