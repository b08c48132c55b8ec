// ICE candidates: lines, fields and priorities (I01-I03).
// DEPS: src/ice src/net src/util/util_error.cpp src/util/util_error_code.cpp src/util/util_token_stream.cpp src/util/util_hash_murmur.cpp
#include "vh.hpp"
#include "iceref.hpp"
#include "ice/candidate/ice_candidate_preference.hpp"
static void line(vh::Ctx& c, const std::string& s) {
    Line w = reference(s); Text t(s); auto g = ic::parse_sdp_attr(t.view()); c.step(); c.trace(); c.state(vh::hash_str(s)); c.outcome(w.v); static const char* names[] = {"supported", "unsupported", "an error", "refused", "anything"}; c.sample([&] { return q(s) + " -> " + names[w.v]; });
    int got = g.is_err() ? ERROR : std::holds_alternative<ic::Supported>(g.unwrap()) ? SUPPORTED : UNSUPPORTED;
    if (w.v == FREE) return; if (got == ERROR) { std::error_code e = g.unwrap_err(); c.require(bool(e), "no-error", [&] { return "rejecting " + q(s) + " reports no error"; }); }
    bool ok = w.v == REFUSED ? got != SUPPORTED : got == w.v; c.require(ok, std::string("verdict-") + names[w.v] + "-" + names[got], [&] { return "line " + q(s) + " is " + names[got] + " but should be " + names[w.v]; });
    if (w.v != SUPPORTED) return; const auto& r = std::get<ic::Supported>(g.unwrap()); const auto& d = r.candidate; auto eq = [&](bool v, const char* what) { c.require(v, std::string("field-") + what, [&] { return std::string(what) + " of " + q(s) + " is decoded wrongly"; }); };
    eq(d.foundation.to_string() == w.foundation, "foundation"); eq(d.component.value() == w.component, "component"); eq(d.priority == ic::Priority::from_uint32(uint32_t(w.priority)).unwrap(), "priority"); eq(d.port.value() == w.port, "port"); eq(d.transport_type == ic::TransportType::udp(), "transport"); eq(same(d.type, w.type), "type"); eq(same(d.address, w.address), "address");
    eq(d.maybe_related_address.is_some() == bool(w.raddr) && (!w.raddr || same(d.maybe_related_address.unwrap(), *w.raddr)), "related address"); eq(d.maybe_related_port.is_some() == bool(w.rport) && (!w.rport || d.maybe_related_port.unwrap().value() == *w.rport), "related port");
    eq(r.extensions.size() == w.ext.size(), "number of extensions"); for (size_t i = 0; i < w.ext.size(); ++i) eq(r.extensions[i].att_name == w.ext[i].first && r.extensions[i].att_value == w.ext[i].second, "extension");
}
VH_SECTION("lines: every pair of fields with every representative", "I01") {
    uint32_t n = 6 + c.choose(BASE.size() - 5); std::vector<std::string> t(BASE.begin(), BASE.begin() + n); uint32_t ch = c.choose(vh::thorough() ? 4 : 3), from = 0;
    for (uint32_t k = 0; k < ch && from < n; ++k) { uint32_t p = from + c.choose(n - from); from = p + 1; t[p] = c.pick(REP[p]); } line(c, join(t));
}
VH_SECTION("lines: every sequence of required fields valid or not", "I01") {
    static const std::vector<std::vector<std::string>> V{{"1", "?"}, {"1", "257", "x"}, {"UDP", "tcp"}, {"1", "0"}, {"1.2.3.4", "h.x", "-"}, {"80", "65536"}, {"typ", "tip"}, {"host", "RELAY", "x"}}; std::vector<std::string> t; for (auto& v : V) { uint32_t k = c.choose(v.size() + 1); if (k < v.size()) t.push_back(v[k]); } uint32_t e = c.choose(4); if (e == 1) t.insert(t.end(), {"raddr", "::"}); if (e == 2) t.insert(t.end(), {"rport", "1"}); if (e == 3) t.push_back("q"); line(c, join(t));
}
VH_SECTION("lines: every sequence of tokens", "I01") {
    static const std::vector<std::string> A{"1", "udp", "10.0.0.1", "typ", "host", "raddr", "rport", "", "x"}; uint32_t n = c.choose(vh::thorough() ? 8 : 7); std::vector<std::string> t; for (uint32_t i = 0; i < n; ++i) t.push_back(c.pick(A)); line(c, join(t));
}
VH_SECTION("lines: every sequence of tokens after the type", "I01") {
    static const std::vector<std::string> A{"raddr", "rport", "10.0.0.1", "99", "-", "name", "typ", "host", "Raddrx", "99999"}; std::vector<std::string> t(BASE.begin(), BASE.begin() + 8); uint32_t n = c.choose(vh::thorough() ? 7 : 6); for (uint32_t i = 0; i < n; ++i) t.push_back(c.pick(A)); line(c, join(t));
}
VH_SECTION("lines: up to two tokens dropped, doubled or exchanged", "I01") {
    std::vector<std::string> t(BASE.begin(), BASE.begin() + 8 + 2 * c.choose(5)); for (int r = 0; r < 2 && !t.empty(); ++r) { uint32_t how = c.choose(5); size_t p = c.choose(t.size()); if (how == 1) t.erase(t.begin() + p); if (how == 2) { auto x = t[p]; t.insert(t.begin() + p, x); } if (how == 3) std::swap(t[p], t[c.choose(t.size())]); if (how == 4) t.insert(t.begin() + p, ""); } line(c, join(t));
}
VH_SECTION("lines: every cut, and every character at every position", "I01") {
    std::vector<std::string> t = BASE; if (c.choose(2)) { t[4] = "2001:db8::1"; t[7] = "host"; t.erase(t.begin() + 8, t.begin() + 12); } std::string s = join(t); uint32_t how = c.choose(4); size_t p = c.choose(s.size() + 1);
    if (how == 0) s = s.substr(0, p); else if (how == 1) s = s.substr(p); else if (how == 2) { if (p == s.size()) return; s[p] = char(c.choose(256)); } else s.insert(p, 1, char(c.choose(256))); line(c, s);
}
VH_SECTION("lines: every prefix", "I01") {
    static const std::vector<std::string> P{"candidate:", "", "candidate", "candidate :", "a=candidate:", " candidate:", "candidate::", "candidat:", "candidatex:", "xcandidate:", "candidate: ", "candidate:candidate:"}; std::string p = c.pick(P); line(c, join({BASE.begin(), BASE.begin() + 8 + 2 * c.choose(2)}, p.c_str()));
}
VH_SECTION("lines: number of extensions", "I01") { std::vector<std::string> t(BASE.begin(), BASE.begin() + 8); uint32_t n = c.choose(120); for (uint32_t i = 0; i < n; ++i) t.push_back(std::string(1 + i % 3, char('a' + i % 26)) + N(i)); line(c, join(t)); }
VH_SECTION("lines: extensions of every length, and hundreds of them", "I01") { std::vector<std::string> t(BASE.begin(), BASE.begin() + 8); uint32_t h = c.choose(3), n = 1 + c.choose(vh::thorough() ? 1200 : 400); if (h == 0) { t.push_back(std::string(n, 'x')); t.push_back("v"); t.push_back("y"); t.push_back(std::string(n, 'w')); } else if (h == 1) for (uint32_t i = 0; i < n * 2; ++i) t.push_back("g" + N(i)); else for (uint32_t i = 0; i < n; ++i) { t.push_back("same"); t.push_back(N(i)); } line(c, join(t)); }
VH_SECTION("lines: addresses and ports that look special, in every combination", "I01") {
    static const std::vector<std::string> A{"0.0.0.0", "127.0.0.1", "255.255.255.255", "169.254.1.1", "10.0.0.1", "224.0.0.1", "240.0.0.1", "192.0.2.1", "::", "::1", "::ffff:0.0.0.0", "::ffff:127.0.0.1", "::127.0.0.1", "64:ff9b::1.2.3.4", "fe80::1", "ff02::1", "fd00::1", "2001:db8::1", "localhost", "f81d4fae-7dec-11d0-a765-00a0c91e6bf6.local", "a.local", "0.0.0.0.", "1.2.3.4.5"}; static const std::vector<std::string> P{"0", "1", "9", "3478", "65535"};
    std::vector<std::string> t(BASE.begin(), BASE.begin() + 8); t[4] = c.pick(A); t[5] = c.pick(P); t[7] = TYPES[c.choose(4)]; uint32_t r = c.choose(A.size() + 1); if (r) { t.push_back("raddr"); t.push_back(A[r - 1]); } uint32_t p = c.choose(P.size() + 1); if (p) { t.push_back("rport"); t.push_back(P[p - 1]); } if (r % 2) { t.push_back("tcptype"); t.push_back("passive"); } line(c, join(t));
}
VH_SECTION("lines: every component, and boundary priorities and ports in lines", "I01") { std::vector<std::string> t(BASE.begin(), BASE.begin() + 8); uint32_t h = c.choose(3); if (h == 0) t[1] = N(c.choose(1100)); if (h == 1) { int64_t v = (int64_t(1) << c.choose(34)) + int64_t(c.choose(3)) - 1; t[3] = N(v); } if (h == 2) t[5] = N(c.choose(vh::thorough() ? 66000 : 300) + (vh::thorough() ? 0 : c.choose(2) * 65400)); line(c, join(t)); }
// ---------------------------------------------------------------- I02
template<class R, class F> static void field(vh::Ctx& c, const char* what, const std::string& s, bool want, const R& g, F&& value_ok) {
    c.step(); c.trace(); c.outcome(vh::mix(vh::hash_str(what), want)); c.require(g.is_ok() == want, std::string(what) + (want ? "-rejected" : "-accepted"), [&] { return std::string(what) + " " + q(s) + (want ? " is rejected" : " is accepted"); });
    if (want) c.require(value_ok(g.unwrap()), std::string(what) + "-value", [&] { return std::string(what) + " " + q(s) + " gets another value"; }); else { std::error_code e = g.unwrap_err(); c.require(bool(e), std::string(what) + "-error", [&] { return "rejecting " + q(s) + " reports no error"; }); }
}
static void fields(vh::Ctx& c, const std::string& s, uint32_t which = 6) {
    Text t(s); c.state(vh::hash_str(s)); auto on = [&](uint32_t k) { return which == 6 || which == k; };
    if (on(0)) field(c, "foundation", s, r_foundation(s), ic::Foundation::from_string(t.view()), [&](auto& v) { return v.to_string() == s && v == ic::Foundation::from_string(s).unwrap() && !(v == ic::Foundation::from_string(s == "zz" ? "z" : "zz").unwrap()); });
    if (on(1)) { int64_t w = r_component(s); if (w != 0) field(c, "component", s, w > 0, ic::ComponentId::from_string(t.view()), [&](auto& v) { return int64_t(v.value()) == w && v == ic::ComponentId::from_unsigned(unsigned(w)).unwrap() && !(v == ic::ComponentId::from_unsigned(w == 9 ? 8 : 9).unwrap()); }); }
    if (on(2)) { int64_t w = r_priority(s); field(c, "priority", s, w > 0, ic::Priority::from_string(t.view()), [&](auto& v) { return v == ic::Priority::from_uint32(uint32_t(w)).unwrap() && !(v == ic::Priority::from_uint32(w == 9 ? 8 : 9).unwrap()); }); }
    if (on(3)) field(c, "transport", s, low(s) == "udp", ic::TransportType::from_string(t.view()), [&](auto& v) { return v == ic::TransportType::udp() && v.to_string() == "udp"; });
    if (on(4)) { int w = r_type(s); field(c, "type", s, w >= 0, ic::Type::from_string(t.view()), [&](auto& v) { return same(v, w); }); }
    if (on(5)) { RAddr w = r_address(s); field(c, "address", s, w.ok, ic::Address::from_string(t.view()), [&](auto& v) { return same(v, w); }); }
}
VH_SECTION("fields: every short text", "I02") { static const std::string A = std::string("019aZ+/-. :") + std::string(1, '\0') + char(0xb5); uint32_t n = c.choose(vh::thorough() ? 7 : 5); std::string s; for (uint32_t i = 0; i < n; ++i) s += A[c.choose(A.size())]; fields(c, s); }
VH_SECTION("fields: every decimal text of up to five digits", "I02") { uint32_t n = 1 + c.choose(5); std::string s; for (uint32_t i = 0; i < n; ++i) s += char('0' + c.choose(10)); fields(c, s, 1); fields(c, s, 2); }
VH_SECTION("fields: priorities around every power of two and ten, with leading zeros", "I02") { int64_t b = c.choose(2) ? int64_t(1) << c.choose(36) : [&] { int64_t p = 1; for (uint32_t k = c.choose(13); k; --k) p *= 10; return p; }(); int64_t v = b + int64_t(c.choose(7)) - 3; if (v < 0) return; std::string s = std::string(c.choose(8), '0') + N(v); fields(c, s, 2); fields(c, s, 1); }
VH_SECTION("fields: every character in every position", "I02") { static const std::vector<std::string> V{"udp", "host", "srflx", "prflx", "relay", "1", "25", "256", "4294967295", "a/B+9", "UDP", "HOST"}; std::string s = c.pick(V); size_t p = c.choose(s.size() + 1); uint32_t how = c.choose(3); if (how == 0) s.insert(p, 1, char(c.choose(256))); else if (p < s.size()) { if (how == 1) s[p] = char(c.choose(256)); else s.erase(p, 1 + c.choose(2)); } fields(c, s); }
VH_SECTION("fields: every spelling of the keywords in upper and lower case", "I02") { static const std::vector<std::string> V{"udp", "host", "srflx", "prflx", "relay", "tcp", "hosts", "udp "}; std::string s = c.pick(V); for (auto& ch : s) if (ch >= 'a' && c.choose(2)) ch = char(ch - 32); fields(c, s); }
VH_SECTION("fields: foundations of every length and character", "I02") { uint32_t n = c.choose(70); std::string s(n, 'f'); if (n) { size_t p = c.choose(n); s[p] = char(c.choose(256)); } fields(c, s, 0); }
VH_SECTION("fields: equality of foundations, components, priorities and types", "I02") {
    static const std::vector<std::string> V{"a", "A", "aa", "1", "10", "01", "256", "255", "4294967295", "2147483647", "host", "relay", "srflx", "prflx", "HOST", "udp", "UDP", "+", "/", "65536", "16777216"}; const auto& a = c.pick(V); const auto& b = c.pick(V); c.step(4); auto diff = [&](const char* w) { return [&, w] { return "equality of " + std::string(w) + " " + q(a) + " and " + q(b); }; };
    c.require((ic::Foundation::from_string(a).unwrap() == ic::Foundation::from_string(b).unwrap()) == (a == b), "equality-foundation", diff("foundations"));
    if (r_component(a) > 0 && r_component(b) > 0) c.require((ic::ComponentId::from_string(a).unwrap() == ic::ComponentId::from_string(b).unwrap()) == (r_component(a) == r_component(b)), "equality-component", diff("components"));
    if (r_priority(a) > 0 && r_priority(b) > 0) c.require((ic::Priority::from_string(a).unwrap() == ic::Priority::from_string(b).unwrap()) == (r_priority(a) == r_priority(b)), "equality-priority", diff("priorities"));
    if (r_type(a) >= 0 && r_type(b) >= 0) c.require((ic::Type::from_string(a).unwrap() == ic::Type::from_string(b).unwrap()) == (r_type(a) == r_type(b)), "equality-type", diff("types")); c.state(c.prefix_hash());
}
VH_SECTION("fields: numbers outside the text form", "I02") {
    uint32_t v = c.choose(2) ? c.choose(1200) : (1u << c.choose(32)) + c.choose(3) - 1; c.step(2); auto k = ic::ComponentId::from_unsigned(v); c.require(k.is_ok() == (v >= 1 && v <= 256), "component-number", [&] { return "component number " + N(v) + (k.is_ok() ? " is accepted" : " is rejected"); }); if (k.is_ok()) c.require(k.unwrap().value() == v, "component-value");
    auto p = ic::Priority::from_uint32(v); c.require(p.is_ok() == (v != 0), "priority-number", [&] { return "priority number " + N(v) + (p.is_ok() ? " is accepted" : " is rejected"); }); if (v) for (int b = 0; b < 32; ++b) if (v ^ (1u << b)) c.require(!(p.unwrap() == ic::Priority::from_uint32(v ^ (1u << b)).unwrap()), "priority-equality", [&] { return "priority " + N(v) + " equals one differing in bit " + N(b); }); c.state(v);
}
VH_SECTION("fields: named types", "I02") { c.require(same(ic::Type::host(), 0) && same(ic::Type::server_reflexive(), 1) && same(ic::Type::peer_reflexive(), 2) && same(ic::Type::relayed(), 3) && ic::TransportType::udp().to_string() == "udp", "names", "a named type prints as another name"); }
// ---------------------------------------------------------------- I03
static void priority(vh::Ctx& c, uint32_t t, uint32_t l, uint32_t k) {
    auto a = ic::TypePreference::from_unsigned(t); auto b = ic::LocalPreference::from_unsigned(l); auto d = ic::ComponentPreference::from_unsigned(k); c.step();
    c.require(a.is_ok() == (t <= 126) && b.is_ok() == (l <= 65535) && d.is_ok() == (k < 256), "range", [&] { return "preferences " + N(t) + ", " + N(l) + ", " + N(k) + " are accepted wrongly"; }); if (a.is_err() || b.is_err() || d.is_err()) return;
    c.require(a.unwrap().value() == t && b.unwrap().value() == l && d.unwrap().value() == k, "value"); uint64_t w = (uint64_t(t) << 24) + (uint64_t(l) << 8) + k; auto p = ic::Preference{a.unwrap(), b.unwrap(), d.unwrap()}.to_priority(); c.outcome(w);
    c.require(p.is_ok() == (w > 0), "priority-range", [&] { return "priority of preferences " + N(t) + ", " + N(l) + ", " + N(k) + (w ? " is rejected" : " is accepted"); }); if (w) c.require(p.unwrap() == ic::Priority::from_uint32(uint32_t(w)).unwrap(), "formula", [&] { return "priority of preferences " + N(t) + ", " + N(l) + ", " + N(k) + " is not " + N(int64_t(w)); });
}
VH_SECTION("priority: every type preference with all boundary local and component preferences", "I03") { uint32_t t = c.choose(130); static const std::vector<uint32_t> S = [] { std::vector<uint32_t> r{0, 65535, 0xabcd, 0x5432, 65536, 0xffffffff}; for (int i = 0; i < 17; ++i) for (int d = -1; d < 2; ++d) { r.push_back((1u << i) + uint32_t(d)); r.push_back(~(1u << i) & 0xffff); } return r; }(); uint32_t l = c.pick(S); for (uint32_t k = 0; k < 258; ++k) priority(c, t, l, k); c.trace(); c.state(vh::mix(t, l)); }
VH_SECTION("priority: every local preference", "I03") { uint32_t l = c.choose(65536); for (uint32_t t = 0; t < 127; t += vh::thorough() ? 1 : 9) for (uint32_t k : {0u, 1u, 128u, 255u}) priority(c, t, l, k); c.trace(); c.state(l); }
VH_SECTION("priority: numbers out of range", "I03") { uint32_t v = (1u << c.choose(32)) + c.choose(5) - 2; priority(c, v, 1, 1); priority(c, 1, v, 1); priority(c, 1, 1, v); c.trace(); c.state(v); }
VH_SECTION("priority: recommended preferences order candidates by type, local preference, component", "I03") {
    static const uint32_t W[4] = {126, 100, 110, 0}; const ic::Type T[4] = {ic::Type::host(), ic::Type::server_reflexive(), ic::Type::peer_reflexive(), ic::Type::relayed()}; uint32_t t = c.choose(4), k = 1 + c.choose(256); auto tp = ic::TypePreference::recommended_for(T[t]); auto cp = ic::ComponentPreference::recommended_for(ic::ComponentId::from_unsigned(k).unwrap()); c.step(2);
    c.require(tp.value() == W[t], "recommended-type", [&] { return "recommended preference of type " + TYPES[t] + " is " + N(tp.value()); }); c.require(cp.value() == 256 - k, "recommended-component", [&] { return "recommended preference of component " + N(k) + " is " + N(cp.value()); });
    for (uint32_t l : {0u, 1u, 255u, 256u, 65535u}) { uint64_t w = (uint64_t(W[t]) << 24) + (uint64_t(l) << 8) + 256 - k; auto p = ic::Preference{tp, ic::LocalPreference::from_unsigned(l).unwrap(), cp}.to_priority(); c.require(p.is_ok() == (w > 0) && (!w || p.unwrap() == ic::Priority::from_uint32(uint32_t(w)).unwrap()), "recommended", [&] { return "priority of a " + TYPES[t] + " candidate with local preference " + N(l) + " for component " + N(k); }); } c.trace(); c.state(vh::mix(t, k));
}
