// The candidate-attribute grammar as reference, and texts to build lines from.
#pragma once
#include "vh.hpp"
#include "netref.hpp"
#include <memory>
#include "ice/candidate/ice_candidate_sdp.hpp"
using namespace freewebrtc; namespace ic = ice::candidate;
static std::string N(int64_t v) { return std::to_string(v); }
static std::string q(const std::string& s) { std::string o = "'"; char t[8]; for (unsigned char c : s) if (c >= 32 && c < 127) o += char(c); else { snprintf(t, 8, "\\x%02x", c); o += t; } return o + "'"; }
struct Text { std::unique_ptr<char[]> p; size_t n; explicit Text(const std::string& s) : p(new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); } std::string_view view() const { return {p.get(), n}; } };
static std::string low(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s; }
static bool digits(const std::string& s) { for (char c : s) if (c < '0' || c > '9') return false; return !s.empty(); }
// ---- reference fields: -1 for "not in the value set"
static bool r_foundation(const std::string& s) { if (s.empty() || s.size() > 32) return false; for (char c : s) if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '+' || c == '/')) return false; return true; }
static int64_t r_number(const std::string& s, size_t len, int64_t hi) { if (!digits(s) || s.size() > len) return -1; int64_t v = 0; for (char c : s) v = v * 10 + (c - '0'); return v > hi ? -1 : v; }
static int64_t r_component(const std::string& s) { return r_number(s, 3, 256); }
static int64_t r_priority(const std::string& s) { int64_t v = r_number(s, 10, 0xffffffffll); return v == 0 ? -1 : v; }
static int64_t r_port(const std::string& s) { return r_number(s, 5, 65535); }
static const std::vector<std::string> TYPES{"host", "srflx", "prflx", "relay"};
static int r_type(const std::string& s) { for (size_t i = 0; i < 4; ++i) if (low(s) == TYPES[i]) return int(i); return -1; }
struct RAddr { bool ok = false; Bytes ip; std::string name; };
static RAddr r_address(const std::string& s) { RAddr a; if (auto b = ref_addr(s)) { a.ok = true; a.ip = *b; } else if (ref_name(s, s.size())) { a.ok = true; a.name = s; } return a; }
static bool same(const ic::Address& a, const RAddr& r) {
    if (r.ip.empty()) return a.as_ip_address().is_none() && a.as_fqdn().is_some() && a.as_fqdn().unwrap().get().to_string() == r.name && a.to_string().is_ok() && a.to_string().unwrap() == r.name;
    if (a.as_fqdn().is_some() || a.as_ip_address().is_none()) return false; const auto& i = a.as_ip_address().unwrap().get(); auto t = a.to_string(); return Bytes(i.view().begin(), i.view().end()) == r.ip && t.is_ok() && ref_addr(t.unwrap()) == std::optional<Bytes>(r.ip);
}
static bool same(const ic::Type& t, int k) { static const ic::Type::Value V[4] = {ic::Type::HOST, ic::Type::SERVER_REFLEXIVE, ic::Type::PEER_REFLEXIVE, ic::Type::RELAYED}; return t.value() == V[k] && t.to_string() == TYPES[size_t(k)]; }
// ---- reference line
enum Verdict { SUPPORTED, UNSUPPORTED, ERROR, REFUSED /* error or unsupported */, FREE /* not judged */ };
struct Line { Verdict v = ERROR; std::string foundation; int64_t component = 0, priority = 0, port = 0; int type = 0; RAddr address; std::optional<RAddr> raddr; std::optional<int64_t> rport; std::vector<std::pair<std::string, std::string>> ext; };
static bool case_variant(const std::string& s, const char* k) { return s != k && low(s) == k; }
static Line reference(const std::string& s) {
    Line l; const std::string P = "candidate:"; if (s.substr(0, P.size()) != P) { if (low(s.substr(0, P.size())) == P) l.v = FREE; return l; }
    std::vector<std::string> t; { std::string r = s.substr(P.size()); size_t i = 0; while (i < r.size()) { size_t e = r.find(' ', i); if (e == std::string::npos) e = r.size(); t.push_back(r.substr(i, e - i)); i = e + 1; } if (!r.empty() && r.back() == ' ') l.v = FREE; }
    if (l.v == FREE) return l;
    if (t.size() < 8) { bool alien = (t.size() > 2 && low(t[2]) != "udp") || (t.size() > 4 && !r_address(t[4]).ok); l.v = t.size() < 5 || !alien ? ERROR : REFUSED; if (t.size() > 2 && low(t[2]) != "udp") l.v = REFUSED; return l; }
    bool bad = false, alien = false; l.foundation = t[0]; bad |= !r_foundation(t[0]); l.component = r_component(t[1]); if (l.component == 0) { l.v = FREE; return l; } bad |= l.component < 0;
    alien |= low(t[2]) != "udp"; bad |= t[2].empty() || t[4].empty() || t[7].empty(); l.priority = r_priority(t[3]); bad |= l.priority < 0; l.address = r_address(t[4]); alien |= !l.address.ok; l.port = r_port(t[5]); bad |= l.port < 0;
    if (case_variant(t[6], "typ")) { l.v = FREE; return l; } bad |= t[6] != "typ"; l.type = r_type(t[7]); alien |= l.type < 0; bool free = false;
    size_t i = 8; auto value = [&](auto f) { if (i + 1 >= t.size()) bad = true; else f(t[i + 1]); i += 2; };
    auto raddr = [&](const std::string& x) { l.raddr = r_address(x); bad |= !l.raddr->ok; }; auto rport = [&](const std::string& x) { l.rport = r_port(x); bad |= *l.rport < 0; };
    if (i < t.size() && t[i] == "raddr") value(raddr); if (i < t.size() && t[i] == "rport") value(rport);
    while (i < t.size()) { std::string n = t[i]; if (n.empty() || n == "raddr" || n == "rport" || case_variant(n, "raddr") || case_variant(n, "rport")) free = true; value([&](const std::string& x) { l.ext.push_back({n, x}); }); }
    l.v = free ? FREE : bad && alien ? REFUSED : bad ? ERROR : alien ? UNSUPPORTED : SUPPORTED; return l;
}
static std::string join(const std::vector<std::string>& t, const char* p = "candidate:") { std::string s = p; for (size_t i = 0; i < t.size(); ++i) s += (i ? " " : "") + t[i]; return s; }
static const std::vector<std::string> BASE{"4234997325", "1", "udp", "2043278322", "192.168.0.56", "44323", "typ", "srflx", "raddr", "10.1.2.3", "rport", "9", "generation", "0", "ufrag", "xyz"};
static const std::vector<std::vector<std::string>> REP{
    {"a", "+/Z9", std::string(32, 'q'), std::string(33, 'q'), "", "a-b", "a_b", "\xc3"}, {"2", "256", "001", "010", "257", "999", "1000", "", "-1", "1a", "0001"}, {"UDP", "Udp", "tcp", "ud", "udpp", "udp4", "TLS"}, {"1", "4294967295", "4294967296", "0", "0000000001", "00000000001", "9999999999", "", "1x", "-5"},
    {"::1", "2001:db8::ff00:42:8329", "fe80::1%eth0", "host.example.com", "a", "999.1.1.1", "-bad", "a..b", "1.2.3.4:5", "[::1]", "a b"}, {"0", "65535", "65536", "", "1x", "100000", "00080", "+1"}, {"type", "ty", "typx", "x", ""}, {"host", "HOST", "prflx", "Relay", "SRFLX", "hos", "hostt", "x", ""},
    {"raddr", "radd", "x-1"}, {"fe80::1", "n.example", "-bad", "1.2.3.", ""}, {"rport", "rpor", "y"}, {"0", "65535", "65536", "z", ""}, {"network-id", "x", "tcptype"}, {"1", "typ", "10.0.0.1", ":;!~"}, {"y", "candidate:"}, {"rport", "raddr", "host"}};
