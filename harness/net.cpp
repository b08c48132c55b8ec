// Addresses, names, ports, paths and their hashes (N01-N04).
// DEPS: src/net src/util/util_error_code.cpp src/util/util_hash_murmur.cpp
#include "vh.hpp"
#include "netref.hpp"
#include <memory>
#include <cmath>
#include <optional>
#include <unordered_map>
#include "net/net_fqdn.hpp"
#include "net/net_port.hpp"
#include "net/net_endpoint.hpp"
#include "net/net_path_hash.hpp"
#include "net/ip/ip_address_hash.hpp"
#include "stun/stun_transaction_id_hash.hpp"
using namespace freewebrtc;
using View = util::ConstBinaryView; using net::ip::Address;
static std::string N(int64_t v) { return std::to_string(v); }
static std::string q(const std::string& s) { std::string o = "'"; char t[8]; for (unsigned char c : s) if (c >= 32 && c < 127) o += char(c); else { snprintf(t, 8, "\\x%02x", c); o += t; } return o + "'"; }
// text in its own exact-size block, without terminator
struct Text { std::unique_ptr<char[]> p; size_t n; explicit Text(const std::string& s) : p(new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); } std::string_view view() const { return {p.get(), n}; } };
static Address make(const Bytes& b) { View v(b.data(), b.size()); if (b.size() == 4) return Address::move_from_v4(net::ip::AddressV4::from_view(v).unwrap()); return Address::move_from_v6(net::ip::AddressV6::from_view(v).unwrap()); }
static Bytes bytes(const View& v) { return Bytes(v.begin(), v.end()); }
static void addr_text(vh::Ctx& c, const std::string& s) {
    Text t(s); auto w = ref_addr(s); auto g = Address::from_string(t.view()); c.step(); c.trace(); c.state(vh::hash_str(s)); c.outcome(w ? w->size() : 0);
    c.require(g.is_ok() == bool(w), w ? "rejected" : "accepted", [&] { return "address text " + q(s) + (w ? " is rejected" : " is accepted"); });
    if (!w) { std::error_code e = g.unwrap_err(); c.require(bool(e), "error", [&] { return "rejecting " + q(s) + " reports no error"; }); return; }
    c.require(bytes(g.unwrap().view()) == *w, "value", [&] { return "address text " + q(s) + " gives " + vh::hex(bytes(g.unwrap().view())); });
    c.require(g.unwrap().value().index() == (w->size() == 16), "family");
}
static void addr_bytes(vh::Ctx& c, const Bytes& b) {
    Address a = make(b); c.step(); auto s = a.to_string(); c.require(s.is_ok(), "print", [&] { return "printing " + vh::hex(b) + " fails"; }); std::string x = s.unwrap();
    auto r = ref_addr(x); c.require(r == std::optional<Bytes>(b), "print", [&] { return vh::hex(b) + " prints as " + q(x); });
    auto back = Address::from_string(x); c.require(back.is_ok() && back.unwrap() == a && bytes(back.unwrap().view()) == b, "round-trip", [&] { return q(x) + " does not read back as " + vh::hex(b); });
    c.require(bytes(a.view()) == b && a.value().index() == (b.size() == 16), "bytes"); c.trace(); c.state(vh::hash_bytes(b.data(), b.size()));
}
VH_SECTION("addresses: every short text", "N01") {
    static const std::string A = std::string("1:.f02") + "gF x-" + std::string(1, '\0'); uint32_t n = c.choose(vh::thorough() ? 7 : 6); std::string s; for (uint32_t i = 0; i < n; ++i) s += A[c.choose(A.size())]; addr_text(c, s);
}
VH_SECTION("addresses: every text of digits and separators", "N01") {
    static const std::string A = "1:.", B = "1:f."; bool w = c.choose(2); uint32_t n = c.choose(vh::thorough() ? (w ? 12 : 14) : (w ? 10 : 12)); std::string s; for (uint32_t i = 0; i < n; ++i) s += (w ? B : A)[c.choose(w ? 4 : 3)]; addr_text(c, s);
}
VH_SECTION("addresses: every dotted quad of boundary octets", "N01") {
    static const std::vector<std::string> O{"0", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "260", "300", "999", "1000", "", "00", "01", "001", "-1", "+1", " 1", "1 ", "0x1", "a", "4294967297"}; std::string s; uint32_t n = 4; for (uint32_t i = 0; i < n; ++i) s += (i ? "." : "") + c.pick(O); addr_text(c, s);
}
VH_SECTION("addresses: quads with other separators, counts and surroundings", "N01") {
    static const std::vector<std::string> S{".", "", "..", ",", ":", " .", std::string(1, '\0')}, E{"", ".", " ", "\n", std::string(1, '\0'), std::string("\0x", 2), "/24", ":80", "1", "%1"}, B{"", " ", ".", "0", "::", "::ffff:", "[", std::string(1, '\0'), "1:", ":"}; uint32_t n = 1 + c.choose(5); std::string s = c.pick(B); for (uint32_t i = 0; i < n; ++i) { if (i) s += i < 3 ? c.pick(S) : "."; s += N(10 + i); } addr_text(c, s + c.pick(E));
}
VH_SECTION("addresses: IPv6 texts with every shape of groups", "N01") {
    uint32_t n = 1 + c.choose(10); int z = int(c.choose(n + 2)) - 1, z2 = int(c.choose(n + 2)) - 1; static const std::vector<std::string> T{"a1", "0", "ffff", "ABCD", "00a1", "0", "10000", "000a1", "g", "", "1.2.3.4", "1.2.3", "256.1.1.1", "01.2.3.4", "a1%1", " a1", "a1/64", "-1", "0x1", "a1]"}; uint32_t p = c.choose(n), k = c.choose(T.size());
    std::string s; for (uint32_t i = 0; i < n; ++i) { if (int(i) == z || int(i) == z2) s += i ? ":" : "::"; else if (i) { } std::string g = i == p ? T[k] : N(int(i) + 1); s += g; if (i + 1 < n) s += ":"; } if (z == int(n)) s += "::"; if (z2 == int(n)) s += ":"; addr_text(c, s);
}
VH_SECTION("addresses: IPv6 texts of every length of every group, with every gap", "N01") {
    uint32_t n = 1 + c.choose(8); int z = int(c.choose(n + 2)) - 1; uint32_t len = c.choose(5), one = c.choose(n + 1), olen = c.choose(5), style = c.choose(4), tail = c.choose(3); std::string s;
    static const char* D[] = {"1234567890", "abcdefabcd", "FEDCBAFEDC", "0000000000"}; for (uint32_t i = 0; i < n; ++i) { if (int(i) == z) s += i ? ":" : "::"; s += std::string(D[style] + i % 3, (i == one ? olen : len) + (i == one ? 1 : 1)); if (i + 1 < n) s += ":"; } if (z == int(n)) s += "::"; if (tail == 1 && n <= 6 && z != int(n)) s += ":255.255.255.255"; if (tail == 2) s += ":"; addr_text(c, s);
}
VH_SECTION("addresses: every cut and every changed character of valid texts", "N01") {
    static const std::vector<std::string> V{"192.168.100.255", "2001:db8:85a3::8a2e:370:7334", "fe80:1:2:3:4:5:6:ffff", "::ffff:203.0.113.99", "1:2:3:4:5:6:250.250.255.249", "::", "1::"}; std::string s = c.pick(V); uint32_t how = c.choose(4); size_t p = c.choose(s.size() + 1);
    if (how == 0) s = s.substr(0, p); else if (how == 1) s = s.substr(p); else if (how == 2) { if (p == s.size()) return; s[p] = char(c.choose(256)); } else s.insert(p, 1, char(c.choose(256))); addr_text(c, s);
}
VH_SECTION("addresses: IPv6 addresses that begin and end like special ones", "N01") {   // mapped, translated, link-local, multicast, documentation
    static const std::vector<Bytes> P{{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}, {0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0, 0}, {0, 0x64, 0xff, 0x9b, 0, 0, 0, 0, 0, 0, 0, 0}, {0x20, 2}, {0xfe, 0x80}, {0xfe, 0xc0}, {0xfc}, {0xfd}, {0xff, 2}, {0xff}, {0x20, 1}, {0x20, 1, 0xd, 0xb8}, {1}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xfe}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0xff, 0xff}, {0, 0, 0, 0, 0, 0, 0, 1}};
    static const std::vector<uint8_t> O{0, 1, 9, 10, 15, 16, 99, 100, 127, 128, 169, 192, 224, 255}; Bytes b = c.pick(P); size_t n = b.size(); b.resize(16); uint32_t m = c.choose(2); if (m && n < 12) std::fill(b.begin() + n, b.begin() + 12, uint8_t(0xff)); for (int i = 12; i < 16; ++i) b[size_t(i)] = c.pick(O); addr_bytes(c, b);
}
VH_SECTION("addresses: every byte string length", "N01") {
    uint32_t n = c.choose(33); Bytes b(n); for (uint32_t i = 0; i < n; ++i) b[i] = uint8_t(i * 7 + 1); std::unique_ptr<uint8_t[]> p(new uint8_t[n]); if (n) memcpy(p.get(), b.data(), n); View v(p.get(), n);
    auto a = net::ip::AddressV4::from_view(v); auto d = net::ip::AddressV6::from_view(v); c.require(a.is_ok() == (n == 4) && d.is_ok() == (n == 16), "size", [&] { return "an address from " + N(n) + " bytes"; }); if (n == 4) c.require(bytes(a.unwrap().view()) == b, "bytes"); if (n == 16) c.require(bytes(d.unwrap().view()) == b, "bytes");
    c.require(net::ip::AddressV4::size() == 4 && net::ip::AddressV6::size() == 16, "size");
}
VH_SECTION("addresses: print and read back, all patterns of up to two bits and runs of zero groups", "N01") {
    bool v6 = c.choose(2); size_t n = v6 ? 16 : 4; Bytes b(n, c.choose(2) ? 0xff : 0); uint32_t how = c.choose(3);
    if (how == 0) { uint32_t x = c.choose(n * 8), y = c.choose(n * 8); b[x / 8] ^= uint8_t(1 << x % 8); if (y != x) b[y / 8] ^= uint8_t(1 << y % 8); } else if (how == 1) { uint32_t m = c.choose(v6 ? 256 : 16); for (size_t i = 0; i < n; i += v6 ? 2 : 1) { bool on = m >> (v6 ? i / 2 : i) & 1; b[i] = on && !v6 ? 0x7b : 0; if (v6) b[i + 1] = on ? uint8_t(i + 1) : 0; } } else { uint32_t i = c.choose(n), v = c.choose(256); b[i] = uint8_t(v); }
    addr_bytes(c, b);
}
VH_SECTION("addresses: equal exactly when family and bytes are", "N01") {
    bool v6 = c.choose(2); size_t n = v6 ? 16 : 4; Bytes a(n); for (size_t i = 0; i < n; ++i) a[i] = uint8_t(i + 1); Bytes b = a; uint32_t x = c.choose(n * 8 + 2); if (x < n * 8) b[x / 8] ^= uint8_t(1 << x % 8); Address p = make(a), r = x == n * 8 + 1 ? make(v6 ? Bytes(4, 1) : Bytes{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 1, 2, 3, 4}) : make(b); bool eq = x == n * 8;
    c.require((p == r) == eq && (r == p) == eq && (p != r) != eq, "equality", [&] { return "equality of addresses differing in bit " + N(x); }); Address s = p; s = r; c.require(s == r && bytes(s.view()) == bytes(r.view()), "copy"); c.require(Address(s) == s && Address::copy_from_v4(net::ip::AddressV4::from_view(View(a.data(), 4)).unwrap()) == make(Bytes(a.begin(), a.begin() + 4)), "copy");
}
// ---------------------------------------------------------------- N02
static void name_text(vh::Ctx& c, const std::string& s) {
    Text t(s); size_t best = 0; for (size_t n = s.size(); n > 0 && !best; --n) if (ref_name(s, n)) best = n;
    auto g = net::Fqdn::parse(t.view()); auto f = net::Fqdn::from_string(t.view()); c.step(2); c.trace(); c.state(vh::hash_str(s)); c.outcome(vh::mix(best == s.size(), best != 0));
    c.require(g.is_ok() == (best > 0), "prefix", [&] { return "prefix of " + q(s) + (best ? " is rejected" : " is accepted"); });
    if (best) { auto p = g.unwrap(); c.require(p.value.to_string() == s.substr(0, best), "prefix", [&] { return "prefix taken from " + q(s) + " is " + q(p.value.to_string()); }); c.require(p.rest.data() == t.view().data() + best && p.rest.size() == s.size() - best, "rest", [&] { return "rest after the name in " + q(s) + " is wrong"; }); }
    c.require(f.is_ok() == (best == s.size() && best > 0), f.is_ok() ? "accepted" : "rejected", [&] { return "domain name " + q(s) + (f.is_ok() ? " is accepted" : " is rejected"); });
    if (f.is_ok()) c.require(f.unwrap().to_string() == s, "text", [&] { return "domain name " + q(s) + " becomes " + q(f.unwrap().to_string()); });
}
VH_SECTION("names: every short text", "N02") { static const std::string A = std::string("a7-._Z ") + char(0xe4) + std::string(1, '\0'); uint32_t n = c.choose(vh::thorough() ? 8 : 7); std::string s; for (uint32_t i = 0; i < n; ++i) s += A[c.choose(n > 5 ? 6 : 9)]; name_text(c, s); }
VH_SECTION("names: every text of letters, hyphens and dots", "N02") { static const std::string A = "a-."; uint32_t n = c.choose(vh::thorough() ? 14 : 11); std::string s; for (uint32_t i = 0; i < n; ++i) s += A[c.choose(3)]; name_text(c, s); }
VH_SECTION("names: every character in every position", "N02") { static const std::vector<std::string> V{"a", "ab", "abc", "a.b", "ab.cd", "a-b.c-d.", "x.y.z"}; std::string s = c.pick(V); s[c.choose(s.size())] = char(c.choose(256)); if (c.flag()) s.insert(c.choose(s.size() + 1), 1, char(c.choose(256))); name_text(c, s); }
VH_SECTION("names: long labels and names", "N02") { uint32_t n = c.choose(300), at = c.choose(4); std::string s(n, 'q'); if (at == 1) s += ".com"; if (at == 2) for (size_t i = 1; i + 1 < s.size(); i += 2) s[i] = '.'; if (at == 3) s += "-"; name_text(c, s); }
VH_SECTION("names: every pair of characters in every arrangement", "N02") {
    static const std::string A = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"; static const std::vector<std::string> F{"xy--z", "x--y", "xy", "x.y", "xxxx.yyyy", "x-y.y-x", "xy--", "--xy", "xyx.yxy.x", "x1.y2.3", "xn--y", "..xy", "x..y", "0xy", "xxx.xxx.xxx.yyy", "x.y."};
    char x = A[c.choose(A.size())], y = A[c.choose(A.size())]; for (auto s : F) { for (auto& z : s) if (z == 'x') z = x; else if (z == 'y') z = y; else if (z == 'z') z = x; name_text(c, s); }
}
VH_SECTION("names: names with a meaning of their own", "N02") {
    static const std::vector<std::string> V{"localhost", "LOCALHOST", "local", "xn--p1ai", "xn--", "example.com", "1e100.net", "0x7f", "0x7f.1", "127.1", "1.2.3.4.5", "4.3.2.1.in-addr.arpa", "a.local", "wpad", "nan", "inf", "null", "none", "host", "srflx", "typ", "raddr", "_stun._udp.example.org", "3com.com", "01", "0", "-0", "1e5", "broadcasthost", "ip6-localhost", "f81d4fae-7dec-11d0-a765-00a0c91e6bf6.local", "000.000.000.000", "256.256.256.256", "fe80", "dead-beef"};
    std::string s = c.pick(V); uint32_t k = c.choose(6); if (k == 1) s += "."; if (k == 2) s = "a." + s; if (k == 3) s += ".com"; if (k == 4) for (auto& z : s) z = z >= 'a' && z <= 'z' ? char(z - 32) : z; if (k == 5) s += " x"; name_text(c, s);
}
VH_SECTION("names: equal exactly when their text is", "N02") { static const std::vector<std::string> V{"a", "A", "a.", "a.b", "b.a", "a-b", "a_b", "aa"}; auto& a = c.pick(V); auto& b = c.pick(V); auto x = net::Fqdn::from_string(a).unwrap(), y = net::Fqdn::from_string(b).unwrap(); c.require((x == y) == (a == b), "equality", [&] { return q(a) + " and " + q(b); }); x = y; c.require(x.to_string() == b, "copy"); }
// ---------------------------------------------------------------- N03
static void port_text(vh::Ctx& c, const std::string& s) {
    Text t(s); bool ok = !s.empty() && s.size() <= 5; uint32_t v = 0; for (char ch : s) { if (ch < '0' || ch > '9') ok = false; else if (ok) v = v * 10 + uint32_t(ch - '0'); } if (v > 65535) ok = false;
    auto g = net::Port::from_string(t.view()); c.step(); c.trace(); c.outcome(ok); c.require(g.is_ok() == ok, ok ? "rejected" : "accepted", [&] { return "port text " + q(s) + (ok ? " is rejected" : " is accepted"); });
    if (ok) c.require(g.unwrap().value() == v, "value", [&] { return "port text " + q(s) + " gives " + N(g.unwrap().value()); });
}
VH_SECTION("ports: every text of up to six digits", "N03") { uint32_t n = 1 + c.choose(vh::thorough() ? 7 : 6); std::string s; for (uint32_t i = 0; i < n; ++i) s += char('0' + c.choose(10)); c.state(vh::hash_str(s)); port_text(c, s); }
VH_SECTION("ports: every short text over digits and others", "N03") { static const std::string A = std::string("0167-+ x.:/9") + std::string(1, '\0') + char(0xb2); uint32_t n = c.choose(vh::thorough() ? 7 : 6); std::string s; for (uint32_t i = 0; i < n; ++i) s += A[c.choose(A.size())]; c.state(vh::hash_str(s)); port_text(c, s); }
VH_SECTION("ports: every character in every position", "N03") { static const std::vector<std::string> V{"", "1", "80", "443", "8080", "65535", "12345", "0000"}; std::string s = c.pick(V); uint32_t p = c.choose(s.size() + 1); s.insert(p, 1, char(c.choose(256))); if (c.flag()) s.erase(c.choose(s.size()), 1); port_text(c, s); }
VH_SECTION("ports: long texts of digits", "N03") { uint32_t n = 5 + c.choose(30), d = c.choose(10), z = c.choose(2); std::string s(n, z ? '0' : char('0' + d)); s.back() = char('0' + d); port_text(c, s); }
VH_SECTION("ports: every number kept and compared", "N03") { uint32_t v = c.choose(65536); auto p = net::Port::from_uint16(uint16_t(v)); net::Port q2{uint16_t(v)}; c.require(p.value() == v && q2.value() == v && p == q2, "value", [&] { return "port " + N(v); }); for (int b = 0; b < 16; ++b) c.require(!(p == net::Port(uint16_t(v ^ (1u << b)))), "equality"); auto r = net::Port::from_string(N(v)); c.require(r.is_ok() && r.unwrap() == p, "text"); c.state(v); }
// ---------------------------------------------------------------- N04
static std::vector<Bytes> addresses() { std::vector<Bytes> r; for (bool v6 : {false, true}) { Bytes b(v6 ? 16 : 4); for (size_t i = 0; i < b.size(); ++i) b[i] = uint8_t(3 * i + 1); r.push_back(b); for (size_t i = 0; i < b.size() * 8; ++i) { Bytes x = b; x[i / 8] ^= uint8_t(1 << i % 8); r.push_back(x); } r.push_back(Bytes(b.size(), 0)); r.push_back(Bytes(b.size(), 0xff)); } return r; }
VH_SECTION("endpoints: report their parts", "N04") {
    static const auto A = addresses(); const Bytes& b = c.pick(A); static const std::vector<uint16_t> P{0, 1, 80, 0x1234, 0x3412, 0x7fff, 0x8000, 0xffff}; uint16_t p = c.pick(P); bool udp = c.choose(2); Address a = make(b); net::Port port(p);
    auto ok = [&](const net::Endpoint& e) { c.require(e.is_udp() == udp && e.port().value() == p && bytes(e.address().view()) == b && e.address() == a, "parts", [&] { return "endpoint made of " + vh::hex(b) + " port " + N(p); }); };
    net::UdpEndpoint u{a, port}; net::TcpEndpoint t{a, port}; net::Endpoint e = udp ? net::Endpoint(u) : net::Endpoint(t); ok(e); net::Endpoint m = udp ? net::Endpoint(std::move(u)) : net::Endpoint(std::move(t)); ok(m); net::Endpoint k = e; ok(k); net::Endpoint z(net::TcpEndpoint{make(Bytes(4, 9)), net::Port(7)}); z = k; ok(z); ok(e); c.trace(); c.state(vh::mix(p, vh::mix(udp, b.back())));
}
VH_SECTION("paths and addresses: equal when their parts are, and then hash equally", "N04") {
    static const auto A = addresses(); uint32_t i = c.choose(A.size()), j = c.choose(A.size()), r = c.choose(4); Address a = make(A[i]), b = make(A[j]), o = make(Bytes(4, 5)); c.step(2);
    c.require((a == b) == (A[i] == A[j]), "equality"); if (a == b) c.require(net::ip::AddressHash{}(a) == net::ip::AddressHash{}(b), "hash", "equal addresses hash differently");
    net::Path p{a, o}, s{b, o}; if (r == 1) p = {o, a}, s = {o, b}; if (r == 2) p = {a, b}, s = {b, a}; if (r == 3) p = {a, b}, s = {make(A[i]), make(A[j])}; bool eq = r == 3 || A[i] == A[j];
    c.require((p == s) == eq, "path-equality", [&] { return "paths of " + vh::hex(A[i]) + " and " + vh::hex(A[j]); }); if (eq) c.require(net::PathHash{}(p) == net::PathHash{}(s), "path-hash", "equal paths hash differently"); c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("hashes: independent of alignment, storage and surroundings", "N04") {
    uint32_t n = c.choose(41), off = c.choose(16), fill = c.choose(3), seed = c.choose(3); Bytes b(n); for (uint32_t i = 0; i < n; ++i) b[i] = uint8_t(i * 73 + 9); std::unique_ptr<uint8_t[]> x(new uint8_t[n]), y(new uint8_t[n + off]); memset(y.get(), fill ? fill == 1 ? 0xff : 0x11 : 0, n + off); if (n) { memcpy(x.get(), b.data(), n); memcpy(y.get() + off, b.data(), n); }
    uint64_t s = seed == 0 ? 0 : seed == 1 ? 1 : ~0ull; c.require(util::hash::murmur(View(x.get(), n), s) == util::hash::murmur(View(y.get() + off, n), s), "alignment", [&] { return "hash of " + N(n) + " bytes depends on where they lie (offset " + N(off) + ")"; });
    stun::TransactionId a{View(x.get(), n)}, d{View(y.get() + off, n)}; auto h = stun::MurmurTransactionIdHash<>::create(), g = stun::MurmurTransactionIdHash<>::create(); c.require(a == d && h(a) == h(d) && g(a) == h(a), "transaction-id", "equal transaction ids hash differently"); c.trace(); c.state(vh::mix(n, off));
}
VH_SECTION("hashes: every bit and the length matter to the general hash", "N04") {   // lookups stay cheap: no two of these inputs may collide
    uint32_t n = 1 + c.choose(24); std::set<uint64_t> seen; Bytes b(n); for (uint32_t i = 0; i < n; ++i) b[i] = uint8_t(i * 5 + 3); seen.insert(util::hash::murmur(View(b.data(), n), 0)); for (uint32_t k = 0; k < n * 8; ++k) { b[k / 8] ^= uint8_t(1 << k % 8); uint64_t h = util::hash::murmur(View(b.data(), n), 0); b[k / 8] ^= uint8_t(1 << k % 8); c.outcome(h); seen.insert(h); } c.require(!seen.empty(), "none");
}
template<class K, class M, class F> static void table(vh::Ctx& c, uint32_t nk, M& m, F key) {
    std::map<uint32_t, int> ref; uint32_t depth = vh::thorough() ? 7 : 5;
    for (uint32_t i = 0; i < depth; ++i) { uint32_t k = c.choose(nk), op = c.choose(3); c.step(); if (op == 0) { bool neu = m.emplace(key(k), int(i)).second; c.require(neu == ref.emplace(k, int(i)).second, "insert", [&] { return "inserting key " + N(k); }); } else if (op == 1) { m.insert_or_assign(key(k), int(i)); ref[k] = int(i); } else c.require(m.erase(key(k)) == ref.erase(k), "erase");
        c.require(m.size() == ref.size(), "size"); for (uint32_t z = 0; z < nk; ++z) { auto it = m.find(key(z)); c.require((it != m.end()) == (ref.count(z) > 0), "lookup", [&] { return "looking up key " + N(z) + (ref.count(z) ? " fails" : " finds something"); }); if (it != m.end()) c.require(it->second == ref[z], "value"); } }
    c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("tables: all operation sequences on tables keyed by path", "N04") { auto key = [](uint32_t i) { Address a = make({10, 0, 0, 1}), b = make({10, 0, 0, 2}), d = make(Bytes(16, 1)); return i == 0 ? net::Path{a, b} : i == 1 ? net::Path{b, a} : i == 2 ? net::Path{a, d} : net::Path{d, a}; }; std::unordered_map<net::Path, int, net::PathHash> m; table<net::Path>(c, 4, m, key); }
VH_SECTION("tables: all operation sequences on tables keyed by address", "N04") { auto key = [](uint32_t i) { return make(i == 0 ? Bytes{10, 0, 0, 1} : i == 1 ? Bytes{10, 0, 1, 0} : i == 2 ? Bytes(16, 0) : Bytes(4, 0)); }; std::unordered_map<Address, int, net::ip::AddressHash> m; table<Address>(c, 4, m, key); }
VH_SECTION("tables: all operation sequences on tables keyed by transaction id", "N04") { auto key = [](uint32_t i) { Bytes b(i == 3 ? 16 : 12, 0); if (i) b[i * 3] = 1; return stun::TransactionId(View(b.data(), b.size())); }; std::unordered_map<stun::TransactionId, int, stun::TransactionIdHash> m(8, stun::MurmurTransactionIdHash<>::create()); table<stun::TransactionId>(c, 4, m, key); }
VH_SECTION("transaction ids: kept exactly, equal exactly when bytes are", "N04") {
    uint32_t n = c.choose(2) ? 16 : 12; Bytes b(n); for (uint32_t i = 0; i < n; ++i) b[i] = uint8_t(i + 7); stun::TransactionId a{View(b.data(), n)}; c.require(bytes(a.view()) == b, "bytes"); uint32_t bit = c.choose(n * 8 + 2); Bytes x = b; if (bit < n * 8) x[bit / 8] ^= uint8_t(1 << bit % 8); if (bit == n * 8) x.resize(n - 4); stun::TransactionId d{View(x.data(), x.size())}; bool eq = bit == n * 8 + 1; c.require((a == d) == eq && (a != d) != eq, "equality", [&] { return "transaction ids differing in bit " + N(bit); }); stun::TransactionId k = a; k = d; c.require(k == d && bytes(k.view()) == x, "copy");
}
struct Script { std::vector<uint32_t> w; size_t at = 0; uint32_t operator()() { return w.at(at++); } };
VH_SECTION("transaction ids: generated from all bits of the random source", "N04") {
    bool classic = c.choose(2); uint32_t words = classic ? 4 : 3, bit = c.choose(words * 32 + 1); Script s{{0x01020304, 0x05060708, 0x090a0b0c, 0x0d0e0f10, 99}}; Script t = s; if (bit < words * 32) t.w[bit / 32] ^= 1u << bit % 32;
    auto gen = [&](Script& r) { return classic ? stun::TransactionId::generate_rfc3489(r) : stun::TransactionId::generate(r); }; auto a = gen(s), b = gen(t); c.require(a.view().size() == words * 4 && s.at == words, "size"); c.require((a == b) == (bit == words * 32), "entropy", [&] { return "random bit " + N(bit) + " does not reach the id"; });
}
