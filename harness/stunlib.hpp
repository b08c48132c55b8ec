// Conversions between the project's STUN types and the reference ones.
#pragma once
#include "stunref.hpp"
#include <memory>
#include "stun/stun_message.hpp"
#include "stun/stun_error.hpp"
#include "stun/stun_password.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "util/util_result_sugar.hpp"
namespace lib {
using namespace freewebrtc;
using ref::Bytes;
using View = util::ConstBinaryView;
inline View view(const Bytes& b) { static const uint8_t z = 0; return b.empty() ? View(&z, 0) : View(b.data(), b.size()); }
inline Bytes bytes(const View& v) { return Bytes(v.begin(), v.end()); }
inline net::ip::Address addr(const ref::Addr& a) {
    if (a.v6) return net::ip::Address::move_from_v6(net::ip::AddressV6::from_view(view(a.b)).unwrap());
    return net::ip::Address::move_from_v4(net::ip::AddressV4::from_view(view(a.b)).unwrap());
}
inline ref::Addr addr(const net::ip::Address& a, uint16_t port) {
    ref::Addr r; r.v6 = a.value().index() == 1; r.port = port;
    std::visit([&](const auto& x) { r.b = bytes(x.view()); }, a.value());
    return r;
}
inline stun::TransactionId tid(const Bytes& b) { return stun::TransactionId(view(b)); }
inline stun::Class cls(unsigned c) { return stun::Class::from_msg_type(uint16_t(ref::msg_type(c, 0))); }
inline stun::Method method(unsigned m) { return stun::Method::from_msg_type(uint16_t(ref::msg_type(0, m))); }
inline stun::AttributeType atype(uint16_t t) { return stun::AttributeType::from_uint16(t); }
inline net::Port port(uint16_t p) { return net::Port::from_uint16(p); }
inline stun::MaybeIntegrity integrity(const std::string& pass) {
    auto pw = stun::Password::short_term(precis::OpaqueString{pass}, crypto::openssl::sha1);
    return stun::MaybeIntegrity(stun::IntegrityData{pw.unwrap(), crypto::openssl::sha1});
}
inline Bytes key(const std::string& s) { return Bytes(s.begin(), s.end()); }
// an exact-size heap copy, so that ASan sees any read past the end
struct Exact {
    std::unique_ptr<uint8_t[]> p; size_t n;
    explicit Exact(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) memcpy(p.get(), b.data(), n); }
    View view() const { return View(p.get(), n); }
    bool same(const Bytes& b) const { return n == b.size() && (n == 0 || memcmp(p.get(), b.data(), n) == 0); }
};
// reference description of a message -> the project's message
inline stun::Message message(const ref::Msg& m, bool fingerprint, bool stale_mi = false) {
    using namespace stun;
    std::vector<Attribute::Value> v; std::vector<UnknownAttribute> u;
    if (m.mapped) v.push_back(MappedAddressAttribute{addr(*m.mapped), port(m.mapped->port)});
    if (m.xored) v.push_back(XorMappedAddressAttribute{XoredAddress::from_view(m.xored->v6 ? Family::ipv6() : Family::ipv4(), view(m.xored->b)).unwrap(), port(m.xored->port)});
    if (m.alternate) v.push_back(AlternateServerAttribute{addr(*m.alternate), port(m.alternate->port)});
    if (m.username) v.push_back(UsernameAttribute{precis::OpaqueString{*m.username}});
    if (m.software) v.push_back(SoftwareAttribute{*m.software});
    if (m.priority) v.push_back(PriorityAttribute{*m.priority});
    if (m.controlling) v.push_back(IceControllingAttribute{*m.controlling});
    if (m.controlled) v.push_back(IceControlledAttribute{*m.controlled});
    if (m.use_candidate) v.push_back(UseCandidateAttribute{});
    if (m.unknown_attributes) { UnknownAttributesAttribute a; for (auto t : *m.unknown_attributes) a.types.push_back(atype(t)); v.push_back(a); }
    if (m.error) v.push_back(ErrorCodeAttribute{m.error->code, m.error->reason.empty() ? Maybe<std::string>(none()) : Maybe<std::string>(m.error->reason)});
    if (stale_mi) { crypto::SHA1Hash::Value d{}; v.push_back(MessageIntegityAttribute{MessageIntegityAttribute::Digest{crypto::SHA1Hash(std::move(d))}}); }
    if (fingerprint) v.push_back(FingerprintAttribute{0});
    for (auto& x : m.unknown) u.emplace_back(atype(x.type), view(x.data));
    return Message{Header{cls(m.cls), method(m.method), tid(m.tid)}, AttributeSet::create(std::move(v), std::move(u)), IsRFC3489{m.rfc3489}, none()};
}
template<class T> inline bool some(const T& m) { return m.is_some(); }
// first difference between a parsed message and the reference decoding; "" if none
inline std::string diff(const stun::Message& g, const ref::Msg& m) {
    using std::to_string;
    const auto& s = g.attribute_set;
    auto H = [](const Bytes& b) { std::string o; char t[4]; for (auto x : b) { snprintf(t, 4, "%02x", x); o += t; } return o; };
    if (ref::type_class(g.header.cls.to_msg_type()) != m.cls) return "class";
    if (g.header.method.to_msg_type() != ref::msg_type(0, m.method)) return "method";
    if (bytes(g.header.transaction_id.view()) != m.tid) return "transaction id";
    if (bool(g.is_rfc3489) != m.rfc3489) return "classic (RFC 3489) flag";
    auto A = [&](const char* n, bool have, auto get, const std::optional<ref::Addr>& w) -> std::string {
        if (have != bool(w)) return std::string(n) + (have ? " present" : " absent");
        if (!have) return "";
        ref::Addr a = get();
        if (a == *w) return "";
        return std::string(n) + " is " + H(a.b) + " port " + to_string(a.port) + ", the bytes say " + H(w->b) + " port " + to_string(w->port);
    };
    std::string r;
    if (!(r = A("MAPPED-ADDRESS", some(s.mapped()), [&] { const auto& x = s.mapped().unwrap().get(); return addr(x.addr, x.port.value()); }, m.mapped)).empty()) return r;
    if (!(r = A("ALTERNATE-SERVER", some(s.alternate_server()), [&] { const auto& x = s.alternate_server().unwrap().get(); return addr(x.addr, x.port.value()); }, m.alternate)).empty()) return r;
    if (!(r = A("XOR-MAPPED-ADDRESS", some(s.xor_mapped()), [&] { const auto& x = s.xor_mapped().unwrap().get(); return ref::Addr{x.addr.family().type() == stun::Family::IPv6, bytes(x.addr.view()), x.port.value()}; }, m.xored)).empty()) return r;
    auto V = [&](const char* n, bool have, bool want, auto same) -> std::string {
        if (have != want) return std::string(n) + (have ? " present" : " absent");
        return !have || same() ? "" : std::string(n) + " has another value";
    };
    if (!(r = V("USERNAME", some(s.username()), bool(m.username), [&] { return s.username().unwrap().get().value == *m.username; })).empty()) return r;
    if (!(r = V("SOFTWARE", some(s.software()), bool(m.software), [&] { return s.software().unwrap().get() == *m.software; })).empty()) return r;
    if (!(r = V("PRIORITY", some(s.priority()), bool(m.priority), [&] { return s.priority().unwrap().get() == *m.priority; })).empty()) return r;
    if (!(r = V("ICE-CONTROLLING", some(s.ice_controlling()), bool(m.controlling), [&] { return s.ice_controlling().unwrap().get() == *m.controlling; })).empty()) return r;
    if (!(r = V("ICE-CONTROLLED", some(s.ice_controlled()), bool(m.controlled), [&] { return s.ice_controlled().unwrap().get() == *m.controlled; })).empty()) return r;
    if (s.has_use_candidate() != m.use_candidate) return "USE-CANDIDATE";
    if (s.has_fingerprint() != bool(m.fingerprint)) return "FINGERPRINT";
    if (!(r = V("MESSAGE-INTEGRITY", some(s.integrity()), bool(m.integrity), [&] { return bytes(s.integrity().unwrap().get().value.view()) == *m.integrity; })).empty()) return r;
    if (!(r = V("ERROR-CODE", some(s.error_code()), bool(m.error), [&] { const auto& e = s.error_code().unwrap().get(); return e.code == m.error->code && (e.reason_phrase.is_some() ? e.reason_phrase.unwrap() : std::string()) == m.error->reason; })).empty()) return r;
    if (!(r = V("UNKNOWN-ATTRIBUTES", some(s.unknown_attributes()), bool(m.unknown_attributes), [&] { std::vector<uint16_t> t; for (auto x : s.unknown_attributes().unwrap().get().types) t.push_back(x.value()); return t == *m.unknown_attributes; })).empty()) return r;
    std::set<uint16_t> want, got; for (auto& u : m.unknown) if (u.type < 0x8000) want.insert(u.type);
    for (auto t : s.unknown_comprehension_required()) got.insert(t.value());
    if (want != got) return "list of unknown comprehension-required attributes";
    return "";
}
// first difference between two reference messages, ignoring integrity/fingerprint values; "" if none
inline std::string diff(const ref::Msg& g, const ref::Msg& m) {
    if (g.cls != m.cls) return "class"; if (g.method != m.method) return "method"; if (g.tid != m.tid) return "transaction id";
    if (!(g.mapped == m.mapped)) return "MAPPED-ADDRESS"; if (!(g.alternate == m.alternate)) return "ALTERNATE-SERVER"; if (!(g.xored == m.xored)) return "XOR-MAPPED-ADDRESS";
    if (g.username != m.username) return "USERNAME"; if (g.software != m.software) return "SOFTWARE"; if (g.priority != m.priority) return "PRIORITY";
    if (g.controlling != m.controlling) return "ICE-CONTROLLING"; if (g.controlled != m.controlled) return "ICE-CONTROLLED"; if (g.use_candidate != m.use_candidate) return "USE-CANDIDATE";
    if (g.unknown_attributes != m.unknown_attributes) return "UNKNOWN-ATTRIBUTES"; if (!(g.error == m.error)) return "ERROR-CODE"; if (!(g.unknown == m.unknown)) return "unknown attributes";
    return "";
}
}
