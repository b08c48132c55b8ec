// Error categories (U05).
// DEPS: src/rtp/rtp_error.cpp src/net/net_error.cpp src/ice/candidate/ice_candidate_error.cpp src/stun/stun_error.cpp src/util/util_error_code.cpp src/crypto/openssl/openssl_error.cpp node/node_stun/node_stun_error.cpp node/openssl/node_openssl_error.cpp
// INCS: .
// SAN: yes
// LIBS: -lcrypto
#include "vh.hpp"
#include <thread>
#include "rtp/rtp_error.hpp"
#include "net/net_error.hpp"
#include "ice/candidate/ice_candidate_error.hpp"
#include "stun/stun_error.hpp"
#include "util/util_error_code.hpp"
#include "crypto/openssl/openssl_error.hpp"
#include "node/node_stun/node_stun_error.hpp"
#include "node/openssl/node_openssl_error.hpp"
#include <openssl/err.h>

using namespace freewebrtc;

struct Cat {
    std::string name;
    std::function<std::error_code(int)> make;
    std::vector<std::string> enumerators;      // by value, 0 = ok
    const std::error_category* direct;         // category accessor, if public
    std::vector<int> values;                   // numeric values of the enumerators as the compiler sees them
};
template<class E> static std::function<std::error_code(int)> mk() { return [](int v) -> std::error_code { return make_error_code(static_cast<E>(v)); }; }

#define V(E, x) int(E::x)
static const std::vector<Cat>& cats() {
    static const std::vector<Cat> c = [] {
        std::vector<Cat> r;
        { using E = rtp::Error; r.push_back({"rtp", mk<E>(), {"ok", "packet_is_too_short", "unknown_packet_version", "invalid_payload_type", "unknown_rtp_clock", "invalid_extension_length", "invalid_packet_padding"}, &rtp::rtp_error_category(),
            {V(E, ok), V(E, packet_is_too_short), V(E, unknown_packet_version), V(E, invalid_payload_type), V(E, unknown_rtp_clock), V(E, invalid_extension_length), V(E, invalid_packet_padding)}}); }
        { using E = net::Error; r.push_back({"net", mk<E>(), {"ok", "invalid_address_size", "ip_address_parse_error", "fqdn_invalid_label_expect_letter", "fqdn_not_fully_parsed", "invalid_port_value"}, &net::net_error_category(),
            {V(E, ok), V(E, invalid_address_size), V(E, ip_address_parse_error), V(E, fqdn_invalid_label_expect_letter), V(E, fqdn_not_fully_parsed), V(E, invalid_port_value)}}); }
        { using E = ice::candidate::Error; r.push_back({"ice", mk<E>(), {"ok", "invalid_attr_prefix", "invalid_candidate_parts_number", "candidate_type_absent", "unknown_candidate_type", "invalid_foundation_length", "invalid_foundation_char", "invalid_component_id_length", "invalid_component_id_char", "invalid_component_id_value", "unknown_transport_type", "invalid_priority_length", "invalid_priority_value", "invalid_type_preference_value", "invalid_component_preference_value", "invalid_local_preference_value"}, &ice::candidate::ice_error_category(),
            {V(E, ok), V(E, invalid_attr_prefix), V(E, invalid_candidate_parts_number), V(E, candidate_type_absent), V(E, unknown_candidate_type), V(E, invalid_foundation_length), V(E, invalid_foundation_char), V(E, invalid_component_id_length), V(E, invalid_component_id_char), V(E, invalid_component_id_value), V(E, unknown_transport_type), V(E, invalid_priority_length), V(E, invalid_priority_value), V(E, invalid_type_preference_value), V(E, invalid_component_preference_value), V(E, invalid_local_preference_value)}}); }
        { using E = stun::ParseError; r.push_back({"stun parse", mk<E>(), {"ok", "invalid_message_size", "not_padded_attributes", "invalid_message_len", "invalid_magic_cookie", "invalid_attr_size", "invalid_mapped_addr", "invalid_xor_mapped_addr", "invalid_ipv4_address_size", "invalid_ipv6_address_size", "integrity_digest_size", "fingerprint_crc_size", "fingerprint_is_not_last", "fingerprint_not_valid", "priority_attribute_size", "ice_controlled_size", "ice_controlling_size", "use_candidate_size", "error_code_attribute_size", "unknown_attributes_attribute_size", "unknown_addr_family", "invalid_message_type"}, &stun::stun_parse_error_category(),
            {V(E, ok), V(E, invalid_message_size), V(E, not_padded_attributes), V(E, invalid_message_len), V(E, invalid_magic_cookie), V(E, invalid_attr_size), V(E, invalid_mapped_addr), V(E, invalid_xor_mapped_addr), V(E, invalid_ipv4_address_size), V(E, invalid_ipv6_address_size), V(E, integrity_digest_size), V(E, fingerprint_crc_size), V(E, fingerprint_is_not_last), V(E, fingerprint_not_valid), V(E, priority_attribute_size), V(E, ice_controlled_size), V(E, ice_controlling_size), V(E, use_candidate_size), V(E, error_code_attribute_size), V(E, unknown_attributes_attribute_size), V(E, unknown_addr_family), V(E, invalid_message_type)}}); }
        { using E = stun::ClientError; r.push_back({"stun client", mk<E>(), {"ok", "no_integrity_attribute_in_response", "digest_is_not_valid", "transaction_not_found", "no_address_in_response", "no_error_code_in_response", "no_alternate_server_in_response"}, &stun::stun_client_error_category(),
            {V(E, ok), V(E, no_integrity_attribute_in_response), V(E, digest_is_not_valid), V(E, transaction_not_found), V(E, no_address_in_response), V(E, no_error_code_in_response), V(E, no_alternate_server_in_response)}}); }
        { using E = util::ErrorCode; r.push_back({"util", mk<E>(), {"ok", "value_required_in_maybe"}, &util::util_error_category(), {V(E, ok), V(E, value_required_in_maybe)}}); }
        { using E = node_stun::Error; r.push_back({"node stun", mk<E>(), {"ok", "unknown_stun_method", "unknown_stun_class", "invalid_ip_address", "invalid_port_number"}, nullptr,
            {V(E, ok), V(E, unknown_stun_method), V(E, unknown_stun_class), V(E, invalid_ip_address), V(E, invalid_port_number)}}); }
        r.push_back({"openssl", [](int v) { return crypto::openssl::make_error_code(v); }, {}, nullptr, {}});
        r.push_back({"node openssl", [](int v) { return crypto::node_openssl::make_error_code(v); }, {}, nullptr, {}});
        return r;
    }();
    return c;
}
static std::string N(long v) { return std::to_string(v); }
static bool is_ssl(const Cat& k) { return k.enumerators.empty(); }

// one observation of a code: everything a caller can see
static void observe(vh::Ctx& c, const Cat& k, int v) {
    c.step();
    std::error_code e = k.make(v), e2 = k.make(v);
    auto who = [&] { return k.name + " " + N(v); };
    c.require(e.value() == v, "value", [&] { return who() + " became number " + N(e.value()); });
    c.require(e == e2 && &e.category() == &e2.category(), "same", [&] { return who() + ": made twice, not equal"; });
    c.require(bool(e) == (v != 0), "zero-is-success", [&] { return who() + ": converts to " + N(bool(e)); });
    c.require(&e.category() == &k.make(0).category(), "category", [&] { return who() + ": category differs from that of success"; });
    if (k.direct) c.require(&e.category() == k.direct, "category", [&] { return who() + ": not the component's category"; });
    c.require(e.category().name() != nullptr && *e.category().name(), "name", [&] { return who() + ": empty category name"; });
    std::string m = e.message(), m2 = e.message();
    c.require(m == m2, "message", [&] { return who() + ": message changed: " + m + " / " + m2; });
    c.require(!m.empty(), "message", [&] { return who() + ": empty message"; });
    if (is_ssl(k)) {
        char buf[256]; ERR_error_string_n(static_cast<unsigned long>(v), buf, sizeof buf);
        c.require(m == buf, "openssl-text", [&] { return who() + ": '" + m + "' is not OpenSSL's '" + buf + "'"; });
    } else {
        // messages of this component's enumerators, by position
        const int n = int(k.enumerators.size());
        std::string fb = k.make(v == 100000 ? 100001 : 100000).message();     // fallback
        auto strip = [](std::string s) { while (!s.empty() && (isdigit((unsigned char)s.back()) || s.back() == '-')) s.pop_back(); return s; };
        if (v >= 0 && v < n) {
            c.require(strip(m) != strip(fb), "specific-message", [&] { return who() + " (" + k.enumerators[v] + ") has the fallback message '" + m + "'"; });
            for (int o = 0; o < n; ++o) if (o != v) { std::string mo = k.make(o).message(); c.require(mo != m, "distinct-message", [&] { return who() + " and " + N(o) + " share the message '" + m + "'"; }); }
        } else {
            c.require(strip(m) == strip(fb), "fallback", [&] { return who() + " is not an enumerator but has the message '" + m + "'"; });
        }
    }
    c.outcome(k.name + m);
}

VH_SECTION("numbering", "U05") {     // enumerators are numbered in order from zero, as their documentation and callers rely on
    for (auto& k : cats()) {
        for (size_t i = 0; i < k.values.size(); ++i) {
            c.require(k.values[i] == int(i), "numbering", [&] { return k.name + "::" + k.enumerators[i] + " has number " + N(k.values[i]) + " instead of " + N(i); });
            observe(c, k, k.values[i]); c.state(vh::hash_str(k.name, i));
        }
        if (!k.values.empty()) { std::string m = k.make(0).message(); for (auto& ch : m) ch = tolower(ch); c.require(m == "success", "success-message", [&] { return k.name + ": zero is described as '" + m + "'"; }); }
    }
    c.require(std::is_error_code_enum<std::errc>::value == false, "std", "");
}
VH_SECTION("codes", "U05") {
    const Cat& k = c.pick(cats(), "category");
    const int lim = vh::thorough() ? (1 << 19) : 300;
    const int block = 64, n = (2 * lim + block) / block;
    int b = c.choose(n, "block");
    for (int i = 0; i < block; ++i) { int v = -lim + b * block + i; observe(c, k, v); c.state(vh::mix(vh::hash_str(k.name), uint32_t(v))); }
    c.sample([&] { return k.name + " codes from " + N(-lim + b * block) + ", e.g. '" + k.make(-lim + b * block).message() + "'"; });
}
VH_SECTION("extremes", "U05") {
    const Cat& k = c.pick(cats(), "category");
    unsigned bit = c.choose(32, "bit");
    for (int s : {-1, 0, 1}) for (int neg : {0, 1}) { int v = int((1u << bit) + s); if (neg) v = int(0u - unsigned(v)); if (v == 100000 || v == 100001) continue; observe(c, k, v); c.state(vh::mix(vh::hash_str(k.name), uint32_t(v))); }
}
// codes of two components are equal only if number and component agree; looking at one never changes the other
VH_SECTION("pairs", "U05") {
    const Cat& a = c.pick(cats(), "first"); const Cat& b = c.pick(cats(), "second");
    int va = int(c.choose(24, "number"));
    for (int vb = 0; vb < 24; ++vb) {
        auto ea = a.make(va); std::string ma = ea.message(); auto eb = b.make(vb); std::string mb = eb.message();
        c.step(2); c.state(vh::mix(vh::hash_str(a.name + "/" + b.name), va * 32 + vb));
        bool same = &a == &b && va == vb;
        c.require((ea == eb) == same && (eb == ea) == same && (ea != eb) == !same, "cross-equality", [&] { return a.name + " " + N(va) + " vs " + b.name + " " + N(vb) + ": equality is " + N(ea == eb); });
        if (&a != &b) c.require(ea.category() != eb.category(), "shared-category", [&] { return a.name + " and " + b.name + " share a category"; });
        c.require(ea.message() == ma && a.make(va).message() == ma && b.make(vb).message() == mb, "interference", [&] { return a.name + " " + N(va) + " message changed after looking at " + b.name + " " + N(vb); });
        c.require(!(ea == std::error_code(va, std::generic_category())) && !(ea == std::error_code(va, std::system_category())), "cross-equality", "equals a system code");
        // conversion to portable conditions must not invent equivalences
        if (va != 0 || vb != 0) c.require(!(ea == std::make_error_condition(std::errc::invalid_argument)), "condition", [&] { return a.name + " " + N(va) + " is equivalent to errc::invalid_argument"; });
        c.require((ea.default_error_condition() == eb.default_error_condition()) == same || &a == &b, "condition", "default conditions of different components agree");
    }
}

// codes made in different threads are the same codes
VH_SECTION("threads", "U05") {
    uint32_t order = c.choose(2); std::vector<std::error_code> there; std::vector<std::string> names, texts; const int lim = 24;
    auto fill = [&](auto& codes, auto& text) { for (auto& k : cats()) for (int v = 0; v < lim; ++v) { codes.push_back(k.make(v)); text.push_back(codes.back().message()); } };
    std::vector<std::error_code> here; std::vector<std::string> here_text; if (order) fill(here, here_text); std::thread t([&] { fill(there, texts); }); t.join(); if (!order) fill(here, here_text);
    c.require(here.size() == there.size(), "threads");
    for (size_t i = 0; i < here.size(); ++i) { c.step(2); const Cat& k = cats()[i / lim]; auto who = [&] { return k.name + " " + N(long(i % lim)); };
        c.require(&here[i].category() == &there[i].category() && here[i] == there[i], "threads", [&] { return who() + ": made in two threads, not equal"; }); c.require(here_text[i] == texts[i], "threads", [&] { return who() + ": the message differs between threads"; }); c.state(vh::mix(i, order)); }
    c.trace();
}
