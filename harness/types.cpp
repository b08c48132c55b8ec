// Small value types, registries, wrappers, character classes (S07 S08 R03 U06 U08).
// DEPS: src/stun/stun_method.cpp src/rtp/rtp_payload_map.cpp
// SAN: yes
#include "vh.hpp"
#include <string>
#include <string_view>
#include <variant>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include "stun/stun_class.hpp"
#include "stun/stun_method.hpp"
#include "stun/stun_attribute_type.hpp"
#include "stun/stun_parse_stat.hpp"
#include "stun/stun_client_udp_handle.hpp"
#include "stun/details/stun_attr_registry.hpp"
#include "stun/details/stun_constants.hpp"
#include "stun/details/stun_method_registry.hpp"
#include "stun/details/stun_fingerprint.hpp"
#include "rtp/rtp_sequence.hpp"
#include "rtp/rtp_ssrc.hpp"
#include "rtp/rtp_timestamp.hpp"
#include "rtp/rtp_clock_rate.hpp"
#include "rtp/rtp_marker.hpp"
#include "rtp/rtp_payload_type.hpp"
#include "rtp/rtp_payload_map.hpp"
#include "rtp/details/rtp_header_details.hpp"
#include "util/util_hash_dynamic.hpp"
#include "util/util_tagged_type.hpp"
#include "util/util_typed_bool.hpp"
#include "util/util_variant_overloaded.hpp"
#include "stat/stat_counter.hpp"
#include "precis/precis_opaque_string.hpp"
#include "precis/precis_opaque_string_hash.hpp"
#include "abnf/abnf.hpp"
#include "ice/ice_abnf.hpp"

// Constants that were renamed are skipped, not a compile error: a qualified
// name missing in the project's namespace is then found here.
namespace vh_absent {
struct Absent { template<class T> operator T() const { return T{}; } };
constexpr Absent MAPPED_ADDRESS{}, USERNAME{}, MESSAGE_INTEGRITY{}, ERROR_CODE{}, UNKNOWN_ATTRIBUTES{}, REALM{}, NONCE{}, XOR_MAPPED_ADDRESS{}, PRIORITY{}, USE_CANDIDATE{},
    COMPREHANENSION_OPTIONAL{}, SOFTWARE{}, ALTERNATE_SERVER{}, FINGERPRINT{}, ICE_CONTROLLED{}, ICE_CONTROLLING{}, FAMILY_IPV4{}, FAMILY_IPV6{}, BINDING{},
    MAGIC_COOKIE{}, TRANSACTION_ID_SIZE{}, TRANSACTION_ID_SIZE_RFC3489{}, HEADER_SIZE{}, STUN_HEADER_SIZE{}, STUN_ATTR_HEADER_SIZE{}, FINGERPRINT_CRC_SIZE{}, FINGERPRINT_XOR{},
    RTP_FIXED_HEADER_LEN{}, RTP_VERSION{}, RTP_VERSION_MASK{}, RTP_VERSION_SHIFT{}, RTP_PADDING_MASK{}, RTP_EXTENSION_MASK{}, RTP_CC_MASK{}, RTP_MARKER_MASK{}, RTP_PAYLOAD_TYPE_MASK{},
    RTP_SEQUENCE_NUMBER_OFFSET{}, RTP_TIMESTAMP_OFFSET{}, RTP_SSRC_OFFSET{};
}
namespace freewebrtc::stun::attr_registry { using namespace vh_absent; }
namespace freewebrtc::stun::method_registry { using namespace vh_absent; }
namespace freewebrtc::stun::details { using namespace vh_absent; }
namespace freewebrtc::stun { using namespace vh_absent; }
namespace freewebrtc::rtp::details { using namespace vh_absent; }

using namespace freewebrtc;
using u64 = uint64_t;
static std::string N(u64 v) { return std::to_string(v); }
static std::string X(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
template<class T> static void eqc(vh::Ctx& c, const char* name, const T& got, u64 want) {
    if constexpr (std::is_same_v<std::decay_t<T>, vh_absent::Absent>) { (void)got; }
    else { c.state(vh::mix(vh::hash_str(name), u64(got))); c.step(); c.require(u64(got) == want, "constant", [&] { return std::string(name) + " is " + X(u64(got)) + ", the standard says " + X(want); }); }
}

// ------------------------------------------------------------------ S07
static unsigned ref_class(unsigned t) { return ((t >> 4) & 1) | (((t >> 8) & 1) << 1); }
static unsigned ref_method(unsigned t) { unsigned m = 0, k = 0; for (int b = 0; b < 14; ++b) { if (b == 4 || b == 8) continue; if (t >> b & 1) m |= 1u << k; ++k; } return m; }
static stun::Class cls(unsigned i) { switch (i) { case 0: return stun::Class::request(); case 1: return stun::Class::indication(); case 2: return stun::Class::success_response(); default: return stun::Class::error_response(); } }

VH_SECTION("message-types", "S07") {
    unsigned block = c.choose(256, "high byte");
    for (unsigned lo = 0; lo < 256; ++lo) {
        unsigned t = block << 8 | lo;
        c.state(t); c.step(4);
        auto k = stun::Class::from_msg_type(t);
        unsigned rc = ref_class(t);
        c.require(k == cls(rc), "class", [&] { return X(t) + ": class " + N(k.value()) + " instead of " + N(rc); });
        c.require(unsigned(k.value()) == unsigned(std::array<stun::Class::Value, 4>{stun::Class::REQUEST, stun::Class::INDICATION, stun::Class::SUCCESS_RESPONSE, stun::Class::ERROR_RESPONSE}[rc]), "class-value", [&] { return X(t) + ": class value"; });
        c.require((k.to_msg_type() & 0xffff) == (t & 0x110), "class-bits", [&] { return X(t) + ": class encodes as " + X(k.to_msg_type()); });
        if (t >= 0x4000) continue;
        auto m = stun::Method::from_msg_type(t);
        c.require(m.value() == ref_method(t), "method", [&] { return X(t) + ": method " + X(m.value()) + " instead of " + X(ref_method(t)); });
        c.require(m.to_msg_type() == (t & ~0x110u), "method-bits", [&] { return X(t) + ": method encodes as " + X(m.to_msg_type()); });
        c.require(unsigned(m.to_msg_type() | k.to_msg_type()) == t, "join", [&] { return X(t) + ": joins back to " + X(m.to_msg_type() | k.to_msg_type()); });
        c.require((m == stun::Method::binding()) == (ref_method(t) == 1), "binding", [&] { return X(t) + ": wrongly (not) the binding method"; });
        auto k2 = k; auto m2 = m; c.require(k2 == k && m2 == m && !(m2 != m), "copy", "copies differ");
        c.outcome(m.value() * 4 + rc);
    }
    c.sample([&] { return "all message types with high byte " + X(block); });
}
VH_SECTION("class-method-pairs", "S07") {
    unsigned a = c.choose(4096, "method");
    auto spread = [](unsigned v) { return (v & 0xf) | ((v >> 4 & 7) << 5) | ((v >> 7) << 9); };
    for (unsigned k = 0; k < 4; ++k) {
        unsigned ct = (k & 1) << 4 | (k >> 1) << 8;
        auto m = stun::Method::from_msg_type(uint16_t(spread(a) | ct));
        unsigned t = m.to_msg_type() | cls(k).to_msg_type();
        c.step(2); c.state(a * 4 + k);
        c.require(t == (spread(a) | ct), "join", [&] { return "method " + X(a) + " class " + N(k) + " joined to " + X(t); });
        c.require(m == stun::Method::from_msg_type(uint16_t(spread(a))), "method-class-leak", [&] { return "method " + X(a) + " depends on the class bits"; });
    }
    auto m = stun::Method::from_msg_type(uint16_t(spread(a)));
    for (unsigned b = 0; b < 4096; ++b) {
        auto n = stun::Method::from_msg_type(uint16_t(spread(b)));
        c.require((m == n) == (a == b) && (m != n) == (a != b), "equality", [&] { return "methods " + X(a) + " and " + X(b); });
    }
}
VH_SECTION("named", "S07") {
    unsigned i = c.choose(4, "class"), j = c.choose(4, "other");
    c.step(2);
    c.require((cls(i) == cls(j)) == (i == j), "class-equality", [&] { return "classes " + N(i) + " and " + N(j); });
    static const unsigned want[4] = {0x000, 0x010, 0x100, 0x110};
    c.require(cls(i).to_msg_type() == want[i], "class-encoding", [&] { return "class " + N(i) + " encodes as " + X(cls(i).to_msg_type()); });
    c.require(stun::Method::binding().value() == 1 && stun::Method::binding().to_msg_type() == 1, "binding", "binding method is not 1");
}

// ------------------------------------------------------------------ S08
VH_SECTION("attribute-types", "S08") {
    unsigned hi = c.choose(256, "high byte");
    static const std::vector<unsigned> others = [] { std::vector<unsigned> r; for (unsigned i = 0; i < 16; ++i) r.push_back(1u << i); for (unsigned v : {0u, 1u, 6u, 8u, 9u, 10u, 0x14u, 0x16u, 0x20u, 0x24u, 0x25u, 0x7fffu, 0x8000u, 0x8022u, 0x8023u, 0x8028u, 0x8029u, 0x802au, 0xffffu}) r.push_back(v); return r; }();
    for (unsigned lo = 0; lo < 256; ++lo) {
        unsigned t = hi << 8 | lo;
        auto a = stun::AttributeType::from_uint16(t);
        c.state(t); c.step(3);
        c.require(a.value() == t, "value", [&] { return X(t) + " became " + X(a.value()); });
        c.require(a.is_comprehension_required() == (t < 0x8000), "comprehension", [&] { return X(t) + ": comprehension-required is " + N(a.is_comprehension_required()); });
        c.require(a == stun::AttributeType::from_uint16(t) && std::hash<stun::AttributeType>()(a) == std::hash<stun::AttributeType>()(stun::AttributeType::from_uint16(t)), "same", [&] { return X(t) + " differs from itself"; });
        auto other = [&](unsigned v) { auto b = stun::AttributeType::from_uint16(v); c.require((a == b) == (t == v), "equality", [&] { return X(t) + " and " + X(v); }); };
        for (unsigned v : others) { other(v); other(t ^ v); }
        for (unsigned v = 0; v < 256; ++v) { other(hi << 8 | v); other(v << 8 | lo); }
        c.outcome(a.is_comprehension_required());
    }
}
VH_SECTION("attribute-table", "S08") {   // an unordered table keyed by the type finds exactly what was stored
    unsigned step = 1 + c.choose(16, "stride");
    std::unordered_map<stun::AttributeType, unsigned> t;
    for (unsigned v = 0; v < 65536; v += step) t.emplace(stun::AttributeType::from_uint16(v), v);
    for (unsigned v = 0; v < 65536; ++v) {
        auto it = t.find(stun::AttributeType::from_uint16(v)); c.step();
        c.require((it != t.end()) == (v % step == 0) && (it == t.end() || it->second == v), "lookup", [&] { return X(v) + " looked up wrongly"; });
    }
}
VH_SECTION("registries", "S08") {
    c.choose(1, "once");
    namespace A = stun::attr_registry; namespace D = stun::details; namespace M = stun::method_registry;
    eqc(c, "MAPPED_ADDRESS", A::MAPPED_ADDRESS, 0x0001); eqc(c, "USERNAME", A::USERNAME, 0x0006); eqc(c, "MESSAGE_INTEGRITY", A::MESSAGE_INTEGRITY, 0x0008);
    eqc(c, "ERROR_CODE", A::ERROR_CODE, 0x0009); eqc(c, "UNKNOWN_ATTRIBUTES", A::UNKNOWN_ATTRIBUTES, 0x000A); eqc(c, "REALM", A::REALM, 0x0014); eqc(c, "NONCE", A::NONCE, 0x0015);
    eqc(c, "XOR_MAPPED_ADDRESS", A::XOR_MAPPED_ADDRESS, 0x0020); eqc(c, "PRIORITY", A::PRIORITY, 0x0024); eqc(c, "USE_CANDIDATE", A::USE_CANDIDATE, 0x0025);
    eqc(c, "COMPREHANENSION_OPTIONAL", A::COMPREHANENSION_OPTIONAL, 0x8000); eqc(c, "SOFTWARE", A::SOFTWARE, 0x8022); eqc(c, "ALTERNATE_SERVER", A::ALTERNATE_SERVER, 0x8023);
    eqc(c, "FINGERPRINT", A::FINGERPRINT, 0x8028); eqc(c, "ICE_CONTROLLED", A::ICE_CONTROLLED, 0x8029); eqc(c, "ICE_CONTROLLING", A::ICE_CONTROLLING, 0x802A);
    eqc(c, "FAMILY_IPV4", A::FAMILY_IPV4, 1); eqc(c, "FAMILY_IPV6", A::FAMILY_IPV6, 2);
    eqc(c, "BINDING", M::BINDING, 1);
    eqc(c, "MAGIC_COOKIE", D::MAGIC_COOKIE, 0x2112A442); eqc(c, "TRANSACTION_ID_SIZE", D::TRANSACTION_ID_SIZE, 12); eqc(c, "TRANSACTION_ID_SIZE_RFC3489", D::TRANSACTION_ID_SIZE_RFC3489, 16);
    eqc(c, "HEADER_SIZE", D::HEADER_SIZE, 20); eqc(c, "STUN_HEADER_SIZE", D::STUN_HEADER_SIZE, 20); eqc(c, "STUN_ATTR_HEADER_SIZE", D::STUN_ATTR_HEADER_SIZE, 4);
    eqc(c, "FINGERPRINT_CRC_SIZE", D::FINGERPRINT_CRC_SIZE, 4); eqc(c, "FINGERPRINT_XOR", stun::FINGERPRINT_XOR, 0x5354554e);
}

// ------------------------------------------------------------------ R03
static const std::vector<uint32_t>& words() {
    static const std::vector<uint32_t> w = [] {
        std::set<uint32_t> s{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 8000, 48000, 90000, 0x12345678, 0x89abcdef};
        for (int i = 0; i < 32; ++i) for (int j = 0; j < 32; ++j) { s.insert(1u << i | 1u << j); s.insert(~(1u << i | 1u << j)); }
        return std::vector<uint32_t>(s.begin(), s.end());
    }();
    return w;
}
VH_SECTION("rtp-words", "R03") {
    uint32_t a = c.pick(words(), "value");
    auto s = rtp::SSRC::from_uint32(a);
    c.require(s.value() == a, "ssrc", [&] { return "source " + X(a) + " became " + X(s.value()); });
    c.require(rtp::ClockRate(a).count() == a, "clock", [&] { return "clock " + X(a) + " became " + X(rtp::ClockRate(a).count()); });
    for (uint32_t b : words()) {
        c.step(2);
        auto t = rtp::SSRC::from_uint32(b);
        c.require((s == t) == (a == b), "ssrc-equality", [&] { return "sources " + X(a) + " and " + X(b) + " compare " + N(s == t); });
        auto ts = rtp::Timestamp::from_uint32(a, rtp::ClockRate(b));
        auto ts2 = ts;
        c.require(ts.value() == a && ts2.value() == a, "timestamp", [&] { return "timestamp " + X(a) + " at rate " + N(b) + " became " + X(ts.value()); });
        ts2 = rtp::Timestamp::from_uint32(b, rtp::ClockRate(a)); c.require(ts2.value() == b && ts.value() == a, "timestamp", "assignment of timestamps");
        s = rtp::SSRC::from_uint32(b); c.require(s.value() == b, "ssrc", "assignment of sources"); s = rtp::SSRC::from_uint32(a);
    }
}
VH_SECTION("rtp-sequence", "R03") {
    unsigned hi = c.choose(256, "high byte");
    for (unsigned lo = 0; lo < 256; ++lo) { unsigned v = hi << 8 | lo; c.state(v); c.step(); auto s = rtp::SequenceNumber::from_uint16(v); c.require(s.value() == v, "sequence", [&] { return "sequence " + N(v) + " became " + N(s.value()); });
        auto t = rtp::SequenceNumber::from_uint16(uint16_t(v + 1)); t = s; c.require(t.value() == v, "sequence", "assignment of sequence numbers"); }
}
VH_SECTION("rtp-payload-type", "R03") {
    unsigned v = c.choose(256, "payload type");
    auto p = rtp::PayloadType::from_uint8(v);
    c.step();
    c.require(p.is_some() == (v <= 127), "payload-type", [&] { return "payload type " + N(v) + " exists: " + N(p.is_some()); });
    if (p.is_none()) return;
    c.require(p.unwrap().value() == v, "payload-type", [&] { return "payload type " + N(v) + " became " + N(p.unwrap().value()); });
    for (unsigned w = 0; w < 128; ++w) {
        auto q = rtp::PayloadType::from_uint8(w);
        c.require(q.is_some() && (q.unwrap() == p.unwrap()) == (v == w), "payload-equality", [&] { return "payload types " + N(v) + " and " + N(w); });
        if (v == w) c.require(std::hash<rtp::PayloadType>()(p.unwrap()) == std::hash<rtp::PayloadType>()(q.unwrap()), "payload-hash", "equal payload types hash differently");
    }
    for (bool m : {false, true}) c.require(bool(rtp::MarkerBit(m)) == m, "marker", "marker bit changed");
}
VH_SECTION("rtp-payload-map", "R03") {   // every map over four types
    static const std::vector<unsigned> pts{0, 1, 96, 127};
    auto pt = [](unsigned v) { return rtp::PayloadType::from_uint8(v).unwrap(); };
    auto item = [](unsigned r) { return rtp::PayloadMapItem{rtp::ClockRate(r)}; };
    std::array<unsigned, 4> rate; for (auto& r : rate) r = std::array<unsigned, 3>{0, 8000, 90000}[c.choose(3, "rate")];
    unsigned n = c.choose(5, "entries"), rot = c.choose(4, "first");
    auto P = [&](unsigned i) { return std::make_pair(pt(pts[(rot + i) & 3]), item(rate[(rot + i) & 3])); };
    rtp::PayloadMap m = n == 0 ? rtp::PayloadMap({}) : n == 1 ? rtp::PayloadMap({P(0)}) : n == 2 ? rtp::PayloadMap({P(0), P(1)}) : n == 3 ? rtp::PayloadMap({P(0), P(1), P(2)}) : rtp::PayloadMap({P(0), P(1), P(2), P(3)});
    for (unsigned v = 0; v < 128; ++v) {
        c.step();
        auto r = m.rtp_clock_rate(pt(v));
        bool in = false; unsigned want = 0;
        for (unsigned i = 0; i < n; ++i) if (pts[(rot + i) & 3] == v) { in = true; want = rate[(rot + i) & 3]; }
        c.require(r.is_some() == in && (!in || r.unwrap().count() == want), "payload-map", [&] { return "clock of payload type " + N(v); });
    }
}
VH_SECTION("rtp-layout", "R03") {
    c.choose(1, "once");
    namespace D = rtp::details;
    eqc(c, "RTP_FIXED_HEADER_LEN", D::RTP_FIXED_HEADER_LEN, 12); eqc(c, "RTP_VERSION", D::RTP_VERSION, 2); eqc(c, "RTP_VERSION_MASK", D::RTP_VERSION_MASK, 0xC0); eqc(c, "RTP_VERSION_SHIFT", D::RTP_VERSION_SHIFT, 6);
    eqc(c, "RTP_PADDING_MASK", D::RTP_PADDING_MASK, 0x20); eqc(c, "RTP_EXTENSION_MASK", D::RTP_EXTENSION_MASK, 0x10); eqc(c, "RTP_CC_MASK", D::RTP_CC_MASK, 0x0F); eqc(c, "RTP_MARKER_MASK", D::RTP_MARKER_MASK, 0x80);
    eqc(c, "RTP_PAYLOAD_TYPE_MASK", D::RTP_PAYLOAD_TYPE_MASK, 0x7F); eqc(c, "RTP_SEQUENCE_NUMBER_OFFSET", D::RTP_SEQUENCE_NUMBER_OFFSET, 2); eqc(c, "RTP_TIMESTAMP_OFFSET", D::RTP_TIMESTAMP_OFFSET, 4); eqc(c, "RTP_SSRC_OFFSET", D::RTP_SSRC_OFFSET, 8);
}

// ------------------------------------------------------------------ U06
namespace dyn = util::hash::dynamic;
static int g_made[2];
template<int I> struct TestAlgo : dyn::Algorithm<int> {
    TestAlgo() { ++g_made[I]; }
    std::size_t hash(const int& v) const noexcept override { return I == 0 ? std::size_t(v) * 2654435761u : std::size_t(v) ^ 0x5555aaaau; }
};
static std::size_t ref_hash(int algo, int v) { return algo == 0 ? std::size_t(v) * 2654435761u : std::size_t(v) ^ 0x5555aaaau; }
struct StrAlgo : dyn::Algorithm<std::string> { std::size_t hash(const std::string& s) const noexcept override { return s.size() * 31 + (s.empty() ? 0 : s[0]); } };
using H = dyn::Hash<int>;
template<class T> static bool assign(T& a, const T& b) { if constexpr (std::is_copy_assignable_v<T>) { a = b; return true; } else return false; }
VH_SECTION("dynamic-hash", "U06") {
    // slots hold hash objects; operations create, copy, move, assign (where possible), destroy, call
    const int depth = vh::thorough() ? 6 : 5;
    std::array<std::unique_ptr<H>, 3> slot; std::array<int, 3> algo{-1, -1, -1};
    static const std::vector<int> keys{0, 1, -1, 12345, INT32_MAX, INT32_MIN};
    std::string hist;
    for (int i = 0; i < depth; ++i) {
        unsigned op = c.choose(6, "op"), s = c.choose(3, "slot"), d = c.choose(3, "other");
        hist += " " + N(op) + N(s) + N(d);
        switch (op) {
        case 0: slot[s] = std::make_unique<H>(H::create<dyn::AlgorithmSingleton<int, TestAlgo<0>>>()); algo[s] = 0; break;
        case 1: slot[s] = std::make_unique<H>(H::create<dyn::AlgorithmSingleton<int, TestAlgo<1>>>()); algo[s] = 1; break;
        case 2: if (algo[s] >= 0 && s != d) { slot[d] = std::make_unique<H>(*slot[s]); algo[d] = algo[s]; } break;
        case 3: if (algo[s] >= 0 && s != d) { slot[d] = std::make_unique<H>(std::move(*slot[s])); algo[d] = algo[s]; slot[s].reset(); algo[s] = -1; } break;
        case 4: if (algo[s] >= 0 && algo[d] >= 0 && assign(*slot[d], *slot[s])) algo[d] = algo[s]; break;
        case 5: slot[s].reset(); algo[s] = -1; break;
        }
        c.step();
        for (int k = 0; k < 3; ++k) if (algo[k] >= 0) for (int v : keys)
            c.require((*slot[k])(v) == ref_hash(algo[k], v) && (*slot[k])(v) == ref_hash(algo[k], v), "hash", [&] { return "after" + hist + ": object " + N(k) + " does not hash with its algorithm"; });
        c.require(g_made[0] <= 1 && g_made[1] <= 1, "instances", [&] { return "after" + hist + ": an algorithm was instantiated more than once"; });
        c.visit(vh::mix(vh::mix(algo[0] + 1, algo[1] + 1), algo[2] + 1), depth - i);
    }
    auto& a = dyn::AlgorithmSingleton<int, TestAlgo<0>>::get(); auto& b = dyn::AlgorithmSingleton<int, TestAlgo<0>>::get(); auto& o = dyn::AlgorithmSingleton<int, TestAlgo<1>>::get();
    c.require(&a == &b && &a != &o, "singleton", "algorithm singletons are not one per algorithm");
    auto sh = dyn::Hash<std::string>::create<dyn::AlgorithmSingleton<std::string, StrAlgo>>();
    c.require(sh("abc") == 3 * 31 + 'a' && sh("") == 0, "hash", "string hash");
    std::unordered_map<int, int, H> table(8, H::create<dyn::AlgorithmSingleton<int, TestAlgo<1>>>());
    for (int v : keys) table[v] = v ^ 1;
    for (int v : keys) c.require(table.at(v) == (v ^ 1), "table", "table keyed by a dynamic hash");
    c.sample([&] { return "operations" + hist; });
}
struct TagA {}; struct TagB {};
template<class T> static void tagged(vh::Ctx& c, const std::vector<T>& vals, const char* name) {
    using W = util::TaggedType<T, TagA>;
    const T a = c.pick(vals, "a"), b = c.pick(vals, "b");
    W wa(a), wb{T(b)};
    c.require(wa.value == a && wb.value == b, "value", [&] { return std::string(name) + ": value changed"; });
    c.require((wa == wb) == (a == b) && (wb == wa) == (a == b) && (wa != wb) == (a != b), "equality", [&] { return std::string(name) + ": equality"; });
    W cp(wa); c.require(cp == wa && cp.value == a, "copy", "copy construction");
    W mv(std::move(cp)); c.require(mv.value == a, "move", "move construction");
    cp = wb; c.require(cp.value == b && wb.value == b, "assign", "copy assignment");
    mv = std::move(cp); c.require(mv.value == b, "assign", "move assignment");
    T t = a; c.require(W::copy_from(t).value == a && t == a, "copy_from", "copy_from");
    c.require(W::move_from(std::move(t)).value == a, "move_from", "move_from");
    W w2(wa); w2.value = b; c.require(wa.value == a && (w2 == wb), "independent", "copies share their value");
    c.step(9);
}
VH_SECTION("wrappers", "U06") {
    static const std::vector<std::string> strs{"", "a", "A", "b", std::string("a\0", 2), std::string(15, 'x'), std::string(16, 'x'), std::string(200, 'y'), "\xff"};
    static const std::vector<long> nums{0, 1, -1, 255, 256, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN};
    switch (c.choose(4, "kind")) {
    case 0: tagged<std::string>(c, strs, "string"); break;
    case 1: tagged<long>(c, nums, "number"); break;
    case 2: tagged<std::vector<int>>(c, {{}, {1}, {1, 2}, {2, 1}, std::vector<int>(50, 7)}, "vector"); break;
    case 3: {
        const auto a = c.pick(strs, "a"), b = c.pick(strs, "b");
        precis::OpaqueString x{a}, y{b};
        c.require((x == y) == (a == b), "opaque-equality", "opaque strings compare differently from their texts");
        if (a == b) c.require(precis::OpaqueStringHash()(x) == precis::OpaqueStringHash()(y), "opaque-hash", "equal opaque strings hash differently");
        std::unordered_map<precis::OpaqueString, int, precis::OpaqueStringHash> t; t[x] = 1; t[y] = 2;
        c.require(t.size() == (a == b ? 1u : 2u) && t.at(y) == 2 && t.at(x) == (a == b ? 2 : 1), "opaque-table", "table keyed by opaque strings");
        bool p = c.flag("p"), q = c.flag("q");
        util::TypedBool<TagA> P(p); util::TypedBool<TagB> Q(q); auto R = P;
        c.require(bool(P) == p && bool(Q) == q && bool(R) == p, "typed-bool", "typed flag changed");
        R = util::TypedBool<TagA>(q); c.require(bool(R) == q && bool(P) == p, "typed-bool", "typed flag assignment");
        break; }
    }
}
VH_SECTION("handles", "U06") {
    uint32_t a = c.pick(words(), "a");
    using HH = stun::client_udp::Handle;
    for (uint32_t b : words()) {
        HH x{a}, y{b}; c.step();
        c.require((x == y) == (a == b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x != y) == (a != b), "order", [&] { return "handles " + X(a) + " and " + X(b); });
        if (a == b) c.require(stun::client_udp::HandleHash()(x) == stun::client_udp::HandleHash()(y), "hash", "equal handles hash differently");
    }
    std::unordered_set<HH, stun::client_udp::HandleHash> s; for (uint32_t b : words()) s.insert(HH{b});
    c.require(s.size() == words().size() && s.count(HH{a}) == 1, "table", "set of handles");
}
VH_SECTION("counters", "U06") {
    const int depth = vh::thorough() ? 12 : 9;
    std::array<stat::Counter, 3> k; std::array<unsigned, 3> m{};
    for (int i = 0; i < depth; ++i) {
        unsigned op = c.choose(5, "op");
        if (op < 3) { k[op].inc(); m[op]++; } else if (op == 3) { k[1] = k[0]; m[1] = m[0]; } else { k[2] = stat::Counter(k[1]); m[2] = m[1]; }
        c.step();
        for (int j = 0; j < 3; ++j) c.require(k[j].count() == m[j] && k[j].count() == m[j], "count", [&] { return "counter " + N(j) + " is " + N(k[j].count()) + " after " + N(m[j]) + " increments"; });
        c.visit(vh::mix(vh::mix(m[0], m[1]), m[2]), depth - i);
    }
}
VH_SECTION("long-count", "U06") {
    c.choose(8, "repeat");
    stat::Counter k; const u64 n = vh::thorough() ? (1ull << 32) - 1 : (1ull << 25);
    for (u64 i = 1; i <= n; ++i) { k.inc(); if (k.count() != i) c.fail("count", "counter is " + N(k.count()) + " after " + N(i) + " increments"); }
    c.step(n);
}
VH_SECTION("parse-stat", "U06") {   // every counter starts at zero and is independent of the others
    using S = stun::ParseStat; using C = stat::Counter;
    static C S::* const f[] = {&S::success, &S::error, &S::invalid_size, &S::not_padded, &S::message_length_error, &S::magic_cookie_error, &S::invalid_attr_size, &S::fingerprint_not_last, &S::invalid_fingerprint, &S::invalid_fingerprint_size,
        &S::invalid_message_integrity, &S::invalid_mapped_address, &S::invalid_xor_mapped_address, &S::invalid_ip_address, &S::invalid_priority_size, &S::invalid_ice_controlling_size, &S::invalid_ice_controlled_size, &S::invalid_use_candidate_size,
        &S::invalid_error_code_size, &S::invalid_unknown_attributes_attr_size, &S::unknown_comprehension_required_attr};
    const unsigned n = sizeof f / sizeof *f;
    S s; unsigned a = c.choose(n, "a"), b = c.choose(n, "b"); std::array<unsigned, 32> m{};
    (s.*f[a]).inc(); m[a]++; (s.*f[b]).inc(); m[b]++; S t = s; (s.*f[a]).inc();
    for (unsigned i = 0; i < n; ++i) c.require((t.*f[i]).count() == m[i] && (s.*f[i]).count() == m[i] + (i == a), "stat", "statistics counters are not independent");
    c.step(3);
}
VH_SECTION("overloaded", "U06") {
    using V = std::variant<int, std::string, double, std::monostate>;
    static const std::vector<V> vs{V(0), V(-5), V(std::string("x")), V(std::string()), V(0.5), V(std::monostate{})};
    const V& v = c.pick(vs, "value"); int calls = 0;
    int r = std::visit(util::overloaded{[&](int i) { ++calls; return 100 + i; }, [&](const std::string& s) { ++calls; return 200 + int(s.size()); }, [&](double) { ++calls; return 300; }, [&](std::monostate) { ++calls; return 400; }}, v);
    int want = v.index() == 0 ? 100 + std::get<int>(v) : v.index() == 1 ? 200 + int(std::get<1>(v).size()) : v.index() == 2 ? 300 : 400;
    c.require(r == want && calls == 1, "dispatch", "overload set dispatched to the wrong handler");
    int g = std::visit(util::overloaded{[](int) { return 1; }, [](auto&&) { return 2; }}, v); c.require(g == (v.index() == 0 ? 1 : 2), "dispatch", "generic handler");
    c.step(2);
}

// ------------------------------------------------------------------ U08
static bool r_alpha(unsigned v) { return (v >= 'A' && v <= 'Z') || (v >= 'a' && v <= 'z'); }
static bool r_digit(unsigned v) { return v >= '0' && v <= '9'; }
static unsigned r_low(unsigned v) { return v >= 'A' && v <= 'Z' ? v + 32 : v; }
static bool r_eq(std::string_view a, std::string_view b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (r_low(uint8_t(a[i])) != r_low(uint8_t(b[i]))) return false; return true; }
static std::string show(std::string_view s) { return vh::jesc(s); }
VH_SECTION("characters", "U08") {
    unsigned v = c.choose(256, "character"); char ch = char(v);
    c.step(3);
    c.require(abnf::is_ALPHA(ch) == r_alpha(v), "alpha", [&] { return "is_ALPHA(" + X(v) + ") is " + N(abnf::is_ALPHA(ch)); });
    c.require(abnf::is_DIGIT(ch) == r_digit(v), "digit", [&] { return "is_DIGIT(" + X(v) + ") is " + N(abnf::is_DIGIT(ch)); });
    c.require(ice::abnf::is_ice_char(ch) == (r_alpha(v) || r_digit(v) || v == '+' || v == '/'), "ice-char", [&] { return "is_ice_char(" + X(v) + ") is " + N(ice::abnf::is_ice_char(ch)); });
    for (unsigned w = 0; w < 256; ++w) {
        char d = char(w);
        c.step(3); c.state(v << 8 | w);
        auto one = [&](std::string a, std::string b) {
            // exact-size buffers: reading outside is caught
            std::unique_ptr<char[]> pa(new char[a.size()]), pb(new char[b.size()]); memcpy(pa.get(), a.data(), a.size()); memcpy(pb.get(), b.data(), b.size());
            std::string_view sa(pa.get(), a.size()), sb(pb.get(), b.size());
            bool g = abnf::eq_string(sa, sb);
            c.require(g == r_eq(a, b), "eq", [&] { return "eq_string(" + show(a) + ", " + show(b) + ") is " + N(g); });
            c.require(abnf::eq_string(sb, sa) == g, "symmetric", [&] { return show(a) + " and " + show(b) + " not symmetric"; });
            c.require(memcmp(pa.get(), a.data(), a.size()) == 0 && memcmp(pb.get(), b.data(), b.size()) == 0, "mutated", "eq_string changed its operand");
            c.outcome(g);
        };
        one({ch}, {d}); one({'x', ch}, {'X', d}); one({ch, 'q'}, {d, 'Q'}); one({'a', ch, 'b', '1'}, {'A', d, 'B', '1'});
    }
}
VH_SECTION("strings", "U08") {
    static const std::string al("aAzZ@[`{09\0\x80\xc1\xe1kK \xff", 18);
    const unsigned L = vh::thorough() ? 3 : 2;
    auto word = [&](const char* n) { std::string s; unsigned k = c.choose(L + 1, n); for (unsigned i = 0; i < k; ++i) s += al[c.choose(al.size(), n)]; return s; };
    std::string a = word("a");
    // inner loop over all b of length <= L
    std::vector<std::string> all{""};
    for (size_t i = 0; i < all.size(); ++i) if (all[i].size() < L) for (char ch : al) all.push_back(all[i] + ch);
    std::unique_ptr<char[]> pa(new char[a.size()]); memcpy(pa.get(), a.data(), a.size());
    for (auto& b : all) {
        std::unique_ptr<char[]> pb(new char[b.size()]); memcpy(pb.get(), b.data(), b.size());
        bool g = abnf::eq_string({pa.get(), a.size()}, {pb.get(), b.size()}); c.step();
        c.require(g == r_eq(a, b), "eq", [&] { return "eq_string(" + show(a) + ", " + show(b) + ") is " + N(g); });
    }
    c.sample([&] { return show(a) + " against " + N(all.size()) + " strings"; });
}
VH_SECTION("long-strings", "U08") {   // difference at every position of texts of every length
    unsigned n = c.choose(65, "length");
    std::string a; for (unsigned i = 0; i < n; ++i) a += char("AbCz09-"[i % 7]);
    std::string up, lo; for (char ch : a) { up += char(r_alpha(ch) && ch >= 'a' ? ch - 32 : ch); lo += char(r_low(uint8_t(ch))); }
    c.require(abnf::eq_string(a, up) && abnf::eq_string(up, lo) && abnf::eq_string(lo, a) && abnf::eq_string(a, a), "eq", "texts differing in case only");
    c.require(!abnf::eq_string(a, a + "x") && !abnf::eq_string(a + "x", a) && !abnf::eq_string(a, a + std::string(1, '\0')) && (n == 0 || !abnf::eq_string(a, std::string_view(a).substr(1))), "eq", "texts of different length");
    for (unsigned i = 0; i < n; ++i) for (char ch : {'\0', '@', '[', '`', '{', '~', '\x80'}) { std::string b = a; b[i] = ch; c.step(); c.require(!abnf::eq_string(a, b) && !abnf::eq_string(b, a), "eq", [&] { return "difference at " + N(i) + " of " + N(n) + " not noticed"; }); }
}
