U = 'using namespace freewebrtc;'
TP = 'src/clock/clock_timepoint.hpp'; CK = 'src/clock/clock_std.hpp'
S('u03-after-boundary', 'U03', TP, [("    return other.m_value.count() - m_value.count() > std::numeric_limits<Base>::max() / 2;", "    return other.m_value.count() - m_value.count() >= std::numeric_limits<Base>::max() / 2;")],
'two timepoints exactly 2^63-1 microseconds apart', 'Both timepoints are after each other.',
'#include "clock/clock_timepoint.hpp"\n' + U + PRE + 'auto a = clock::Timepoint::epoch(); auto b = a.advance(std::chrono::microseconds(INT64_MAX)); CHECK(b.is_after(a)); CHECK(!a.is_after(b)); CHECK(a.is_before(b)); CHECK(!b.is_before(a));' + END)
S('u03-advance-milli', 'U03', TP, [("    auto advance = std::chrono::duration_cast<UnderlyingDuration>(duration);", "    auto advance = duration < ChronoDuration::zero()\n        ? std::chrono::duration_cast<UnderlyingDuration>(std::chrono::duration_cast<std::chrono::milliseconds>(duration))\n        : std::chrono::duration_cast<UnderlyingDuration>(duration);")],
'going back in time by a number of microseconds that is no multiple of 1000', 'Going forth and back does not lead to the same timepoint.',
'#include "clock/clock_timepoint.hpp"\n' + U + PRE + 'using us = std::chrono::microseconds; auto a = clock::Timepoint::epoch().advance(us(5000)); CHECK(a.advance(us(1234)).advance(us(-1234)) == a); CHECK(a.advance(us(2000)).advance(us(-2000)) == a);' + END)
S('u04-remainder-lost', 'U04', CK, [("    m_reminder += (now - m_prev);", "    m_reminder = now - m_prev + m_reminder % (m_prev.time_since_epoch().count() % 2 ? ChronoDuration{1} : ChronoDuration{1000});")],
'a clock finer than microseconds and an odd earlier reading', 'Fractions of a microsecond are lost, so time falls behind.',
'#include "clock/clock_std.hpp"\n' + U + 'struct C { using duration = std::chrono::nanoseconds; using rep = long; using period = std::nano; using time_point = std::chrono::time_point<C>; static inline long v = 0; static time_point now() { return time_point(duration(v)); } };\n' + PRE + 'clock::ChronoClockConverter<C> c; auto a = c.now(); for (int i = 0; i < 3000; ++i) { C::v += 333; c.now(); } EQ((c.now() - a).count(), 999);' + END)
S('u04-shared-steady', 'U04', CK, [("    static thread_local ChronoClockConverter<std::chrono::steady_clock> converter;\n    return converter.now();", "    static ChronoClockConverter<std::chrono::steady_clock> converter;\n    return converter.now();")],
'two threads that read the clock at the same time', 'The converter is changed by several threads without synchronisation, so time jumps.',
'#include "clock/clock_std.hpp"\n' + U + PRE + r'''
auto one = clock::steady_clock_now(); std::vector<std::thread> ts; int64_t worst[4] = {}; for (int k = 0; k < 4; ++k) ts.emplace_back([&, k] { for (int i = 0; i < 300000; ++i) { clock::steady_clock_now(); } });
for (auto& t : ts) t.join(); auto z = clock::steady_clock_now(); int64_t lib = z.is_after(one) ? (z - one).count() : -1; CHECK(lib >= 0 && lib < 300000000);''' + END, NONE, (), '-fsanitize=thread')
S('u05-thread-category', 'U05', 'src/stun/stun_error.cpp', [("    static const ClientErrorCategory cat;", "    static thread_local const ClientErrorCategory cat;")],
'an error code made in one thread and compared in another', 'The same error does not compare equal to itself across threads.',
'#include "stun/stun_error.hpp"\n' + U + PRE + 'std::error_code a = stun::make_error_code(stun::ClientError::digest_is_not_valid), b; std::thread([&] { b = stun::make_error_code(stun::ClientError::digest_is_not_valid); CHECK(a == b); }).join();' + END, 'stun/stun_error.cpp')
S('u05-same-message', 'U05', 'src/stun/stun_error.cpp', [('return "bad response: no error code attribute in response";', 'return "bad response: no address in response";')],
'the message of no_error_code_in_response', 'Two different errors describe themselves alike.',
'#include "stun/stun_error.hpp"\n' + U + PRE + 'CHECK(stun::make_error_code(stun::ClientError::no_error_code_in_response).message() != stun::make_error_code(stun::ClientError::no_address_in_response).message());' + END, 'stun/stun_error.cpp')
S('u05-range', 'U05', 'src/rtp/rtp_error.cpp', [("        switch ((Error)code) {", "        switch ((Error)(code & 0xFF)) {")],
'an error value above 255 in the RTP category', 'Unknown values are described as known errors.',
'#include "rtp/rtp_error.hpp"\n' + U + PRE + 'std::error_code a = rtp::make_error_code(rtp::Error::packet_is_too_short); CHECK(a.category().message(a.value()) != a.category().message(a.value() + 256));' + END, 'rtp/rtp_error.cpp')
IL = 'src/util/util_intrusive_list.hpp'
LIST = '#include "util/util_intrusive_list.hpp"\n' + U + r'''
struct N { int v; util::IntrusiveList<N>::Link link{*this}; explicit N(int x) : v(x) {} }; using L = util::IntrusiveList<N>;
std::vector<int> all(L& l) { std::vector<int> r; for (int i = 0; i < 20 && !l.empty(); ++i) { r.push_back(l.front().unwrap().get().v); l.pop_front(); } return r; }
''' + PRE
S('u01-move-empty', 'U01', IL, [("    m_link_member = other.m_link_member;\n    if (other.empty()) {\n        return *this;\n    }\n    do_move(other);", "    m_link_member = other.m_link_member;\n    if (&other.m_head.m_next.unwrap().get() == other.m_tail.m_prev.fmap([](auto&& p) { return &p.get(); }).value_or(nullptr)) {\n        push_back(other.m_head.m_next.unwrap().get().get());\n        return *this;\n    }\n    if (other.empty()) {\n        return *this;\n    }\n    m_tail.m_prev = none();\n    do_move(other);\n    m_head.m_prev = other.m_head.m_prev;")] if False else [("    other.m_head.m_next = none();\n    other.m_tail.m_prev = none();\n    other.m_tail.place_after(other.m_head);", "    other.m_head.m_next = LinkRef{other.m_tail};")],
'using a list again (from its back end) after it has been moved from', 'The moved-from list still refers to the items of the other list at its end.',
LIST + r'''N a(1), b(2), c(3); L x(&N::link); x.push_back(a); x.push_back(b); L y(std::move(x)); CHECK(x.empty()); CHECK(x.back().is_none()); x.push_back(c); CHECK(all(y) == (std::vector<int>{1, 2})); CHECK(all(x) == std::vector<int>{3});''' + END)
S('u01-reinsert-neighbour', 'U01', IL, [("template<typename T>\nvoid IntrusiveList<T>::Link::place_before(Link& t) noexcept {\n    remove();\n    m_next = LinkRef{t};\n    m_prev = t.m_prev;", "template<typename T>\nvoid IntrusiveList<T>::Link::place_before(Link& t) noexcept {\n    const auto prev = t.m_prev;\n    remove();\n    m_next = LinkRef{t};\n    m_prev = prev;")],
'push_back of the item that already is the last one', 'The item becomes its own neighbour, so the list no longer ends.',
LIST + r'''N a(1), b(2); L x(&N::link); x.push_back(a); x.push_back(b); x.push_back(b); CHECK(all(x) == (std::vector<int>{1, 2}));''' + END)
S('u02-optional-end', 'U02', 'src/util/util_token_stream.hpp', [("    return required_bind([&](const std::string_view& v) {\n        if (v == expected) {\n            return success();\n        }", "    return required_bind([&](const std::string_view& v) {\n        if (v == expected || (v.size() > expected.size() && v.starts_with(expected) && v[expected.size()] == '\\0')) {\n            return success();\n        }")],
'a token that continues with a NUL byte after the expected text', 'Another token than the expected one is accepted.',
'#include "util/util_token_stream.hpp"\n' + U + PRE + 'using SV = std::string_view; util::TokenStream s(std::vector<SV>{SV("typ\\0x", 5), SV("typ")}); CHECK(s.required("typ").is_err()); CHECK(s.required("typ").is_ok());' + END, 'util')
S('u06-murmur-tail', 'N04', 'src/util/util_hash_murmur.cpp', [("  switch (view.size() & 7) {\n", "  switch (view.size() > 8 ? std::min<size_t>(view.size(), view.capacity_hint()) & 7 : view.size() & 7) {\n")] if False else [("  const uint64_t *end = data + view.size() / sizeof(*data);", "  const uint64_t *end = data + (view.size() + 1) / sizeof(*data);")],
'hashing a value of 7, 15, 23, ... bytes', 'The hash reads one byte beyond the value, so equal values hash differently.',
'#include "util/util_hash_murmur.hpp"\n' + U + PRE + 'uint8_t a[24] = {1,2,3,4,5,6,7,8,9}, b[24] = {1,2,3,4,5,6,7,8,9}; for (int n = 0; n < 23; ++n) { std::memset(a, 7, n); std::memset(b, 7, n); a[n] = 1; b[n] = 2; EQ(util::hash::murmur(util::ConstBinaryView(a, n), 5), util::hash::murmur(util::ConstBinaryView(b, n), 5)); }' + END, 'util/util_hash_murmur.cpp')
S('u07-static-scratch', 'U07', 'src/stun/stun_attribute_set.cpp', [("    std::vector<uint32_t> attr_headers(num_attrs);\n", "    static std::vector<uint32_t> attr_headers;\n    attr_headers.assign(num_attrs, 0);\n")],
'two threads that build messages at the same time', 'Messages built by one instance depend on what another does at the same time.',
RUN + PRE + r'''auto work = [](int n) { Msg m; m.tid = Bytes(12, uint8_t(n)); for (int i = 0; i < 3 * n; ++i) m.unknown.push_back({uint16_t(0x8100 + i), Bytes(i % 5, uint8_t(i))}); for (int i = 0; i < 3000; ++i) { auto b = lib::message(m, true).build(none()).unwrap(); auto p = parse(Bytes(b.begin(), b.end())); if (!p.ok || p.m.unknown != m.unknown) { bad = 1; return; } } };
std::thread a(work, 1), b(work, 4); a.join(); b.join(); CHECK(!bad);''' + END, STUN, LIB, '-fsanitize=thread')
S('u08-last-letter', 'U08', 'src/abnf/abnf.hpp', [("    for (std::string_view::size_type i = 0; i < v1.size(); ++i) {", "    for (std::string_view::size_type i = 0; i + v1.size() / 7 < v1.size(); ++i) {")],
'texts of seven letters or more', 'The last letters are not compared.',
'#include "abnf/abnf.hpp"\n' + U + PRE + 'for (size_t n = 1; n < 40; ++n) for (size_t i = 0; i < n; ++i) { std::string a(n, 0x61), b(n, 0x41); CHECK(abnf::eq_string(a, b)); b[i] = 0x42; CHECK(!abnf::eq_string(a, b)); }' + END)
S('u09-trailing-separator', 'U09', 'src/util/util_string_view.hpp', [("    if (auto pos = sv.find(sep); pos != std::string_view::npos) {", "    if (auto pos = sv.find(sep); pos != std::string_view::npos && pos + 1 < sv.size()) {")],
'a text that ends with the separator', 'The separator remains part of the last piece.',
'#include "util/util_string_view.hpp"\n' + U + PRE + 'auto v = util::string_view::split_all("a b ", \' \'); CHECK(v.size() >= 2 && v[1] == "b"); CHECK(util::string_view::split("a:", \':\').is_some());' + END)
RP = 'src/rtp/rtp_packet.cpp'
RT = '#include "rtp/rtp_packet.hpp"\n#include "rtp/rtp_payload_map.hpp"\n#include "rtp/rtp_error.hpp"\n' + U + PRE + 'rtp::PayloadMap pm({{rtp::PayloadType::from_uint8(96).unwrap(), rtp::PayloadMapItem{rtp::ClockRate(90000)}}}); rtp::ParseStat st; auto P = [&](std::vector<uint8_t> v) { std::unique_ptr<uint8_t[]> p(new uint8_t[v.size()]); memcpy(p.get(), v.data(), v.size()); return rtp::Packet::parse(util::ConstBinaryView(p.get(), v.size()), pm, st); }; auto hdr = [](uint8_t b0) { std::vector<uint8_t> v{b0, 96, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3}; return v; };\n'
S('r01-padding-covers-all', 'R01', RP, [("                if (padding_size == 0 || padding_size > payload_with_padding_size) {", "                if (padding_size == 0 || padding_size >= payload_with_padding_size) {")] if False else [("        if (payload_with_padding_size == 0) {", "        if (payload_with_padding_size <= 1) {")],
'a packet whose payload is a single padding byte', 'A well-formed packet is rejected.',
RT + 'auto v = hdr(0xA0); v.push_back(1); CHECK(P(v).is_ok());' + END, RTP)
S('r01-csrc-limit', 'R01', RP, [("    const unsigned num_cc = (first_byte & RTP_CC_MASK);", "    const unsigned num_cc = (first_byte & (RTP_CC_MASK >> (has_extension && has_padding ? 1 : 0)));")],
'a packet with padding, extension and eight or more contributing sources', 'Half of the sources are taken as the extension.',
RT + 'auto v = hdr(0xB8); for (int i = 0; i < 8; ++i) { v.push_back(0); v.push_back(0); v.push_back(0); v.push_back(uint8_t(i)); } for (uint8_t x : {1, 2, 0, 0, 7, 1}) v.push_back(x); auto r = P(v); CHECK(r.is_ok()); if (r.is_ok()) EQ(r.unwrap().header.csrcs.size(), 8u);' + END, RTP)
S('r02-extension-bytes', 'R02', RP, [("                ext_size = (ext_length + 1) * sizeof(uint32_t);", "                ext_size = uint16_t((ext_length + 1) * sizeof(uint32_t));")],
'an extension of 16383 words or more', 'The size of the extension wraps round, so payload and extension overlap.',
RT + 'auto v = hdr(0x90); for (uint8_t x : {1, 2, 0x40, 0}) v.push_back(x); v.resize(12 + 4 + 0x4000 * 4 + 5); auto r = P(v); CHECK(r.is_ok()); if (r.is_ok()) EQ(r.unwrap().payload.count, 5u);' + END, RTP)
S('r03-payload-hash', 'R03', 'src/rtp/rtp_payload_type.hpp', [("    if (pt <= 127) {", "    if (pt < 127) {")],
'payload type 127', 'The highest payload type is not accepted.',
'#include "rtp/rtp_payload_type.hpp"\n' + U + PRE + 'for (int i = 0; i < 256; ++i) EQ(rtp::PayloadType::from_uint8(uint8_t(i)).is_some(), i < 128);' + END)
NF = 'src/net/net_fqdn.cpp'
S('n01-v4-mapped', 'N01', 'src/net/ip/ip_address.cpp', [("        return AddressType::from_view(util::ConstBinaryView(&ip_addr, sizeof(ip_addr)));", "        if (copy.find('%') != std::string::npos || copy.front() == ' ') {\n            return make_error_code(Error::ip_address_parse_error);\n        }\n        if (copy.size() >= 2 && copy.compare(copy.size() - 2, 2, \"::\") == 0 && copy.size() > 30) {\n            return make_error_code(Error::ip_address_parse_error);\n        }\n        return AddressType::from_view(util::ConstBinaryView(&ip_addr, sizeof(ip_addr)));")],
'a long IPv6 text that ends with "::", such as one with seven written groups', 'A valid address text is rejected.',
'#include "net/ip/ip_address.hpp"\n' + U + PRE + 'CHECK(net::ip::Address::from_string("1111:2222:3333:4444:5555:6666:7777::").is_ok()); CHECK(net::ip::Address::from_string("1::").is_ok());' + END, NET)
S('n02-label-digits', 'N02', NF, [("        } else if (c != '-') {\n            break;\n        }", "        } else if (c != '-' || last_let_dig + 2 < pos) {\n            break;\n        }")],
'a label with three or more hyphens in a row, such as punycode-like names', 'A valid name is rejected.',
'#include "net/net_fqdn.hpp"\n' + U + PRE + 'for (auto s : {"a-b", "a--b", "a---b", "a----b.c"}) CHECK(net::Fqdn::from_string(s).is_ok());' + END, NET)
S('n03-leading-zero', 'N03', 'src/net/net_port.cpp', [("    if (v.empty() || v.size() > 5) { // 16 bit 65536", "    if (v.empty() || v.size() > 5 || (v.size() > 4 && v.front() == '0')) { // 16 bit 65536")],
'a five-digit port with a leading zero, for instance 00080', 'A valid port text is rejected.',
'#include "net/net_port.hpp"\n' + U + PRE + 'CHECK(net::Port::from_string("00080").is_ok()); CHECK(net::Port::from_string("0080").is_ok());' + END, NET)
S('n04-path-source', 'N04', 'src/net/net_path.hpp', [("    bool operator==(const Path&) const noexcept = default;", "    bool operator==(const Path& other) const noexcept {\n        return target == other.target\n            && source.view().size() == other.source.view().size()\n            && (source == other.source || source.view().size() == 16);\n    }")],
'two paths to one IPv6 target from different sources', 'Different paths compare equal, so they share one round-trip history.',
'#include "net/net_path.hpp"\n' + U + PRE + 'auto A = [](const char* s) { return net::ip::Address::from_string(s).unwrap(); }; net::Path a{A("::1"), A("::2")}, b{A("::3"), A("::2")}; CHECK(!(a == b)); CHECK(a == a);' + END, NET)
SD = 'src/ice/candidate/ice_candidate_sdp.cpp'
IC = '#include "ice/candidate/ice_candidate_sdp.hpp"\n' + U + 'using namespace ice::candidate;' + PRE
S('i01-extension-value', 'I01', SD, [("            if (maybe_err.is_err()) {\n                return maybe_err.unwrap_err();\n            }", "            if (maybe_err.is_err() && extensions.empty()) {\n                return maybe_err.unwrap_err();\n            }")],
'a second or later extension attribute without a value at the end', 'A line that is not well-formed is accepted.',
IC + 'CHECK(parse_sdp_attr("candidate:1 1 udp 1 1.1.1.1 9 typ host a").is_err()); CHECK(parse_sdp_attr("candidate:1 1 udp 1 1.1.1.1 9 typ host a b c").is_err());' + END, ICE)
S('i02-foundation-slash', 'I02', 'src/ice/candidate/ice_candidate_foundation.cpp', [("    for (auto c: v) {\n        if (!ice::abnf::is_ice_char(c)) {", "    for (auto it = v.begin(); it != v.end(); ++it) {\n        if (!ice::abnf::is_ice_char(*it) && !(*it == '=' && it + 1 == v.end())) {")],
'a foundation that ends with "=" (base64 with padding)', 'A foundation outside the grammar is accepted.',
'#include "ice/candidate/ice_candidate_foundation.hpp"\n' + U + 'using namespace ice::candidate;' + PRE + 'CHECK(Foundation::from_string("ab=").is_err()); CHECK(Foundation::from_string("ab+/").is_ok());' + END, ICE)
S('i03-recommended-component', 'I03', 'src/ice/candidate/ice_candidate_preference.cpp', [("    return ComponentPreference(256 - id.value());", "    return ComponentPreference((256 - id.value()) & 0xFE | 1);")],
'component id 2 (RTCP) or any other even one', 'Components share a recommended preference, so priorities are not distinct.',
'#include "ice/candidate/ice_candidate_preference.hpp"\n' + U + 'using namespace ice::candidate;' + PRE + 'for (unsigned c = 1; c < 256; ++c) EQ(ComponentPreference::recommended_for(ComponentId::from_unsigned(c).unwrap()).value(), 256 - c);' + END, ICE)
