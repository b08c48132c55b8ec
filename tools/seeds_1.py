LIB = ('stunlib.hpp',); RUN = 'using namespace freewebrtc; using ref::Bytes; using namespace ref;\n'
PRE = 'int main() {\n'; END = '\nreturn bad; }'
SM = 'src/stun/stun_message.cpp'; SA = 'src/stun/stun_attribute.cpp'; SS = 'src/stun/stun_attribute_set.cpp'; SX = 'src/stun/stun_address.cpp'; SV = 'src/stun/stun_server_stateless.cpp'
PARSE = 'Bytes tid{1,2,3,4,5,6,7,8,9,10,11,12}; stun::ParseStat st; auto P = [&](const Enc& e) { lib::Exact x(e.b); return stun::Message::parse(x.view(), st); };\n'
S('s01-success-counted-early', 'S01', SM, [
("            // check fingerprint if among attributes\n", "            // check fingerprint if among attributes\n            stat.success.inc();\n"),
("        .fmap([&](auto&&) {\n            stat.success.inc();\n            return Message {", "        .fmap([&](auto&&) {\n            return Message {")],
'a message that is well-formed except for a wrong FINGERPRINT value',
'The message is counted both as parsed and as an error, so one datagram is counted twice.',
RUN + PRE + PARSE + 'Enc e(1, tid); e.fp(1); CHECK(P(e).is_err()); EQ(st.error.count(), 1u); EQ(st.success.count(), 0u); Enc g(1, tid); g.fp(); CHECK(P(g).is_ok()); EQ(st.success.count(), 1u);' + END, STUN, LIB)
S('s01-unknown-list-odd-read', 'S01', SA, [
("    if (vv.size() % 2 != 0) {\n        stat.error.inc();\n        stat.invalid_unknown_attributes_attr_size.inc();\n        return make_error_code(ParseError::unknown_attributes_attribute_size);\n    }\n    unsigned num = vv.size() / 2;",
 "    if (vv.size() % 2 != 0 && vv.size() < sizeof(uint32_t)) {\n        stat.error.inc();\n        stat.invalid_unknown_attributes_attr_size.inc();\n        return make_error_code(ParseError::unknown_attributes_attribute_size);\n    }\n    unsigned num = (vv.size() + 1) / 2;")],
'an UNKNOWN-ATTRIBUTES attribute of odd length five or more',
'The last element is read one byte beyond the attribute value, so the decoded list depends on padding bytes.',
RUN + PRE + PARSE + 'Enc e(0x0111, tid); e.attr(0x000a, {0, 1, 0, 2, 0}, 0x77); CHECK(P(e).is_err()); Enc g(0x0111, tid); g.attr(0x000a, {0, 1, 0, 2}); CHECK(P(g).is_ok());' + END, STUN, LIB)
S('s02-second-integrity', 'S02', SM, [
("            if (!maybe_integrity_interval.is_some()) {\n                raw_attrs.emplace_back(raw_attr);\n                maybe_integrity_interval =", "            raw_attrs.emplace_back(raw_attr);\n            if (!maybe_integrity_interval.is_some()) {\n                maybe_integrity_interval =")],
'a message with a second MESSAGE-INTEGRITY attribute, of a wrong size, after the first',
'Attributes after MESSAGE-INTEGRITY must be ignored; the second one is parsed and makes the message rejected.',
RUN + PRE + PARSE + 'Enc e(1, tid); e.mi(lib::key("k")).attr(8, {1, 2, 3, 4}); CHECK(P(e).is_ok());' + END, STUN, LIB)
S('s02-optional-after-integrity', 'S02', SM, [
("        default:\n            if (!maybe_integrity_interval.is_some()) {", "        default:\n            if (!maybe_integrity_interval.is_some() || !AttributeType::from_uint16(raw_attr.type()).is_comprehension_required()) {")],
'an optional attribute such as SOFTWARE that follows MESSAGE-INTEGRITY',
'Unsigned attributes placed after the integrity attribute are taken as part of the message.',
RUN + PRE + PARSE + 'Enc e(1, tid); e.mi(lib::key("k")).str(0x8022, "evil"); auto r = P(e); CHECK(r.is_ok()); if (r.is_ok()) CHECK(r.unwrap().attribute_set.software().is_none());' + END, STUN, LIB)
S('s02-classic-indication', 'S02', SM, [
("const IsRFC3489 is_rfc3489{cls.value() == Class::REQUEST && magic_cookie", "const IsRFC3489 is_rfc3489{cls.value() <= Class::INDICATION && magic_cookie")],
'an indication without the magic cookie',
'Only requests may come from classic (RFC 3489) clients; an indication without the cookie must be rejected.',
RUN + PRE + PARSE + 'Bytes t16(16, 9); Enc e(0x0011, t16, false); e.len(); CHECK(P(e).is_err()); Enc g(0x0001, t16, false); g.len(); CHECK(P(g).is_ok());' + END, STUN, LIB)
S('s03-header-words', 'S03', SS, [
("    std::vector<uint32_t> attr_headers(num_attrs);\n", "    std::vector<uint32_t> attr_headers(num_attrs - m_unknown.size() / 3);\n")],
'a message with three or more attributes of unknown type',
'The buffer of attribute headers is too small, so building writes beyond it and loses an attribute header.',
RUN + PRE + r'''
Msg m; m.tid = Bytes(12, 3); for (int i = 0; i < 4; ++i) m.unknown.push_back({uint16_t(0x8100 + i), Bytes(i, uint8_t(i))});
auto r = lib::message(m, true).build(none()); CHECK(r.is_ok()); stun::ParseStat st; auto b = r.unwrap(); CHECK(stun::Message::parse(util::ConstBinaryView(b), st).is_ok());''' + END, STUN, LIB, '-fsanitize=address')
S('s03-two-numbers', 'S03', SS, [
("                    ice_controlled = util::host_to_network_u64(a.tiebreaker);\n                    add_attr(type, util::ConstBinaryView(&ice_controlled, sizeof(ice_controlled)));",
 "                    ice_controlling = util::host_to_network_u64(a.tiebreaker);\n                    add_attr(type, util::ConstBinaryView(&ice_controlling, sizeof(ice_controlling)));"),
("    uint64_t ice_controlled = 0;\n", "")],
'a message that carries both ICE-CONTROLLING and ICE-CONTROLLED with different tie-breakers',
'Both attributes are written from one variable, so the message built says the same value twice.',
RUN + PRE + r'''
Msg m; m.tid = Bytes(12, 3); m.controlling = 0x0102030405060708ull; m.controlled = 0x1112131415161718ull;
auto b = lib::message(m, true).build(none()).unwrap(); auto p = parse(Bytes(b.begin(), b.end())); CHECK(p.ok); EQ(*p.m.controlling, *m.controlling); EQ(*p.m.controlled, *m.controlled);''' + END, STUN, LIB)
S('s04-classic-skips-fingerprint', 'S04', SM, [("            if (!fingerprint_is_valid) {", "            if (!fingerprint_is_valid && !is_rfc3489) {")],
'a classic (RFC 3489) request with a damaged FINGERPRINT',
'Corruption of the message is not detected although it carries a fingerprint.',
RUN + PRE + PARSE + 'Bytes t16(16, 9); Enc e(1, t16, false); e.fp(1); CHECK(P(e).is_err()); Enc g(1, t16, false); g.fp(); CHECK(P(g).is_ok());' + END, STUN, LIB)
S('s04-compares-half', 'S04', SM, [("return crc32(v) == fp;", "return uint16_t(crc32(v) ^ fp) == 0;")],
'damage that leaves the low half of the CRC as it was: an error in the two high bytes of the fingerprint',
'A corrupted fingerprint is accepted.',
RUN + PRE + PARSE + 'for (int i = 0; i < 32; ++i) { Enc e(1, tid); e.fp(1u << i); CHECK(P(e).is_err()); }' + END, STUN, LIB)
S('s05-length-high-byte', 'S05', SM, [("uint8_t((d.integrity_message_len >> 8) & 0xFF),", "data.data()[2],")],
'a signed message with FINGERPRINT whose length crosses a multiple of 256 between the two attributes',
'The integrity of a correctly signed message is reported as wrong.',
RUN + PRE + PARSE + 'for (size_t n = 180; n < 260; n += 4) { Enc e(1, tid); e.str(0x8022, std::string(n, 97)).mi(lib::key("k")).fp(); auto r = P(e); CHECK(r.is_ok()); auto v = r.unwrap().is_valid(lib::view(e.b), lib::integrity("k").unwrap()); CHECK(v.is_ok() && v.unwrap().is_some() && v.unwrap().unwrap()); }' + END, STUN, LIB)
S('s05-truncated-compare', 'S05', SM, [("return MaybeBool{digest.value == d.digest.get().value};", "const auto lhs = digest.value.view();\n                    const auto rhs = d.digest.get().value.view();\n                    return MaybeBool{std::equal(lhs.begin() + 4, lhs.end(), rhs.begin() + 4)};")],
'a signature of which only the first four bytes are wrong', 'A forged message integrity value is accepted.',
RUN + PRE + PARSE + 'for (int i = 0; i < 20; ++i) { Enc e(1, tid); e.mi(lib::key("k")); e.b[24 + i] ^= 1; auto r = P(e); CHECK(r.is_ok()); auto v = r.unwrap().is_valid(lib::view(e.b), lib::integrity("k").unwrap()); CHECK(v.is_ok() && !v.unwrap().unwrap()); }' + END, STUN, LIB)
S('s06-tid-overrun', 'S06', SX, [("                for (size_t i = 0; i < tidv.size() && i < vv.size() - 4; ++i) {\n                    vv[i + 4]", "                for (size_t i = 0; i < tidv.size(); ++i) {\n                    vv[i + 4]")],
'decoding an IPv6 XOR address with the 16-byte transaction id of a classic (RFC 3489) message',
'The exclusive-or runs beyond the 16-byte address and writes outside it.',
RUN + PRE + r'''Bytes t16(16, 0x5a); Addr a{true, Bytes(16, 7), 1}; auto t = lib::tid(t16); auto x = stun::XoredAddress::from_address(lib::addr(a), t); CHECK(x.to_address(t) == lib::addr(a));''' + END, STUN, LIB, '-fsanitize=address')
S('s07-method-high', 'S07', 'src/stun/stun_method.hpp', [("        | ((m_value >> 7) << 9);", "        | (((m_value >> 7) & 0x7) << 9);")],
'a STUN method of 0x400 or more', 'The two highest method bits are lost when a message type is written.',
'#include "stun/stun_method.hpp"\nusing namespace freewebrtc::stun;' + PRE + 'for (unsigned t = 0; t < 0x4000; ++t) { unsigned m = t & ~0x110u; EQ(unsigned(Method::from_msg_type(uint16_t(m)).to_msg_type()), m); }' + END)
S('s07-class-bit', 'S07', 'src/stun/stun_class.hpp', [("    const auto c1 = (v >> 8) & 1;", "    const auto c1 = (v >> 8) & (c0 | (((v >> 9) & 1) ^ 1));")],
'a success response of a method with bit 7 set (0x080 or more)', 'The class read from such a message type is wrong.',
'#include "stun/stun_class.hpp"\nusing namespace freewebrtc::stun;' + PRE + 'for (unsigned t = 0; t < 0x4000; ++t) { unsigned c = (t >> 4 & 1) | (t >> 8 & 1) << 1; EQ(unsigned(Class::from_msg_type(uint16_t(t)).value()), c); }' + END)
S('s08-required-boundary', 'S08', 'src/stun/stun_attribute_type.hpp', [("return m_value <= 0x7FFF;", "return m_value - 1u < 0x7FFF;")],
'attribute type 0x0000', 'The first comprehension-required type is taken as optional.',
'#include "stun/stun_attribute_type.hpp"\nusing namespace freewebrtc::stun;' + PRE + 'for (unsigned t = 0; t < 0x10000; ++t) EQ(AttributeType::from_uint16(uint16_t(t)).is_comprehension_required(), t < 0x8000);' + END)
S('v01-known-method-first', 'V01', SV, [
("    const auto unknown_comprehension_required = msg.attribute_set.unknown_comprehension_required();\n    if (!unknown", "    const auto unknown_comprehension_required = msg.attribute_set.unknown_comprehension_required();\n    if (msg.header.method == Method::binding() && !unknown")],
'a request of a method other than Binding that has an unknown comprehension-required attribute', 'The request is ignored instead of answered with 420.',
RUN + PRE + r'''stun::server::Stateless s(crypto::openssl::sha1, none()); Bytes t(12, 1); Enc e(msg_type(0, 3), t); e.attr(0x7001, {1}).fp();
net::Endpoint ep(net::UdpEndpoint{lib::addr(Addr{false, {1, 2, 3, 4}}), lib::port(5)}); auto r = s.process(ep, lib::view(e.b)); CHECK(std::get_if<stun::server::Stateless::Respond>(&r));''' + END, STUN, LIB + ('stun/stun_server_stateless.hpp',))
S('v02-classic-error-flag', 'V02', SV, [("        std::move(attrset),\n        msg.is_rfc3489,", "        std::move(attrset),\n        IsRFC3489{false},")],
'an error answer to a classic (RFC 3489) request', 'The response message says it is not a classic one although its transaction id is.',
RUN + PRE + r'''stun::server::Stateless s(crypto::openssl::sha1, none()); Bytes t(16, 1); Enc e(1, t, false); e.attr(0x7001, {1});
net::Endpoint ep(net::UdpEndpoint{lib::addr(Addr{false, {1, 2, 3, 4}}), lib::port(5)}); auto r = s.process(ep, lib::view(e.b)); auto* p = std::get_if<stun::server::Stateless::Respond>(&r); CHECK(p); if (p) CHECK(bool(p->response.is_rfc3489));''' + END, STUN, LIB + ('stun/stun_server_stateless.hpp',))
S('k01-digest-empty-part', 'K01', 'src/crypto/openssl/openssl_hash.cpp', [("    ERR_clear_error();\n    if (EVP_DigestUpdate(", "    ERR_clear_error();\n    static thread_local const uint8_t separator = 0;\n    if (view.size() == 0) {\n        EVP_DigestUpdate(m_ctx.get(), &separator, m_md == EVP_md5() ? 1 : 0);\n    }\n    if (EVP_DigestUpdate(")],
'an MD5 digest over parts of which one is empty', 'The digest depends on how the input is split.',
'#include "crypto/openssl/openssl_hash.hpp"\nusing namespace freewebrtc;' + PRE + 'uint8_t b[3] = {1,2,3}; auto a = crypto::openssl::md5({util::ConstBinaryView(b, 3)}); auto c = crypto::openssl::md5({util::ConstBinaryView(b, 1), util::ConstBinaryView(b, 0), util::ConstBinaryView(b + 1, 2)}); CHECK(a.unwrap() == c.unwrap());' + END, 'crypto/openssl util')
S('k02-pad-compare', 'K02', 'src/stun/stun_password.hpp', [("    bool operator==(const Password&) const noexcept = default;", "    bool operator==(const Password& o) const noexcept { return m_ipad.view().assured_read_u8(0) == o.m_ipad.view().assured_read_u8(0) && m_ipad.view().assured_read_u8(63) == o.m_ipad.view().assured_read_u8(63) && m_opad.view().size() == o.m_opad.view().size() && m_ipad.view().assured_read_u8(1) == o.m_ipad.view().assured_read_u8(1); }")],
'two passwords that agree in their first two characters', 'Different passwords compare equal.',
RUN + PRE + r'''CHECK(!(lib::integrity("abc").unwrap().password == lib::integrity("abd").unwrap().password)); CHECK(lib::integrity("abc").unwrap().password == lib::integrity("abc").unwrap().password);''' + END, STUN, LIB)

SRV = r"""stun::server::Stateless s(crypto::openssl::sha1, none()); s.add_user(precis::OpaqueString{"a"}, lib::integrity("pa").unwrap().password);
net::Endpoint ep(net::UdpEndpoint{lib::addr(Addr{false, {1, 2, 3, 4}}), lib::port(5)}); auto R = [&](const Enc& e) { return s.process(ep, lib::view(e.b)); }; using Rsp = stun::server::Stateless::Respond;
"""
S('v01-user-before-unknown', 'V01', SV, [("    if (!unknown_comprehension_required.empty()) {", "    const auto& rq_username = msg.attribute_set.username();\n    const bool is_known_user = rq_username.is_none() || m_users.contains(rq_username.unwrap().get());\n    if (is_known_user && !unknown_comprehension_required.empty()) {")],
'a request of an unknown user that also has an unknown comprehension-required attribute', 'The answer is 401 instead of 420.',
RUN + PRE + SRV + r"""Bytes t(12, 1); Enc e(1, t); e.str(6, "b").attr(0x7001, {}).mi(lib::key("x")); auto r = R(e); auto* p = std::get_if<Rsp>(&r); CHECK(p); if (p) EQ(unsigned(p->response.attribute_set.error_code().unwrap().get().code), 420u);""" + END, STUN, LIB + ('stun/stun_server_stateless.hpp',))
S('v02-classic-unsigned', 'V02', SV, [("                std::move(msg),\n                maybe_integrity_data\n", "                std::move(msg),\n                maybe_username.is_some() && attrset.xor_mapped().is_some() ? maybe_integrity_data : MaybeIntegrity{none()}\n")],
'an authenticated classic (RFC 3489) request', 'The success response to an authenticated request is not to be signed.',
RUN + PRE + SRV + r"""Bytes t(16, 1); Enc e(1, t, false); e.str(6, "a").mi(lib::key("pa")); auto r = R(e); auto* p = std::get_if<Rsp>(&r); CHECK(p); if (p) { CHECK(p->response.header.cls == stun::Class::success_response()); CHECK(p->maybe_integrity.is_some()); }""" + END, STUN, LIB + ('stun/stun_server_stateless.hpp',))
