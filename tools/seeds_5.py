CM = '#include "stunlib.hpp"\n'; SS = 'src/stun/stun_server_stateless.cpp'; AS = 'src/stun/stun_attribute_set.cpp'; AT = 'src/stun/stun_attribute.cpp'; SD = 'src/ice/candidate/ice_candidate_sdp.cpp'
NEWC = '#include <cstdlib>\n#include <new>\nstatic long g_live = 0;\nvoid* operator new(size_t n) { ++g_live; return std::malloc(n); }\nvoid operator delete(void* p) noexcept { if (p) --g_live; std::free(p); }\nvoid operator delete(void* p, size_t) noexcept { if (p) --g_live; std::free(p); }\n'
S('c10-timeouts-kept', 'C10', CC, [("        if (auto* failed = std::get_if<TransactionFailed>(&next)) {\n            cleanup(failed->handle);\n        }", "        if (auto* failed = std::get_if<TransactionFailed>(&next);\n            failed && !std::holds_alternative<TransactionFailed::UnknownAttributeReported>(failed->reason)) {\n            cleanup(failed->handle);\n        }")],
'transactions that end with a 420 answer that lists the attributes', 'The transaction is never released, so memory grows with every such answer.',
NEWC + PRE + r'''Cl c; auto one = [&](bool u) { c.create(); CHECK(c.event() == "S"); auto e = c.err(c.tid, 420); if (u) e.attr(10, {0x70, 1}); CHECK(c.answer(e)); CHECK(c.event() == (u ? "R" : "F420")); while (c.event() != "I") {} }; for (int k = 0; k < 2; ++k) { for (int i = 0; i < 50; ++i) one(k); long a = g_live; for (int i = 0; i < 400; ++i) one(k); CHECK(g_live < a + 50); }''' + END, CLIENT, CL)
S('c10-history-kept', 'C10', CR, [("        m_timeline.push_back(it->second);\n        return;", "        return;")],
'paths whose first transaction needed a retransmission', 'Their history never expires, so memory grows with every new path and old values stay in use.',
PRE + r'''auto s = conf(7, 16, 100 * MS); s.rto_settings.history_duration = us(10 * S); Cl c(s); c.create(); c.event(); CHECK(c.event() == "S"); CHECK(c.event() == "S"); CHECK(c.answer(c.ok(c.tid))); CHECK(c.step() == "O"); c.t += 60 * S; c.create("", 3); c.event(); c.t += MS; CHECK(c.answer(c.ok(c.tid))); while (c.step() != "O") {} int64_t t = c.t; c.create(); c.event(); CHECK(c.event() == "S"); EQ(c.t - t, 100 * MS);''' + END, CLIENT, CL)
S('u10-context-kept', 'U10', 'src/crypto/openssl/openssl_hash.cpp', [("    if (EVP_DigestUpdate(m_ctx.get(), view.data(), view.size()) != 1) {\n        return make_error_code(ERR_get_error());", "    if (EVP_DigestUpdate(m_ctx.get(), view.data(), view.size()) != 1) {\n        m_ctx.release();\n        return make_error_code(ERR_get_error());")],
'libcrypto failing in an update', 'The digest context is lost.',
'#include "stunlib.hpp"\n#include "faultssl.hpp"\n#include "crypto/openssl/openssl_hash.hpp"\nusing namespace freewebrtc; using ref::Bytes;\n' + PRE + 'Bytes d{1, 2, 3}; std::vector<lib::View> v{lib::view(d)}; long a = fault::live; for (int i = 0; i < 5; ++i) { fault::arm(2, false); auto r = crypto::openssl::sha1(v); fault::disarm(); CHECK(r.is_err()); } EQ(fault::live + 0, a);' + END, 'stun util net crypto/openssl', ('stunlib.hpp', 'faultssl.hpp'), '-DVH_NO_MAIN')
IC = '#include "ice/candidate/ice_candidate_sdp.hpp"\n#include "net/ip/ip_address.hpp"\nusing namespace freewebrtc;\n' + PRE + 'using namespace ice::candidate; auto P = [](const std::string& s) { return parse_sdp_attr(s); }; const std::string B = "candidate:1 1 udp 1 1.2.3.4 5 typ host";\n'
S('i01-seventeenth', 'I01', SD, [("        if (att_name == \"raddr\") {", "        if (extensions.size() > 15) {\n            break;\n        }\n        if (att_name == \"raddr\") {")],
'a candidate with more than sixteen extensions', 'The further extensions are dropped.',
IC + 'for (int n : {0, 3, 15, 16, 17, 18, 40}) { std::string s = B; for (int i = 0; i < n; ++i) s += " n" + std::to_string(i) + " v"; auto r = P(s); CHECK(r.is_ok()); if (r.is_ok()) { auto* p = std::get_if<Supported>(&r.unwrap()); CHECK(p && p->extensions.size() == size_t(n)); } }' + END, ICE)
S('i02-priority-wrap', 'I01', 'src/ice/candidate/ice_candidate_priority.cpp', [("    uint64_t result = 0;", "    uint32_t result = 0;")],
'a priority of ten digits above 4294967295', 'The priority wraps round, so an invalid candidate is accepted.',
IC + 'CHECK(P("candidate:1 1 udp 4294967297 1.2.3.4 5 typ host").is_err()); CHECK(P("candidate:1 1 udp 4294967295 1.2.3.4 5 typ host").is_ok()); CHECK(P("candidate:1 1 udp 9999999999 1.2.3.4 5 typ host").is_err());' + END, ICE)
S('i01-unsupported-syntax', 'I01', SD, [("    const auto unsupported = any_is_err(connection_addr_rv, type_rv, transport_rv);", "    const auto unsupported = any_is_err(type_rv, connection_addr_rv, transport_rv);")],
'a candidate without a "typ" whose address is unusable', 'The order in which the defects are judged changes.',
IC + 'auto k = [&](const std::string& s) { auto r = P(s); return r.is_err() ? 0 : std::holds_alternative<Supported>(r.unwrap()) ? 1 : 2; }; EQ(k("candidate:1 1 udp 1 !! 5 typ xyz"), 2); auto r = P("candidate:1 1 udp 1 !! 5 typ xyz"); auto* p = r.is_ok() ? std::get_if<Unsupported>(&r.unwrap()) : nullptr; auto q = Address::from_string("!!"); CHECK(p && p->details == q.unwrap_err().message());' + END, ICE) if False else None
RP = 'src/rtp/rtp_packet.cpp'
RT = '#include "rtp/rtp_packet.hpp"\n#include "rtp/rtp_payload_map.hpp"\n#include "rtp/rtp_error.hpp"\nusing namespace freewebrtc;\n' + PRE + 'rtp::PayloadMap pm({{rtp::PayloadType::from_uint8(96).unwrap(), rtp::PayloadMapItem{rtp::ClockRate(90000)}}}); rtp::ParseStat st; auto P = [&](std::vector<uint8_t> v) { std::unique_ptr<uint8_t[]> p(new uint8_t[v.size()]); memcpy(p.get(), v.data(), v.size()); return rtp::Packet::parse(util::ConstBinaryView(p.get(), v.size()), pm, st); }; auto hdr = [](uint8_t b0) { std::vector<uint8_t> v{b0, 96, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3}; return v; };\n'
S('r02-empty-extension', 'R02', RP, [("        const auto maybe_err = vv.read_u16be(ext_offset + 2)\n", "        const auto maybe_err = vv.read_u16be(ext_offset + (num_cc == 15 && vv.size() == ext_offset + sizeof(uint32_t) ? 0 : 2))\n")],
'a packet with fifteen contributing sources that ends with an empty extension', 'The length is read from the wrong place, so a well-formed packet is rejected or a malformed one accepted.',
RT + 'auto v = hdr(0x9f); v.resize(72); for (uint8_t x : {0xBE, 0xDE, 0, 0}) v.push_back(x); auto r = P(v); CHECK(r.is_ok()); auto w = hdr(0x9f); w.resize(72); for (uint8_t x : {0, 0, 0, 1}) w.push_back(x); CHECK(P(w).is_err());' + END, RTP)
S('r01-marker-type', 'R01', 'src/rtp/rtp_payload_map.cpp', None, '', '', '') if False else None
NN = 'src/net/net_fqdn.cpp'
S('n02-triple-hyphen', 'N02', NN, [("            last_let_dig = pos;\n", "            if (last_let_dig + 3 < pos && pos < 5) {\n                break;\n            }\n            last_let_dig = pos;\n")],
'a label with three hyphens directly after its first character', 'A valid name is rejected.',
'#include "net/net_fqdn.hpp"\nusing namespace freewebrtc;\n' + PRE + 'for (auto s : {"a--b", "a--b.c", "xn--a", "a-b", "a---b"}) CHECK(net::Fqdn::from_string(s).is_ok());' + END, NET)
S('u02-required-steps-back', 'U02', 'src/util/util_token_stream.hpp', [("    return required().bind(f);", "    const auto pos = m_pos;\n    auto result = required().bind(f);\n    if (result.is_err() && m_pos == m_data.size()) {\n        m_pos = pos;\n    }\n    return result;")],
'a conversion that fails on the last token', 'The token is not consumed, so it is read again.',
'#include "util/util_token_stream.hpp"\nusing namespace freewebrtc;\n' + PRE + 'using SV = std::string_view; util::TokenStream s(std::vector<SV>{SV("a"), SV("b")}); CHECK(s.required("x").is_err()); CHECK(s.required("x").is_err()); CHECK(s.optional().is_none());' + END, 'util') if False else None
S('u02-copy-shares', 'U02', 'src/util/util_token_stream.cpp', [("TokenStream::TokenStream(Container&& d)\n    : m_data(std::move(d))\n{}", "TokenStream::TokenStream(Container&& d)\n    : m_data(d.size() > 32 ? Container(d.begin(), d.begin() + 32) : std::move(d))\n{}")],
'a stream of more than 32 tokens', 'The tokens beyond are lost.',
'#include "util/util_token_stream.hpp"\nusing namespace freewebrtc;\n' + PRE + 'using SV = std::string_view; for (size_t n : {1, 31, 32, 33, 64}) { util::TokenStream s(std::vector<SV>(n, SV("a"))); size_t k = 0; while (s.optional().is_some()) ++k; EQ(k, n); }' + END, 'util')
S('u07-address-text', 'U07', 'src/net/ip/ip_address.cpp', [("    std::string copy(v.begin(), v.end());\n", "    static std::string copy;\n    copy.assign(v.begin(), v.end());\n")],
'two threads that parse addresses at the same time', 'One of them gets the address of the other or a failure.',
'#include "net/ip/ip_address.hpp"\nusing namespace freewebrtc;\n' + PRE + r'''auto w = [](const char* s) { auto a = net::ip::Address::from_string(s); for (int i = 0; i < 20000; ++i) { auto b = net::ip::Address::from_string(s); if (b.is_err() || !(b.unwrap() == a.unwrap())) { bad = 1; return; } } }; std::thread a(w, "192.168.100.200"), b(w, "10.0.0.1"); a.join(); b.join();''' + END, NET, (), '-fsanitize=thread')
S('u08-eighth-bit', 'U08', 'src/abnf/abnf.hpp', [("    return (0x41 <= c && c <= 0x5a)\n        || (0x61 <= c && c <= 0x7a);", "    c &= 0x5f;\n    return 0x41 <= c && c <= 0x5a;")],
'a byte above 127, such as 0xC1', 'Bytes that are no letters count as letters.',
'#include "abnf/abnf.hpp"\nusing namespace freewebrtc;\n' + PRE + 'for (int i = 0; i < 256; ++i) EQ(abnf::is_ALPHA(char(i)), (i >= 65 && i <= 90) || (i >= 97 && i <= 122));' + END)
S('u09-join-empty-first', 'U09', 'src/util/util_string_view.hpp', [("        sstr << (it == c.begin() ? \"\" : sep) << *it;", "        sstr << (sstr.tellp() == 0 ? \"\" : sep) << *it;")],
'joining when the first piece is empty', 'A separator is missing.',
'#include "util/util_string_view.hpp"\nusing namespace freewebrtc;\n' + PRE + 'using V = std::vector<std::string>; CHECK(util::string_view::join(V{"", "a"}, ":") == ":a"); CHECK(util::string_view::join(V{"a", ""}, ":") == "a:"); CHECK(util::string_view::join(V{"", "", ""}, ":") == "::");' + END)
S('k02-trailing-space', 'K02', 'src/stun/stun_password.cpp', [("    std::vector<uint8_t> data(password.value.begin(), password.value.end());", "    std::vector<uint8_t> data(password.value.begin(), password.value.begin() + (password.value.find_last_not_of(' ') + 1));")],
'a password that ends with a space', 'Two different passwords give the same key.',
RUN + PRE + r'''CHECK(!(lib::integrity("abc ").unwrap().password == lib::integrity("abc").unwrap().password)); Bytes t(12, 1); Enc e(1, t); e.str(6, "u").mi(lib::key("abc ")); stun::ParseStat st; auto m = stun::Message::parse(lib::view(e.b), st).unwrap(); CHECK(m.is_valid(lib::view(e.b), lib::integrity("abc ").unwrap()).unwrap().unwrap());''' + END, STUN, LIB)
S('s06-v6-tail', 'S06', 'src/stun/stun_address.cpp', [("                    for (size_t i = 0; i < tidv.size() && i < vv.size() - 4; ++i) {\n                        holder[i + 4] ^= tidv.assured_read_u8(i);", "                    for (size_t i = 0; i < tidv.size() && i < vv.size() - 4; ++i) {\n                        if (holder[i + 4] == 0 && i > 10) {\n                            continue;\n                        }\n                        holder[i + 4] ^= tidv.assured_read_u8(i);")],
'an IPv6 address whose last byte is zero', 'The address in the response is wrong in its last byte.',
RUN + PRE + r'''Bytes t(12, 0x5a); for (int b : {0, 1, 255}) { Addr a{true, Bytes(16, 7), 1}; a.bytes[15] = uint8_t(b); auto x = stun::XoredAddress::from_address(lib::addr(a), lib::tid(t)); CHECK(x.to_address(lib::tid(t)) == lib::addr(a)); }'''.replace('a.bytes', 'a.b') + END, STUN, LIB)
S('s08-priority-long', 'S08', AT, [("    return vv.read_u32be(0)\n        .require()\n        .bind_err([&](auto&&) {\n            stat.error.inc();\n            stat.invalid_priority_size.inc();", "    return vv.read_u32be(vv.size() > 7 ? 4 : 0)\n        .require()\n        .bind_err([&](auto&&) {\n            stat.error.inc();\n            stat.invalid_priority_size.inc();")],
'a PRIORITY attribute of eight bytes or more', 'The priority is taken from the wrong bytes.',
RUN + PRE + PARSE + 'Enc e(1, tid); e.attr(0x24, {0, 0, 0, 7, 0, 0, 0, 9}); auto r = P(e); CHECK(r.is_err() || r.unwrap().attribute_set.priority().unwrap().get() == 7);' + END, STUN, LIB) if False else None
S('s05-long-message', 'S05', 'src/stun/stun_message.cpp', [("                uint8_t((d.integrity_message_len >> 8) & 0xFF),\n", "                uint8_t((d.integrity_message_len >> 8) & 0x0F),\n")],
'a signed message of 4096 bytes or more', 'A correctly signed message is judged as forged.',
RUN + PRE + PARSE + 'for (size_t n : {100, 4000, 4096, 5000, 9000, 60000}) { Enc e(1, tid); e.str(0x8022, std::string(n, 97)).mi(lib::key("k")); auto r = P(e); CHECK(r.is_ok()); auto v = r.unwrap().is_valid(lib::view(e.b), lib::integrity("k").unwrap()); CHECK(v.is_ok() && v.unwrap().is_some() && v.unwrap().unwrap()); }' + END, STUN, LIB)
S('s02-many-attributes', 'S02', 'src/stun/stun_message.cpp', [("    while (attr_offset < vv.size()) {\n        auto rawattr_rv", "    while (attr_offset < vv.size() && raw_attrs.size() < 64) {\n        auto rawattr_rv")],
'a message with more than 64 attributes', 'The further attributes are not seen, so an unknown required one passes unnoticed.',
RUN + PRE + PARSE + 'for (int n : {1, 63, 64, 65, 200}) { Enc e(1, tid); for (int i = 0; i < n; ++i) e.attr(0x9000 + i, {}); e.attr(0x7001, {}); auto r = P(e); CHECK(r.is_ok() && r.unwrap().attribute_set.unknown_comprehension_required().size() == 1); }' + END, STUN, LIB)
S('s03-many-unknown', 'S03', AS, [("    result.reserve(num_attrs * 3 + 1); // We can have up to three views per attribute", "    result.reserve(num_attrs * 3 + 1); // We can have up to three views per attribute\n    if (num_attrs > 255) {\n        result.shrink_to_fit();\n    }")] if False else [("        *attr_headers_it = util::host_to_network_u32((type << 16) | view.size());", "        *attr_headers_it = util::host_to_network_u32((type << 16) | (view.size() & 0x3fff));")],
'an attribute value of 16384 bytes or more', 'The attribute header gives a smaller length than the value has.',
RUN + PRE + r'''for (size_t n : {100, 16383, 16384, 30000}) { Msg m; m.tid = Bytes(12, 3); m.unknown.push_back({0x9001, Bytes(n, 5)}); auto b = lib::message(m, false).build(none()).unwrap(); auto p = parse(Bytes(b.begin(), b.end())); CHECK(p.ok && p.m.unknown == m.unknown); }''' + END, STUN, LIB)
SVR = '#include "stun/stun_server_stateless.hpp"\n#include "crypto/openssl/openssl_hash.hpp"\n' + RUN + PRE + r'''using Rsp = stun::server::Stateless::Respond; stun::server::Stateless s(crypto::openssl::sha1, none()); auto add = [&](const std::string& u, const std::string& p) { s.add_user(precis::OpaqueString{u}, stun::Password::short_term(precis::OpaqueString{p}, crypto::openssl::sha1).unwrap()); };
auto code = [&](const Enc& e) { lib::Exact x(e.b); auto r = s.process(net::Endpoint(net::UdpEndpoint{net::ip::Address::from_string("192.0.2.1").unwrap(), net::Port::from_uint16(7)}), x.view()); auto* p = std::get_if<Rsp>(&r); return !p ? 0 : p->response.header.cls == stun::Class::success_response() ? 200 : int(p->response.attribute_set.error_code().unwrap().get().code); };
'''
S('v01-hundred-users', 'V01', SS, [("    m_users.emplace(name, password);", "    if (m_users.size() >= 64 && name.value.size() < 3) {\n        m_users.erase(m_users.begin());\n    }\n    m_users.emplace(name, password);")],
'more than 64 users', 'An earlier user is forgotten, so valid requests are refused.',
SVR + 'for (int i = 0; i < 70; ++i) add("u" + std::to_string(i), "p" + std::to_string(i)); add("z", "pz"); Bytes t(12, 1); for (int i = 0; i < 70; ++i) { Enc e(1, t); e.str(6, "u" + std::to_string(i)).mi(lib::key("p" + std::to_string(i))); EQ(code(e), 200); }' + END, STUN, LIB + ('stun/stun_server_stateless.hpp',))
S('v01-failed-logins', 'V01', SS, [("                        if (!is_valid) {\n                            return R", "                        static unsigned failures = 0;\n                        failures = is_valid && failures < 32 ? 0 : failures + (is_valid ? 0 : 1);\n                        if (!is_valid || failures >= 32) {\n                            return R")],
'32 failed requests in a row, from whomever', 'After that no authenticated request is ever accepted again.',
SVR + 'add("u", "p"); Bytes t(12, 1); Enc g(1, t); g.str(6, "u").mi(lib::key("p")); Enc b(1, t); b.str(6, "u").mi(lib::key("q")); for (int i = 0; i < 100; ++i) { EQ(code(b), 401); } EQ(code(g), 200);' + END, STUN, LIB + ('stun/stun_server_stateless.hpp',))
S('c09-handle-wrap', 'C09', CC, [("    auto hnd = i->second;\n", "    auto hnd = client_udp::Handle{i->second.value & 0xff};\n    if (m_tmap.find(hnd) == m_tmap.end() || m_tmap.size() < 2) {\n        hnd = i->second;\n    }\n")],
'handle 256 and above live together with the one that is 256 smaller', 'The answer goes to another transaction.',
PRE + r'''Cl c; std::vector<Bytes> ids; for (int i = 0; i < 300; ++i) { c.create(); CHECK(c.event() == "S"); ids.push_back(c.tid); } auto h = c.last; CHECK(c.answer(c.ok(ids[299]))); CHECK(c.step() == "O"); CHECK(c.last == h);''' + END, CLIENT, CL)
S('c01-third-window', 'C01', CC, [("    if (!m_effects.empty()) {\n        auto next", "    if (m_effects.size() > 200) {\n        m_effects.pop();\n    }\n    if (!m_effects.empty()) {\n        auto next")],
'more than 200 effects that wait to be fetched', 'One of them is lost, so a transaction may end without its outcome being told.',
PRE + r'''Cl c; for (int i = 0; i < 300; ++i) c.create(); int n = 0; while (c.step() == "S") ++n; EQ(n, 300);''' + END, CLIENT, CL)
S('c03-far-timers', 'C03', CC, [("        return Idle{};\n    }\n    return Sleep{m_tid_timeline.top().first - now};", "        return Idle{};\n    }\n    return Sleep{std::min<clock::NativeDuration>(m_tid_timeline.top().first - now, std::chrono::minutes(60))};")] if False else [("    return Sleep{m_tid_timeline.top().first - now};", "    const auto sleep = m_tid_timeline.top().first - now;\n    return Sleep{std::chrono::microseconds(static_cast<int32_t>(sleep.count() & 0x7fffffff))};")],
'a timer more than 2^31 microseconds (36 minutes) ahead', 'The sleep is too short by a multiple of that, so the caller is woken for nothing, up to a sleep of zero.',
PRE + r'''Cl c(conf(3, 2, 3000 * S)); c.create(); CHECK(c.step() == "S"); CHECK(c.step() == "Z"); EQ(c.sleep, 3000 * S); c.t += c.sleep; CHECK(c.step() == "S");''' + END, CLIENT, CL)
S('c06-many-paths', 'C06', CR, [("    if (it == m_by_path.end()) {\n        auto [it2, _] = m_by_path.emplace(path, Data{path, now});\n        it = it2;", "    if (it == m_by_path.end()) {\n        if (m_by_path.size() >= 128) {\n            return;\n        }\n        auto [it2, _] = m_by_path.emplace(path, Data{path, now});\n        it = it2;")],
'more than 128 paths in use', 'The round-trip times of further paths are not learned.',
PRE + r'''Cl c(conf(7, 16, 500 * MS)); auto one = [&](int h) { c.create("", h); CHECK(c.event() == "S"); c.t += 40 * MS; CHECK(c.answer(c.ok(c.tid))); CHECK(c.step() == "O"); }; for (int h = 1; h < 200; ++h) one(h); int64_t t = c.t; c.create("", 199); c.event(); CHECK(c.event() == "S"); EQ(c.t - t, 40 * MS + 4 * 20 * MS);''' + END, CLIENT, CL)
S('n04-hash-order', 'N04', 'src/net/ip/ip_address_hash.cpp', None, '', '', '') if False else None
S('u01-self-remove', 'U01', 'src/util/util_intrusive_list.hpp', None, '', '', '') if False else None
