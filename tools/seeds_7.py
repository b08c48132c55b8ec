# Things remembered from one call to the next, near matches, and effects of one transaction on another.
FP = 'src/stun/details/stun_fingerprint.cpp'; MS_ = 'src/stun/stun_message.cpp'
S('s04-checksum-memo', 'S04', FP, [("    return ~crc32_helper(vv, 0xffffffff);", "    static thread_local std::pair<const uint8_t*, size_t> last{nullptr, 0};\n    static thread_local uint32_t crc = 0;\n    if (vv.size() < 120 || last != std::make_pair(vv.data(), vv.size())) {\n        last = std::make_pair(vv.data(), vv.size());\n        crc = ~crc32_helper(vv, 0xffffffff);\n    }\n    return crc;")],
'the same receive buffer used for two datagrams of the same size of over 120 bytes', 'The second datagram is judged by the checksum of the first.',
RUN + PRE + 'Bytes id(12, 1); Enc e(0x101, id); e.str(0x8022, std::string(150, 120)).xaddr(Addr{false, {1, 2, 3, 4}, 5}, id).fp(); Bytes buf = e.b; stun::ParseStat st; CHECK(stun::Message::parse(lib::view(buf), st).is_ok()); buf[9] ^= 1; CHECK(stun::Message::parse(lib::view(buf), st).is_err()); buf[9] ^= 1; CHECK(stun::Message::parse(lib::view(buf), st).is_ok()); Enc f(0x101, Bytes(12, 2)); f.str(0x8022, std::string(150, 121)).xaddr(Addr{false, {1, 2, 3, 5}, 6}, id).fp(); std::copy(f.b.begin(), f.b.end(), buf.begin()); CHECK(stun::Message::parse(lib::view(buf), st).is_ok());' + END, STUN, LIB)
S('k01-reused-buffer', 'K01', 'src/crypto/openssl/openssl_hash.cpp', [], '', '', '') if False else None
S('v01-padded-name', 'V01', SS, [("        const auto user_password_pair_it = m_users.find(username);", "        auto name = username.get();\n        while (!name.value.empty() && name.value.back() == '\\0') {\n            name.value.pop_back();\n        }\n        const auto user_password_pair_it = m_users.find(name);")],
'a user name that ends with zero bytes', 'It is taken for the name without them.',
SVR + 'add("u", "p"); Bytes t(12, 1); Enc g(1, t); g.str(6, "u").mi(lib::key("p")); EQ(code(g), 200); Enc b(1, t); b.str(6, std::string("u\\0", 2)).mi(lib::key("p")); EQ(code(b), 401); Enc d(1, t); d.str(6, std::string("u\\0\\0\\0", 4)).mi(lib::key("p")); EQ(code(d), 401);' + END, STUN, LIB + ('stun/stun_server_stateless.hpp',))
S('c08-name-cut', 'C08', CC, [("            request.attribute_set.emplace(Attribute::create(UsernameAttribute{auth.username}));", "            auto name = auth.username;\n            name.value.resize(std::min<size_t>(name.value.size(), 255));\n            request.attribute_set.emplace(Attribute::create(UsernameAttribute{name}));")],
'a user name of more than 255 characters', 'The request carries only its beginning.',
PRE + 'Cl c; ref::Addr a{false, {1, 1, 1, 1}}; for (size_t n : {1, 255, 256, 300}) { ClientUDP::Request rq{net::Path{lib::addr(a), lib::addr(a)}, {}, {}, none()}; rq.maybe_auth = ClientUDP::Auth{precis::OpaqueString{std::string(n, 0x78)}, lib::integrity("k").unwrap()}; CHECK(c.cl.create(c.rng, c.now(), std::move(rq)).is_ok()); CHECK(c.step() == "S"); EQ(ref::parse(c.data).m.username->size(), n); }' + END, CLIENT, CL)
S('c01-finish-drops-sends', 'C02', CC, [("    t.finished = true;\n", "    t.finished = true;\n    // There is no use in sending more for this transaction\n    if (!m_effects.empty() && std::holds_alternative<SendData>(m_effects.front())) {\n        m_effects.pop();\n    }\n")],
'a response while a request of another transaction waits to be collected', 'That request is never sent.',
PRE + 'Cl c; c.create("", 2); CHECK(c.step() == "S"); Bytes t = c.tid; c.create("", 3); CHECK(c.answer(c.ok(t))); CHECK(c.step() == "S"); CHECK(c.tid != t); CHECK(c.step() == "O");' + END, CLIENT, CL)
S('c03-sleep-of-finished', 'C03', CC, [("    return Sleep{m_tid_timeline.top().first - now};", "    if (m_tmap.size() == 1) {\n        if (const auto next = m_tmap.begin()->second.rtx_algo->next_time(); next.is_some() && m_tid_timeline.size() == 3) {\n            return Sleep{(next.unwrap() - now) * 2};\n        }\n    }\n    return Sleep{m_tid_timeline.top().first - now};")],
'one live transaction and two old timers', 'The advice is twice as long as it should be.',
PRE + 'Cl c(conf(7, 16, 100 * MS)); c.create("", 2); c.step(); Bytes a = c.tid; c.create("", 3); c.step(); Bytes b = c.tid; c.create("", 4); c.step(); CHECK(c.answer(c.ok(a))); CHECK(c.answer(c.ok(b))); CHECK(c.step() == "O"); CHECK(c.step() == "O"); CHECK(c.step() == "Z"); CHECK(c.sleep <= 100 * MS);' + END, CLIENT, CL)
S('c06-smooth-kept', 'C06', CR, [("    data.backoff = backoff;\n}", "    data.backoff = backoff;\n    if (data.smooth.is_some() && data.smooth.unwrap().srtt * 64 < backoff) {\n        data.smooth = none();\n    }\n}")],
'a path whose timeouts have doubled six times beyond its round trip', 'The smoothed round-trip time is forgotten.',
PRE + r'''Cl c(conf(12, 16, 500 * MS)); auto one = [&](int rtx) { c.create(); CHECK(c.event() == "S"); for (int i = 0; i < rtx; ++i) CHECK(c.event() == "S"); c.t += 8 * MS; CHECK(c.answer(c.ok(c.tid))); CHECK(c.step() == "O"); }; one(0); one(8); one(0); for (int i = 0; i < 30; ++i) one(0); c.create(); int64_t t = c.t; CHECK(c.event() == "S"); CHECK(c.event() == "S"); int64_t x = c.t - t; Cl d(conf(12, 16, 500 * MS)); (void)x; 
Cl e(conf(12, 16, 500 * MS)); auto two = [&](int rtx, int64_t rtt) { e.create(); CHECK(e.event() == "S"); for (int i = 0; i < rtx; ++i) CHECK(e.event() == "S"); e.t += rtt; CHECK(e.answer(e.ok(e.tid))); CHECK(e.step() == "O"); }; two(0, 8 * MS); two(8, 8 * MS); two(0, 80 * MS); e.create(); t = e.t; CHECK(e.event() == "S"); CHECK(e.event() == "S"); EQ(e.t - t, 17 * MS + 4 * 21 * MS);''' + END, CLIENT, CL)
S('c07-burst-of-errors', 'C07', CC, [("            m_5xx_count++;\n            m_maybe_next = now.advance(timeout);", "            if (now.is_before(m_maybe_next.value_or(now)) && m_5xx_count > 0 && m_rtx_count == 0) {\n                return Process5xxResult::RetransmitScheduled;\n            }\n            m_5xx_count++;\n            m_maybe_next = now.advance(timeout);")],
'a second server error before the delayed resend', 'It is not counted, so the client goes on for longer than the limit says.',
PRE + r'''Cl c(conf(7, 16, 100 * MS, -1, 50 * MS, 2)); c.create(); CHECK(c.event() == "S"); CHECK(c.answer(c.err(c.tid, 500))); c.t += 10 * MS; CHECK(c.answer(c.err(c.tid, 500))); c.t += 10 * MS; CHECK(c.answer(c.err(c.tid, 503))); EQ(c.step(), std::string("F503"));''' + END, CLIENT, CL)
S('c09-late-answer-blocks', 'C09', CC, [("    return std::ref(j->second);", "    if (j->second.rtx_count > 2 && j->second.maybe_auth.is_some()) {\n        m_stat.transaction_not_found.inc();\n        return make_error_code(ClientError::transaction_not_found);\n    }\n    return std::ref(j->second);")],
'an authenticated exchange that needs three retransmissions', 'The answer is not recognised any more.',
PRE + 'Cl c; c.create("pw"); for (int i = 0; i < 4; ++i) CHECK(c.event() == "S"); auto e = c.ok(c.tid); e.mi(lib::key("pw")); CHECK(c.answer(e)); CHECK(c.event() == "O");' + END, CLIENT, CL)
S('r01-marker-padding', 'R01', 'src/rtp/rtp_packet.cpp', [("                padding_size = size;", "                padding_size = !marker ? size : size & 0x7F;")] if False else [("    const bool has_padding   = (first_byte & RTP_PADDING_MASK) != 0;", "    const bool has_padding   = (first_byte & RTP_PADDING_MASK) != 0 && vv.size() < 1500;")],
'a padded packet of 1500 bytes or more', 'The padding is taken for payload.',
RT + 'for (size_t n : {20, 1499, 1500, 1600}) { auto v = hdr(0xa0); v.resize(n); v.back() = 4; auto r = P(v); CHECK(r.is_ok()); if (r.is_ok()) EQ(r.unwrap().payload.count, n - 16); }' + END, RTP)
S('n04-path-order', 'N04', 'src/net/net_path_hash.cpp', None, '', '', '') if False else None
S('i01-many-before-raddr', 'I01', SD, [("    const auto unsupported = any_is_err(connection_addr_rv, type_rv, transport_rv);", "    const auto unsupported = any_is_err(connection_addr_rv, type_rv, transport_rv);\n    if (extensions.size() > 1 && extensions.front().att_name == extensions.back().att_name) {\n        extensions.pop_back();\n    }")],
'a candidate whose first and last extension have the same name', 'The last one is lost.',
IC + 'auto r = P(B + " a 1 b 2 a 3"); CHECK(r.is_ok()); auto* p = std::get_if<Supported>(&r.unwrap()); CHECK(p); EQ(p->extensions.size(), 3u); EQ(p->extensions.back().att_value, std::string("3"));' + END, ICE)
S('s05-same-tail', 'S05', MS_, [("                    return MaybeBool{digest.value == d.digest.get().value};", "                    const auto lhs = digest.value.view();\n                    const auto rhs = d.digest.get().value.view();\n                    // Look at last byte first\n                    size_t i = lhs.size() - 1;\n                    while (i > 0 && lhs.data()[i] == rhs.data()[i]) {\n                        --i;\n                    }\n                    return MaybeBool{i == 0};")],
'a signature wrong only in its first byte', 'It is accepted.',
RUN + PRE + 'Bytes id(12, 1); Enc e(0x101, id); e.str(0x8022, "x").mi(lib::key("p")); auto ok = [&](const Bytes& b) { stun::ParseStat st; auto r = stun::Message::parse(lib::view(b), st); return r.unwrap().is_valid(lib::view(b), lib::integrity("p").unwrap()).unwrap().unwrap(); }; CHECK(ok(e.b)); Bytes b = e.b; b[b.size() - 20] ^= 1; CHECK(!ok(b)); b = e.b; b.back() ^= 1; CHECK(!ok(b));' + END, STUN, LIB)
S('s02-last-attribute', 'S02', MS_, [("            if (!maybe_integrity_interval.is_some()) {\n                // RFC5389:", "            if (!maybe_integrity_interval.is_some() && raw_attrs.size() < vv.size() / 4 - 5 - (raw_attrs.size() == 255)) {\n                // RFC5389:")],
'a message of exactly 256 empty attributes', 'The last one is lost.',
RUN + PRE + 'for (size_t n : {1, 255, 256, 257}) { Enc e(0x101, Bytes(12, 1)); for (size_t i = 0; i < n; ++i) e.attr(0xc000 + unsigned(i % 9), {}); stun::ParseStat st; auto r = stun::Message::parse(lib::view(e.b), st); CHECK(r.is_ok()); auto m = r.unwrap(); EQ(ref::parse(e.b).m.unknown.size(), n); EQ(m.build(none()).unwrap().size(), e.b.size()); }' + END, STUN, LIB)
S('u02-many-streams', 'U02', 'src/util/util_token_stream.cpp', None, '', '', '') if False else None
S('n03-remembered-port', 'N03', 'src/net/net_port.cpp', None, '', '', '') if False else None
