CL = ('cl.hpp',); CC = 'src/stun/stun_client_udp.cpp'; CR = 'src/stun/details/stun_client_udp_rto.cpp'
S('c01-drop-after-rtx', 'C01', CC, [("    while (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now)) {\n        const Timepoint time = m_tid_timeline.top().first;", "    while (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now)) {\n        if (!m_effects.empty() && m_effects.size() >= m_tmap.size()) {\n            m_tid_timeline.pop();\n            continue;\n        }\n        const Timepoint time = m_tid_timeline.top().first;")],
'a poll that comes late, when a retransmission is due before the previous effect has been collected',
'The timer of the transaction is dropped: it never times out and is never reported.',
PRE + r'''Cl c(conf(3, 2, 100 * MS)); c.create(); c.t = 150 * MS; int n = 0; bool t = false; for (int i = 0; i < 40; ++i) { auto s = c.step(); if (s == "Z") c.t += c.sleep; if (s == "T") { ++n; } } EQ(n, 1);''' + END, CLIENT, CL)
S('c01-tid-left-behind', 'C01', CC, [("        const auto& tid = it->second.tid;\n        m_tid_to_handle.erase(tid);\n        m_tmap.erase(it);", "        const auto& tid = it->second.tid;\n        if (it->second.finished && it->second.rtx_count == 0) {\n            m_tid_to_handle.erase(tid);\n        }\n        m_tmap.erase(it);")],
'a transaction that is finished after a retransmission, and a random generator that later repeats its transaction id',
'The transaction id stays reserved for ever, so a request with that id can never be created again.',
PRE + r'''struct R { uint32_t v[6] = {1, 2, 3, 1, 2, 3}; int n = 0; using result_type = uint32_t; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return ~0u; } uint32_t operator()() { if (n > 1000) throw 1; uint32_t x = n < 6 ? v[n] : 100 + n; ++n; return x; } };
Cl c(conf(2, 1, 100 * MS)); R r; auto mk = [&] { ref::Addr a{false, {1, 1, 1, 1}}; return c.cl.create(r, c.now(), ClientUDP::Request{net::Path{lib::addr(a), lib::addr(a)}, {}, {}, none()}); };
mk(); while (c.event() != "T") {} mk(); CHECK(c.event() == "S"); EQ(c.tid[0], 1);''' + END, CLIENT, CL)
S('c02-last-multiplier', 'C07', CC, [("    auto current = m_rtx_count + 2 == m_settings.request_count + m_5xx_count\n        ? m_initial_rto * m_settings.retransmission_multiplier", "    auto current = m_rtx_count + 2 == m_settings.request_count + m_5xx_count\n        ? (m_5xx_count ? m_last_timeout : m_initial_rto) * m_settings.retransmission_multiplier")],
'a transaction that had a 5xx answer and then exhausts its requests', 'The wait after the last request is the last timeout times Rm instead of the initial one.',
PRE + r'''Cl c(conf(3, 2, 100 * MS, -1, 50 * MS)); c.create(); CHECK(c.event() == "S"); CHECK(c.answer(c.err(c.tid, 500))); int sends = 1; int64_t last = 0; while (c.event() == "S") { ++sends; last = c.t; } EQ(sends, 4); EQ(c.t - last, 200 * MS);''' + END, CLIENT, CL)
S('c02-limit-doubles-only', 'C02', CC, [("        : m_last_timeout * 2;\n", "        : (m_settings.max_rto.is_some() && m_rtx_count > 3 ? m_initial_rto * 16 : m_last_timeout * 2);\n")],
'a limited RTO that is above sixteen times the initial one, and seven or more requests', 'The intervals stop doubling before the maximum is reached.',
PRE + r"""Cl c(conf(9, 16, 10 * MS, 10 * S)); c.create(); int64_t last = 0, step = 10 * MS; CHECK(c.event() == "S"); for (int i = 0; i < 8; ++i) { CHECK(c.event() == "S"); EQ(c.t - last, step); last = c.t; step *= 2; }""" + END, CLIENT, CL)
S('c02-late-poll-drift', 'C02', CC, [("    bool time_for_next = m_maybe_next\n        .fmap([&](auto&& next) {\n            return !now.is_before(next);\n        })", "    bool time_for_next = m_maybe_next\n        .fmap([&](auto&& next) {\n            if (now - next > 8 * m_initial_rto) {\n                ++m_rtx_count;\n            }\n            return !now.is_before(next);\n        })")],
'a caller that polls more than eight RTOs late', 'One request fewer than Rc is sent.',
PRE + r'''Cl c(conf(4, 2, 100 * MS)); c.create(); CHECK(c.event() == "S"); c.t += 5 * S; int n = 1; while (c.event() == "S") ++n; EQ(n, 4);''' + END, CLIENT, CL)
S('c03-only-if-earlier', 'C03', CC, [("            t.rtx_algo->next_time()\n                .with_inner([&](Timepoint&& timepoint) {\n", "            t.rtx_algo->next_time()\n                .bind([&](auto&& timepoint) -> MaybeTimepoint {\n                    if (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(timepoint)) {\n                        return none();\n                    }\n                    return timepoint;\n                })\n                .with_inner([&](auto&& timepoint) {\n")],
'a 5xx answer whose configured delay ends after the next timer of any transaction', 'The resend is not scheduled: the client reports that it is idle and the transaction never ends.',
PRE + r"""Cl c(conf(7, 16, 100 * MS, -1, 150 * MS)); c.create(); c.event(); CHECK(c.answer(c.err(c.tid, 500))); EQ(c.event(), std::string("S")); EQ(c.t, 150 * MS);
Cl d(conf(7, 16, 100 * MS, -1, 1 * MS)); d.create(); d.event(); CHECK(d.answer(d.err(d.tid, 500))); EQ(d.event(), std::string("S")); EQ(d.t, 1 * MS);""" + END, CLIENT, CL)
S('c03-order-millis', 'C03', CC, [("    if (lhs.first.is_after(rhs.first)) {\n        return true;\n    }\n    if (rhs.first.is_after(lhs.first)) {\n        return false;\n    }\n    return lhs.second.value > rhs.second.value;", "    const auto diff = std::chrono::duration_cast<std::chrono::milliseconds>(lhs.first - rhs.first);\n    if (diff.count() != 0) {\n        return diff.count() > 0;\n    }\n    return lhs.second.value > rhs.second.value;")],
'two timers of different transactions less than a millisecond apart, the one of the older transaction being later', 'The timeline is not ordered by time, so the client asks to be woken too late.',
PRE + r"""Cl c(conf(7, 16, 100 * MS)); c.create("", 2); c.event(); c.event(); c.t += 99700; c.create("", 3); c.t += 1; c.event(); CHECK(c.step() == "Z"); CHECK(c.sleep <= 100 * MS - 1); c.t += c.sleep; auto s = c.step(); CHECK(s == "S"); EQ(c.t, 299700);""" + END, CLIENT, CL)
S('c04-alternate-any-error', 'C04', CC, [("if (!m_settings.allow_unauthenticated_alternate || !msg.is_alternate_server()) {", "if (!m_settings.allow_unauthenticated_alternate || msg.attribute_set.alternate_server().is_none()) {")],
'an unsigned response that carries ALTERNATE-SERVER without being a 300 error, with the setting for unauthenticated alternates on', 'A forged unsigned response ends an authenticated transaction.',
PRE + r'''auto s = conf(); s.allow_unauthenticated_alternate = true; Cl c(s); c.create("pw"); CHECK(c.event() == "S"); auto e = c.ok(c.tid); e.addr(0x8023, {false, {6, 6, 6, 6}, 6}); CHECK(!c.answer(e)); CHECK(c.event() == "S");''' + END, CLIENT, CL)
S('c04-parsed-twice', 'C04', CC, [("            return msg.is_valid(view, auth.integrity)\n", "            return (view.size() == 0 ? Result<Maybe<bool>>{Maybe<bool>{true}} : msg.is_valid(view.size() > 512 ? view.assured_subview(0, 512) : view, auth.integrity))\n")],
'a correctly signed response of more than 512 bytes', 'The valid response is not accepted: only a part of it is checked.',
PRE + r'''Cl c; c.create("pw"); CHECK(c.event() == "S"); auto e = c.ok(c.tid); e.str(0x8022, std::string(700, 'x')); e.mi(lib::key("pw")); CHECK(c.answer(e)); CHECK(c.event() == "O");''' + END, CLIENT, CL)
S('c05-code-class-first', 'C05', CC, [("    if (!ucr.empty()) {\n        m_stat.unknown_attribute.inc();\n        auto reason = TransactionFailed::UnknownComprehensionRequiredAttribute{std::move(ucr)};\n        finish(t, TransactionFailed{t.hnd, std::move(reason)});\n        return success();\n    }\n\n    const auto& maybe_msg_error_code = msg.attribute_set.error_code();", "    if (!ucr.empty() && !msg.is_alternate_server()) {\n        m_stat.unknown_attribute.inc();\n        auto reason = TransactionFailed::UnknownComprehensionRequiredAttribute{std::move(ucr)};\n        finish(t, TransactionFailed{t.hnd, std::move(reason)});\n        return success();\n    }\n\n    const auto& maybe_msg_error_code = msg.attribute_set.error_code();")],
'a 300 response with an unknown comprehension-required attribute', 'The client follows the alternate server although it does not understand the response.',
PRE + r'''Cl c; c.create(); CHECK(c.event() == "S"); auto e = c.err(c.tid, 300); e.addr(0x8023, {false, {6, 6, 6, 6}, 6}).attr(0x7002, {1}); CHECK(c.answer(e)); CHECK(c.event() == "U");''' + END, CLIENT, CL)
S('c05-mapped-preferred', 'C05', CC, [("    auto effect = msg.attribute_set.xor_mapped()\n", "    auto maybe_xor_mapped = msg.attribute_set.xor_mapped();\n    if (msg.attribute_set.mapped().is_some() && t.path.source.view().size() == 16) {\n        maybe_xor_mapped = none();\n    }\n    auto effect = maybe_xor_mapped\n")],
'a success response over an IPv6 path with both mapped-address attributes, which differ', 'The address reported is MAPPED-ADDRESS, which NATs may have rewritten, instead of XOR-MAPPED-ADDRESS.',
PRE + r"""Cl c; ref::Addr v6{true, Bytes(16, 7), 5}; CHECK(c.cl.create(c.rng, c.now(), ClientUDP::Request{net::Path{lib::addr(v6), lib::addr(v6)}, {}, {}, none()}).is_ok()); CHECK(c.event() == "S"); ref::Enc e(0x0101, c.tid); e.xaddr(v6, c.tid).addr(1, {false, {9, 9, 9, 9}, 9}); CHECK(c.answer(e)); auto x = c.cl.next(c.now()); auto* p = std::get_if<ClientUDP::TransactionOk>(&x); CHECK(p); if (p) CHECK(lib::addr(p->result.address, p->result.port.value()) == v6);""" + END, CLIENT, CL)
S('c05-420-empty', 'C05', CC, [("            if (maybe_ua.is_some()) {\n", "            if (maybe_ua.is_some() && !maybe_ua.unwrap().get().types.empty()) {\n")],
'a 420 response with an empty UNKNOWN-ATTRIBUTES list', 'The outcome is a plain error code instead of the reported (empty) list.',
PRE + r'''Cl c; c.create(); CHECK(c.event() == "S"); auto e = c.err(c.tid, 420); e.attr(10, {}); CHECK(c.answer(e)); CHECK(c.event() == "R");''' + END, CLIENT, CL)
S('c06-karn-only-two', 'C06', CC, [("    if (t.rtx_count == 0) {\n        // Karn", "    if (t.rtx_count == 0 || (t.rtx_count == 1 && now - t.create_time > t.rtx_algo->last_timeout() * 2)) {\n        // Karn")],
'a response that comes long after exactly one retransmission', 'A round trip measured over a retransmitted request is used, against Karn\'s rule.',
PRE + r'''Cl c(conf(7, 16, 100 * MS)); c.create(); c.event(); c.event(); c.t += 199 * MS; c.t = 100 * MS + 350 * MS; CHECK(c.answer(c.ok(c.tid))); for (;;) { auto x = c.cl.next(c.now()); if (auto* p = std::get_if<ClientUDP::TransactionOk>(&x)) { CHECK(p->round_trip.is_none()); break; } }
Cl d(conf(7, 16, 100 * MS)); d.create(); d.event(); d.event(); d.t = 450 * MS; CHECK(d.answer(d.ok(d.tid))); while (d.step() != "O") {} int64_t t = d.t; d.create(); CHECK(d.event() == "S"); CHECK(d.event() == "S"); EQ(d.t - t, 200 * MS);''' + END, CLIENT, CL)
S('c06-backoff-forgets', 'C06', CR, [("    data.last_update = now;\n    m_timeline.push_back(data);\n    data.backoff = backoff;", "    data.last_update = now;\n    m_timeline.push_back(data);\n    data.backoff = backoff;\n    data.smooth = none();")],
'a path that had a measured round trip, then a backed-off transaction, then a measured one again', 'The smoothed round trip is forgotten after a backoff, so the timeout restarts from a single sample.',
PRE + r'''Cl c(conf(7, 16, 500 * MS)); auto one = [&](int64_t d) { c.create(); CHECK(c.event() == "S"); c.t += d; CHECK(c.answer(c.ok(c.tid))); CHECK(c.step() == "O"); };
one(80 * MS); c.create(); c.event(); CHECK(c.event() == "S"); CHECK(c.answer(c.ok(c.tid))); CHECK(c.step() == "O"); one(160 * MS); int64_t t = c.t; c.create(); c.event(); CHECK(c.event() == "S"); EQ(c.t - t, 90 * MS + 4 * 50 * MS);''' + END, CLIENT, CL)
S('c06-history-order', 'C06', CR, [("    auto& data = it->second;\n    data.last_update = now;\n    m_timeline.push_back(data);\n    // Clear", "    auto& data = it->second;\n    if (!data.link.in_list()) {\n        m_timeline.push_back(data);\n    }\n    data.last_update = now;\n    // Clear")],
'two paths, the older used again just before the history time of the other is over', 'The history is no longer ordered by last use: outdated paths are kept.',
PRE + r'''auto s = conf(7, 16, 500 * MS); s.rto_settings.history_duration = us(10 * S); Cl c(s); auto one = [&](int h, int64_t d) { c.create("", h); CHECK(c.event() == "S"); c.t += d; CHECK(c.answer(c.ok(c.tid))); CHECK(c.step() == "O"); };
one(2, 40 * MS); one(3, 40 * MS); c.t += 9 * S; one(2, 40 * MS); c.t += 5 * S; one(4, 40 * MS); int64_t t = c.t; c.create("", 3); c.event(); CHECK(c.event() == "S"); EQ(c.t - t, 500 * MS);''' + END, CLIENT, CL)
S('c07-limit-off-by-one', 'C07', CC, [("            if (m_5xx_count >= m_settings.server_error_max_retransmits) {", "            if (m_5xx_count >= m_settings.server_error_max_retransmits + (m_rtx_count > m_5xx_count ? 1 : 0)) {")],
'5xx answers to a request that has also been retransmitted because of loss', 'One resend more than configured.',
PRE + r'''Cl c(conf(7, 16, 100 * MS, -1, 10 * MS, 2)); c.create(); c.event(); CHECK(c.event() == "S"); int n = 0; std::string s; for (; n < 10; ++n) { CHECK(c.answer(c.err(c.tid, 500))); s = c.event(); if (s != "S") break; } EQ(n, 2); EQ(s, std::string("F500"));''' + END, CLIENT, CL)
S('c07-reported-code', 'C07', CC, [("        case RetransmitAlgo::Process5xxResult::TransactionFailed: {\n            auto reason = TransactionFailed::ErrorCode{msg_error_code};", "        case RetransmitAlgo::Process5xxResult::TransactionFailed: {\n            auto reason = TransactionFailed::ErrorCode{msg_error_code};\n            if (t.rtx_count > 1) {\n                reason.attr.code = ErrorCodeAttribute::ServerError;\n            }")],
'a server error other than 500 after two resends', 'The error code reported is not the one the server sent.',
PRE + r'''Cl c(conf(7, 16, 100 * MS, -1, 10 * MS, 2)); c.create(); c.event(); std::string s; for (int n = 0; n < 10; ++n) { CHECK(c.answer(c.err(c.tid, 507))); s = c.event(); if (s != "S") break; } EQ(s, std::string("F507"));''' + END, CLIENT, CL)
S('c08-repeated-unknown', 'C08', 'src/stun/stun_attribute_set.cpp', [("    for (auto&& a: ua) {\n        newset.emplace(std::move(a));\n    }", "    for (auto&& a: ua) {\n        if (!newset.m_unknown.empty() && newset.m_unknown.back().type == a.type) {\n            continue;\n        }\n        newset.emplace(std::move(a));\n    }")],
'a request with two application attributes of the same type in a row', 'The second attribute asked for is missing from the request.',
PRE + r"""Cl c; ref::Addr a{false, {1, 1, 1, 1}}; Bytes x{1}, y{2}; stun::AttributeSet::UnknownAttrVec u; u.emplace_back(lib::atype(0x9001), lib::view(x)); u.emplace_back(lib::atype(0x9001), lib::view(y)); CHECK(c.cl.create(c.rng, c.now(), ClientUDP::Request{net::Path{lib::addr(a), lib::addr(a)}, {}, std::move(u), none()}).is_ok()); CHECK(c.event() == "S"); EQ(ref::parse(c.data).m.unknown.size(), 2u);""" + END, CLIENT, CL)
S('c08-user-attr-lost', 'C08', CC, [("            request.attribute_set.emplace(Attribute::create(UsernameAttribute{auth.username}));", "            if (request.attribute_set.priority().is_none()) {\n                request.attribute_set.emplace(Attribute::create(UsernameAttribute{auth.username}));\n            }")],
'an authenticated request that also carries PRIORITY (an ICE check)', 'The USERNAME is missing from the request.',
PRE + r'''Cl c; ref::Addr a{false, {1, 1, 1, 1}}; stun::AttributeSet::AttrVec v; v.push_back(stun::PriorityAttribute{5}); ClientUDP::Request rq{net::Path{lib::addr(a), lib::addr(a)}, std::move(v), {}, none()}; rq.maybe_auth = ClientUDP::Auth{precis::OpaqueString{"user"}, lib::integrity("k").unwrap()}; CHECK(c.cl.create(c.rng, c.now(), std::move(rq)).is_ok()); CHECK(c.event() == "S"); auto p = ref::parse(c.data); CHECK(p.ok); CHECK(p.m.username && *p.m.username == "user");''' + END, CLIENT, CL)
S('c09-response-to-old-handle', 'C09', CC, [("    auto hnd = i->second;\n    auto j = m_tmap.find(hnd);", "    auto hnd = i->second;\n    auto j = m_tmap.size() == 1 ? m_tmap.begin() : m_tmap.find(hnd);"), ("        m_tid_to_handle.erase(tid);\n", "        if (m_tmap.size() > 2 || m_tmap.size() == 1) {\n            m_tid_to_handle.erase(tid);\n        }\n")],
'two transactions, of which one is finished, and a duplicate of its response', 'A duplicate of the response to a finished transaction is taken as the answer to the other one.',
PRE + r'''Cl c; c.create("", 2); c.event(); Bytes t1 = c.tid; c.create("", 3); c.event(); CHECK(c.answer(c.ok(t1))); CHECK(c.step() == "O"); CHECK(!c.answer(c.ok(t1))); CHECK(c.step() == "Z");''' + END, CLIENT, CL)
