# Work out of proportion (U11): the demonstrations compare the processor time of
# a small and a sixteen times larger input, the best of several tries.
TIME = r'''#include <ctime>
#include <algorithm>
#include <functional>
static double once(const std::function<void()>& f) { timespec a, b; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a); f(); clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b); return double(b.tv_sec - a.tv_sec) + double(b.tv_nsec - a.tv_nsec) * 1e-9; }
static double cpu(const std::function<void()>& f) { double m = 1e9; for (int i = 0; i < 3; ++i) m = std::min(m, once(f)); return m; }
'''
def ratio(n, f, limit=70): return 'auto F = [&](int n) { return cpu([&] { ' + f + ' }); }; double a = F(%d), b = F(%d); printf("%%g %%g\\n", a, b); CHECK(b < %d * (a + 1e-4));' % (n, 16 * n, limit)
S('u11-users-scan', 'U11', SS, [("        const auto user_password_pair_it = m_users.find(username);", "        const auto user_password_pair_it = std::find_if(m_users.begin(), m_users.end(), [&](const auto& user) {\n            return user.first == username;\n        });")],
'a server with thousands of users', 'Every authenticated request looks at every user.',
TIME + SVR.replace('#include', '#include', 1) + 'Bytes t(12, 1); auto make = [&](int n) { stun::server::Stateless v(crypto::openssl::sha1, none()); auto pw = stun::Password::short_term(precis::OpaqueString{"p"}, crypto::openssl::sha1).unwrap(); for (int i = 0; i < n; ++i) v.add_user(precis::OpaqueString{"user" + std::to_string(i)}, pw); double c = cpu([&] { for (int i = 0; i < 300; ++i) { Enc e(1, t); e.str(6, "user" + std::to_string(i)).mi(lib::key("p")); auto b = e.b; (void)v.process(net::UdpEndpoint{lib::addr({false, {1, 2, 3, 4}, 0}), lib::port(9)}, lib::view(b)); } }); return c; }; double a = make(300), b = make(100000); printf("%g %g\\n", a, b); CHECK(b < 8 * (a + 1e-4));' + END, STUN, LIB + ('stun/stun_server_stateless.hpp',))
S('u11-timer-erase', 'U11', CC, [("        // We intentionally do not remove transaction from timeline if\n        // it is there it will be just ignored on next.\n", "        decltype(m_tid_timeline) timeline;\n        while (!m_tid_timeline.empty()) {\n            if (m_tid_timeline.top().second.value != hnd.value) {\n                timeline.push(m_tid_timeline.top());\n            }\n            m_tid_timeline.pop();\n        }\n        m_tid_timeline = std::move(timeline);\n")],
'thousands of transactions at a time', 'The end of every transaction goes through the timers of all.',
TIME + PRE + ratio(400, 'Cl c; std::vector<Bytes> ids; for (int i = 0; i < n; ++i) { c.create(); CHECK(c.step() == "S"); ids.push_back(c.tid); } for (auto& i : ids) { CHECK(c.answer(c.ok(i))); CHECK(c.step() == "O"); }') + END, CLIENT, CL)
S('u11-idle-look', 'U11', CC, [("    if (m_tid_timeline.empty()) {\n        return Idle{};", "    const bool active = std::any_of(m_tmap.rbegin(), m_tmap.rend(), [](const auto& t) {\n        return t.second.finished;\n    });\n    if (m_tid_timeline.empty() && !active) {\n        return Idle{};")] if False else [("    if (m_tid_timeline.empty()) {\n        return Idle{};", "    const bool active = std::count_if(m_tmap.begin(), m_tmap.end(), [](const auto& t) {\n        return !t.second.finished;\n    }) != 0;\n    if (m_tid_timeline.empty() && !active) {\n        return Idle{};")],
'thousands of transactions waiting while the client is polled', 'Every poll with nothing to do looks at every transaction.',
TIME + PRE + ratio(1000, 'Cl c; for (int i = 0; i < n; ++i) { c.create(); CHECK(c.step() == "S"); CHECK(c.step() == "Z"); }') + END, CLIENT, CL)
S('u11-history-scan', 'U11', CR, [("    while (\n        m_timeline.front()\n        .fmap([&](auto&& front) {", "    if (std::none_of(m_by_path.begin(), m_by_path.end(), [&](const auto& p) {\n        return now - p.second.last_update > m_settings.history_duration;\n    })) {\n        return;\n    }\n    while (\n        m_timeline.front()\n        .fmap([&](auto&& front) {")],
'thousands of paths with a history', 'Every measurement looks at every path.',
TIME + PRE + ratio(1000, 'Cl c; for (int i = 0; i < n; ++i) { ref::Addr x{false, {192, 168, 0, 1}, 0}, y{false, {10, uint8_t(i >> 16), uint8_t(i >> 8), uint8_t(i)}, 0}; (void)c.cl.create(c.rng, c.now(), ClientUDP::Request{net::Path{lib::addr(x), lib::addr(y)}, {}, {}, none()}); CHECK(c.step() == "S"); c.t += 30; CHECK(c.answer(c.ok(c.tid))); CHECK(c.step() == "O"); }') + END, CLIENT, CL)
S('u11-tid-probe', 'U11', CC, [("        transaction_id = TransactionId::generate(rnd);", "        transaction_id = TransactionId::generate(rnd);")] if False else [("    auto i = m_tid_to_handle.find(tid);\n    if (i == m_tid_to_handle.end()) {", "    auto i = m_tid_to_handle.find(tid);\n    if (i == m_tid_to_handle.end()) {\n        // Handle may be registered without id\n        for (const auto& [_, t]: m_tmap) {\n            if (t.tid == tid && !t.finished) {\n                return std::ref(m_tmap.find(t.hnd)->second);\n            }\n        }")],
'responses with unknown transaction ids while thousands of transactions are live', 'Every such datagram is compared with every transaction.',
TIME + PRE + ratio(800, 'Cl c; for (int i = 0; i < n; ++i) c.create(); Bytes t(12, 9); for (int i = 0; i < n; ++i) CHECK(!c.answer(c.ok(t)));') + END, CLIENT, CL)
S('u11-same-extension', 'U11', SD, [("                    extensions.emplace_back(Supported::Extension{", "                    // The same extension may come several times\n                    size_t known = 0;\n                    for (const auto& e: extensions) {\n                        known += e.att_name == att_name ? 1 : 0;\n                    }\n                    extensions.reserve(extensions.size() + known + 1);\n                    extensions.emplace_back(Supported::Extension{")],
'candidate lines with thousands of extensions', 'Every extension is compared with all before it.',
TIME + '#include "ice/candidate/ice_candidate_sdp.hpp"\n' + PRE + ratio(400, 'std::string s = "candidate:1 1 udp 1 1.2.3.4 5 typ host"; for (int i = 0; i < n; ++i) s += " a b"; auto r = freewebrtc::ice::candidate::parse_sdp_attr(s); (void)r;') + END, ICE)
S('u11-label-rescan', 'U11', 'src/net/net_fqdn.cpp', [("        sz += parse_success.value.size();", "        sz += parse_success.value.size();\n        if (v.substr(0, sz).find('.', sz - parse_success.value.size()) != std::string_view::npos\n            || v.substr(0, sz).find(\"..\") != std::string_view::npos) {\n            return return_success();\n        }")],
'domain names of thousands of labels', 'Every label looks through all characters before it.',
TIME + '#include "net/net_fqdn.hpp"\n' + PRE + ratio(1500, 'std::string s = "a"; for (int i = 0; i < n; ++i) s += ".a"; auto r = freewebrtc::net::Fqdn::from_string(s); (void)r;') + END, NET)
