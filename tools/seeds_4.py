NB = 'stun crypto/openssl net util ../node/node_stun ../node/openssl'; NF = '-I$r -DVH_NO_MAIN'; NJ = ('nodejs.hpp', 'stunlib.hpp'); NU = '#include "util/util_result.hpp"\n#include "util/util_maybe.hpp"\nusing namespace freewebrtc; using ref::Bytes; using namespace ref;\n'
NM = 'node/node_stun/node_stun_message.cpp'; NC = 'node/node_stun/node_stun_client_udp.cpp'; NE = 'node/node_stun/node_stun_client_udp_effects.cpp'; NA = 'node/node_stun/node_stun_client_udp_auth.cpp'; NS = 'node/node_stun/node_stun_server_stateless.cpp'; NI = 'node/node_ice/node_ice_candidate.cpp'; NH = 'node/openssl/node_openssl_hash.cpp'; NT = 'node/node_stun/node_stun_client_udp_settings.cpp'
MSG = NU + '#include "node/node_stun/node_stun_message.hpp"\n' + PRE + 'Bytes tid{1,2,3,4,5,6,7,8,9,10,11,12}; js::Env env; auto P = [&](const Enc& e) { return js::show(node_stun::message_parse(env, js::info(js::undefined(), {js::buf(e.b)}))); }; auto has = [](const std::string& a, const std::string& b) { return a.find(b) != std::string::npos; };\n'
S('b01-tie-breaker-sign', 'B01', NM, [("                        return env.create_bigint_uint64(v.get());\n                    })},\n            { \"ice-controlled\"", "                        return env.create_bigint_int64(static_cast<int64_t>(v.get()));\n                    })},\n            { \"ice-controlled\"")],
'an ICE-CONTROLLING tie-breaker of 2^63 or more', 'JavaScript sees a negative tie-breaker, so role conflicts are decided wrongly.',
MSG + 'Enc e(1, tid); e.quad(0x802a, 0xf000000000000001ull); CHECK(has(P(e), "17293822569102704641n")); Enc f(1, tid); f.quad(0x802a, 5); CHECK(has(P(f), "ice-controlling:5n"));' + END, NB, NJ, NF)
S('b01-phrase-requires-classless', 'B01', NM, [("{ \"code\", env.create_int32(v.get().code)},", "{ \"code\", env.create_int32(static_cast<int16_t>(v.get().code % 700))},")],
'an error code of 700 or more', 'The code shown to JavaScript differs from the one received.',
MSG + 'Enc e(0x111, tid); e.error(700, "x"); CHECK(has(P(e), "code:700")); Enc f(0x111, tid); f.error(438, "x"); CHECK(has(P(f), "code:438"));' + END, NB, NJ, NF)
S('b01-use-candidate-role', 'B01', NM, [('attrs.has_use_candidate() ? MaybeRVV', 'attrs.has_use_candidate() && attrs.ice_controlled().is_none() ? MaybeRVV')],
'a message with both ICE-CONTROLLED and USE-CANDIDATE', 'A flag the message carries is not shown.',
MSG + 'Enc e(1, tid); e.quad(0x8029, 7).attr(0x25, {}); CHECK(has(P(e), "use-candidate:true")); Enc f(1, tid); f.attr(0x25, {}); CHECK(has(P(f), "use-candidate:true"));' + END, NB, NJ, NF)
SRV = NU + '#include "node/node_stun/node_stun_server_stateless.hpp"\n' + PRE + r'''Bytes tid{1,2,3,4,5,6,7,8,9,10,11,12}; js::Env env; js::Class k(node_stun::server_stateless_class(env, "S")); auto mk = [&] { js::Value o = js::obj({}); CHECK(k.construct(env, o, {}).is_ok()); return o; };
auto add = [&](js::Value& o, const std::string& u, const std::string& p) { CHECK(k.call(env, o, "addUser", {js::str(u), js::str(p)}).is_ok()); };
auto run = [&](js::Value& o, const Enc& e, const std::string& a = "192.0.2.1", double port = 1000) { auto r = k.call(env, o, "process", {js::buf(e.b), js::obj({{"address", js::str(a)}, {"port", js::num(port)}})}); Bytes b; if (r.is_ok() && js::get(r.unwrap(), "data").kind() == js::Kind::buffer) b = js::bytes(js::get(r.unwrap(), "data")); return b; };
auto code = [&](const Bytes& b) { auto p = parse(b); return !p.ok ? -1 : p.m.error ? int(p.m.error->code) : p.m.cls == 2 ? 200 : 0; };
'''
S('b02-user-name-cut', 'B02', NS, [("            return precis::OpaqueString{str};\n", "            return precis::OpaqueString{str.c_str()};\n")],
'a user name that contains a NUL character', 'The user is stored under a shorter name, so another name is accepted and the real one is not.',
SRV + r'''auto o = mk(); std::string n("al\0ice", 6); add(o, n, "pw"); Enc e(1, tid); e.str(6, n).mi(lib::key("pw")); EQ(code(run(o, e)), 200); Enc f(1, tid); f.str(6, "al").mi(lib::key("pw")); EQ(code(run(o, f)), 401);''' + END, NB, NJ, NF)
S('b02-cached-sender', 'B02', NS, [("        > [](auto v)   { return net::ip::Address::from_string(v); }\n", "        > [](auto v)   {\n            static std::string last;\n            static auto parsed = net::ip::Address::from_string(v);\n            if (v.compare(0, last.size(), last) != 0 || last.empty()) {\n                last = v;\n                parsed = net::ip::Address::from_string(v);\n            }\n            return parsed;\n        }\n")],
'two consecutive senders, the first address text being a prefix of the second one', 'The answer to the second sender carries the address of the first.',
SRV + r'''auto o = mk(); Enc e(1, tid); Bytes a = run(o, e, "192.0.2.1"), b = run(o, e, "192.0.2.11"); CHECK(a != b); EQ(code(b), 200); CHECK(parse(b).m.xored && xor_bytes(*parse(b).m.xored, tid) == (Bytes{192, 0, 2, 11}));''' + END, NB, NJ, NF)
S('b02-shared-users', 'B02', NS, [("            return stun::Password::short_term(precis::OpaqueString{str}, crypto::node_openssl::sha1);\n        }).add_context(\"password (2nd parameter)\");\n", "            static std::unordered_map<std::string, std::string> seen;\n            const auto& pass = seen.emplace(str.substr(0, 16), str).first->second;\n            return stun::Password::short_term(precis::OpaqueString{pass}, crypto::node_openssl::sha1);\n        }).add_context(\"password (2nd parameter)\");\n")],
'two users whose passwords share the first sixteen characters', 'The second user gets the password of the first.',
SRV + r'''auto o = mk(); add(o, "a", "0123456789abcdefX"); add(o, "b", "0123456789abcdefY"); Enc e(1, tid); e.str(6, "b").mi(lib::key("0123456789abcdefY")); EQ(code(run(o, e)), 200); Enc f(1, tid); f.str(6, "a").mi(lib::key("0123456789abcdefX")); EQ(code(run(o, f)), 200);''' + END, NB, NJ, NF)
CLN = NU + '#include "node/node_stun/node_stun_client_udp.hpp"\n' + PRE + r'''js::Env env; js::Class k(node_stun::client_udp_class(env, "C")); auto mk = [&] { js::Value o = js::obj({}); CHECK(k.construct(env, o, {js::obj({})}).is_ok()); return o; };
auto rq = [&](js::Value& o, const std::string& u = "", const std::string& p = "") { js::Value r = js::obj({{"source", js::str("10.0.0.1")}, {"target", js::str("10.0.0.2")}}); if (!u.empty()) r.data()->props["auth"] = js::obj({{"username", js::str(u)}, {"password", js::str(p)}}).data(); return k.call(env, o, "create", {r}); };
auto next = [&](js::Value& o) { return k.call(env, o, "next", {}).unwrap(); }; auto msg = [&](js::Value& o) { return js::bytes(js::get(next(o), "message")); }; auto id = [](const Bytes& b) { return Bytes(b.begin() + 8, b.begin() + 20); };
auto resp = [&](js::Value& o, const Enc& e) { CHECK(k.call(env, o, "response", {js::buf(e.b)}).is_ok()); };
'''
S('b03-sleep-nearest', 'B03', NE, [("    auto adj = s.sleep == ms ? 0 : 1; // adjust to next whole ms", "    auto adj = s.sleep - ms < std::chrono::microseconds(500) ? 0 : 1; // adjust to nearest whole ms")],
'a remaining time of less than half a millisecond beyond a whole one', 'The caller wakes up too early and spins until the timer is due.',
CLN.replace('\nint main', '\nstatic int64_t g_us = 1000000; namespace std::chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(g_us * 1000)); } } }\nint main') + r'''auto o = mk(); rq(o); msg(o); bool woke = false; for (int i = 0; i < 4000 && !woke; ++i) { auto v = next(o); if (js::get(v, "type").data()->s != "sleep") { woke = true; break; } CHECK(js::get(v, "timeout_ms").data()->n > 0); g_us += 333; } CHECK(woke);''' + END, NB, NJ, NF)
S('b03-password-kept', 'B03', NA, [("    auto password_rv = (obj.named_property(\"password\")", "    static auto password_rv = (obj.named_property(\"password\")"), ("        , std::move(password_rv))", "        , Result<stun::Password>(password_rv))")],
'a second authenticated request with another password', 'The request is signed with the password of the first one.',
CLN + r'''auto o = mk(); rq(o, "u", "one"); Bytes a = msg(o); rq(o, "u", "two"); Bytes b = msg(o); CHECK(integrity(a, parse(a).m, lib::key("one")).value_or(false)); CHECK(integrity(b, parse(b).m, lib::key("two")).value_or(false));''' + END, NB, NJ, NF)
S('b03-fingerprint-null', 'B03', NT, [("                    return Settings::UseFingerprint{v};", "                    static bool keep = v;\n                    keep = keep || v;\n                    return Settings::UseFingerprint{keep};")],
'a client made without fingerprints after one made with them', 'Settings of one client leak into the next.',
CLN + r'''auto with = [&](bool f) { js::Value o = js::obj({}); CHECK(k.construct(env, o, {js::obj({{"use_fingerprint", js::boolean(f)}})}).is_ok()); rq(o); return bool(parse(msg(o)).m.fingerprint); }; CHECK(!with(false)); CHECK(with(true)); CHECK(!with(false));''' + END, NB, NJ, NF)
S('b03-rtt-rounded', 'B03', NE, [("std::chrono::duration_cast<std::chrono::microseconds>(rtt).count()", "std::chrono::duration_cast<std::chrono::milliseconds>(rtt).count() * 1000")],
'a round-trip time that is no whole number of milliseconds', 'The reported round-trip time loses its microseconds.',
CLN + r'''int odd = 0; for (int i = 0; i < 20; ++i) { auto o = mk(); rq(o); Bytes b = msg(o); std::this_thread::sleep_for(std::chrono::microseconds(1300)); Enc e(0x101, id(b)); e.xaddr(Addr{false, {1, 2, 3, 4}, 5}, id(b)); resp(o, e); auto v = next(o); int n = int(js::get(v, "rtt_us").data()->n); CHECK(n >= 1300); odd += n % 1000 != 0; } CHECK(odd > 0);''' + END, NB, NJ, NF)
ICN = NU + '#include "node/node_ice/node_ice_candidate.hpp"\n' + PRE + 'js::Env env; auto P = [&](const std::string& s) { return js::show(node_ice::ice_candidate_parse(env, js::info(js::undefined(), {js::str(s)}))); }; auto has = [](const std::string& a, const std::string& b) { return a.find(b) != std::string::npos; };\n'
NID = 'ice net util ../node/node_ice'
S('b04-component-byte', 'B04', NI, [('env.create_int32(c.component.value())', 'env.create_int32(static_cast<uint8_t>(c.component.value()))')],
'the component 256', 'The candidate shows component 0.', ICN + 'CHECK(has(P("candidate:1 256 udp 1 1.2.3.4 5 typ host"), "component:256")); CHECK(has(P("candidate:1 1 udp 1 1.2.3.4 5 typ host"), "component:1"));' + END, NID, NJ, NF)
S('b04-rport-zero', 'B04', NI, [('c.maybe_related_port.fmap([&](auto&& rport) { return env.create_int32(rport.value()); })', 'c.maybe_related_port.fmap([&](auto&& rport) { return env.create_int32(rport.value() == 0 ? c.port.value() : rport.value()); })')],
'a related port of 0', 'The related port shown is that of the candidate itself.', ICN + 'CHECK(has(P("candidate:1 1 udp 1 1.2.3.4 5 typ srflx raddr 10.0.0.1 rport 0"), "rport:0")); CHECK(has(P("candidate:1 1 udp 1 1.2.3.4 5 typ srflx raddr 10.0.0.1 rport 9"), "rport:9"));' + END, NID, NJ, NF)
HSH = NU + '#include "faultssl.hpp"\n#include "node/openssl/node_openssl_hash.hpp"\n' + PRE
S('b05-final-unchecked', 'B05', NH, [("    if (EVP_DigestFinal_ex(m_ctx.get(), result, NULL) != 1) {", "    if (EVP_DigestFinal_ex(m_ctx.get(), result, NULL) < 0) {")],
'libcrypto failing in the last step', 'An undefined digest is returned as if it were right.',
HSH + 'Bytes d{1, 2, 3}; std::vector<lib::View> v{lib::view(d)}; fault::arm(3, false); auto r = crypto::node_openssl::sha1(v); bool hit = fault::hits; fault::disarm(); CHECK(!hit || r.is_err()); auto q = crypto::node_openssl::sha1(v); CHECK(q.is_ok()); if (q.is_ok()) { auto w = sha1(d); CHECK(std::equal(w.begin(), w.end(), q.unwrap().value().begin())); }' + END, 'util net ../node/openssl', NJ + ('faultssl.hpp',), NF)
S('b05-shared-context', 'B05', NH, [("    return MessageDigest(EVP_sha1()).calc<crypto::SHA1Hash>(input);", "    static MessageDigest digest(EVP_sha1());\n    return digest.calc<crypto::SHA1Hash>(input);")],
'two threads that hash at the same time', 'Both use one context, so the digests are wrong.',
HSH + r'''auto work = [](uint8_t k) { Bytes d(500, k); std::vector<lib::View> v(20, lib::view(d)); Bytes all; for (int i = 0; i < 20; ++i) all.insert(all.end(), d.begin(), d.end()); auto w = sha1(all); for (int i = 0; i < 4000; ++i) { auto q = crypto::node_openssl::sha1(v); if (q.is_err() || !std::equal(w.begin(), w.end(), q.unwrap().value().begin())) { bad = 1; return; } } }; std::thread a(work, 1), b(work, 2); a.join(); b.join(); CHECK(!bad);''' + END, 'util net ../node/openssl', NJ + ('faultssl.hpp',), NF + ' -fsanitize=thread')
S('k01-final-unchecked', 'K01', 'src/crypto/openssl/openssl_hash.cpp', [("    if (EVP_DigestFinal_ex(m_ctx.get(), v.data(), NULL) != 1) {", "    if (EVP_DigestFinal_ex(m_ctx.get(), v.data(), NULL) < 0) {")],
'libcrypto failing in the last step', 'An undefined digest is returned as if it were right.',
HSH.replace('node/openssl/node_openssl_hash.hpp', 'crypto/openssl/openssl_hash.hpp') + 'Bytes d{1, 2, 3}; std::vector<lib::View> v{lib::view(d)}; fault::arm(3, false); auto r = crypto::openssl::sha1(v); bool hit = fault::hits; fault::disarm(); CHECK(!hit || r.is_err()); auto q = crypto::openssl::sha1(v); CHECK(q.is_ok()); if (q.is_ok()) { auto w = sha1(d); CHECK(std::equal(w.begin(), w.end(), q.unwrap().value().begin())); }' + END, 'util net crypto/openssl', NJ + ('faultssl.hpp',), NF)
