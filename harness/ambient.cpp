// Results do not depend on the program around the library: the locale, errno,
// errors pending in libcrypto, what memory contains and where it lies (U12).
// DEPS: src/stun src/rtp src/ice src/crypto src/net src/util
// SAN: no
// LIBS: -lcrypto -ldl
#include "vh.hpp"
#include "ambient.hpp"
#include "faultssl.hpp"
#include "actors.hpp"
#include "pureops.hpp"
#include "abnf/abnf.hpp"
using amb::Env;
static const int OPS = 12;
static const std::vector<std::string>& alone(int k, int v) { static std::map<std::pair<int, int>, std::vector<std::string>> m; auto& r = m[{k, v}]; if (r.empty()) r = act::solo(k, v, OPS); return r; }
static void warm() { static bool done = false; if (done) return; done = true; for (int k = 0; k < act::KINDS; ++k) for (int v = 0; v < act::VARIANTS; ++v) (void)alone(k, v); for (size_t i = 0; i < ops().size(); ++i) (void)first(i); for (unsigned l = 0; l < amb::LOCALES; ++l) amb::set_locale(l); amb::set_locale(0); }
static std::string who(int k, int v) { return std::string("the ") + act::kind_name(k) + " " + act::N(v); }
static void same(vh::Ctx& c, const std::string& what, const std::string& got, const std::string& want, const Env& e, const std::string& changed) {
    c.step(); c.outcome(vh::hash_str(got)); c.require(got == want, "depends", [&] { return what + " gives\n    " + got + "\n  instead of\n    " + want + "\n  with " + e.show(); }); c.require(changed.empty(), "changes-program", [&] { return what + " changes " + changed + " with " + e.show(); });
}
VH_SECTION("every instance in every environment", "U12") {
    warm(); int k = int(c.choose(act::KINDS)), v = int(c.choose(act::VARIANTS)); const Env& e = amb::all()[c.choose(uint32_t(amb::all().size()))]; std::unique_ptr<act::Actor> a; std::string ch;
    for (int i = 0; i < OPS; ++i) { std::string got = amb::in(e, ch, [&] { if (!a) a = act::make(k, v); return a->op(i); }); same(c, "operation " + act::N(i) + " of " + who(k, v), got, alone(k, v)[size_t(i)], e, ch); } c.trace(); c.state(c.prefix_hash()); c.sample([&] { return who(k, v) + " with " + e.show(); });
}
VH_SECTION("the environment changes between operations", "U12") {
    warm(); int k = int(c.choose(act::KINDS)), v = int(c.choose(act::VARIANTS)), n = vh::thorough() ? 8 : 6; std::unique_ptr<act::Actor> a; std::string ch, order;
    for (int i = 0; i < n; ++i) { const Env& e = amb::few()[c.choose(uint32_t(amb::few().size()))]; order += "\n  " + e.show(); std::string got = amb::in(e, ch, [&] { if (!a) a = act::make(k, v); return a->op(i); }); same(c, "operation " + act::N(i) + " of " + who(k, v) + " (environments:" + order + ")", got, alone(k, v)[size_t(i)], e, ch); } c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("every pure call in every environment", "U12") {
    warm(); size_t i = c.choose(uint32_t(ops().size())); const Env& e = amb::all()[c.choose(uint32_t(amb::all().size()))]; std::string ch; for (int r = 0; r < 2; ++r) same(c, ops()[i].name, amb::in(e, ch, [&] { return ops()[i].f(); }), first(i), e, ch); c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("letters in every locale", "U12,U08") {
    warm(); unsigned l = c.choose(amb::LOCALES); Env e; e.loc = l; unsigned a = c.choose(256); std::string ch, bad; static const auto low = [](unsigned x) { return x >= 'A' && x <= 'Z' ? x + 32 : x; };
    bad = amb::in(e, ch, [&] { std::string s; char x = char(a); bool up = a >= 'A' && a <= 'Z', lo = a >= 'a' && a <= 'z', dg = a >= '0' && a <= '9'; if (abnf::is_ALPHA(x) != (up || lo)) s += "is_ALPHA "; if (abnf::is_DIGIT(x) != dg) s += "is_DIGIT "; if (uint8_t(abnf::to_lower(x)) != low(a)) s += "to_lower ";
        for (unsigned b = 0; b < 256; ++b) { bool w = low(a) == low(b); std::string p(1, x), q(1, char(b)); if (abnf::eq_string(p, q) != w || abnf::eq_string("typ" + p, "TYP" + q) != w) s += "eq_string " + N(b) + " "; } return s; });
    c.step(256); c.require(bad.empty(), "letters", [&] { return "character " + N(a) + " in " + amb::locale_name(l) + ": " + bad; }); c.trace(); c.state(c.prefix_hash()); c.outcome(a + l);
}
VH_SECTION("texts of every character in every locale", "U12") {   // the readers of text, one character replaced
    struct T { const char* base; std::function<std::string(std::string_view)> f; }; static const std::vector<T> ts{
        {"a-b.example", [](std::string_view t) { auto r = net::Fqdn::from_string(t); return r.is_ok() ? r.unwrap().to_string() : err(std::error_code(r.unwrap_err())); }}, {"8080", [](std::string_view t) { auto r = net::Port::from_string(t); return r.is_ok() ? N(r.unwrap().value()) : err(std::error_code(r.unwrap_err())); }},
        {"192.0.2.1", [](std::string_view t) { auto r = net::ip::Address::from_string(t); return r.is_ok() ? H(r.unwrap().view()) + r.unwrap().to_string().unwrap() : err(std::error_code(r.unwrap_err())); }}, {"2001:dB8::1f", [](std::string_view t) { auto r = net::ip::Address::from_string(t); return r.is_ok() ? H(r.unwrap().view()) + r.unwrap().to_string().unwrap() : err(std::error_code(r.unwrap_err())); }},
        {"candidate:f1 1 UDP 2122260223 192.0.2.1 50000 typ srflx raddr 10.0.0.1 rport 9 generation 0", [](std::string_view t) { return candidate(std::string(t)); }}, {"candidate:Ii 12 Udp 1 host.local 1000 TYP HosT", [](std::string_view t) { return candidate(std::string(t)); }}};
    warm(); auto& t = c.pick(ts); size_t n = std::strlen(t.base), at = c.choose(uint32_t(n + 1)); std::string x(t.base, n); if (at == n) x += ' '; std::vector<std::string> want; for (int b = 0; b < 256; ++b) { x[at] = char(b); want.push_back(t.f(x)); }
    for (unsigned l = 0; l < amb::LOCALES; ++l) for (int f : {-1, 0xff}) { Env e; e.loc = l; e.fill = f; e.err = f < 0 ? 0 : ENOSPC; e.place = f < 0 ? 0 : 2; for (int b = 0; b < 256; ++b) { x[at] = char(b); std::string ch; same(c, "reading '" + x + "'", amb::in(e, ch, [&] { return t.f(x); }), want[size_t(b)], e, ch); } } c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("datagrams of every byte with other leftovers in memory", "U12") {
    warm(); static const auto d = datagrams(); auto& [n, b] = c.pick(d); if (b.empty()) return; size_t at = c.choose(uint32_t(b.size())); Bytes x = b; for (int m = 1; m < 256; m += vh::thorough() ? 1 : 14) { x[at] = uint8_t(b[at] ^ m); std::string want = parsed(x) + signature(x, "key"), ch; for (auto& e : amb::few()) same(c, "parsing " + n + " with byte " + N(int64_t(at)) + " changed", amb::in(e, ch, [&] { return parsed(x) + signature(x, "key"); }), want, e, ch); } c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("a failing crypto library while other errors are pending", "U12") {
    warm(); int op = int(c.choose(6)), at = int(c.choose(24)); bool quiet = c.choose(2); Bytes d(100, 7), k(30, 9); std::vector<View> p{View(d.data(), 33), View(d.data() + 33, 67)}; static const stun::Password pw = act::password("key"); static const auto signedmsg = [] { ref::Enc e(0x101, ID); e.mi(lib::key("key")); return e.b; }();
    auto run = [&](int stale, int place) { Env e; e.stale = stale; e.place = place; e.fill = place ? 0xff : -1; std::string ch; std::string s = amb::in(e, ch, [&] { fault::arm(at, quiet); auto show = [&](auto r, auto f) { int hits = fault::hits; fault::at = -1; if (r.is_ok()) return std::string(hits ? "hidden failure " : "") + f(r.unwrap()); std::error_code x = r.unwrap_err(); return std::string(hits ? "" : "no failure, yet ") + err(x); }; crypto::SHA1Hash::Func f = crypto::openssl::sha1;
        switch (op) { case 0: return show(crypto::openssl::sha1(p), [](auto& x) { return H(x.value()); }); case 1: return show(crypto::openssl::md5(p), [](auto& x) { return H(x.value()); }); case 2: return show(stun::Password::short_term(precis::OpaqueString{std::string(90, 'k')}, f), [](auto& x) { return H(x.ipad().view()); }); case 3: return show(crypto::hmac::digest(p, pw.opad(), pw.ipad(), f), [](auto& x) { return H(x.value.value()); });
        case 4: { ref::Msg m; m.tid = ID; m.method = 1; m.username = "u"; auto msg = lib::message(m, true, false); return show(msg.build(lib::integrity("key")), [](auto& x) { return H(x); }); }
        default: { stun::ParseStat st; auto m = stun::Message::parse(lib::view(signedmsg), st); return show(m.unwrap().is_valid(lib::view(signedmsg), stun::IntegrityData{pw, f}), [](auto& x) { return std::string(x.is_none() ? "unsigned" : x.unwrap() ? "valid" : "invalid"); }); } } }); fault::disarm(); return s + (ch.empty() ? "" : " and changes " + ch); };
    std::string want = run(0, 0); c.require(want.find("hidden") == std::string::npos && want.find("no failure") == std::string::npos, "fails", [&] { return "call " + N(at) + " of operation " + N(op) + " failing: " + want; });
    for (int stale : {0, 1, 2, 15, 40}) for (int place : {0, 1, 2}) { std::string got = run(stale, place); c.step(); c.outcome(vh::hash_str(got)); c.require(got == want, "stale-error", [&] { return "operation " + N(op) + " with failing call " + N(at) + (quiet ? " (silently)" : "") + " gives '" + got + "' instead of '" + want + "' when " + N(stale) + " other errors are pending in the crypto library"; }); } c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("the library writes nothing to standard output or error", "U12") {
    warm(); int k = int(c.choose(act::KINDS + 1)), v = int(c.choose(act::VARIANTS)); std::string out; { amb::Quiet q; if (k < act::KINDS) { auto a = act::make(k, v); for (int i = 0; i < 40; ++i) (void)a->op(i); } else for (auto& o : ops()) (void)o.f(); out = q.stop(); } c.step(40); c.require(out.empty(), "writes", [&] { return (k < act::KINDS ? who(k, v) : "a pure call") + " writes to the standard output or error: " + out; }); c.trace(); c.state(c.prefix_hash());
}
