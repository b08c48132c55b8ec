// The Node bindings in other programs: locale, errno, pending errors of the
// crypto library, contents and place of memory (U12).
// DEPS: src/stun src/ice src/net src/util src/crypto/openssl node/node_stun node/node_ice node/openssl
// INCS: .
// SAN: no
// LIBS: -lcrypto -ldl
#include "vh.hpp"
#include "ambient.hpp"
#include "faultssl.hpp"
#include "actors_node.hpp"
using amb::Env;
static const int OPS = 12;
static const std::vector<std::string>& alone(int k, int v) { static std::map<std::pair<int, int>, std::vector<std::string>> m; auto& r = m[{k, v}]; if (r.empty()) r = act::solo(k, v, OPS); return r; }
static void warm() { static bool done = false; if (done) return; done = true; for (int k = 0; k < act::KINDS; ++k) for (int v = 0; v < act::VARIANTS; ++v) (void)alone(k, v); for (unsigned l = 0; l < amb::LOCALES; ++l) amb::set_locale(l); amb::set_locale(0); }
static std::string who(int k, int v) { return std::string("the ") + act::kind_name(k) + " " + act::N(v); }
static void same(vh::Ctx& c, const std::string& what, const std::string& got, const std::string& want, const Env& e, const std::string& changed) {
    c.step(); c.outcome(vh::hash_str(got)); c.require(got == want, "depends", [&] { return what + " gives\n    " + got + "\n  instead of\n    " + want + "\n  with " + e.show(); }); c.require(changed.empty(), "changes-program", [&] { return what + " changes " + changed + " with " + e.show(); });
}
VH_SECTION("every binding in every environment", "U12") {
    warm(); int k = int(c.choose(act::KINDS)), v = int(c.choose(act::VARIANTS)); const Env& e = amb::all()[c.choose(uint32_t(amb::all().size()))]; std::unique_ptr<act::Actor> a; std::string ch;
    for (int i = 0; i < OPS; ++i) { std::string got = amb::in(e, ch, [&] { if (!a) a = act::make(k, v); return a->op(i); }); same(c, "operation " + act::N(i) + " of " + who(k, v), got, alone(k, v)[size_t(i)], e, ch); } c.trace(); c.state(c.prefix_hash()); c.sample([&] { return who(k, v) + " with " + e.show(); });
}
VH_SECTION("the environment changes between operations of the bindings", "U12") {
    warm(); int k = int(c.choose(act::KINDS)), v = int(c.choose(act::VARIANTS)), n = vh::thorough() ? 8 : 6; std::unique_ptr<act::Actor> a; std::string ch, order;
    for (int i = 0; i < n; ++i) { const Env& e = amb::few()[c.choose(uint32_t(amb::few().size()))]; order += "\n  " + e.show(); std::string got = amb::in(e, ch, [&] { if (!a) a = act::make(k, v); return a->op(i); }); same(c, "operation " + act::N(i) + " of " + who(k, v) + " (environments:" + order + ")", got, alone(k, v)[size_t(i)], e, ch); } c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("the binding's hashes fail while other errors are pending", "U12") {
    warm(); bool md = c.choose(2), quiet = c.choose(2); int n = int(c.choose(4)), at = int(c.choose(8)); ref::Bytes d(50, 3); std::vector<lib::View> p(size_t(n), lib::view(d));
    auto run = [&](int stale) { Env e; e.stale = stale; std::string ch; std::string s = amb::in(e, ch, [&] { fault::arm(at, quiet); auto show = [&](auto r) { int hits = fault::hits; fault::at = -1; if (r.is_ok()) return std::string(hits ? "hidden failure" : "fine"); std::error_code x = r.unwrap_err(); return std::string(hits ? "" : "no failure, yet ") + act::N(x.value()) + x.category().name() + x.message(); }; return md ? show(freewebrtc::crypto::node_openssl::md5(p)) : show(freewebrtc::crypto::node_openssl::sha1(p)); }); fault::disarm(); return s + ch; };
    std::string want = run(0); for (int stale : {0, 1, 2, 15, 40}) { std::string got = run(stale); c.step(); c.outcome(vh::hash_str(got)); c.require(got == want, "stale-error", [&] { return std::string(md ? "md5" : "sha1") + " of " + act::N(n) + " pieces with failing call " + act::N(at) + " gives '" + got + "' instead of '" + want + "' when " + act::N(stale) + " other errors are pending"; }); } c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("the bindings write nothing to standard output or error", "U12") {
    warm(); int k = int(c.choose(act::KINDS)), v = int(c.choose(act::VARIANTS)); std::string out; { amb::Quiet q; auto a = act::make(k, v); for (int i = 0; i < 40; ++i) (void)a->op(i); out = q.stop(); } c.step(40); c.require(out.empty(), "writes", [&] { return who(k, v) + " writes to the standard output or error: " + out; }); c.trace(); c.state(c.prefix_hash());
}
