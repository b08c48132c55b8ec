// Hashes, HMAC and password keys (K01, K02).
// DEPS: src/crypto/openssl src/stun/stun_password.cpp src/util/util_error_code.cpp
// LIBS: -lcrypto -ldl
#include "vh.hpp"
#include "refcrypto.hpp"
#include "refmd5.hpp"
#include "faultssl.hpp"
#include <memory>
#include "crypto/crypto_hmac.hpp"
#include "crypto/openssl/openssl_hash.hpp"
#include "stun/stun_password.hpp"
using namespace freewebrtc;
using ref::Bytes; using View = util::ConstBinaryView; using crypto::SHA1Hash;
static std::string N(uint64_t v) { return std::to_string(v); }
static Bytes pattern(size_t n, int kind) { Bytes b(n); for (size_t i = 0; i < n; ++i) b[i] = kind == 0 ? uint8_t(i * 37 + 11) : kind == 1 ? 0 : kind == 2 ? 0xff : uint8_t(i ^ (i >> 8) ^ 0x5a); return b; }
// every piece in its own exact-size block
struct Pieces { std::vector<std::unique_ptr<uint8_t[]>> mem; std::vector<View> v;
    void add(const uint8_t* p, size_t n) { mem.emplace_back(new uint8_t[n]); if (n) memcpy(mem.back().get(), p, n); v.push_back(View(mem.back().get(), n)); }
    Bytes all() const { Bytes r; for (auto& x : v) r.insert(r.end(), x.begin(), x.end()); return r; } };
using ref::md5;
template<class A, class B> static bool same(const A& a, const B& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }
static void plain(vh::Ctx& c, const Pieces& p) {
    Bytes all = p.all(); c.step(2);
    auto W = [&] { std::string s = "pieces of"; for (auto& x : p.v) s += " " + N(x.size()); return s + " bytes: "; };
    auto a = crypto::openssl::sha1(p.v); c.require(a.is_ok(), "sha1", [&] { return W() + "SHA-1 failed"; });
    c.require(same(a.unwrap().value(), ref::sha1(all)) && same(a.unwrap().view(), ref::sha1(all)), "sha1", [&] { return W() + "wrong SHA-1"; });
    auto m = crypto::openssl::md5(p.v); c.require(m.is_ok() && same(m.unwrap().value(), md5(all)), "md5", [&] { return W() + "wrong MD5"; });
    auto b = crypto::openssl::sha1(p.v); c.require(b.unwrap() == a.unwrap(), "repeat");
    c.trace();
}
static void big_pieces(vh::Ctx& c, Pieces& p) {
    static const std::vector<size_t> L{4095, 4096, 8192, 16385, 32768, 65535, 65536, 65537, 100000, 131072, 1048577}; uint32_t k = c.choose(300 + uint32_t(L.size()) * 3);
    if (k < 300) { Bytes d = pattern(600, 0); size_t at = 0; for (uint32_t i = 0; i <= k; ++i) { size_t w = i % 4; if (at + w > d.size()) at = 0; p.add(d.data() + at, w); at += w; } return; }
    k -= 300; Bytes d = pattern(L[k / 3], 0); if (k % 3 == 1) p.add(d.data(), 3); p.add(d.data(), d.size()); if (k % 3) p.add(d.data() + 1, 70);
}
VH_SECTION("digests: every length", "K01") {
    size_t n = c.choose(vh::thorough() ? 2050 : 600); Bytes d = pattern(n, int(c.choose(4))); Pieces p; p.add(d.data(), n); plain(c, p); c.state(vh::mix(n, d.empty() ? 0 : d[0]));
}
VH_SECTION("digests: every split, with empty pieces", "K01") {
    static const std::vector<size_t> L{0, 1, 2, 3, 5, 55, 56, 63, 64, 65, 119, 120, 128, 129}; size_t n = vh::thorough() ? c.choose(140) : c.pick(L); Bytes d = pattern(n, 0); Pieces p; uint32_t k = c.choose(4); size_t at = 0;
    for (uint32_t i = 0; i < k; ++i) { size_t left = n - at, w = (vh::thorough() && k < 3) || left < 6 ? c.choose(left + 1) : std::vector<size_t>{0, 1, 2, left / 2, left - 1, left}[c.choose(6)]; p.add(d.data() + at, w); at += w; }
    p.add(d.data() + at, n - at); if (c.flag()) p.add(nullptr, 0); plain(c, p); c.state(c.prefix_hash());
}
VH_SECTION("digests: many pieces and large ones", "K01") { Pieces p; big_pieces(c, p); plain(c, p); c.state(c.prefix_hash()); }
VH_SECTION("digests: no pieces at all", "K01") { Pieces p; plain(c, p); }
VH_SECTION("digests: every failing call of the library is reported", "K01") {
    uint32_t n = c.choose(5), at = c.choose(10); bool quiet = c.flag(), md = c.flag(); Pieces p; for (uint32_t i = 0; i < n; ++i) { Bytes d = pattern(i * 20, int(i % 3)); p.add(d.data(), d.size()); } c.state(c.prefix_hash()); c.step(); Bytes all = p.all();
    auto judge = [&](auto r, auto want) { bool hit = fault::hits; fault::disarm(); c.outcome(hit); if (hit) { c.require(r.is_err(), "hidden-failure", [&] { return std::string("a digest of ") + N(n) + " pieces is returned although call " + N(at) + " to the library failed"; }); if (!quiet) { std::error_code e = r.unwrap_err(); c.require(bool(e), "no-error", "the failure is reported without an error"); } return; } c.require(r.is_ok() && same(r.unwrap().value(), want), "digest", "wrong digest"); };
    fault::arm(int(at), quiet); if (md) { auto r = crypto::openssl::md5(p.v); judge(r, md5(all)); } else { auto r = crypto::openssl::sha1(p.v); judge(r, ref::sha1(all)); }
    plain(c, p);
}
static auto keys(const Bytes& k, SHA1Hash::Func f) { Pieces p; p.add(k.data(), k.size()); auto i = crypto::hmac::IPadKey::from_key(p.v[0], f); auto o = crypto::hmac::OPadKey::from_key(p.v[0], f); return std::make_pair(std::move(i), std::move(o)); }
static void hmac(vh::Ctx& c, const Bytes& key, const Pieces& p) {
    c.step(3); auto [i, o] = keys(key, crypto::openssl::sha1); auto W = [&] { return "key of " + N(key.size()) + " bytes, message of " + N(p.all().size()) + " bytes in " + N(p.v.size()) + " pieces: "; };
    c.require(i.is_ok() && o.is_ok(), "pad-key", [&] { return W() + "padded key not made"; });
    Bytes bk = ref::block_key(key), wi = bk, wo = bk; for (auto& x : wi) x ^= 0x36; for (auto& x : wo) x ^= 0x5c;
    c.require(same(i.unwrap().view(), wi), "pad-key", [&] { return W() + "wrong inner padded key"; }); c.require(same(o.unwrap().view(), wo), "pad-key", [&] { return W() + "wrong outer padded key"; });
    SHA1Hash::Func f = crypto::openssl::sha1; auto d = crypto::hmac::digest(p.v, o.unwrap(), i.unwrap(), f);
    c.require(d.is_ok(), "hmac", [&] { return W() + "failed"; }); c.require(same(d.unwrap().value.value(), ref::hmac_sha1(key, p.all())), "hmac", [&] { return W() + "wrong HMAC-SHA1"; });
    c.trace();
}
VH_SECTION("hmac: every key length with every message length", "K01") {
    size_t k = c.choose(vh::thorough() ? 260 : 140), n = vh::thorough() ? c.choose(260) : c.pick(std::vector<size_t>{0, 1, 7, 20, 44, 55, 56, 57, 63, 64, 65, 100, 119, 128, 200}); Bytes key = pattern(k, int(c.choose(vh::thorough() ? 2 : 4))); Bytes m = pattern(n, 3); Pieces p; p.add(m.data(), n); hmac(c, key, p); c.state(vh::mix(k, n));
}
VH_SECTION("hmac: many pieces and large ones", "K01") { Pieces p; big_pieces(c, p); hmac(c, pattern(20, 0), p); c.state(c.prefix_hash()); }
VH_SECTION("hmac: long keys", "K01") { static const std::vector<size_t> L{255, 256, 257, 320, 511, 512, 1000, 1024, 4096, 65535, 65536, 65600}; Pieces p; Bytes m = pattern(30, 0); p.add(m.data(), 30); size_t n = c.pick(L); hmac(c, pattern(n, 0), p); c.state(n); }
VH_SECTION("hmac: every split of short messages", "K01") {
    size_t k = c.pick(std::vector<size_t>{0, 1, 20, 63, 64, 65, 200}), n = c.choose(vh::thorough() ? 9 : 7), at = 0; Bytes m = pattern(n, 0); Pieces p; uint32_t cuts = c.choose(4);
    for (uint32_t i = 0; i < cuts; ++i) { size_t w = c.choose(n - at + 1); p.add(m.data() + at, w); at += w; } if (at < n || !c.flag()) p.add(m.data() + at, n - at);
    hmac(c, pattern(k, 0), p); c.state(c.prefix_hash());
}
VH_SECTION("hmac: every single-bit change of key or message changes the digest", "K01") {
    Bytes key = pattern(c.pick(std::vector<size_t>{8, 64, 80}), 0), m = pattern(70, 3); size_t b = c.choose((key.size() + m.size()) * 8); auto run = [&] { auto [i, o] = keys(key, crypto::openssl::sha1); Pieces p; p.add(m.data(), m.size()); SHA1Hash::Func f = crypto::openssl::sha1; return crypto::hmac::digest(p.v, o.unwrap(), i.unwrap(), f).unwrap().value; };
    auto a = run(); (b / 8 < key.size() ? key[b / 8] : m[b / 8 - key.size()]) ^= uint8_t(1 << b % 8); c.require(!(run() == a), "collision", "two different inputs have the same digest");
}
VH_SECTION("hmac: a failing hash function is an error", "K01,K02") {
    size_t k = c.pick(std::vector<size_t>{0, 5, 64, 65, 130}); uint32_t at = c.choose(5), called = 0; bool failed = false;
    SHA1Hash::Func f = [&](const SHA1Hash::Input& in) -> SHA1Hash::Result { if (called++ == at) { failed = true; return std::make_error_code(std::errc::io_error); } return crypto::openssl::sha1(in); };
    Bytes key = pattern(k, 0); c.step(3); auto [i, o] = keys(key, f); if (i.is_err() || o.is_err()) { c.require(failed, "spurious"); return; } c.require(!failed, "hidden-failure", "the hash function failed but a padded key was made");
    Pieces p; p.add(key.data(), 3 * (k > 2)); auto d = crypto::hmac::digest(p.v, o.unwrap(), i.unwrap(), f); c.require(d.is_err() == failed, "hidden-failure", [&] { return std::string(failed ? "the hash function failed but" : "the hash function did not fail and") + " the HMAC " + (d.is_err() ? "failed" : "was made"); });
    if (failed) { std::error_code e = d.unwrap_err(); c.require(e == std::make_error_code(std::errc::io_error), "error-code", "the error is not the hash function's"); }
}
VH_SECTION("hash values: kept, compared and taken from views exactly", "K01") {
    uint32_t n = c.choose(41); Bytes b = pattern(n, 0); View v(b.data(), n); auto h = SHA1Hash::from_view(v); c.require(h.is_some() == (n == 20), "from-view", [&] { return "SHA-1 value from " + N(n) + " bytes"; }); c.require(crypto::MD5Hash::from_view(v).is_some() == (n == 16) && crypto::SHA256Hash::from_view(v).is_some() == (n == 32), "from-view");
    if (n == 20) { auto x = h.unwrap(); c.require(same(x.value(), b) && same(x.view(), b), "value"); uint32_t bit = c.choose(161); Bytes b2 = b; if (bit < 160) b2[bit / 8] ^= uint8_t(1 << bit % 8); auto y = SHA1Hash::from_view(View(b2.data(), 20)).unwrap(); c.require((x == y) == (bit == 160), "equality", [&] { return "hash values equal although bit " + N(bit) + " differs, or different although equal"; }); SHA1Hash z = x; z = y; c.require(z == y && same(z.value(), b2), "assignment"); }
}
// ---------------------------------------------------------------- K02
static precis::OpaqueString text(const Bytes& b) { return precis::OpaqueString{std::string(b.begin(), b.end())}; }
static stun::Password password(vh::Ctx& c, const Bytes& b) { auto r = stun::Password::short_term(text(b), crypto::openssl::sha1); c.require(r.is_ok(), "short-term", [&] { return "no key from a password of " + N(b.size()) + " bytes"; }); return r.unwrap(); }
static void is_key(vh::Ctx& c, const stun::Password& p, const Bytes& b, const char* key) {
    Bytes bk = ref::block_key(b), wi = bk, wo = bk; for (auto& x : wi) x ^= 0x36; for (auto& x : wo) x ^= 0x5c;
    c.require(same(p.ipad().view(), wi) && same(p.opad().view(), wo), key, [&] { return "key of the password " + vh::hex(b) + " is wrong"; });
}
VH_SECTION("passwords: every length and filling", "K02") {
    size_t n = c.choose(vh::thorough() ? 600 : 200); Bytes b = pattern(n, int(c.choose(4))); auto p = password(c, b); is_key(c, p, b, "key"); stun::Password q = p, r(std::move(q)); stun::Password s = password(c, Bytes{1, 2, 3}); s = r; is_key(c, r, b, "copy"); is_key(c, s, b, "copy"); c.require(s == p && r == p, "copy-equal");
    SHA1Hash::Func f = crypto::openssl::sha1; Bytes m = pattern(33, 2); auto d = crypto::hmac::digest({View(m.data(), m.size())}, s.opad(), s.ipad(), f); c.require(same(d.unwrap().value.value(), ref::hmac_sha1(b, m)), "digest"); c.trace(); c.state(vh::mix(n, b.empty() ? 1 : b[0]));
}
VH_SECTION("passwords: equal keys exactly for passwords HMAC cannot tell apart", "K02") {
    size_t n = c.choose(vh::thorough() ? 140 : 72); Bytes a = pattern(n, 0), b = a; uint32_t how = c.choose(5);
    if (how == 0) { if (!n) return; b[c.choose(uint32_t(n))] ^= uint8_t(1 << c.choose(8)); } else if (how == 1) b.resize(n + 1 + c.choose(70), 0); else if (how == 2) { if (!n) return; b.resize(c.choose(uint32_t(n))); } else if (how == 3) { auto h = ref::sha1(a); b.assign(h.begin(), h.end()); } else { b.push_back('x'); }
    auto p = password(c, a), q = password(c, b); bool want = ref::block_key(a) == ref::block_key(b); c.require((p == q) == want && (q == p) == want && (p != q) != want, "equality", [&] { return "passwords " + vh::hex(a) + " and " + vh::hex(b) + (want ? " must" : " must not") + " give equal keys"; }); c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("passwords: failing hash function", "K02") {
    size_t n = c.choose(140); uint32_t at = c.choose(4), called = 0; bool failed = false; Bytes b = pattern(n, 0);
    SHA1Hash::Func f = [&](const SHA1Hash::Input& in) -> SHA1Hash::Result { if (called++ == at) { failed = true; return std::make_error_code(std::errc::io_error); } return crypto::openssl::sha1(in); };
    auto r = stun::Password::short_term(text(b), f); c.require(r.is_err() == failed, "hidden-failure", [&] { return "hash function failing at call " + N(at) + ", password of " + N(n) + " bytes: " + (r.is_ok() ? "a key was made" : "error without a failure"); }); if (r.is_ok()) is_key(c, r.unwrap(), b, "key");
}
VH_SECTION("passwords: keys made in any order are independent", "K02") {
    std::vector<Bytes> B{pattern(3, 0), pattern(64, 0), pattern(65, 0), pattern(90, 3), Bytes{}}; std::vector<std::pair<stun::Password, int>> made; for (uint32_t i = 0; i < 4; ++i) { int w = int(c.choose(5)); made.push_back({password(c, B[w]), w}); for (auto& [p, x] : made) is_key(c, p, B[x], "interference"); } c.state(c.prefix_hash());
}
