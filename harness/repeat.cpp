// The same call, tens of thousands of times, with any other call in between:
// functions of their arguments give the same answer whatever was called before.
// DEPS: src/stun src/rtp src/ice src/crypto/openssl src/net src/util
// SAN: no
// LIBS: -lcrypto
#include "pureops.hpp"
static std::vector<size_t> mine() { std::vector<size_t> v; for (size_t i = 0; i < ops().size(); ++i) { std::string p = "," + ops()[i].props + ","; if (p.find("," + vh::G().property + ",") != std::string::npos) v.push_back(i); } return v; }
#define ALL "S01,S02,S03,S04,S05,S06,S07,S08,K01,K02,R01,R02,R03,N01,N02,N03,N04,I01,I02,I03,U02,U03,U05,U09"
static void again(vh::Ctx& c, size_t i, int k, const std::string& where) { c.step(); std::string g = ops()[i].f(); c.require(g == first(i), "changed", [&] { return ops()[i].name + " gives '" + g + "' instead of '" + first(i) + "' " + where + " (call " + N(k) + ")"; }); }
VH_SECTION("repeat: every call tens of thousands of times", ALL) {
    auto m = mine(); size_t i = c.pick(m); first(0); int n = vh::thorough() ? 2000000 : 66000; double t0 = vh::now_s(); for (int k = 0; k < n; ++k) { again(c, i, k, "when repeated"); if (k % 64 == 0 && k > 66000 && vh::now_s() - t0 > 60) break; } c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("repeat: every call after any number of any other calls", ALL) {
    auto m = mine(); size_t i = c.pick(m), j = c.pick(m); static const std::vector<int> K{1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025}; int x = c.pick(K); first(0); int rounds = x < 40 ? 40 : 3;
    for (int r = 0; r < rounds; ++r) { for (int k = 0; k < x; ++k) again(c, j, k, "after " + ops()[i].name); again(c, i, r, "after " + N(x) + " times " + ops()[j].name); } c.trace(); c.state(c.prefix_hash());
}
VH_SECTION("repeat: all calls in every rotation, many rounds", ALL) {
    auto m = mine(); size_t s = c.choose(uint32_t(m.size())), step = 1 + c.choose(uint32_t(std::min<size_t>(m.size(), 6))); first(0); int n = vh::thorough() ? 100000 : 6000; for (int k = 0; k < n; ++k) again(c, m[(s + size_t(k) * step) % m.size()], k, "among all"); c.trace(); c.state(c.prefix_hash());
}
