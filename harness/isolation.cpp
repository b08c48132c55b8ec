// Independent instances in one program (U07): every interleaving of operations.
// DEPS: src/stun src/rtp src/ice src/crypto src/net src/util
// LIBS: -lcrypto
#include "vh.hpp"
#include "actors.hpp"
using namespace act;
static std::string label(int k, int v) { return std::string(kind_name(k)) + N(v); }
static const std::vector<std::string>& alone(int k, int v) { static std::map<std::pair<int, int>, std::vector<std::string>> m; auto& r = m[{k, v}]; if (r.empty()) r = solo(k, v, 12); return r; }
static void interleave(vh::Ctx& c, std::vector<std::pair<int, int>> who, std::vector<int> ops, bool lazy) {
    std::vector<std::unique_ptr<Actor>> a(who.size()); std::vector<int> done(who.size(), 0); std::string order;
    if (!lazy) for (size_t i = 0; i < who.size(); ++i) a[i] = make(who[i].first, who[i].second);
    while (true) {
        std::vector<size_t> can; for (size_t i = 0; i < who.size(); ++i) if (done[i] < ops[i]) can.push_back(i); if (can.empty()) break;
        size_t i = can[c.choose(uint32_t(can.size()))]; if (!a[i]) a[i] = make(who[i].first, who[i].second); order += " " + label(who[i].first, who[i].second) + "." + N(done[i]); std::string got = a[i]->op(done[i]); c.step(); const std::string& want = alone(who[i].first, who[i].second)[size_t(done[i])];
        c.require(got == want, std::string(kind_name(who[i].first)) + "-depends", [&] { return "operation" + order.substr(order.rfind(' ')) + " gives\n    " + got + "\n  instead of, when alone,\n    " + want + "\n  after" + order; });
        if (++done[i] == ops[i] && lazy) a[i].reset(); c.state(vh::hash_str(got, uint64_t(i))); c.outcome(vh::hash_str(got));
    }
    c.trace(); c.sample([&] { return order; });
}
VH_SECTION("every interleaving of two instances", "U07") {
    int k1 = int(c.choose(KINDS)), v1 = int(c.choose(VARIANTS)), k2 = k1 + int(c.choose(uint32_t(KINDS - k1))), v2 = int(c.choose(VARIANTS)); bool lazy = c.choose(2); int n = k1 == k2 ? vh::thorough() ? 7 : 5 : vh::thorough() ? 6 : 4; if (k1 == k2 && v2 < v1) return;
    interleave(c, {{k1, v1}, {k2, v2}}, {n, n}, lazy);
}
VH_SECTION("whole scripts nested inside each other at every point", "U07") {   // all of B between operations i and i+1 of A
    int k1 = int(c.choose(KINDS)), v1 = int(c.choose(VARIANTS)), k2 = int(c.choose(KINDS)), v2 = int(c.choose(VARIANTS)), at = int(c.choose(12)); auto a = make(k1, v1); std::string order;
    for (int i = 0; i < 12; ++i) { if (i == at) { auto b = make(k2, v2); for (int j = 0; j < 12; ++j) { c.step(); c.require(b->op(j) == alone(k2, v2)[size_t(j)], std::string(kind_name(k2)) + "-depends", [&] { return label(k2, v2) + " behaves differently while " + label(k1, v1) + " exists"; }); } } std::string got = a->op(i); c.step(); c.state(vh::hash_str(got)); c.require(got == alone(k1, v1)[size_t(i)], std::string(kind_name(k1)) + "-depends", [&] { return "operation " + N(i) + " of " + label(k1, v1) + " gives\n    " + got + "\n  instead of\n    " + alone(k1, v1)[size_t(i)] + "\n  because " + label(k2, v2) + " was used before operation " + N(at); }); } c.trace();
}
VH_SECTION("every interleaving of three instances", "U07") {
    std::vector<std::pair<int, int>> w; for (int i = 0; i < 3; ++i) { int id = int(c.choose(uint32_t(KINDS))); w.push_back({id, i}); } int n = vh::thorough() ? 3 : 2; interleave(c, w, {n, n, n}, false);
}
