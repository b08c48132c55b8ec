// Intrusive list, token stream, text helpers (U01, U02, U09).
// DEPS: src/util/util_token_stream.cpp src/util/util_error.cpp src/util/util_error_code.cpp
#include "vh.hpp"
#include <memory>
#include <deque>
#include <list>
#include <iterator>
#include "util/util_intrusive_list.hpp"
#include "util/util_token_stream.hpp"
#include "util/util_string_view.hpp"
#include "util/util_flat.hpp"
using namespace freewebrtc;
static std::string N(int64_t v) { return std::to_string(v); }
// ---------------------------------------------------------------- U01
struct E {
    using List = util::IntrusiveList<E>;
    int id; List::Link a, b;
    explicit E(int i) : id(i), a(*this), b(*this) {}
    E(E&& o) : id(o.id), a(*this, std::move(o.a)), b(*this, std::move(o.b)) {}
    E& operator=(E&& o) { a = std::move(o.a); b = std::move(o.b); return *this; }
};
using List = E::List;
struct World {
    vh::Ctx& c; std::vector<std::unique_ptr<E>> e; std::vector<std::unique_ptr<List>> l; std::vector<std::vector<int>> ref; std::vector<bool> on_b; std::string log;
    World(vh::Ctx& c, std::vector<bool> lists, int elements) : c(c), on_b(lists) { for (bool b : lists) { l.push_back(std::make_unique<List>(b ? &E::b : &E::a)); ref.push_back({}); } for (int i = 0; i < elements; ++i) e.push_back(std::make_unique<E>(i)); }
    ~World() { while (!l.empty() || !e.empty()) { if (!l.empty()) l.pop_back(); if (!e.empty()) e.pop_back(); } }   // in turn
    bool alike(int x, int y) const { return on_b[size_t(x)] == on_b[size_t(y)]; }
    void unlink(int i, bool b) { for (size_t k = 0; k < ref.size(); ++k) if (on_b[k] == b) ref[k].erase(std::remove(ref[k].begin(), ref[k].end(), i), ref[k].end()); }
    void push(int k, int i, bool front) { log += (front ? " push_front(" : " push_back(") + N(k) + "," + N(i) + ")"; unlink(i, on_b[size_t(k)]); if (front) { ref[size_t(k)].insert(ref[size_t(k)].begin(), i); l[size_t(k)]->push_front(*e[size_t(i)]); } else { ref[size_t(k)].push_back(i); l[size_t(k)]->push_back(*e[size_t(i)]); } }
    void check() {
        c.step();
        for (size_t k = 0; k < l.size(); ++k) {
            const List& cl = *l[k]; const auto& r = ref[k]; auto bad = [&](const char* w) { return [this, k, w] { return std::string(w) + " of list " + N(int64_t(k)) + " is wrong after" + log; }; };
            c.require(cl.empty() == r.empty(), "empty", bad("emptiness")); auto f = l[k]->front(); auto b = l[k]->back(); auto cf = cl.front(); auto cb = cl.back();
            c.require(f.is_some() != r.empty() && cf.is_some() != r.empty() && (r.empty() || (f.unwrap().get().id == r.front() && &f.unwrap().get() == e[size_t(r.front())].get() && &cf.unwrap().get() == &f.unwrap().get())), "front", bad("front"));
            c.require(b.is_some() != r.empty() && cb.is_some() != r.empty() && (r.empty() || (b.unwrap().get().id == r.back() && &b.unwrap().get() == e[size_t(r.back())].get() && &cb.unwrap().get() == &b.unwrap().get())), "back", bad("back"));
        }
        for (size_t i = 0; i < e.size(); ++i) for (bool b : {false, true}) { bool in = false; for (size_t k = 0; k < ref.size(); ++k) if (on_b[k] == b && std::count(ref[k].begin(), ref[k].end(), int(i))) in = true; auto& link = b ? e[i]->b : e[i]->a; c.require(link.in_list() == in, "in-list", [&] { return "membership of element " + N(int64_t(i)) + " is wrong after" + log; }); c.require(&link.get() == e[i].get(), "owner", [&] { return "link of element " + N(int64_t(i)) + " names another owner after" + log; }); }
    }
    void drain() {   // the whole contents, from the front, the back or alternately
        uint32_t how = c.choose(3); log += " then draining"; for (size_t k = 0; k < l.size(); ++k) for (uint32_t n = 0; !ref[k].empty(); ++n) { bool front = how == 0 || (how == 2 && n % 2); if (front) { l[k]->pop_front(); ref[k].erase(ref[k].begin()); } else { l[k]->pop_back(); ref[k].pop_back(); } check(); }
    }
    bool op() {   // one arbitrary operation; false if it does not apply
        int L = int(l.size()), M = int(e.size()); uint32_t kind = c.choose(12); int k = 0, i = 0;
        if (kind <= 3 || kind >= 8) k = int(c.choose(uint32_t(L))); if (kind <= 1 || (kind >= 4 && kind <= 7)) i = int(c.choose(uint32_t(M))); size_t K = size_t(k), I = size_t(i);
        switch (kind) {
        case 0: push(k, i, false); break;
        case 1: push(k, i, true); break;
        case 2: if (ref[K].empty()) return false; log += " pop_front(" + N(k) + ")"; l[K]->pop_front(); ref[K].erase(ref[K].begin()); break;
        case 3: if (ref[K].empty()) return false; log += " pop_back(" + N(k) + ")"; l[K]->pop_back(); ref[K].pop_back(); break;
        case 4: { bool b = on_b.back() && c.choose(2); log += " remove(" + N(i) + (b ? ",b)" : ",a)"); (b ? e[I]->b : e[I]->a).remove(); unlink(i, b); break; }
        case 5: log += " destroy(" + N(i) + ")"; e[I].reset(); unlink(i, false); unlink(i, true); e[I] = std::make_unique<E>(i); break;
        case 6: { log += " move(" + N(i) + ")"; auto n = std::make_unique<E>(std::move(*e[I])); c.require(!e[I]->a.in_list() && !e[I]->b.in_list(), "moved-from", [&] { return "a moved-from element is still in a list after" + log; }); if (c.choose(2)) { unlink(i, false); unlink(i, true); } else e[I].swap(n); break; }   // either object may die first
        case 7: { int j = int(c.choose(uint32_t(M))); log += " assign(" + N(i) + "," + N(j) + ")"; *e[I] = std::move(*e[size_t(j)]); if (i != j) { unlink(i, false); unlink(i, true); for (auto& r : ref) std::replace(r.begin(), r.end(), j, i); } break; }
        case 8: log += " clear(" + N(k) + ")"; l[K]->clear(); ref[K].clear(); break;
        case 9: log += " destroy-list(" + N(k) + ")"; l[K].reset(); l[K] = std::make_unique<List>(on_b[K] ? &E::b : &E::a); ref[K].clear(); break;
        case 10: { int j = int(c.choose(uint32_t(L))); size_t J = size_t(j); log += " assign-list(" + N(k) + "," + N(j) + ")"; *l[K] = std::move(*l[J]); if (k != j) { ref[K] = ref[J]; ref[J].clear(); on_b[K] = on_b[J]; } break; }
        case 11: { log += " move-list(" + N(k) + ")"; auto n = std::make_unique<List>(std::move(*l[K])); c.require(l[K]->empty(), "moved-from-list", [&] { return "a moved-from list is not empty after" + log; }); if (c.choose(2)) l[K].swap(n); else { *l[K] = std::move(*n); } break; }
        }
        check(); return true;
    }
    void run(uint32_t depth) { for (uint32_t d = 0; d < depth; ++d) { if (!op()) return; uint64_t h = 0; for (auto& r : ref) { h = vh::mix(h, 77); for (int x : r) h = vh::mix(h, uint64_t(x)); } c.state(h); c.outcome(h); } drain(); c.trace(); c.sample([&] { return log; }); }
};
VH_SECTION("list: every operation sequence from every filling of two lists", "U01") {
    uint32_t n = c.choose(4), m = c.choose(4 - n); World w(c, {false, false}, 3); for (uint32_t i = 0; i < n; ++i) w.push(0, int(i), false); for (uint32_t i = 0; i < m; ++i) w.push(1, int(n + i), false); w.check(); w.run(vh::thorough() ? 4 : 3);
}
VH_SECTION("list: every operation sequence on lists over two different links", "U01") {
    uint32_t n = c.choose(3), m = c.choose(3); World w(c, {false, true}, 2); for (uint32_t i = 0; i < n; ++i) w.push(0, int(i), false); for (uint32_t i = 0; i < m; ++i) w.push(1, int(1 - i), true); w.check(); w.run(vh::thorough() ? 4 : 3);
}
VH_SECTION("list: every sequence of pushes, pops and removals on one list", "U01") {
    World w(c, {false}, 3); uint32_t depth = vh::thorough() ? 8 : 6; for (uint32_t d = 0; d < depth; ++d) { uint32_t k = c.choose(11); if (k < 6) w.push(0, int(k % 3), k < 3); else if (k < 9) { w.log += " remove"; w.e[k - 6]->a.remove(); w.unlink(int(k - 6), false); } else { if (w.ref[0].empty()) return; w.log += " pop"; if (k == 9) { w.l[0]->pop_front(); w.ref[0].erase(w.ref[0].begin()); } else { w.l[0]->pop_back(); w.ref[0].pop_back(); } } w.check(); } uint64_t h = 1; for (int x : w.ref[0]) h = vh::mix(h, uint64_t(x)); c.state(h); w.drain(); c.trace();
}
VH_SECTION("list: long lists keep every element", "U01") { uint32_t n = c.choose(200), way = c.choose(4), cut = c.choose(3); World w(c, {false, false}, int(n)); for (uint32_t i = 0; i < n; ++i) w.push(0, int(i), way == 1 || (way == 2 && i % 2) || (way == 3 && i % 3 == 0)); if (cut == 1) for (uint32_t i = 0; i < n; i += 2) { w.e[i]->a.remove(); w.unlink(int(i), false); } if (cut == 2) { *w.l[1] = std::move(*w.l[0]); w.ref[1].swap(w.ref[0]); } w.log = " " + N(n) + " pushes"; while (!w.ref[0].empty() || !w.ref[1].empty()) { size_t k = w.ref[0].empty(); auto f = w.l[k]->front(); c.require(f.is_some() && f.unwrap().get().id == w.ref[k].front(), "order", "a long list lost its order"); w.l[k]->pop_front(); w.ref[k].erase(w.ref[k].begin()); c.step(); } c.require(w.l[0]->empty() && w.l[1]->empty(), "empty", "a drained list is not empty"); c.trace(); c.state(vh::mix(n, way * 3 + cut)); }
// ---------------------------------------------------------------- U02
struct Stream { std::unique_ptr<util::TokenStream> s; size_t at; };
VH_SECTION("tokens: every sequence of reads on every token list", "U02") {
    static const std::vector<std::string> A{"a", "b", ""}; static const std::error_code OWN = std::make_error_code(std::errc::address_in_use); uint32_t n = c.choose(vh::thorough() ? 5 : 4), depth = vh::thorough() ? 6 : 5; std::vector<std::string> t; for (uint32_t i = 0; i < n; ++i) t.push_back(A[c.choose(i < 3 ? 3 : 2)]);
    std::deque<Stream> w; { auto mine = std::make_unique<std::vector<std::string_view>>(t.begin(), t.end()); if (c.choose(2)) { w.push_back({std::make_unique<util::TokenStream>(std::move(*mine)), 0}); } else { const auto& r = *mine; w.push_back({std::make_unique<util::TokenStream>(r), 0}); for (auto& x : *mine) x = "overwritten"; mine->clear(); mine->shrink_to_fit(); } }
    std::string log; for (uint32_t d = 0; d < depth; ++d) {
        uint32_t k = c.choose(10); Stream& x = w.front(); bool more = x.at < t.size(); std::string want = more ? t[x.at] : ""; c.step(); auto bad = [&](const char* what) { return [&, what] { return std::string(what) + ", after reads" + log + " of " + N(int64_t(t.size())) + " tokens"; }; };
        auto none_left = [&](auto& r) { c.require(r.is_err(), "beyond-end", bad("a required read beyond the end succeeds")); std::error_code e = r.unwrap_err(); c.require(e.value() == int(util::TokenStream::Error::no_required_token) && e != OWN, "end-error", bad("the error beyond the end is not 'no required token'")); };
        if (k <= 6) log += std::string(" ") + std::vector<const char*>{"optional", "required", "literal-a", "literal-b", "literal-empty", "transform", "failing-transform"}[k];
        if (k == 0) { auto r = x.s->optional(); c.require(r.is_some() == more && (!more || r.unwrap() == want), "optional", bad("an optional read returns the wrong token")); x.at += more; }
        if (k == 1) { auto r = x.s->required(); if (!more) none_left(r); else c.require(r.is_ok() && r.unwrap() == want, "required", bad("a required read returns the wrong token")); x.at += more; }
        if (k >= 2 && k <= 4) { const std::string& lit = A[k - 2]; auto r = x.s->required(std::string_view(lit)); if (!more) none_left(r); else { c.require(r.is_ok() == (want == lit), "literal", bad("a literal read judges the token wrongly")); if (r.is_err()) { std::error_code e = r.unwrap_err(); c.require(e.value() == int(util::TokenStream::Error::expected_token_missed), "literal-error", bad("a wrong literal reports another error")); } } x.at += more; }
        if (k == 5) { int calls = 0; auto r = x.s->required_bind([&](const std::string_view& v) { ++calls; return Result<std::string>{std::string(v) + "!"}; }); c.require(calls == int(more), "calls", bad("the transformation is not called exactly once per token")); if (!more) none_left(r); else c.require(r.is_ok() && r.unwrap() == want + "!", "transform", bad("a transformed read returns the wrong value")); x.at += more; }
        if (k == 6) { auto r = x.s->required_bind([&](const std::string_view& v) -> Result<int> { c.require(v == want, "transform-argument", bad("the transformation gets another token")); return OWN; }); if (!more) none_left(r); else { c.require(r.is_err(), "failed-transform", bad("a failed transformation is reported as success")); std::error_code e = r.unwrap_err(); c.require(e == OWN, "failed-transform-error", bad("a failed transformation reports another error")); } x.at += more; }
        if (k == 7) { log += " copy"; if (w.size() > 2) return; w.push_back({std::make_unique<util::TokenStream>(*x.s), x.at}); std::swap(w.front(), w.back()); }       // continue with the copy, the original is used later
        if (k == 8) { log += " replace-by-copy"; auto n2 = std::make_unique<util::TokenStream>(*x.s); x.s = std::move(n2); }
        if (k == 9) { log += " replace-by-move"; auto n2 = std::make_unique<util::TokenStream>(std::move(*x.s)); x.s = std::move(n2); }
        c.state(vh::mix(x.at, vh::mix(t.size(), k))); c.outcome(vh::mix(k, more));
    }
    for (auto& x : w) { while (x.at < t.size()) { auto r = x.s->optional(); c.require(r.is_some() && r.unwrap() == t[x.at], "rest", [&] { return "the rest of a stream is wrong after reads" + log; }); ++x.at; } for (int i = 0; i < 2; ++i) { c.require(x.s->optional().is_none(), "end", [&] { return "an optional read beyond the end returns something after reads" + log; }); c.require(x.s->required().is_err(), "end", "required read beyond the end succeeds"); } } c.trace(); c.sample([&] { return log; });
}
VH_SECTION("tokens: literals are compared as a whole, byte by byte", "U02") {
    static const std::string B = std::string("ab B\xe1\x00", 6); auto word = [&](uint32_t max) { uint32_t n = c.choose(max); std::string s; for (uint32_t i = 0; i < n; ++i) s += B[c.choose(B.size())]; return s; };
    std::string tok = word(4), lit = word(4); uint32_t at = c.choose(2); std::vector<std::string_view> v; if (at) v.push_back("first"); v.push_back(tok); v.push_back("last"); util::TokenStream s(std::move(v)); if (at) (void)s.required();
    auto r = s.required(std::string_view(lit)); c.require(r.is_ok() == (tok == lit), "literal", [&] { return "token '" + tok + "' (" + vh::hex(tok.data(), tok.size()) + ") is " + (r.is_ok() ? "taken" : "refused") + " for the literal '" + lit + "' (" + vh::hex(lit.data(), lit.size()) + ")"; }); auto n = s.required(); c.require(n.is_ok() && n.unwrap() == "last", "rest", "the token after a literal is lost"); c.step(2); c.trace(); c.outcome(tok == lit);
}
VH_SECTION("tokens: lists of every length", "U02") { static const std::vector<uint32_t> L{512, 1000, 1023, 1024, 1025, 2049, 4097, 65537}; uint32_t few = vh::thorough() ? 1500 : 300, n = c.choose(few + uint32_t(L.size())), ph = c.choose(3); if (n >= few) n = L[n - few]; std::vector<std::string> t; for (uint32_t i = 0; i < n; ++i) t.push_back(N(i * 7)); util::TokenStream s(std::vector<std::string_view>(t.begin(), t.end())); for (uint32_t i = 0; i < n; ++i) { if ((i + ph) % 3 == 0) { auto r = s.optional(); c.require(r.is_some() && r.unwrap() == t[i], "long", "a long list loses tokens"); } else if ((i + ph) % 3 == 1) { auto r = s.required(); c.require(r.is_ok() && r.unwrap() == t[i], "long", "a long list loses tokens"); } else c.require(s.required(std::string_view(t[i])).is_ok(), "long", "a long list loses tokens"); c.step(); } c.require(s.optional().is_none() && s.required().is_err() && s.required("x").is_err(), "end", "a long list does not end"); c.trace(); c.state(n * 3 + ph); }
// ---------------------------------------------------------------- U09
namespace sv = util::string_view;
static std::vector<std::string> ref_split(const std::string& s, char sep) { std::vector<std::string> r; std::string cur; for (char ch : s) if (ch == sep) { r.push_back(cur); cur.clear(); } else cur += ch; if (!cur.empty()) r.push_back(cur); return r; }
static void text(vh::Ctx& c, const std::string& s, char sep) {
    std::unique_ptr<char[]> p(new char[s.size()]); if (!s.empty()) memcpy(p.get(), s.data(), s.size()); std::string_view v(p.get(), s.size()); auto inside = [&](std::string_view x, size_t at) { return x.empty() || x.data() == p.get() + at; }; auto msg = [&](const char* w) { return [&, w] { return std::string(w) + " of '" + s + "'"; }; }; c.step(3); c.trace(); c.state(vh::hash_str(s, uint8_t(sep)));
    size_t k = s.find(sep); auto r = sv::split(v, sep); c.require(r.is_some() == (k != std::string::npos), "split", msg("splitting")); if (r.is_some()) { auto [a, b] = r.unwrap(); c.require(a == s.substr(0, k) && b == s.substr(k + 1) && inside(a, 0) && inside(b, k + 1), "split", msg("splitting")); }
    auto all = sv::split_all(v, sep); auto want = ref_split(s, sep); bool ok = all.size() == want.size(); size_t at = 0; for (size_t i = 0; ok && i < want.size(); ++i) { ok = all[i] == want[i] && inside(all[i], at); at += want[i].size() + 1; } c.require(ok, "split-all", msg("splitting all")); c.outcome(want.size());
    auto lst = sv::split_all<std::list>(v, sep); c.require(std::equal(lst.begin(), lst.end(), all.begin(), all.end()), "split-list", msg("splitting into a list"));
    std::string j = sv::join(all, std::string(1, sep)); c.require(j == (s.empty() || s.back() != sep ? s : s.substr(0, s.size() - 1)), "split-join", msg("joining the pieces"));
    for (size_t n = 0; n < s.size() + 3; ++n) { auto x = sv::remove_prefix(v, n); c.require(x.is_some() == (n <= s.size()) && (n > s.size() || (x.unwrap() == s.substr(n) && inside(x.unwrap(), n))), "prefix", msg("removing a prefix")); } c.require(sv::remove_prefix(v, size_t(-1)).is_none(), "prefix", msg("removing a huge prefix"));
}
VH_SECTION("texts: every short text", "U09") { static const std::string A = std::string("ab ") + std::string(1, '\0'); uint32_t n = c.choose(vh::thorough() ? 11 : 9); std::string s; for (uint32_t i = 0; i < n; ++i) s += A[c.choose(n > 7 ? 3 : 4)]; text(c, s, ' '); if (n < 7) { text(c, s, 'a'); text(c, s, '\0'); text(c, s, 'z'); } }
VH_SECTION("texts: every number of pieces", "U09") {
    static const std::vector<uint32_t> L{512, 1000, 1023, 1024, 1025, 2049, 4097}; uint32_t k = c.choose(300 + uint32_t(L.size())), n = k < 300 ? k : L[k - 300], len = c.choose(3); std::string s; for (uint32_t i = 0; i < n; ++i) { s += std::string((len + i) % 3, char('a' + i % 20)); s += ' '; } if (len) s += "end"; text(c, s, ' ');
    std::vector<std::vector<int>> v(n); std::vector<int> w; for (uint32_t i = 0; i < n; ++i) for (uint32_t j = 0; j < (i + len) % 3; ++j) { v[i].push_back(int(w.size())); w.push_back(int(w.size())); } c.require(util::flat_vec<int>(v) == w, "flat", [&] { return "flattening " + N(n) + " vectors"; });
    std::vector<std::vector<int>> one{w, {}, w}; std::vector<int> w2 = w; w2.insert(w2.end(), w.begin(), w.end()); c.require(util::flat_vec<int>(one) == w2, "flat", [&] { return "flattening two vectors of " + N(w.size()) + " elements"; });
}
VH_SECTION("texts: every length of piece", "U09") { static const std::vector<uint32_t> L{512, 1000, 1023, 1024, 1025, 2049, 4096, 4097}; uint32_t k = c.choose(300 + uint32_t(L.size())), n = k < 300 ? k : L[k - 300]; std::string s(n, 'q'); text(c, s, ' '); text(c, s + " " + s, ' '); text(c, "a " + s + " ", ' '); }
VH_SECTION("texts: every separator and character", "U09") { char a = char(c.choose(256)), b = char(c.choose(256)); text(c, std::string() + a + b + a + 'x', b); text(c, std::string() + a + b, a); }
VH_SECTION("texts: joining every list of pieces", "U09") { static const std::vector<std::string> A{"", "a", "bc", ","}, S{"", ",", ", ", std::string(1, '\0')}; uint32_t n = c.choose(vh::thorough() ? 7 : 6); std::vector<std::string> v; for (uint32_t i = 0; i < n; ++i) v.push_back(c.pick(A)); std::string sep = c.pick(S), w; for (uint32_t i = 0; i < n; ++i) w += (i ? sep : "") + v[i]; c.require(sv::join(v, sep) == w, "join", [&] { return "joining " + N(n) + " pieces gives '" + sv::join(v, sep) + "' instead of '" + w + "'"; }); std::list<std::string> l(v.begin(), v.end()); c.require(sv::join(l, sep) == w, "join-list", "joining a list"); std::vector<int> d(n, 7); std::string x; for (uint32_t i = 0; i < n; ++i) x += (i ? sep : "") + "7"; c.require(sv::join(d, sep) == x, "join-numbers", "joining numbers"); c.trace(); c.step(); c.state(c.prefix_hash()); }
VH_SECTION("texts: flattening every nested shape", "U09") { uint32_t n = c.choose(vh::thorough() ? 8 : 6); std::vector<std::vector<int>> v; std::vector<int> w; int k = 0; for (uint32_t i = 0; i < n; ++i) { uint32_t m = c.choose(4); v.push_back({}); for (uint32_t j = 0; j < m; ++j) { v.back().push_back(k * k); w.push_back(k * k); ++k; } } c.require(util::flat_vec<int>(v) == w, "flat", [&] { return "flattening " + N(n) + " vectors with " + N(k) + " elements"; }); c.trace(); c.step(); c.state(c.prefix_hash()); std::vector<std::vector<std::string>> s; std::vector<std::string> t; for (auto& x : v) { s.push_back({}); for (int y : x) { s.back().push_back(N(y)); t.push_back(N(y)); } } c.require(util::flat_vec<std::string>(s) == t, "flat-text", "flattening texts"); }
