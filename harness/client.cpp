// STUN client state machine (C01-C08), driven directly.
// DEPS: src/stun src/crypto/openssl src/net src/util/util_error_code.cpp src/util/util_hash_murmur.cpp
// LIBS: -lcrypto
#include "clientmodel.hpp"
using namespace sim;
static std::error_code NOTFOUND() { return stun::make_error_code(stun::ClientError::transaction_not_found); }
// ------------------------------------------------------------------ C01
static void watch_once(vh::Ctx& c, Sim& s, size_t from) {   // every new effect belongs to a transaction that had no outcome before it
    for (size_t i = from; i < s.log.size(); ++i) {
        const auto& e = s.log[i];
        c.require(e.tx >= 0, "foreign-handle", [&] { return "an effect for a handle never handed out:" + show(s.log); });
        int before = 0; for (size_t j = 0; j < i; ++j) if (s.log[j].tx == e.tx && s.log[j].kind != 'S') ++before;
        c.require(before == 0, e.kind == 'S' ? "send-after-outcome" : "second-outcome", [&] { return "effect after the final outcome of its transaction:" + show(s.log); });
    }
}
static void finish_all(vh::Ctx& c, Sim& s, int64_t dead, int n, const char* key) {
    for (int i = 0; i < n && s.live(); ++i) { s.t += dead; size_t f = s.log.size(); s.drain(); watch_once(c, s, f); }
    for (int k = 0; k < 2; ++k) { s.t += dead; size_t f = s.log.size(); s.drain(); watch_once(c, s, f); }
    for (size_t i = 0; i < s.tx.size(); ++i) c.require(s.tx[i].terminals == 1, key, [&] { return "transaction " + N(i) + " has " + N(s.tx[i].terminals) + " outcomes although polling went on far past its deadline:" + show(s.log); });
    for (auto& x : s.tx) if (x.sent) { auto r = s.respond(answer(x.tid, A_OK, x.key)); c.require(r == NOTFOUND(), "late-response", [&] { return "a response to a finished transaction gives '" + (r ? r.message() : std::string("ok")) + "'"; }); }
    size_t f = s.log.size(); s.drain(); c.require(s.log.size() == f, "late-effect", [&] { return "a response to a finished transaction had effects:" + show(s.log); });
}
VH_SECTION("outcomes: every script of polls, responses and waits on one transaction", "C01") {
    Conf k; k.rc = 2; k.rm = 2; uint32_t v = c.choose(4); if (v & 1) { k.delay5 = 400 * MS; k.max5 = 1; } std::string key = v & 2 ? "pw" : "";
    Sim s(c, k, v == 1 ? uint64_t(-1000000) : v == 2 ? (1ull << 63) - 700000 : 0); s.create(0, key);
    if (c.flag("poll first")) s.step();
    if (!s.tx[0].sent) s.tx[0].tid = Bytes{};   // nothing can answer yet
    uint32_t depth = vh::thorough() ? 6 : 4;
    for (uint32_t i = 0; i < depth; ++i) {
        uint32_t op = c.choose(15, "op"); size_t f = s.log.size(); bool had = s.tx[0].terminals;
        if (op < 8) {
            if (s.tx[0].tid.empty()) return;
            static const int K[] = {A_OK, A_401, A_500, A_NOADDR, A_UNK, A_300ALT, A_600, A_OK};
            auto r = s.respond(answer(s.tx[0].tid, K[op], op == 7 ? "bad" : s.tx[0].key));
            if (had) c.require(r == NOTFOUND(), "late-response", [&] { return "a response to a finished transaction gives '" + (r ? r.message() : std::string("ok")) + "'"; });
        } else if (op == 8) { s.step(); } else if (op == 9) { s.drain(); }
        else { static const int64_t D[] = {500 * MS, 499 * MS, 1000 * MS, 400 * MS, 7000 * MS}; s.t += D[op - 10]; s.step(); }
        watch_once(c, s, f);
    }
    { size_t f = s.log.size(); s.drain(); watch_once(c, s, f); }
    finish_all(c, s, 3 * SEC, 12, "no-outcome");
    c.outcome(s.tx[0].outcome);
}
VH_SECTION("outcomes: every script on two transactions", "C01") {
    Conf k; k.rc = 2; k.rm = 1; uint32_t v = c.choose(2); if (v) { k.delay5 = 500 * MS; k.max5 = 2; }
    Sim s(c, k); s.create(0, ""); s.drain(); bool two = false;
    uint32_t depth = vh::thorough() ? 7 : 6;
    for (uint32_t i = 0; i < depth; ++i) {
        uint32_t op = c.choose(9, "op"); size_t f = s.log.size();
        if (op == 0) { if (two) return; two = true; s.create(1, "pw"); if (s.step() == EFFECT && !s.tx[1].sent) s.drain(); }
        else if (op < 7) { int w = int(op - 1) / 3; if (w >= int(s.tx.size()) || !s.tx[w].sent) return; bool had = s.tx[w].terminals; static const int K[] = {A_OK, A_401, A_500};
            auto r = s.respond(answer(s.tx[w].tid, K[(op - 1) % 3], s.tx[w].key)); if (had) c.require(r == NOTFOUND(), "late-response"); }
        else if (op == 7) s.step(); else { s.t += 500 * MS; s.drain(); }
        watch_once(c, s, f);
    }
    s.drain(); finish_all(c, s, 3 * SEC, 12, "no-outcome");
    c.outcome(s.tx[0].outcome + "/" + (two ? s.tx[1].outcome : ""));
}
VH_SECTION("outcomes: a transaction that has ended leaves nothing behind, even for a random source that repeats itself", "C01") {
    Conf k; k.rc = 2; k.rm = 1; k.rto = 10 * MS; uint32_t v = c.choose(2); if (v) { k.delay5 = 5 * MS; k.max5 = 1; }
    Sim s(c, k); s.rng.constant = true; uint32_t n = 3;
    for (uint32_t i = 0; i < n; ++i) {
        uint32_t how = c.choose(9), auth = c.choose(2); int x = s.create(int(c.choose(2)), auth ? "pw" : ""); s.drain(); c.require(s.tx[x].sends == 1, "no-send", "a new request was not sent"); s.t += MS;
        if (how & 1) { s.t += 10 * MS; s.drain(); }
        static const int K[] = {A_OK, A_401, A_NOADDR, A_UNK}; size_t f = s.log.size();
        if (how == 8) { for (int z = 0; z < 3; ++z) { s.t += 10 * MS; s.drain(); } } else { if (v && how == 1) { s.respond(answer(s.tx[x].tid, A_500, s.tx[x].key)); s.t += 5 * MS; s.drain(); } c.require(!s.respond(answer(s.tx[x].tid, K[how / 2], s.tx[x].key)), "refused", "the answer to a live transaction is refused"); s.drain(); }
        (void)f; c.require(s.tx[x].terminals == 1, "no-outcome", [&] { return "transaction " + N(x) + " has " + N(s.tx[x].terminals) + " outcomes:" + show(s.log); });
        c.require(s.respond(answer(s.tx[x].tid, A_OK, s.tx[x].key)) == NOTFOUND(), "late-response", "a response to a finished transaction is not reported as such");
        size_t g = s.log.size(); s.drain(); c.require(s.log.size() == g, "late-effect", "a response to a finished transaction had effects");
    }
}
// one transaction's view of a run must not depend on the others
struct Op { int tx; int kind; };   // kind: -1 create, else answer; tx -1: wait
static std::vector<Ev> run_script(vh::Ctx& c, const Conf& k, const std::vector<Op>& ops, int only) {
    Sim s(c, k); std::map<int, int> idx; std::vector<Ev> out;
    auto wait = [&](int64_t d) { s.drain(); s.t += d; s.drain(); };
    for (auto& o : ops) {
        if (o.tx < 0) { wait(o.kind * MS); continue; }
        if (only >= 0 && o.tx != only) { if (o.kind == -1) s.rng.next += 3; continue; }
        if (o.kind == -1) { idx[o.tx] = s.create(o.tx == 0 ? 0 : o.tx == 1 ? 4 : 2, o.tx == 1 ? "pw" : ""); s.drain(); }
        else if (idx.count(o.tx)) { auto& x = s.tx[idx[o.tx]]; if (x.sent) s.respond(answer(x.tid, o.kind, x.key)); }
    }
    for (int i = 0; i < 12; ++i) wait(400 * MS);
    for (auto& e : s.log) for (auto& [name, i] : idx) if (i == e.tx && (only < 0 || name == only)) out.push_back(Ev{e.t, name, e.kind, e.what});
    return out;
}
VH_SECTION("outcomes: a transaction behaves as if the others did not exist", "C01") {
    Conf k; k.rc = 3; k.rm = 1; k.rto = 300 * MS; k.delay5 = 250 * MS; k.max5 = 1;
    std::vector<Op> ops; uint32_t depth = vh::thorough() ? 7 : 6; bool made[3] = {};
    for (uint32_t i = 0; i < depth; ++i) {
        uint32_t op = c.choose(11);
        if (op < 3) { if (made[op]) return; made[op] = true; ops.push_back({int(op), -1}); }
        else if (op < 9) { int w = int(op - 3) / 2; if (!made[w]) return; ops.push_back({w, (op - 3) % 2 ? A_500 : A_OK}); }
        else ops.push_back({-1, op == 9 ? 300 : 100});
    }
    auto all = run_script(c, k, ops, -1);
    for (int w = 0; w < 3; ++w) if (made[w]) {
        std::vector<Ev> mine; for (auto& e : all) if (e.tx == w) mine.push_back(e);
        auto solo = run_script(c, k, ops, w);
        c.require(mine == solo, "interference", [&] { return "transaction " + N(w) + " alone:" + show(solo) + "\n  with the others present:" + show(mine); });
    }
    c.trace();
}
// ------------------------------------------------------------------ C02
struct Sched { int64_t due; int64_t interval; unsigned sends = 1, n5 = 0; bool done = false; };
static int64_t cap(const Conf& k, int64_t v) { return k.max_rto >= 0 ? std::min(v, k.max_rto) : v; }
static int64_t first_interval(const Conf& k) { return cap(k, k.rc > 1 ? k.rto : k.rto * k.rm); }
// fire at `now`; returns 'S' resend, 'F' timeout
static char fire(const Conf& k, Sched& m, int64_t now) {
    unsigned total = k.rc + m.n5;
    if (m.sends >= total) { m.done = true; return 'F'; }
    ++m.sends; m.interval = cap(k, m.sends == total ? k.rto * k.rm : m.interval * 2); m.due = now + m.interval; return 'S';
}
static void expect_log(vh::Ctx& c, Sim& s, const std::vector<Ev>& want, const char* key) {
    c.require(s.log == want, key, [&] { return s.conf.str() + ": expected" + show(want) + "\n  observed" + show(s.log); });
}
VH_SECTION("schedule: default settings", "C02") {
    uint32_t start = c.choose(6); static const uint64_t S0[] = {0, uint64_t(-1), uint64_t(-20000000), (1ull << 63) - 1, 1ull << 63, 123456789012345ull};
    Conf k; Sim s(c, k, S0[start]); s.create(); s.drain();
    std::vector<Ev> want{{0, 0, 'S', ""}};
    for (int64_t t : {500, 1500, 3500, 7500, 15500, 31500, 39500}) {
        s.t = t * MS - 1; s.drain(); expect_log(c, s, want, "early"); s.t = t * MS; s.drain(); want.push_back({t * MS, 0, t == 39500 ? 'F' : 'S', t == 39500 ? "timeout" : ""}); expect_log(c, s, want, "default-schedule");
    }
    s.t += 1000 * SEC; s.drain(); expect_log(c, s, want, "after-end");
}
VH_SECTION("schedule: all settings, every pattern of late polls", "C02") {
    static const std::vector<unsigned> RC{1, 2, 3, 4, 5, 7, 8, 10}, RM{1, 2, 3, 16}; static const std::vector<int64_t> RTO{500 * MS, 3 * MS, 7, 1000 * SEC};
    Conf k; k.rc = c.pick(RC); k.rm = c.pick(RM); k.rto = c.pick(RTO); uint32_t mx = c.choose(8);
    static const int64_t M[] = {0, 2, 3, 6, 7, 9, 64, 100000}; if (mx) k.max_rto = k.rto * M[mx] / 2;   // from 1x the initial value
    Sim s(c, k, k.rc == 5 ? uint64_t(-k.rto * 3) : 0);
    s.create();
    uint32_t l0 = c.choose(2); if (l0) { s.t += k.rto / 2; }
    s.drain(); std::vector<Ev> want{{s.t, 0, 'S', ""}}; expect_log(c, s, want, "first-send");
    Sched m{first_interval(k), first_interval(k)}; int late_used = 0;
    while (!m.done) {
        if (m.due - 1 > s.t) { s.t = m.due - 1; s.drain(); expect_log(c, s, want, "early"); }
        uint32_t late = (k.rc <= 4 || late_used < 2) ? c.choose(vh::thorough() ? 7 : 5) : 0;
        if (late && k.rc > 4) ++late_used;
        static const int64_t num[] = {0, 1, 2, 5, 300, 1, 17}; s.t = late == 0 ? m.due : m.due + (late == 5 ? 1 : num[late] * k.rto / 2);
        s.drain(); char r = fire(k, m, s.t); want.push_back({s.t, 0, r, r == 'F' ? "timeout" : ""});
        expect_log(c, s, want, r == 'F' ? "timeout" : "resend");
    }
    s.t += 100 * k.rto; s.drain(); expect_log(c, s, want, "after-end");
    c.trace(); c.state(vh::hash_str(show(want)));
}
VH_SECTION("schedule: every number of requests and every last factor", "C02") {
    uint32_t i = c.choose(64 + 3), j = c.choose(14); static const unsigned BIG[] = {255, 256, 300}, RM[] = {0, 1, 2, 3, 5, 7, 15, 16, 17, 31, 100, 255, 256, 1000}; uint32_t mx = c.choose(3);
    Conf k; k.rc = i < 64 ? i + 1 : BIG[i - 64]; k.rm = RM[j]; k.rto = mx == 1 ? 500 * MS : 1 * MS; if (k.rc > 30 || mx) k.max_rto = mx == 1 ? 3 * SEC : 8 * SEC; if (k.rc > 30 && mx == 2) return;
    Sim s(c, k); s.create(); s.drain(); std::vector<Ev> want{{0, 0, 'S', ""}}; Sched m{first_interval(k), first_interval(k)};
    auto due = [&] { while (!m.done && m.due <= s.t) { char r = fire(k, m, s.t); want.push_back({s.t, 0, r, r == 'F' ? "timeout" : ""}); } }; due(); expect_log(c, s, want, "first-send");
    while (!m.done) { if (m.due - 1 > s.t) { s.t = m.due - 1; s.drain(); expect_log(c, s, want, "early"); } s.t = m.due; s.drain(); due(); expect_log(c, s, want, m.done ? "timeout" : "resend"); }
    s.t += 1000 * SEC; s.drain(); expect_log(c, s, want, "after-end"); c.trace(); c.state(vh::mix(i, j * 3 + mx));
}
VH_SECTION("schedule: two and three overlapping requests", "C02") {
    Conf k; k.rc = 2 + c.choose(3); k.rm = 1 + c.choose(2); k.rto = 100 * MS; uint32_t n = 2 + c.choose(2);
    static const std::vector<int64_t> OFF{0, 1, 100 * MS, 150 * MS, 100 * MS - 1, 300 * MS};
    std::vector<int64_t> at{0}; for (uint32_t i = 1; i < n; ++i) at.push_back(at.back() + c.pick(OFF));
    uint32_t grid = c.choose(3); static const int64_t G[] = {1, 50 * MS, 70 * MS};   // poll exactly, or only on a coarse grid
    Sim s(c, k); std::vector<Sched> m; std::vector<Ev> want; size_t made = 0;
    for (int guard = 0; guard < 400; ++guard) {
        while (made < n && at[made] <= s.t) { s.create(int(made)); m.push_back({s.t + first_interval(k), first_interval(k)}); ++made; want.push_back({s.t, int(made) - 1, 'S', ""}); }
        std::vector<std::pair<int64_t, size_t>> due; for (size_t i = 0; i < m.size(); ++i) if (!m[i].done && m[i].due <= s.t) due.push_back({m[i].due, i});
        for (auto& [d, i] : due) { char r = fire(k, m[i], s.t); want.push_back({s.t, int(i), r, r == 'F' ? "timeout" : ""}); }
        s.drain();
        auto by = [](const Ev& a, const Ev& b) { return std::tie(a.t, a.tx, a.kind) < std::tie(b.t, b.tx, b.kind); };
        auto g = s.log, w = want; std::stable_sort(g.begin(), g.end(), by); std::stable_sort(w.begin(), w.end(), by);
        c.require(g == w, "overlap", [&] { return k.str() + ": expected (order within a moment free)" + show(w) + "\n  observed" + show(g); });
        int64_t nx = INT64_MAX; for (auto& x : m) if (!x.done) nx = std::min(nx, x.due); if (made < n) nx = std::min(nx, at[made]);
        if (nx == INT64_MAX) break;
        s.t = grid == 0 ? nx : (nx + G[grid] - 1) / G[grid] * G[grid];
    }
    c.require(s.live() == 0, "overlap-end", "a request never timed out"); c.trace();
}
VH_SECTION("schedule: lockstep with the model, requests made and polls missed at any time", "C02") {
    Conf k; k.rto = 100 * MS; static const std::vector<std::pair<unsigned, unsigned>> RR{{1, 1}, {1, 3}, {2, 1}, {2, 16}, {3, 2}, {4, 1}}; auto rr = c.pick(RR); k.rc = rr.first; k.rm = rr.second; uint32_t mx = c.choose(3); if (mx) k.max_rto = mx == 1 ? 150 * MS : 400 * MS;
    lockstep(c, k, {{0, 4}, {""}, {}, {100 * MS, 99999, 300 * MS, 4100 * MS, 1}, 3, vh::thorough() ? 6u : 4u, true});
}
// ------------------------------------------------------------------ C03
// Follow the advice literally; at every sleep optionally poll early as well. All variants must give the same run.
struct Plan { std::vector<std::pair<int64_t, Op>> ev; };
static std::vector<Ev> advised(vh::Ctx& c, const Conf& k, const Plan& p, int early, bool& idle_ok) {
    Sim s(c, k, early == 0 ? 0 : uint64_t(-400000)); size_t i = 0; int n = 0; std::map<int, int> idx;
    while (true) {
        Step r = s.drain(); c.require(++n < 300, "unbounded", [&] { return "following the advice needs more than 300 polls:" + show(s.log); });
        if (r == IDLE) c.require(s.live() == 0, "idle-while-live", [&] { return "idle reported while " + N(s.live()) + " transactions are live:" + show(s.log); });
        if (r == SLEEP) c.require(s.sleep > 0, "sleep-not-positive", [&] { return "asked to sleep for " + N(s.sleep) + " us"; });
        int64_t wake = r == SLEEP ? s.t + s.sleep : INT64_MAX, ev = i < p.ev.size() ? p.ev[i].first : INT64_MAX;
        if (wake == INT64_MAX && ev == INT64_MAX) break;
        int64_t to = std::min(wake, ev);
        if (early && r == SLEEP && to - s.t > 1) {
            std::vector<int64_t> at; int64_t d = to - s.t;
            if (early == 1) at = {to - 1}; else if (early == 2) at = {s.t + 1, s.t + d / 2, to - 1}; else for (int q = 1; q < 10; ++q) at.push_back(s.t + d * q / 10);
            for (auto a : at) if (a > s.t && a < to) {
                s.t = a; size_t f = s.log.size(); Step q = s.drain();
                c.require(s.log.size() == f, "overslept", [&] { return "advice was to sleep until " + N(wake) + " us, but at " + N(a) + " us there was something to do:" + show(s.log); });
                c.require(q != IDLE || s.live() == 0, "idle-while-live", [&] { return "idle reported while transactions are live:" + show(s.log); });
                if (q == SLEEP) c.require(s.sleep > 0, "sleep-not-positive"); if (q == SLEEP && s.t + s.sleep < to) { /* earlier wake-ups are allowed, lateness is not */ }
            }
        }
        s.t = to;
        while (i < p.ev.size() && p.ev[i].first <= s.t) {
            auto& o = p.ev[i++].second;
            if (o.kind == -1) { idx[o.tx] = s.create(o.tx, o.tx == 1 ? "pw" : ""); }
            else if (idx.count(o.tx) && s.tx[idx[o.tx]].sent) { auto& x = s.tx[idx[o.tx]]; s.respond(answer(x.tid, o.kind, x.key)); }
        }
    }
    idle_ok = s.live() == 0;
    c.require(idle_ok, "never-ends", [&] { return "the advice was followed to the end, yet transactions are live:" + show(s.log); });
    return s.log;
}
VH_SECTION("advice: every plan of requests and responses, polled literally and early", "C03") {
    Conf k; k.rc = 1 + c.choose(3); k.rm = 2; k.rto = 100 * MS; uint32_t v = c.choose(3); if (v == 1) { k.delay5 = 30 * MS; k.max5 = 1; } if (v == 2) { k.delay5 = 700 * MS; k.max5 = 2; k.max_rto = 150 * MS; }
    Plan p; int64_t t = 0; uint32_t n = vh::thorough() ? 5 : 4; bool made[2] = {};
    p.ev.push_back({0, {0, -1}}); made[0] = true;
    for (uint32_t i = 1; i < n; ++i) {
        static const std::vector<int64_t> GAP{0, 50 * MS, 100 * MS, 230 * MS, 1};
        t += c.pick(GAP); uint32_t op = c.choose(8); if (op == 7) break;
        if (op == 0) { if (made[1]) return; made[1] = true; p.ev.push_back({t, {1, -1}}); }
        else { static const int K[] = {A_OK, A_500, A_600}; int w = int(op - 1) / 3; if (!made[w]) return; p.ev.push_back({t, {w, K[(op - 1) % 3]}}); }
    }
    bool a, b; auto base = advised(c, k, p, 0, a);
    for (int e = 1; e <= (vh::thorough() ? 3 : 2); ++e) { auto g = advised(c, k, p, e, b); c.require(g == base, "early-polls-change", [&] { return k.str() + ": polled as advised" + show(base) + "\n  polled more often" + show(g); }); }
    c.trace(); c.state(vh::hash_str(show(base), vh::hash_str(k.str())));
}
VH_SECTION("advice: two requests whose timers are close together", "C03") {
    Conf k; k.rc = 1 + c.choose(4); k.rm = 2; k.rto = 100 * MS; static const std::vector<int64_t> MUL{0, 1, 2, 3, 5, 7}, DELTA{-20001, -1500, -1000, -999, -500, -1, 0, 1, 2, 499, 999, 1000, 1001, 20000}; int64_t at = c.pick(MUL) * 100 * MS + c.pick(DELTA); if (at < 0) return;
    Plan p; p.ev.push_back({0, {0, -1}}); p.ev.push_back({at, {4, -1}}); uint32_t third = c.choose(5); if (third) { static const int64_t T[] = {0, 1, 999, 100 * MS, 299999}; p.ev.push_back({at + T[third], {3, -1}}); }
    if (c.flag()) { k.delay5 = 100 * MS; k.max5 = 1; int w = c.choose(2) ? 4 : 0; p.ev.push_back({std::max(at, p.ev.back().first) + 700, {w, A_500}}); }
    bool a; auto base = advised(c, k, p, 0, a); for (int e = 1; e <= 3; ++e) { auto g = advised(c, k, p, e, a); c.require(g == base, "early-polls-change", [&] { return k.str() + ": polled as advised" + show(base) + "\n  polled more often" + show(g); }); }
    Lockstep l(c, k); size_t i = 0; std::map<int, int> idx;     // and against the model: something due is never missed either
    for (int g = 0; g < 200; ++g) { int64_t to = INT64_MAX; if (l.m.live()) to = int64_t(l.m.next_due()); if (i < p.ev.size()) to = std::min(to, p.ev[i].first); if (to == INT64_MAX) break; l.s.t = to;
        while (i < p.ev.size() && p.ev[i].first <= to) { auto& o = p.ev[i++].second; if (o.kind == -1) { idx[o.tx] = l.s.tx.size(); l.create(o.tx, ""); } else { if (!l.drain()) return; if (l.can(idx[o.tx])) l.respond(idx[o.tx], o.kind, ""); } } if (!l.drain()) return; }
    c.trace();
}
VH_SECTION("advice: never later than the next due step, whatever happened before", "C03") {
    Conf k; k.rto = 100 * MS; k.rc = 2 + c.choose(2); k.rm = 2; uint32_t v = c.choose(3); if (v) { k.delay5 = v == 1 ? 30 * MS : 900 * MS; k.max5 = 2; }
    lockstep(c, k, {{0, 4}, {"", "pw"}, {A_OK, A_500}, {100 * MS, 57 * MS, 260 * MS, 300}, 3, vh::thorough() ? 5u : 4u, true});
}
VH_SECTION("advice: ten overlapping requests", "C03") {
    Conf k; k.rc = 3; k.rm = 4; k.rto = 77 * MS; uint32_t gap = c.choose(12), who = c.choose(11), kind = c.choose(3); Plan p;
    for (int i = 0; i < 10; ++i) { p.ev.push_back({i * int64_t(gap) * 13 * MS, {i == 1 ? 11 : i, -1}}); }
    if (who < 10) for (int j = 0; j < 2; ++j) { static const int K[] = {A_OK, A_401, A_MAPPED}; p.ev.push_back({9 * int64_t(gap) * 13 * MS + 5 + j, {int(who) == 1 ? 11 : int(who), K[kind]}}); }
    bool a; auto base = advised(c, k, p, 0, a); for (int e = 1; e <= 3; ++e) { auto g = advised(c, k, p, e, a); c.require(g == base, "early-polls-change"); }
}
// ------------------------------------------------------------------ timers far away
static const std::vector<int64_t>& FAR() { static const int64_t DAY = 86400 * SEC; static const std::vector<int64_t> v{(1ll << 31) - 1, 1ll << 31, (1ll << 31) + 1, 3000 * SEC, (1ll << 32) - 1, 1ll << 32, (1ll << 32) + 1, (1ll << 33) + 5, 25 * DAY, (1ll << 31) * 1000, (1ll << 32) * 1000, (1ll << 42), 365 * DAY, 3650 * DAY}; return v; }
VH_SECTION("far: timers from half an hour to decades away, every order of events", "C02,C03,C06,C07") {
    Conf k; k.rto = c.pick(FAR()); k.rc = 1 + c.choose(3); k.rm = 2; k.history = c.choose(2) ? 3650 * 86400 * SEC : 3600 * SEC; uint32_t v = c.choose(4); if (v == 1) k.max_rto = k.rto; if (v == 2) { k.delay5 = c.pick(FAR()); k.max5 = 1; } if (v == 3) { k.delay5 = 40 * MS; k.max5 = 1; }
    Lockstep l(c, k, c.choose(2) ? uint64_t(-k.rto) : 0); l.create(0, ""); if (!l.drain()) return; uint32_t depth = vh::thorough() ? 4 : 3;
    for (uint32_t i = 0; i < depth; ++i) {
        uint32_t op = c.choose(7); int n = int(l.s.tx.size());
        if (op == 0) break; if (op == 1) l.s.t = l.m.live() ? int64_t(l.m.next_due(true)) - 1 : l.s.t + k.rto; if (op == 2) l.s.t = l.m.live() ? int64_t(std::ceil(l.m.next_due(false))) + 1 : l.s.t + 5; if (op == 3) l.s.t += k.rto / 2; if (op == 4) { if (n > 2) return; l.create(n == 1 ? 0 : 4, ""); }
        if (op >= 5) { int t = n - 1; if (!l.can(t)) return; l.s.t += 30 * MS; l.respond(t, op == 5 ? A_OK : A_500, ""); }
        if (!l.drain()) return;
    }
    if (!l.finish()) return; c.trace(); c.state(vh::hash_str(show(l.s.log), vh::hash_str(k.str())));
}
VH_SECTION("far: the advice followed literally and polled early, timers decades away", "C03") {
    Conf k; k.rto = c.pick(FAR()); k.rc = 1 + c.choose(3); k.rm = 1 + c.choose(2); if (c.choose(2)) { k.delay5 = c.pick(FAR()); k.max5 = 1; } Plan p; p.ev.push_back({0, {0, -1}}); int64_t at = c.choose(3) * k.rto / 2; p.ev.push_back({at, {4, -1}}); uint32_t a = c.choose(4); if (a) p.ev.push_back({at + 40 * MS, {a == 3 ? 4 : 0, a == 1 ? A_OK : A_500}});
    bool ok; auto base = advised(c, k, p, 0, ok); for (int e = 1; e <= 3; ++e) { auto g = advised(c, k, p, e, ok); c.require(g == base, "early-polls-change", [&] { return k.str() + ": polled as advised" + show(base) + "\n  polled more often" + show(g); }); } c.trace(); c.state(vh::hash_str(show(base), vh::hash_str(k.str())));
}
// ------------------------------------------------------------------ C04
struct Noise { const char* n; int tx; int cls; int kind; int key; int shape; };   // key 0 none, 1 right, 2 wrong, 3 the other transaction's; shape 0 as is
static Bytes other_tid() { Bytes t(12, 0x77); return t; }
enum Shape { AS_IS, UNKNOWN_TID, REQUEST, INDICATION, TRUNCATED, BAD_FP, FLIP, EMPTY, TRUNC_ATTR, BAD_COOKIE, NEAR_TID, MI_STRIPPED, MI_APPENDED_AFTER, MI_MOVED, SHAPES };
static const char* shape_name(int s) { static const char* n[] = {"as is", "unknown transaction", "request", "indication", "truncated", "wrong fingerprint", "one bit of the body changed", "empty", "attribute runs past the end", "wrong cookie", "id differs in one bit", "integrity under no key", "forged attributes after integrity", "digest over less"}; return n[s]; }
static Bytes noise(const Bytes& tid, int shape, int kind, const std::string& key) {
    Bytes t = tid;
    if (shape == UNKNOWN_TID) t = other_tid(); if (shape == NEAR_TID) t[11] ^= 1;
    if (shape == REQUEST || shape == INDICATION) { ref::Enc e(ref::msg_type(shape == REQUEST ? 0 : 1, 1), t); e.xaddr(pub(5), t); if (!key.empty()) e.mi(lib::key(key)); return e.b; }
    Bytes b = answer(t, kind, key, false, 5);
    if (shape == TRUNCATED) b.pop_back(); if (shape == EMPTY) b.clear();
    if (shape == BAD_FP) { ref::Enc e(0, t); e.b = b; e.len(8).fp(1); b = e.b; }
    if (shape == FLIP && b.size() > 24) b[b.size() > 28 ? 27 : 24] ^= 1;
    if (shape == TRUNC_ATTR) { b.resize(20); ref::p16(b, 0x20); ref::p16(b, 12); ref::p32(b, 0x00010000); b[2] = 0; b[3] = 8; }
    if (shape == BAD_COOKIE) b[4] ^= 1;
    if (shape == MI_STRIPPED) { ref::Enc e(0, t); e.b = answer(t, kind, "", false, 5); e.attr(8, Bytes(20, 0)); b = e.b; }
    if (shape == MI_APPENDED_AFTER) { ref::Enc e(0, t); e.b = answer(t, kind, "bogus", false, 5); e.mi(lib::key(key.empty() ? "x" : key)); b = e.b; }   // second, correct integrity does not help
    if (shape == MI_MOVED) { ref::Enc e(ref::msg_type(2, 1), t); e.b = answer(t, A_NOADDR, "", false, 5); Bytes save = e.b; e.mi(lib::key(key.empty() ? "x" : key)); Bytes mi(e.b.end() - 24, e.b.end()); e.b = save; e.xaddr(pub(5), t); e.b.insert(e.b.end(), mi.begin(), mi.end()); e.len(); b = e.b; }
    return b;
}
VH_SECTION("authenticity: any wrong datagram at any point changes nothing", "C04") {
    Conf k; k.rc = 2; k.rm = 2; k.rto = 100 * MS; uint32_t v = c.choose(4); k.unauth_alt = v & 1; if (v & 2) { k.delay5 = 50 * MS; k.max5 = 1; }
    uint32_t at = c.choose(6), who = c.choose(2), shape = c.choose(SHAPES), kind = c.choose(A_KINDS), keysel = c.choose(4), pre = c.choose(2), reply = c.choose(3);
    // tx0 plain, tx1 authenticated; noise goes to tx `who`
    bool auth = who == 1; std::string key = keysel == 0 ? "" : keysel == 1 ? "pw" : keysel == 2 ? "wrong" : "pw2";
    bool malformed = shape == TRUNCATED || shape == BAD_FP || shape == EMPTY || shape == TRUNC_ATTR || shape == BAD_COOKIE, unknown = shape == UNKNOWN_TID || shape == NEAR_TID, foreign = shape == REQUEST || shape == INDICATION;
    bool authentic = !auth || (shape == AS_IS && keysel == 1) || (shape == AS_IS && keysel == 0 && k.unauth_alt && (kind == A_300ALT || kind == A_300)) || (shape == FLIP && keysel == 0 && k.unauth_alt && (kind == A_300ALT || kind == A_300));
    if (shape == MI_MOVED || shape == MI_STRIPPED || shape == MI_APPENDED_AFTER) authentic = !auth;
    if (!malformed && !unknown && !foreign && authentic) return;       // that one counts: not noise
    if (pre && malformed) return;
    auto run = [&](bool with, std::vector<bool>& errs) {
        Sim s(c, k); s.create(0, ""); s.create(1, "pw"); s.create(3, "pw2"); s.drain(); int step = 0;
        auto inject = [&](int here) { if (!with || int(at) != here) return; auto& x = s.tx[who]; auto r = s.respond(noise(x.tid, shape, kind, key), pre); errs.push_back(bool(r)); };
        inject(0); s.step(); inject(1); s.t += 40 * MS; s.drain(); inject(2); s.t += 60 * MS; inject(3); s.drain();   // first resend at 100 ms
        if (reply) { s.t += 5 * MS; s.respond(answer(s.tx[who].tid, reply == 1 ? A_OK : A_500, s.tx[who].key)); inject(4); if (reply == 2) s.drain(); }
        for (int i = 0; i < 10; ++i) { s.t += 50 * MS; s.drain(); if (i == 1) inject(5); ++step; }
        int z = s.create(s.tx[who].path, s.tx[who].key); (void)z; s.drain();   // adapted timeout of the same path
        for (int i = 0; i < 30; ++i) { s.t += 50 * MS; s.drain(); }
        return s.log;
    };
    std::vector<bool> e0, e1; auto clean = run(false, e0), noisy = run(true, e1);
    auto D = [&] { return std::string(shape_name(shape)) + " / " + kind_name(kind) + (key.empty() ? ", unsigned" : ", signed with '" + key + "'") + ", to a " + (auth ? "authenticated" : "plain") + " transaction at point " + N(at); };
    c.require(clean == noisy, "changed", [&] { return D() + ": without it" + show(clean) + "\n  with it" + show(noisy); });
    if (!foreign && !e1.empty()) c.require(e1[0], "not-reported", [&] { return D() + ": not reported as an error"; });
    c.trace(); c.outcome(D());
}
VH_SECTION("authenticity: authentic responses of every size are taken, and only with the right key", "C04") {
    uint32_t words = c.choose(vh::thorough() ? 420 : 370), kl = vh::thorough() ? c.choose(5) : 3 * c.choose(2), where = c.choose(3), fp = c.choose(2), kind = c.choose(2); static const size_t KL[] = {1, 20, 64, 65, 300}; std::string key(KL[kl], 'k'); key[0] = 'a';
    Conf k; Sim s(c, k); s.create(0, key); s.create(4, "other"); s.drain(); const Bytes tid = s.tx[0].tid;
    auto mk = [&](const std::string& kk) { ref::Enc e(ref::msg_type(kind ? 3 : 2, 1), tid); Bytes pad(words * 4, uint8_t(0x5a)); if (where == 0 && words) e.attr(0xc001, pad); if (kind) e.error(401, "no"); else e.xaddr(pub(1), tid); if (where == 1 && words) e.attr(0xc001, pad); if (where == 2) for (uint32_t i = 0; i < words; ++i) e.word(uint16_t(0xc100 + i % 7), i); e.mi(lib::key(kk)); if (fp) e.fp(); return e.b; };
    std::string near = key; near.back() ^= 1; c.require(bool(s.respond(mk(near))), "forged-accepted", "a response signed with a key that differs in one bit is accepted"); size_t n = s.log.size(); s.drain(); c.require(s.log.size() == n, "forged-effect");
    Bytes cut = mk(key); cut[20 + (words ? words * 4 : 0) / 2] ^= 4; { ref::Enc e(0, tid); e.b = Bytes(cut.begin(), cut.end() - (fp ? 8 : 0)); if (fp) e.fp(); else e.len(); auto r = s.respond(e.b); (void)r; s.drain(); c.require(s.log.size() == n, "forged-effect", [&] { return "a signed response of " + N(e.b.size()) + " bytes with one changed bit has effects:" + show(s.log); }); }
    Bytes good = mk(key); auto r = s.respond(good); c.require(!r, "good-rejected", [&] { return "an authentic response of " + N(good.size()) + " bytes is reported as '" + r.message() + "'"; }); s.drain(); c.require(s.tx[0].terminals == 1 && s.tx[1].terminals == 0 && s.tx[0].outcome[0] == (kind ? 'F' : 'O'), "good-ignored", [&] { return "an authentic response of " + N(good.size()) + " bytes: " + show(s.log); });
}
VH_SECTION("authenticity: every single-bit change of a signed response", "C04") {
    uint32_t w = c.choose(3); Conf k; Sim s0(c, k); s0.create(1, "pw"); s0.drain(); Bytes good = answer(s0.tx[0].tid, w == 0 ? A_OK : w == 1 ? A_401 : A_300ALT, "pw");
    uint32_t i = c.choose(good.size() * 8); Bytes b = good; b[i / 8] ^= uint8_t(0x80 >> (i % 8));
    auto r = s0.respond(b); size_t n = s0.log.size(); s0.drain();
    c.require(r.operator bool() || (ref::type_class(ref::u16(b, 0)) < 2), "forged-accepted", [&] { return "response with bit " + N(i) + " changed is accepted: " + vh::hex(b); });
    c.require(s0.log.size() == n, "forged-effect", [&] { return "response with bit " + N(i) + " changed has effects:" + show(s0.log); });
    c.require(!s0.respond(good), "good-rejected", "the unchanged response is rejected afterwards"); s0.drain(); c.require(s0.tx[0].terminals == 1, "good-ignored", "the unchanged response has no effect afterwards");
}
VH_SECTION("authenticity: only responses of the Binding method count", "C04") {
    uint32_t m = c.choose(4096), kind = c.choose(3), auth = c.choose(2), pre = vh::thorough() ? c.choose(2) : m & 1; static const int K[] = {A_OK, A_401, A_500}; Conf k; k.rc = 3; k.rto = 100 * MS; if (kind == 2) { k.delay5 = 50 * MS; k.max5 = 1; } std::string key = auth ? "pw" : "";
    Sim s(c, k); s.create(1, key); s.drain(); s.t += 10 * MS; Bytes good = answer(s.tx[0].tid, K[kind], key), b = good; unsigned t = ref::msg_type(kind ? 3 : 2, m); b[0] = uint8_t(t >> 8); b[1] = uint8_t(t); if (auth) { b.resize(b.size() - 24); ref::Enc e(0, Bytes(12)); e.b = b; e.mi(lib::key(key)); b = e.b; }
    size_t n = s.log.size(); auto r = s.respond(b, pre); s.drain(); c.state(vh::mix(m, kind * 2 + auth)); c.trace(); bool counts = m == 1; c.outcome(uint64_t(counts));
    if (!counts) { c.require(bool(r), "other-method-accepted", [&] { return "a response of method " + N(m) + " is accepted: " + vh::hex(b); }); c.require(s.log.size() == n, "other-method-effect", [&] { return "a response of method " + N(m) + " has effects:" + show(s.log); }); s.t += 5 * MS; r = s.respond(good); s.drain(); }
    c.require(!r, "good-rejected", [&] { return "the response is rejected: " + r.message(); }); if (kind < 2) c.require(s.tx[0].terminals == 1 && s.tx[0].outcome[0] == (kind ? 'F' : 'O'), "good-ignored", [&] { return "the response has no effect:" + show(s.log); }); else { s.t += 50 * MS; s.drain(); c.require(!s.tx[0].terminals && s.tx[0].sends == 2, "good-ignored", [&] { return "the server error is not followed by a resend:" + show(s.log); }); }
}
// ------------------------------------------------------------------ C05
VH_SECTION("outcome table: every combination of response contents", "C05") {
    uint32_t cls = 2 + c.choose(2), sig = c.choose(3), pre = c.choose(2), order = c.choose(2), unk = c.choose(4), when = c.choose(3);
    // sig: 0 plain, 1 authenticated, 2 plain transaction, signed answer (ignored)
    uint32_t body = c.choose(cls == 2 ? 16 : 1); static const std::vector<int> CODES{-1, 0, 100, 200, 299, 300, 301, 399, 400, 401, 419, 420, 421, 438, 499, 500, 503, 599, 600, 699, 700, 799, 3 * 100 + 200, 255};
    int code = cls == 3 ? c.pick(CODES) : -1; uint32_t alt = cls == 3 ? c.choose(3) : 0, ua = cls == 3 ? c.choose(4) : 0;
    Conf k; k.rc = 3; Sim s(c, k); s.create(c.choose(2) ? 3 : sig == 1 ? 1 : 0, sig == 1 ? "pw" : ""); s.drain();
    if (when) { s.t = 500 * MS; s.drain(); } s.t += 120 * MS; if (when == 2) s.drain();
    const Bytes tid = s.tx[0].tid; ref::Enc e(ref::msg_type(cls, 1), tid); ref::Addr x4 = pub(1), m4 = pub(2), a4 = pub(3), x6{true, {}, 777}, m6, a6; for (int i = 0; i < 16; ++i) x6.b.push_back(uint8_t(i * 17 + 3)); m6 = x6; m6.b[15] ^= 0xff; a6 = x6; a6.b[0] ^= 0xff; a6.port = 3479;
    std::vector<std::function<void()>> parts; std::vector<uint16_t> req, rep;
    if (body & 1) parts.push_back([&] { e.xaddr(body & 8 ? x6 : x4, tid); }); if (body & 2) parts.push_back([&] { e.addr(1, body & 4 ? m6 : m4); });
    if (code >= 0) parts.push_back([&] { Bytes v{0, 0, uint8_t(code / 100), uint8_t(code % 100), 'w', 'h', 'y'}; e.attr(9, v); });
    if (alt) parts.push_back([&] { e.addr(0x8023, alt == 1 ? a4 : a6); });
    if (ua) parts.push_back([&] { Bytes v; std::vector<uint16_t> l; if (ua >= 2) l = {0x7f11, 0x0007}; if (ua == 3) l.push_back(0x8022); for (auto t : l) ref::p16(v, t); rep = l; e.attr(0xa, v); });
    if (unk & 1) parts.push_back([&] { e.word(0x7ff0, 1); req.push_back(0x7ff0); }); if (unk == 3) parts.push_back([&] { e.attr(0x0013, {}); req.push_back(0x13); }); if (unk >= 2) parts.push_back([&] { e.word(0xff01, 2); });
    if (order) std::reverse(parts.begin(), parts.end()); for (auto& f : parts) f();
    if (sig) e.mi(lib::key("pw")); if (order) e.fp();
    auto r = s.respond(e.b, pre); size_t n = s.log.size(); s.drain();
    auto L = [](const std::vector<uint16_t>& v) { std::string o; for (auto t : v) o += N(t) + ","; return o; };
    std::string want; char kind = 'F';
    if (!req.empty()) want = "unknown-required " + L(req);
    else if (cls == 2) { if (body & 1) { kind = 'O'; want = addr_str(body & 8 ? x6 : x4); } else if (body & 2) { kind = 'O'; want = addr_str(body & 4 ? m6 : m4); } else want = err_str(stun::ClientError::no_address_in_response); if (kind == 'O') want += when ? " rtt=-" : " rtt=120000"; }
    else if (code < 0) want = err_str(stun::ClientError::no_error_code_in_response);
    else if (code == 300) want = alt ? "alternate " + addr_str(alt == 1 ? a4 : a6) : err_str(stun::ClientError::no_alternate_server_in_response);
    else if (code == 420 && ua) want = "unknown-reported " + L(rep);
    else if (code / 100 >= 3 && code / 100 <= 5) want = "code " + N(code) + " why"; else kind = 0;
    auto W = [&] { return "response " + vh::hex(e.b) + " (class " + N(cls) + ", code " + N(code) + "): "; };
    c.require(!r, "reported-error", [&] { return W() + "authentic response reported as error " + r.message(); });
    std::vector<Ev> got(s.log.begin() + n, s.log.end());
    if (when == 1 && got.size() == 1 + (kind ? 1 : 0) && got[0].kind == 'S') got.erase(got.begin());   // a resend due at the same moment (not here, but harmless)
    c.outcome(want.substr(0, 12));
    c.sample([&] { return W() + (kind ? want : std::string("nothing")); });
    if (!kind) {
        c.require(got.empty(), "unexpected-outcome", [&] { return W() + "must change nothing, but:" + show(got); });
        // still answerable
        c.require(!s.respond(answer(tid, A_OK, s.tx[0].key)), "dead"); s.drain(); c.require(s.tx[0].terminals == 1 && s.tx[0].outcome[0] == 'O', "dead", [&] { return W() + "after it the transaction no longer accepts a success"; });
        return;
    }
    c.require(got.size() == 1 && got[0].tx == 0 && got[0].kind == kind && got[0].what == want, "wrong-outcome", [&] { return W() + "must give " + (kind == 'O' ? "success " : "failure ") + want + ", observed" + show(got); });
}
VH_SECTION("outcome table: all error codes and all addresses", "C05") {
    uint32_t v = c.choose(256), mode = c.choose(6);
    Conf k; Sim s(c, k); s.create(); s.drain(); const Bytes tid = s.tx[0].tid; s.t += 1000 + v;
    ref::Enc e(ref::msg_type(mode < 3 ? 3 : 2, 1), tid); std::string want; char kind = 'F';
    if (mode < 3) {   // class byte 3, 4, 5 with every number
        unsigned code = (mode + 3) * 100 + v; e.attr(9, Bytes{0, 0, uint8_t(mode + 3), uint8_t(v)}); if (code / 100 > 5) kind = 0; else if (code == 300) want = err_str(stun::ClientError::no_alternate_server_in_response); else want = "code " + N(code) + " ";
    } else { ref::Addr a = pub(0); kind = 'O';
        if (mode == 3) { a.port = uint16_t(v << 8 | (255 - v)); e.xaddr(a, tid); } if (mode == 4) { a.b[v % 4] = uint8_t(v); a.port = uint16_t(v); e.addr(1, a); } if (mode == 5) { a.v6 = true; a.b.assign(16, uint8_t(255 - v)); a.b[v % 16] ^= uint8_t(v); e.xaddr(a, tid); }
        want = addr_str(a) + " rtt=" + N(1000 + v); }
    auto r = s.respond(e.b); size_t n = s.log.size(); s.drain(); std::vector<Ev> got(s.log.begin() + n, s.log.end());
    c.require(!r, "reported-error"); if (!kind) { c.require(got.empty(), "unexpected-outcome", [&] { return "response " + vh::hex(e.b) + " must change nothing:" + show(got); }); return; }
    c.require(got.size() == 1 && got[0].kind == kind && got[0].what == want, "wrong-outcome", [&] { return "response " + vh::hex(e.b) + " must give " + want + ", observed" + show(got); });
}
VH_SECTION("outcome table: every port and every address that looks special", "C05") {
    uint32_t hi = c.choose(256 + uint32_t(ref::special_addresses().size())), how = c.choose(3);   // how: 0 xored, 1 plain, 2 alternate
    for (unsigned lo = 0; lo < (hi < 256 ? 256u : 3u); ++lo) {
        ref::Addr a = hi < 256 ? pub(0) : ref::special_addresses()[hi - 256]; a.port = uint16_t(hi < 256 ? hi << 8 | lo : lo * 0x7fff);
        Conf k; Sim s(c, k); s.create(); s.drain(); const Bytes tid = s.tx[0].tid; s.t += 10; ref::Enc e(ref::msg_type(how == 2 ? 3 : 2, 1), tid); if (how == 0) e.xaddr(a, tid); else if (how == 1) e.addr(1, a); else e.error(300).addr(0x8023, a);
        auto r = s.respond(e.b); size_t n = s.log.size(); s.drain(); std::string want = how == 2 ? "alternate " + addr_str(a) : addr_str(a) + " rtt=10"; c.require(!r && s.log.size() == n + 1 && s.log[n].what == want && s.log[n].kind == (how == 2 ? 'F' : 'O'), "wrong-outcome", [&] { return "response " + vh::hex(e.b) + " must give " + want + ", observed" + show(s.log); }); c.state(vh::mix(hi, lo * 3 + how));
    }
}
VH_SECTION("outcome table: lists of any length", "C05") {
    uint32_t n = c.choose(120), how = c.choose(3); if (n > 100) n = 100 + (n - 100) * 97; Conf k; Sim s(c, k); s.create(); s.drain(); const Bytes tid = s.tx[0].tid; std::string l; ref::Enc e(ref::msg_type(how == 1 ? 2 : 3, 1), tid);
    if (how == 0) { Bytes v; for (uint32_t i = 0; i < n; ++i) { uint16_t t = uint16_t(0x7000 + i * 7); ref::p16(v, t); l += N(t) + ","; } e.error(420).attr(0xa, v); l = "unknown-reported " + l; }
    else { if (n == 0) return; if (how == 1) e.xaddr(pub(0), tid); else e.error(500); for (uint32_t i = 0; i < n; ++i) { uint16_t t = uint16_t(0x7000 + i % 64 * 7); if (i >= 64) t = uint16_t(0x3000 + i); e.attr(t, Bytes(i % 3, 1)); l += N(t) + ","; } l = "unknown-required " + l; }
    auto r = s.respond(e.b); size_t at = s.log.size(); s.drain(); c.require(!r && s.log.size() == at + 1 && s.log[at].kind == 'F' && s.log[at].what == l, "wrong-outcome", [&] { return "a list of " + N(n) + " attribute types must give " + l.substr(0, 200) + ", observed" + show(s.log).substr(0, 400); }); c.state(vh::mix(n, how));
}
// ------------------------------------------------------------------ C06
VH_SECTION("timeout: every history of measurements on up to three paths", "C06") {
    Conf k; k.rc = 3; k.rm = 5; k.rto = 500 * MS; k.history = 60 * SEC; uint32_t var = c.choose(3); if (var == 1) k.max_rto = 800 * MS; if (var == 2) { k.rto = 90 * MS; k.history = 3 * SEC; }
    Sim s(c, k, var == 2 ? uint64_t(-2 * SEC) : 0); RtoModel m{k}; uint32_t n = vh::thorough() ? 4 : 3;
    static const int P[] = {0, 4, 2};
    // one transaction: path, and how it goes; afterwards measured by a probe transaction on every path that is left unanswered
    auto interval0 = [&](int p, double want, const char* key) {   // create a request and find its first retransmission
        int i = s.create(p); s.drain(); int64_t t0 = s.t; double w = want; if (k.max_rto >= 0) w = std::min(w, double(k.max_rto));
        c.require(s.tx[i].sends == 1, "no-send");
        s.t = t0 + int64_t(w) - 12; if (s.t < t0) s.t = t0; s.drain();
        c.require(s.tx[i].sends == 1, key, [&] { return k.str() + ": path " + N(p) + ": retransmitted before the timeout of " + N(int64_t(w)) + " us:" + show(s.log); });
        s.t = t0 + int64_t(w) + 12; s.drain();
        c.require(s.tx[i].sends == 2, key, [&] { return k.str() + ": path " + N(p) + ": not retransmitted at the timeout of " + N(int64_t(w)) + " us:" + show(s.log); });
        return i;
    };
    for (uint32_t q = 0; q < n; ++q) {
        int p = P[c.choose(var == 1 ? 2 : 3)]; uint32_t how = c.choose(9);
        if (how >= 7) { s.t += how == 7 ? k.history - 100 * MS : k.history + 7 * MS; s.drain(); continue; }   // time passes
        static const int64_t RTT[] = {20 * MS, 83 * MS, 300};
        double cur = m.rto(p);
        if (how < 3) {
            int i = s.create(p); s.drain(); int64_t t0 = s.t; double w = k.max_rto >= 0 ? std::min(cur, double(k.max_rto)) : cur; if (RTT[how] >= w - 20) return;
            s.t += RTT[how]; s.drain(); s.respond(answer(s.tx[i].tid, how == 1 ? A_NOADDR : A_OK, "")); s.drain();
            c.require(s.tx[i].terminals == 1, "no-outcome"); m.rtt(s.t, p, double(s.t - t0));
            if (how != 1) c.require(s.tx[i].outcome == "O " + pub_str() + " rtt=" + N(s.t - t0), "rtt", [&] { return "round-trip time not reported right: " + s.tx[i].outcome; });
        } else if (how < 6) {
            int i = interval0(p, cur, "timeout"); double ci = k.max_rto >= 0 ? std::min(cur, double(k.max_rto)) : cur; double last = k.max_rto >= 0 ? std::min(2 * ci, double(k.max_rto)) : 2 * ci;
            if (how >= 4) { s.t += int64_t(last) + 20; s.drain(); c.require(s.tx[i].sends == 3, "timeout", [&] { return "third transmission missing:" + show(s.log); }); last = cur * k.rm; if (k.max_rto >= 0) last = std::min(last, double(k.max_rto)); }
            s.t += 10 * MS; if (how == 5) s.respond(answer(s.tx[i].tid, A_401, "")); else s.respond(answer(s.tx[i].tid, A_OK, "")); s.drain(); c.require(s.tx[i].terminals == 1, "no-outcome");
            if (how != 5) { m.back(s.t, p, last, 0); c.require(s.tx[i].outcome == "O " + pub_str() + " rtt=-", "rtt", [&] { return "round-trip time reported for a retransmitted request: " + s.tx[i].outcome; }); }
        } else { int i = s.create(p); s.drain(); for (int z = 0; z < 3; ++z) { s.t += 20 * k.rto + int64_t(cur) * 16; s.drain(); } c.require(s.tx[i].terminals == 1, "no-outcome"); }   // unanswered: no measurement
    }
    for (int pi = 0; pi < 3; ++pi) {
        int i = interval0(P[pi], m.rto(P[pi]), "timeout");
        s.respond(answer(s.tx[i].tid, A_401, "")); s.drain();   // ends without a measurement
    }
    c.trace(); uint64_t h = 0; for (auto& [p, x] : m.h) h = vh::mix(h, vh::mix(uint64_t(m.rto(p)), p)); c.state(vh::mix(h, s.t)); c.outcome(h);
}
VH_SECTION("timeout: lockstep with the model, every sequence of measurements, waits and late answers", "C06") {
    Conf k; k.rto = 100 * MS; k.rc = 3; k.rm = 3; k.history = 4 * SEC; uint32_t v = c.choose(3); if (v == 1) k.max_rto = 130 * MS; if (v == 2) { k.delay5 = 35 * MS; k.max5 = 1; }
    lockstep(c, k, {{0, 4}, {""}, {A_OK, v == 2 ? A_500 : A_401}, {24 * MS, 129 * MS, 900 * MS}, 4, vh::thorough() ? 6u : 5u, true}, v == 1 ? uint64_t(-1 * SEC) : 0);
}
VH_SECTION("timeout: history expires path by path, in order of last use", "C06") {
    Conf k; k.rto = 100 * MS; k.rc = 2; k.rm = 3; k.history = 10 * SEC; uint32_t n = vh::thorough() ? 8 : 6;
    Lockstep l(c, k, c.choose(2) ? uint64_t(-9 * SEC) : 0); static const int P[] = {0, 4, 3}; int used = 0;
    for (uint32_t i = 0; i < n; ++i) {
        uint32_t op = c.choose(8); // measure on a path | back off on a path | wait
        if (op < 6) { int p = P[op % 3]; if (int(op % 3) > used) return; used = std::max<int>(used, op % 3 + 1); int x = l.s.tx.size(); l.create(p, ""); if (!l.drain()) return;
            if (op < 3) l.s.t += 40 * MS + 8 * MS * (i % 2); else { double d = l.m.tx[x].due + l.m.tx[x].err; l.s.t = int64_t(std::ceil(d)) + 1; if (!l.drain()) return; l.s.t += 3 * MS; }
            if (!l.can(x)) return; l.respond(x, A_OK, ""); if (!l.drain()) return; }
        else { l.s.t += op == 6 ? 4600 * MS : 5700 * MS; if (!l.drain()) return; }
    }
    for (int p : P) l.create(p, ""); if (!l.drain()) return;
    if (l.finish()) { c.trace(); uint64_t h = 0; for (auto& [p, x] : l.m.r.h) h = vh::mix(h, vh::mix(uint64_t(l.m.r.rto(p)), p)); c.outcome(h); }
}
VH_SECTION("timeout: long histories on one path follow the filter exactly", "C06") {
    Conf k; k.rto = 500 * MS; k.rc = 3; k.rm = 1; static const std::vector<int64_t> R{1 * MS, 40 * MS, 41 * MS, 200 * MS, 3 * MS}; Lockstep l(c, k); std::vector<int> pat; uint32_t per = vh::thorough() ? 5 : 4; for (uint32_t i = 0; i < per; ++i) pat.push_back(int(c.choose(6)));
    for (int i = 0; i < 24; ++i) { int x = l.s.tx.size(); l.create(0, ""); if (!l.drain()) return; int q = pat[i % per]; int64_t E = int64_t(l.m.tx[x].err) + 2, w = q == 5 ? int64_t(l.m.tx[x].due - l.s.t) + E : std::min<int64_t>(R[q], int64_t(l.m.tx[x].interval) - E); if (w < 0) return; l.s.t += w; if (!l.drain()) return; if (q == 5) l.s.t += 4; l.respond(x, A_OK, ""); if (!l.drain()) return; }
    l.create(0, ""); if (l.drain() && l.finish()) c.trace();
}
VH_SECTION("timeout: paths that differ in one bit or are reversed do not influence each other", "C06") {
    uint32_t bit = c.choose(33 * 2 + 1), v6 = c.choose(2); Conf k; Sim s(c, k);
    auto mkp = [&](int flip) { ref::Addr a{bool(v6), v6 ? Bytes(16, 0x21) : Bytes{10, 1, 2, 3}, 0}, b{bool(v6), v6 ? Bytes(16, 0x43) : Bytes{10, 9, 8, 7}, 0}; size_t n = a.b.size();
        if (flip == 66) std::swap(a, b); else if (flip >= 0) { size_t w = size_t(flip / 2) % (n * 8); auto& t = flip & 1 ? a.b : b.b; t[w / 8] ^= uint8_t(0x80 >> (w % 8)); } return net::Path{lib::addr(a), lib::addr(b)}; };
    auto mk = [&](int flip) { auto r = s.cl.create(s.rng, s.now(), ClientUDP::Request{mkp(flip), {}, {}, none()}); Tx x{r.unwrap()}; s.tx.push_back(x); s.drain(); return int(s.tx.size()) - 1; };
    int a = mk(-1); s.t += 30 * MS; s.respond(answer(s.tx[a].tid, A_OK, "")); s.drain();
    int b = mk(int(bit)); int64_t t0 = s.t; s.t = t0 + 95 * MS; s.drain(); c.require(s.tx[b].sends == 1, "influence", "history of one path shortens the timeout of another"); s.t = t0 + 500 * MS; s.drain(); c.require(s.tx[b].sends == 2, "influence", "history of one path lengthens the timeout of another");
    int d = mk(-1); t0 = s.t; s.t = t0 + 90 * MS - 1; s.drain(); c.require(s.tx[d].sends == 1, "own"); s.t = t0 + 90 * MS; s.drain(); c.require(s.tx[d].sends == 2, "own", "history of the path itself is not used");
}
// ------------------------------------------------------------------ C07
VH_SECTION("server errors: every placement of 5xx responses in the schedule", "C07") {
    Conf k; k.rc = 1 + c.choose(3); k.rm = 3; k.rto = 100 * MS; static const std::vector<int64_t> D{-1, 30 * MS, 100 * MS, 250 * MS, 900 * MS, 1, 0}; k.delay5 = c.pick(D); k.max5 = c.choose(4); if (c.choose(2)) k.max_rto = 150 * MS;
    std::string key = c.choose(2) ? "pw" : ""; Sim s(c, k); s.create(0, key); s.drain(); std::vector<Ev> want{{0, 0, 'S', ""}}; Sched m{first_interval(k), first_interval(k)};
    uint32_t n = vh::thorough() ? 5 : 4; uint32_t used = 0; bool failed = false;
    while (!m.done) {
        uint32_t a = used < n ? c.choose(4) : 0;
        if (a == 0) {   // let the timer fire
            if (m.due - 1 > s.t) { s.t = m.due - 1; s.drain(); expect_log(c, s, want, "early"); }
            s.t = m.due; s.drain(); char r = fire(k, m, s.t); want.push_back({s.t, 0, r, r == 'F' ? "timeout" : ""}); expect_log(c, s, want, r == 'F' ? "timeout" : "resend"); continue;
        }
        ++used; int64_t before = a == 1 ? s.t : a == 2 ? (s.t + m.due) / 2 : m.due - 1; if (before > s.t) { s.t = before; s.drain(); expect_log(c, s, want, "early"); }
        static const unsigned C5[] = {500, 503, 599, 550, 501}; unsigned code = C5[used % 5]; ref::Enc e(ref::msg_type(3, 1), s.tx[0].tid); e.error(code, "x"); if (!key.empty()) e.mi(lib::key(key));
        auto r = s.respond(e.b); c.require(!r, "reported-error"); s.drain();
        if (k.delay5 < 0 || m.n5 >= k.max5) { want.push_back({s.t, 0, 'F', "code " + N(code) + " x"}); m.done = failed = true; expect_log(c, s, want, "give-up"); }
        else { ++m.n5; m.due = s.t + k.delay5; if (k.delay5 == 0) { fire(k, m, s.t); want.push_back({s.t, 0, 'S', ""}); } expect_log(c, s, want, "too-soon"); }
    }
    s.t += 100 * SEC; s.drain(); expect_log(c, s, want, "after-end"); c.trace(); c.state(vh::hash_str(show(want), vh::hash_str(k.str()))); c.outcome(failed ? "reported" : "timeout");
}
VH_SECTION("server errors: lockstep with the model, several transactions, late polls, other answers in between", "C07") {
    Conf k; k.rto = 100 * MS; static const std::vector<std::pair<unsigned, unsigned>> RR{{1, 1}, {2, 2}, {3, 1}}; auto rr = c.pick(RR); k.rc = rr.first; k.rm = rr.second; static const std::vector<int64_t> D{-1, 40 * MS, 100 * MS, 330 * MS}; k.delay5 = c.pick(D); k.max5 = c.choose(3); if (c.choose(2)) k.max_rto = 150 * MS;
    lockstep(c, k, {{0}, {"", "pw"}, {A_500, A_600}, {100 * MS, 61 * MS}, 2, vh::thorough() ? 6u : 4u, true, true});
}
VH_SECTION("server errors: every code with every limit, and many in a row", "C07") {
    uint32_t n = c.choose(100), mx = c.choose(6); static const unsigned M[] = {0, 1, 2, 7, 8, 40}; Conf k; k.rc = 2; k.rm = 2; k.rto = 100 * MS; k.delay5 = 20 * MS; k.max5 = M[mx]; bool gap = c.choose(2); Sim s(c, k); s.create(); s.drain(); unsigned sends = 1;
    for (unsigned i = 0; i <= k.max5; ++i) { ref::Enc e(ref::msg_type(3, 1), s.tx[0].tid); e.error(500 + (i + n) % 100, "z"); c.require(!s.respond(e.b), "reported-error"); s.drain();
        if (i == k.max5) { c.require(s.tx[0].terminals == 1 && s.tx[0].outcome == "F code " + N(500 + (i + n) % 100) + " z", "give-up", [&] { return k.str() + ": after " + N(i + 1) + " 5xx responses: '" + s.tx[0].outcome + "'" + show(s.log); }); break; }
        c.require(s.tx[0].terminals == 0, "too-soon", [&] { return k.str() + ": given up after " + N(i + 1) + " 5xx responses:" + show(s.log); });
        if (gap) { s.t += 20 * MS - 1; s.drain(); c.require(s.tx[0].sends == int(sends), "early"); s.t += 1; s.drain(); ++sends; c.require(s.tx[0].sends == int(sends), "resend", [&] { return k.str() + ": not sent again 20 ms after 5xx number " + N(i + 1) + show(s.log); }); } }
}
// ------------------------------------------------------------------ C08
static void check_request(vh::Ctx& c, Sim& s, int i, const ref::Msg& want) {
    const Tx& x = s.tx[i]; ref::Parsed p = ref::parse(x.data); auto W = [&] { return "request " + vh::hex(x.data) + ": "; };
    c.require(p.ok, "ill-formed", [&] { return W() + "not a well-formed message"; });
    ref::Msg w = want; w.tid = p.m.tid; w.cls = 0; w.method = 1; w.rfc3489 = false; if (!x.key.empty()) w.username = s.user;
    std::string d = lib::diff(p.m, w); c.require(d.empty() && !p.m.rfc3489, "contents", [&] { return W() + "wrong " + d; });
    c.require(bool(p.m.fingerprint) == s.conf.fp, "fingerprint", [&] { return W() + "fingerprint"; });
    c.require(bool(p.m.integrity) == !x.key.empty() && (x.key.empty() || ref::integrity(x.data, p.m, lib::key(x.key)).value_or(false)), "integrity", [&] { return W() + "integrity attribute"; });
}
VH_SECTION("requests: every subset of attributes, authenticated or not, resent unchanged", "C08") {
    Conf k; k.rc = 3; k.rto = 10 * MS; k.rm = 1; k.fp = c.choose(2); std::string key = c.choose(2) ? (c.choose(2) ? std::string(90, 'q') : "pw") : ""; uint32_t mask = c.choose(256); ref::Msg w; stun::AttributeSet::AttrVec a; stun::AttributeSet::UnknownAttrVec u;
    if (mask & 1) { a.push_back(stun::SoftwareAttribute{"agent"}); w.software = "agent"; } if (mask & 2) { a.push_back(stun::PriorityAttribute{0x11223344}); w.priority = 0x11223344; } if (mask & 4) { a.push_back(stun::IceControllingAttribute{0x0102030405060708ull}); w.controlling = 0x0102030405060708ull; }
    if (mask & 8) { a.push_back(stun::UseCandidateAttribute{}); w.use_candidate = true; } if (mask & 16) { a.push_back(stun::IceControlledAttribute{77}); w.controlled = 77; } if (mask & 32) { Bytes d{1, 2, 3}; u.emplace_back(lib::atype(0xc057), lib::view(d)); w.unknown.push_back({0xc057, d}); }
    if (mask & 64) for (int q = 0; q < 3; ++q) { Bytes d(size_t(q * 5), uint8_t(q + 1)); uint16_t t = mask & 128 ? 0x8050 : uint16_t(0x0033 + q); u.emplace_back(lib::atype(t), lib::view(d)); w.unknown.push_back({t, d}); } else if (mask & 128) for (uint16_t t : {uint16_t(0x7fff), uint16_t(0x8000), uint16_t(0x7fff)}) { Bytes d(mask & 1 ? 500 : 4, 0xee); u.emplace_back(lib::atype(t), lib::view(d)); w.unknown.push_back({t, d}); }
    Sim s(c, k); int i = s.create(c.choose(2) ? 3 : 0, key, a, u); s.drain(); check_request(c, s, i, w);
    uint32_t end = c.choose(4); Bytes copy = s.tx[i].data;
    auto views = [&] { if (s.tx[i].terminals) return; for (auto& v : s.tx[i].views) c.require(Bytes(v.begin(), v.end()) == copy, "view-changed", "the bytes handed out for sending changed before the outcome was delivered"); };
    for (int z = 0; z < 2; ++z) { s.t += 10 * MS; views(); s.step(); views(); s.t += 11 * MS; s.drain(); views(); for (int q = 0; q < 5; ++q) s.create(1, "other"); s.drain(); views(); }
    if (end < 3) { s.respond(answer(s.tx[i].tid, end == 0 ? A_OK : end == 1 ? A_401 : A_600, key)); views(); s.t += 200 * MS; views(); for (int z = 0; z < 100 && !s.tx[i].terminals; ++z) { views(); if (s.step() != EFFECT) s.t += 10 * MS; } }
    else { for (int z = 0; z < 100 && !s.tx[i].terminals; ++z) { views(); if (s.step() != EFFECT) s.t += 10 * MS; } }
    for (auto& e : s.log) c.require(e.kind != 'S' || e.what.empty(), "resend-differs", [&] { return "a retransmission differs from the first transmission:" + show(s.log); });
    c.require(s.tx[i].sends >= 2, "no-resend"); c.trace();
}
VH_SECTION("requests: transaction ids are unique among live ones whatever the random source", "C08") {
    Conf k; k.rc = 1; k.rm = 1; k.rto = 10 * MS; Sim s(c, k); uint32_t n = vh::thorough() ? 5 : 4;
    // a weak source: every id is one of two values until it is exhausted
    for (uint32_t i = 0; i < n; ++i) { uint32_t v = c.choose(3); for (int w = 0; w < 3; ++w) s.rng.script.push_back(v < 2 ? v : 100 + i); }
    for (uint32_t i = 0; i < 3; ++i) {
        uint32_t end = c.choose(3); int x = s.create(int(i), ""); s.drain();
        for (int j = 0; j < x; ++j) if (!s.tx[j].terminals) c.require(s.tx[j].tid != s.tx[x].tid, "duplicate-id", [&] { return "two live transactions have the id " + vh::hex(s.tx[x].tid); });
        if (end == 1) { s.respond(answer(s.tx[x].tid, A_OK, "", false, int(i))); s.drain(); c.require(s.tx[x].outcome.substr(0, 3 + pub_str(int(i)).size()) == "O " + pub_str(int(i)) + " ", "mixed-up", [&] { return "answer went elsewhere: " + s.tx[x].outcome; }); }
        if (end == 2) { s.t += 10 * MS; s.drain(); }
    }
    // the id is all of the random words, not a part of them
    std::set<std::string> ids; for (auto& x : s.tx) ids.insert(vh::hex(x.tid)); c.state(vh::mix(ids.size(), c.prefix_hash()));
}
VH_SECTION("requests: transaction id uses all of the random source", "C08") {
    uint32_t w = c.choose(96); Conf k; Sim a(c, k), b(c, k); a.rng.script = {1, 2, 3}; b.rng.script = {1, 2, 3}; b.rng.script[w / 32] ^= 1u << (w % 32);
    a.create(); a.drain(); b.create(); b.drain(); c.require(a.tx[0].tid.size() == 12 && a.tx[0].tid != b.tx[0].tid, "entropy", [&] { return "random bit " + N(w) + " does not reach the transaction id"; });
}
VH_SECTION("requests: user names, passwords and texts of every length and kind", "C08") {
    uint32_t what = c.choose(3), n = c.choose(vh::thorough() ? 765 : what == 2 ? 300 : 520), kind = c.choose(5); auto text = [&] { std::string t(n, 'x'); for (size_t i = 0; i < t.size(); ++i) t[i] = kind == 1 ? char(i * 37 + 1) : kind == 2 ? char(i % 3 ? 'n' : 0) : kind == 3 ? (i == 0 || i + 1 == t.size() ? ' ' : 'm') : kind == 4 ? (i == 0 || i + 1 == t.size() ? '"' : char(0xc3 - (i & 1) * 20)) : 'x'; return t; }();
    Conf k; k.rc = 3; k.rto = 50 * MS; k.fp = kind & 1; Sim s(c, k); ref::Msg w; stun::AttributeSet::AttrVec a; std::string key = what == 1 ? text : "pw"; if (key.empty()) return; if (what == 0) s.user = text; if (what == 2) { a.push_back(stun::SoftwareAttribute{text}); w.software = text; }
    int i = s.create(0, key, a); s.drain(); check_request(c, s, i, w); std::string bad = key; bad.back() = char(bad.back() ^ 1); s.t += 10 * MS; auto r = s.respond(answer(s.tx[i].tid, A_OK, bad)); s.drain(); c.require(bool(r) && !s.tx[i].terminals, "wrong-key", "an answer signed with another password was taken"); s.t += 41 * MS; s.drain(); c.require(s.tx[i].sends == 2, "resend"); r = s.respond(answer(s.tx[i].tid, A_OK, key)); s.drain(); c.require(!r && s.tx[i].outcome.substr(0, 2) == "O ", "outcome", [&] { return "the answer is not taken: " + s.tx[i].outcome; }); for (auto& e : s.log) c.require(e.kind != 'S' || e.what.empty(), "resend-differs"); c.trace(); c.state(vh::mix(what, n * 8 + kind));
}
// ------------------------------------------------------------------ any id
VH_SECTION("ids: whatever the random words, every answer counts as it does for any other id", "C01,C04,C05,C08") {
    static const std::vector<uint32_t> W{0, 1, 0xffffffffu, 0x2112a442u, 0x42a41221u, 0x80000000u, 0x000000ffu, 0x53c07c47u}; uint32_t w0 = c.pick(W), w1 = c.pick(W), w2 = c.pick(W); int kind = int(c.choose(A_KINDS)); bool auth = c.choose(2); std::string key = auth ? "pw" : ""; static std::map<int, std::string> usual;
    auto play = [&](Sim& s) { int i = s.create(0, key); s.drain(); s.t += 20 * MS; s.drain(); std::string o; Bytes wrong = s.tx[i].tid; wrong[kind % 12] ^= uint8_t(1 << kind % 8); o += s.respond(answer(wrong, kind, key)) ? "r" : "a"; s.drain(); o += s.respond(answer(s.tx[i].tid, A_OK, "none")) ? "r" : "a"; if (!auth) o += "-"; else s.drain(); o += s.respond(answer(s.tx[i].tid, kind, key), kind & 1) ? "r" : "a"; for (int z = 0; z < 60 && !s.tx[i].terminals; ++z) { s.step(); s.t += 10 * MS; } s.drain(); for (auto& e : s.log) o += e.str(); return o; };
    Conf k; k.rc = 3; k.rto = 100 * MS; k.max5 = 1; k.delay5 = 30 * MS; k.fp = kind & 2; auto& u = usual[kind * 2 + auth]; if (u.empty()) { Sim s(c, k); u = play(s); }
    Sim s(c, k); s.rng.script = {w0, w1, w2}; std::string o = play(s); c.require(o == u, "id-matters", [&] { return "with the random words " + N(w0) + " " + N(w1) + " " + N(w2) + " (id " + vh::hex(s.tx[0].tid) + ") " + o + "\ninstead of " + u; }); if (c.active("C08")) check_request(c, s, 0, ref::Msg{}); c.trace(); c.state(c.prefix_hash());
}
