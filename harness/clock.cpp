// Timepoint arithmetic (U03) and clock conversion (U04).
// DEPS:
// SAN: yes
#include "vh.hpp"
#include "clock/clock_timepoint.hpp"
#include "clock/clock_std.hpp"
#include <thread>

using namespace freewebrtc::clock;
using i64 = int64_t; using u64 = uint64_t;
using us = std::chrono::duration<i64, std::micro>;

static std::string S(i64 v) { return std::to_string(v); }
static std::string U(u64 v) { return std::to_string(v); }

// a timepoint at an absolute modular microsecond count, built through the public interface
static Timepoint at(u64 v) { return Timepoint::epoch().advance(us{i64(v)}); }

static std::vector<u64> start_grid() {
    std::set<u64> s;
    for (int k = 0; k < 64; ++k) for (i64 d : {-1, 0, 1}) { s.insert((u64(1) << k) + d); s.insert(-(u64(1) << k) + d); }
    for (u64 v : {u64(0), u64(999), u64(1000), u64(1001), u64(999999), u64(1000000), u64(1000001), u64(500000), u64(39500000), u64(0x123456789abcdef0ull), u64(0xaaaaaaaaaaaaaaaaull), u64(0x5555555555555555ull)}) { s.insert(v); s.insert(-v); }
    return {s.begin(), s.end()};
}
static std::vector<i64> dur_grid() {
    std::set<i64> s;
    for (int k = 0; k < 63; ++k) for (i64 d : {-1, 0, 1}) { i64 v = (i64(1) << k) + d; s.insert(v); s.insert(-v); }
    s.insert(INT64_MAX); s.insert(-INT64_MAX);
    for (i64 v : {i64(999), i64(1000), i64(1001), i64(999999), i64(1000000), i64(1000001), i64(500000), i64(39500000), i64(3600000000ll), i64(0x123456789abcdefll)}) { s.insert(v); s.insert(-v); }
    return {s.begin(), s.end()};
}
static const std::vector<u64> STARTS = start_grid();
static const std::vector<i64> DURS = dur_grid();

// the reference order: sign of the modular difference; valid strictly inside half the range
static void compare(vh::Ctx& c, const Timepoint& a, const Timepoint& b, i64 d, const char* what) {   // a == b + d, |d| < 2^63
    auto ctx = [&] { return std::string(what) + ": a = b + " + S(d) + " us"; };
    c.step(8);
    c.require((a - b).count() == d, "difference", [&] { return ctx() + ", a - b gives " + S((a - b).count()); });
    c.require((b - a).count() == -d, "difference", [&] { return ctx() + ", b - a gives " + S((b - a).count()); });
    c.require(a.is_after(b) == (d > 0), "after", [&] { return ctx() + ", a.is_after(b) = " + S(a.is_after(b)); });
    c.require(a.is_before(b) == (d < 0), "before", [&] { return ctx() + ", a.is_before(b) = " + S(a.is_before(b)); });
    c.require(b.is_after(a) == (d < 0), "after", [&] { return ctx() + ", b.is_after(a) = " + S(b.is_after(a)); });
    c.require(b.is_before(a) == (d > 0), "before", [&] { return ctx() + ", b.is_before(a) = " + S(b.is_before(a)); });
    c.require((a == b) == (d == 0), "equality", ctx);
    c.require((b == a) == (d == 0) && (a != b) == (d != 0), "equality", ctx);
    c.outcome(u64(d));
}

VH_SECTION("advance-and-subtract", "U03") {
    u64 s = c.pick(STARTS, "start");
    Timepoint b = at(s);
    c.require(b == at(s) && (b - Timepoint::epoch()).count() == i64(s) || s == (u64(1) << 63), "start", [&] { return "epoch advanced by " + S(i64(s)) + " is at " + S((b - Timepoint::epoch()).count()); });
    for (i64 d : DURS) {
        Timepoint a = b.advance(us{d});
        c.state(vh::mix(s, u64(d)));
        compare(c, a, b, d, ("start " + U(s)).c_str());
        c.require(a == at(s + u64(d)), "modular", [&] { return "start " + U(s) + " + " + S(d) + " is not the timepoint at their modular sum"; });
        // the original is untouched, and going back returns to it
        c.require(b == at(s), "immutable", "advance changed its operand");
        c.require(a.advance(us{-d}) == b, "inverse", [&] { return "start " + U(s) + " + " + S(d) + " - same is not the start"; });
        Timepoint cp = a; cp = b; c.require(cp == b, "assign", "assignment");
    }
    c.sample([&] { return "start " + U(s) + " us with " + S(i64(DURS.size())) + " durations"; });
}

template<class D> static void unit(vh::Ctx& c, const char* name, i64 us_per, bool neg = true) {
    u64 s = c.pick(STARTS, "start");
    using Rep = typename D::rep;
    Timepoint b = at(s);
    std::set<i64> counts;
    const i64 lim = std::min<i64>(INT64_MAX / us_per, i64(std::numeric_limits<Rep>::max()));
    for (int k = 0; k < 63; ++k) for (i64 e : {-1, 0, 1}) { i64 v = (i64(1) << k) + e; if (v <= lim) { counts.insert(v); if (neg) counts.insert(-v); } }
    counts.insert(lim); for (i64 v : {7, 59, 60, 61, 999, 1000, 1001}) counts.insert(v);
    for (i64 n : counts) {
        if (n < 0 && !neg) continue;
        c.state(vh::mix(vh::hash_str(name), vh::mix(s, u64(n))));
        compare(c, b.advance(D{Rep(n)}), b, n * us_per, name);
        D dd{Rep(n)};
        Timepoint f = b.advance_from(dd);
        compare(c, f, b, n * us_per, name);
        c.require(dd.count() == 0, "remainder", [&] { return std::string(name) + " " + S(n) + ": advance_from left " + S(i64(dd.count())); });
    }
}
VH_SECTION("units", "U03") {
    switch (c.choose(10, "unit")) {
    case 0: unit<std::chrono::microseconds>(c, "microseconds", 1); break;
    case 1: unit<std::chrono::milliseconds>(c, "milliseconds", 1000); break;
    case 2: unit<std::chrono::seconds>(c, "seconds", 1000000); break;
    case 3: unit<std::chrono::minutes>(c, "minutes", 60000000ll); break;
    case 4: unit<std::chrono::hours>(c, "hours", 3600000000ll); break;
    case 5: unit<std::chrono::duration<int32_t, std::milli>>(c, "int32 milliseconds", 1000); break;
    case 6: unit<std::chrono::duration<i64, std::deci>>(c, "tenths of a second", 100000); break;
    case 7: unit<std::chrono::duration<uint32_t, std::micro>>(c, "unsigned microseconds", 1, false); break;
    case 8: unit<std::chrono::duration<i64, std::ratio<86400>>>(c, "days", 86400000000ll); break;
    case 9: unit<Timepoint::Duration>(c, "native", 1); break;
    }
}

VH_SECTION("compose", "U03") {
    static std::vector<i64> ds;
    if (ds.empty()) {
        std::set<i64> s{0, 999, 1000, 1001, 39500000, INT64_MAX};
        for (int k : {0, 1, 15, 16, 31, 32, 33, 47, 61, 62}) for (i64 e : {-1, 0, 1}) s.insert((i64(1) << k) + e);
        for (auto v : std::vector<i64>(s.begin(), s.end())) s.insert(-v);
        ds.assign(s.begin(), s.end());
    }
    i64 d1 = c.pick(ds, "first"), d2 = c.pick(ds, "second");
    c.state(vh::mix(u64(d1), u64(d2)));
    for (u64 s : STARTS) {
        Timepoint b = at(s), m = b.advance(us{d1}), e = m.advance(us{d2});
        c.step(3);
        c.require(e == at(s + u64(d1) + u64(d2)), "composition", [&] { return "start " + U(s) + ": " + S(d1) + " then " + S(d2) + " us"; });
        c.require(e == b.advance(us{d2}).advance(us{d1}), "commutation", [&] { return "start " + U(s) + ": " + S(d1) + ", " + S(d2); });
        i64 sum;
        if (!__builtin_add_overflow(d1, d2, &sum) && sum != INT64_MIN) compare(c, e, b, sum, "composed");
        if (vh::thorough()) for (i64 d3 : ds) { c.step(); c.require(e.advance(us{d3}) == at(s + u64(d1) + u64(d2) + u64(d3)), "composition3", [&] { return "start " + U(s) + ": " + S(d1) + ", " + S(d2) + ", " + S(d3); }); }
    }
}

// order is transitive while everything stays within half the range
VH_SECTION("order", "U03") {
    u64 s = c.pick(STARTS, "start");
    static const std::vector<i64> off{-(i64(1) << 61), -3600000000ll, -1000001, -1, 0, 1, 2, 999, 1000, 31500000, i64(1) << 32, i64(1) << 61};
    for (size_t i = 0; i < off.size(); ++i) for (size_t j = 0; j < off.size(); ++j) {
        c.state(vh::mix(s, i * 64 + j));
        compare(c, at(s).advance(us{off[i]}), at(s).advance(us{off[j]}), off[i] - off[j], "order");
    }
}

template<class D> static void finer(vh::Ctx& c, const char* name, i64 per_us) {
    u64 s = c.pick(STARTS, "start");
    Timepoint b = at(s);
    std::set<i64> counts;
    for (i64 q : {i64(0), i64(1), i64(2), i64(3), i64(999), i64(1000), i64(1) << 31, i64(1) << 40}) for (i64 r : {i64(0), i64(1), per_us / 2, per_us - 1}) counts.insert(q * per_us + r);
    counts.insert(INT64_MAX); counts.insert(INT64_MAX - per_us); 
    for (i64 n : std::set<i64>(counts)) counts.insert(-n);
    for (i64 n : counts) {
        c.state(vh::mix(vh::hash_str(name), vh::mix(s, u64(n))));
        D d{n};
        Timepoint a = b.advance_from(d);
        compare(c, a, b, n / per_us, name);
        c.require(d.count() == n % per_us, "remainder", [&] { return std::string(name) + " " + S(n) + ": remainder " + S(d.count()) + " instead of " + S(n % per_us); });
        D d2 = d;
        c.require(b.advance_from(d2) == b && d2 == d, "remainder", "a remainder below a microsecond must not advance");
    }
}
VH_SECTION("finer-units", "U03") {
    switch (c.choose(4, "unit")) {
    case 0: finer<std::chrono::nanoseconds>(c, "nanoseconds", 1000); break;
    case 1: finer<std::chrono::duration<i64, std::ratio<1, 3000000>>>(c, "thirds of a microsecond", 3); break;
    case 2: finer<std::chrono::duration<i64, std::pico>>(c, "picoseconds", 1000000); break;
    case 3: finer<std::chrono::duration<i64, std::ratio<1, 10000000>>>(c, "100 ns ticks", 10); break;
    }
}

// ------------------------------------------------------------------ U04
template<class Period, int Id> struct Fake {
    using rep = i64; using period = Period; using duration = std::chrono::duration<i64, Period>; using time_point = std::chrono::time_point<Fake>;
    static constexpr bool is_steady = true;
    static i64 t, creep;                 // the source moves by 'creep' ticks at every reading
    static std::vector<i64> log;         // readings handed out
    static time_point now() { t += creep; log.push_back(t); return time_point{duration{t}}; }
};
template<class P, int I> i64 Fake<P, I>::t = 0;
template<class P, int I> i64 Fake<P, I>::creep = 0;
template<class P, int I> std::vector<i64> Fake<P, I>::log;

template<class P, int I> static void convert(vh::Ctx& c, const char* name, i64 num, i64 den, bool far = false) {   // 1 tick = num/den us
    using F = Fake<P, I>;
    static const std::vector<i64> starts{0, 1, 7, 999, 1000, 1001, 123456789, (i64(1) << 40) + 1};
    std::vector<i64> steps = den > 1 ? std::vector<i64>{0, 1, den - 1, den, den + 1, den / 2 + 1, 7 * den + den / 3} : std::vector<i64>{0, 1, 2, 999, 1000};
    if (far) { steps = {1}; for (int b : {20, 31, 32, 33, 36, 40, 44, 48, 50, 52, 53, 55}) for (i64 d : {-1, 0}) if (num < 1000 ? true : b <= (num > 1000 ? 36 : 44)) steps.push_back((i64(1) << b) + d); }   // seconds to centuries without a reading
    F::t = c.pick(starts, "first reading"); F::creep = c.choose(2, "creep"); F::log.clear();
    auto us_at = [&](i64 t) { return i64((__int128)t * num / den); };
    ChronoClockConverter<F> conv;
    const i64 t0 = F::t;
    Timepoint prev = Timepoint::epoch().advance(us{us_at(t0)});
    const int depth = far ? vh::thorough() ? 4 : 3 : vh::thorough() ? 7 : 5;
    std::string hist = std::string(name) + " " + S(t0);
    for (int i = 0; i < depth; ++i) {
        i64 st = c.pick(steps, "step");
        F::t += st; hist += " +" + S(st);
        F::log.clear();
        Timepoint n = conv.now();
        c.step();
        c.require(!F::log.empty(), "readings", [&] { return hist + ": the source clock was not read"; });
        c.require(!n.is_before(prev), "monotonic", [&] { return hist + ": went backwards"; });
        i64 got = (n - Timepoint::epoch()).count();
        c.require(std::any_of(F::log.begin(), F::log.end(), [&](i64 r) { return got == us_at(r); }), "drift", [&] { return hist + ": converted clock is at " + S(got) + " us, source at " + S(us_at(F::t)) + " us"; });
        prev = n;
        c.visit(vh::mix(vh::hash_str(name), vh::mix(u64(F::t), u64(t0) * 32 + u64(F::creep) * 16 + i)), depth - i);
        c.outcome(u64(got));
    }
    c.sample([&] { return hist; });
}
VH_SECTION("converter", "U04") {
    switch (c.choose(7, "clock")) {
    case 0: convert<std::nano, 0>(c, "ns ticks", 1, 1000); break;
    case 1: convert<std::micro, 0>(c, "us ticks", 1, 1); break;
    case 2: convert<std::milli, 0>(c, "ms ticks", 1000, 1); break;
    case 3: convert<std::ratio<1>, 0>(c, "s ticks", 1000000, 1); break;
    case 4: convert<std::ratio<1, 3000000>, 0>(c, "1/3 us ticks", 1, 3); break;
    case 5: convert<std::ratio<1, 10000000>, 0>(c, "100 ns ticks", 1, 10); break;
    case 6: convert<std::pico, 0>(c, "ps ticks", 1, 1000000); break;
    }
}
VH_SECTION("converter-far", "U04") {
    switch (c.choose(7, "clock")) {
    case 0: convert<std::nano, 2>(c, "ns ticks", 1, 1000, true); break;
    case 1: convert<std::micro, 2>(c, "us ticks", 1, 1, true); break;
    case 2: convert<std::milli, 2>(c, "ms ticks", 1000, 1, true); break;
    case 3: convert<std::ratio<1>, 2>(c, "s ticks", 1000000, 1, true); break;
    case 4: convert<std::ratio<1, 3000000>, 2>(c, "1/3 us ticks", 1, 3, true); break;
    case 5: convert<std::ratio<1, 10000000>, 2>(c, "100 ns ticks", 1, 10, true); break;
    case 6: convert<std::pico, 2>(c, "ps ticks", 1, 1000000, true); break;
    }
}
// two converters of the same clock type must not share state
VH_SECTION("two-converters", "U04") {
    using F = Fake<std::nano, 1>;
    static const std::vector<i64> steps{0, 1, 400, 999, 1000, 1700};
    F::t = c.pick(std::vector<i64>{0, 500, 123456}, "first reading");
    auto want = [&] { return F::t / 1000; };
    ChronoClockConverter<F> a;
    F::t += c.pick(steps, "gap");
    ChronoClockConverter<F> b;
    const int depth = vh::thorough() ? 6 : 5;
    for (int i = 0; i < depth; ++i) {
        F::t += c.pick(steps, "step");
        bool second = c.flag("which");
        i64 got = ((second ? b : a).now() - Timepoint::epoch()).count();
        c.step();
        c.require(got == want(), "drift", [&] { return "converter " + S(second) + " reads " + S(got) + " us at source time " + S(F::t) + " ns"; });
    }
}
// the steady-clock helper is bracketed by direct readings, also from other threads
VH_SECTION("steady", "U04") {
    unsigned pattern = c.choose(16, "pattern");
    auto floor_us = [](std::chrono::steady_clock::time_point t) { return i64(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count() / 1000); };
    auto body = [&](std::string& err) {
        Timepoint prev = steady_clock_now();
        for (int i = 0; i < 200; ++i) {
            auto x = std::chrono::steady_clock::now(); Timepoint n = steady_clock_now(); auto y = std::chrono::steady_clock::now();
            i64 g = (n - Timepoint::epoch()).count();
            if (g < floor_us(x) || g > floor_us(y)) { err = "steady_clock_now is at " + S(g) + " us, outside its bracket " + S(floor_us(x)) + ".." + S(floor_us(y)); return; }
            if (n.is_before(prev)) { err = "steady_clock_now went backwards"; return; }
            prev = n;
            if (((pattern >> (i & 3)) & 1) && i % 16 == 0) { timespec ts{0, 1500}; nanosleep(&ts, nullptr); }
        }
    };
    std::string e1, e2;
    body(e1);
    std::thread th([&] { body(e2); });
    th.join();
    c.step(402);
    c.require(e1.empty() && e2.empty(), "steady", [&] { return e1 + e2; });
}
