// Reference model of the whole STUN client and a lockstep explorer: the model
// and the real client are given the same operations; after every operation all
// effects, reports and the sleep advice are compared.
#pragma once
#include "simclient.hpp"
namespace sim {
struct Hist { bool have = false, smooth = false, back = false; int64_t last = 0; double srtt = 0, var = 0, backoff = 0, err = 0, berr = 0; };   // err: how far rounding may take the value
struct RtoModel {
    Conf k; std::map<int, Hist> h;
    double rto(int p) const { auto it = h.find(p); if (it == h.end()) return k.rto; auto& x = it->second; if (x.back) return x.backoff; if (x.smooth) return x.srtt + 4 * x.var; return k.rto; }
    void expire(int64_t now) { for (auto it = h.begin(); it != h.end();) if (now - it->second.last > k.history) it = h.erase(it); else ++it; }
    void rtt(int64_t now, int p, double r) { expire(now); auto& x = h[p]; x.last = now; x.back = false; if (!x.smooth) { x.smooth = true; x.srtt = r; x.var = r / 2; x.err = 5; } else { x.var = 0.75 * x.var + 0.25 * std::abs(x.srtt - r); x.srtt = 0.875 * x.srtt + 0.125 * r; x.err = 40; } }
    void back(int64_t now, int p, double b, double e) { expire(now); auto& x = h[p]; x.last = now; x.back = true; x.backoff = b; x.berr = e; }
    double err(int p) const { auto it = h.find(p); return it == h.end() ? 0 : it->second.back ? it->second.berr : it->second.smooth ? it->second.err : 0; }
};
struct ModelTx { int path; std::string key; int64_t created; unsigned sends = 1, n5 = 0; double rto0, interval, due, err0 = 0, err = 0; bool live = true; };
struct ClientModel {
    Conf k; RtoModel r; std::vector<ModelTx> tx; std::vector<Ev> out;   // out: effects since the last drain
    bool ambiguous = false;   // a timer is within rounding distance of the current moment
    explicit ClientModel(const Conf& c) : k(c), r{c, {}} {}
    double cap(double v) const { return k.max_rto >= 0 ? std::min(v, double(k.max_rto)) : v; }
    double error(const ModelTx& x) const { return x.err0 == 0 ? 0 : x.err0 * std::max(1.0, x.interval / x.rto0) + 2; }
    void create(int64_t now, int path, const std::string& key) {
        ModelTx x{path, key, now}; x.rto0 = r.rto(path); x.err0 = r.err(path); if (x.rto0 < 50) ambiguous = true; x.interval = cap(k.rc > 1 ? x.rto0 : x.rto0 * k.rm); x.due = now + x.interval; x.err = error(x);
        tx.push_back(x); out.push_back({now, int(tx.size()) - 1, 'S', ""});
    }
    void poll(int64_t now) {
        for (size_t i = 0; i < tx.size(); ++i) { auto& x = tx[i]; if (!x.live) continue;
            double d = x.due - double(now); if (x.err > 0 && std::abs(d) <= x.err) ambiguous = true;
            if (d > 0) continue;
            unsigned total = k.rc + x.n5;
            if (x.sends >= total) { x.live = false; out.push_back({now, int(i), 'F', "timeout"}); continue; }
            ++x.sends; x.interval = cap(x.sends == total ? x.rto0 * k.rm : x.interval * 2); x.due = now + x.interval; x.err = error(x); out.push_back({now, int(i), 'S', ""});
        }
    }
    // a well-formed response that is authentic iff its key is the transaction's; returns whether an error is reported
    bool respond(int64_t now, int i, int kind, const std::string& key) {
        auto& x = tx[i]; if (!x.live) return true;
        if (!x.key.empty() && key != x.key && !(key.empty() && k.unauth_alt && (kind == A_300ALT || kind == A_300))) return true;
        auto fin = [&](char c, const std::string& w) { x.live = false; out.push_back({now, i, c, w}); };
        auto meas = [&] { if (x.sends == 1) r.rtt(now, x.path, double(now - x.created)); else r.back(now, x.path, x.interval, error(x)); };
        std::string rtt = x.sends == 1 ? " rtt=" + N(now - x.created) : " rtt=-";
        switch (kind) {
        case A_OK: case A_MAPPED: meas(); fin('O', pub_str() + rtt); break;
        case A_NOADDR: meas(); fin('F', err_str(stun::ClientError::no_address_in_response)); break;
        case A_UNK: fin('F', "unknown-required " + N(0x7f01) + ","); break;
        case A_401: fin('F', "code 401 no"); break;
        case A_NOCODE: fin('F', err_str(stun::ClientError::no_error_code_in_response)); break;
        case A_300ALT: fin('F', "alternate " + pub_str(9)); break;
        case A_300: fin('F', err_str(stun::ClientError::no_alternate_server_in_response)); break;
        case A_420: fin('F', "unknown-reported " + N(0x7f01) + "," + N(0x30) + ","); break;
        case A_600: break;
        case A_500: if (k.delay5 < 0 || x.n5 >= k.max5) fin('F', "code 500 oops"); else { ++x.n5; x.due = double(now + k.delay5); x.err = 0; } break;
        }
        return false;
    }
    int live() const { int n = 0; for (auto& x : tx) n += x.live; return n; }
    double next_due(bool early = true) const { double d = 1e300; for (auto& x : tx) if (x.live) d = std::min(d, early ? x.due - x.err : x.due + x.err); return d; }
};
struct Lockstep {
    vh::Ctx& c; Conf k; Sim s; ClientModel m; size_t seen = 0; bool advice = true;
    Lockstep(vh::Ctx& cc, const Conf& kk, uint64_t start = 0) : c(cc), k(kk), s(cc, kk, start), m(kk) {}
    // poll until there is nothing to do, and compare; false: give the branch up (a timer within rounding distance)
    bool drain() {
        m.poll(s.t); if (m.ambiguous) return false;
        Step r = s.drain(); std::vector<Ev> got(s.log.begin() + seen, s.log.end()), want = m.out; seen = s.log.size(); m.out.clear();
        for (auto& e : want) e.t = s.t;
        auto by = [](const Ev& a, const Ev& b) { return a.tx < b.tx; }; std::stable_sort(got.begin(), got.end(), by); std::stable_sort(want.begin(), want.end(), by);
        c.require(got == want, "effects", [&] { return k.str() + ": expected at this point" + show(want) + "\n  observed" + show(got) + "\n  whole run:" + show(s.log); });
        if (r == SLEEP) { c.require(s.sleep > 0, "sleep-not-positive", [&] { return k.str() + ": asked to sleep for " + N(s.sleep) + " us"; }); c.require(!m.live() || double(s.t + s.sleep) <= m.next_due(false), "overslept", [&] { return k.str() + ": told to sleep until " + N(s.t + s.sleep) + " us although something is due at " + N(int64_t(m.next_due(false))) + " us" + show(s.log); }); }
        else c.require(!m.live(), "idle-while-live", [&] { return k.str() + ": idle although " + N(m.live()) + " transactions are live" + show(s.log); });
        return true;
    }
    void create(int path, const std::string& key) { s.create(path, key); m.create(s.t, path, key); }
    bool can(int i) const { return i < int(s.tx.size()) && s.tx[i].sent; }
    void respond(int i, int kind, const std::string& key) {
        bool e = m.respond(s.t, i, kind, key); bool g = bool(s.respond(answer(s.tx[i].tid, kind, key)));
        c.require(e == g, e ? "not-reported" : "reported-error", [&] { return k.str() + ": response '" + kind_name(kind) + "' to transaction " + N(i) + (e ? " is not reported as an error" : " is reported as an error") + show(s.log); });
    }
    // poll at every due moment until all have ended, and a while after that
    bool finish() {
        for (size_t g = 0; g < 400 + 20 * m.tx.size() && m.live(); ++g) { double e = m.next_due(true), d = m.next_due(false); if (e != d) { s.t = std::max(s.t, int64_t(std::floor(e)) - 1); if (!drain()) return false; } s.t = std::max(s.t, int64_t(std::ceil(d)) + (e != d)); if (!drain()) return false; }
        s.t += 3600 * SEC; return drain();
    }
};
// One slice of the space: what may happen at every step.
struct Slice { std::vector<int> paths; std::vector<std::string> keys; std::vector<int> kinds; std::vector<int64_t> waits; int max_tx; uint32_t depth; bool late = false, wrong_key = false; };
// false: branch abandoned
inline bool lockstep(vh::Ctx& c, const Conf& k, const Slice& sl, uint64_t start = 0) {
    Lockstep l(c, k, start); l.create(sl.paths[0], sl.keys[0]); if (!l.drain()) return false;
    const uint32_t NC = sl.paths.size() * sl.keys.size(), NK = sl.kinds.size() * (sl.wrong_key ? 2 : 1), NW = sl.waits.size();
    for (uint32_t i = 0; i < sl.depth; ++i) {
        uint32_t ntx = l.s.tx.size();
        // options: nothing more | wait (and poll) | wait, poll only after the next step | create | respond to one of the last three transactions
        uint32_t who = std::min<uint32_t>(ntx, 3), nc = int(ntx) < sl.max_tx ? NC : 0, nw = NW * (sl.late ? 2 : 1);
        uint32_t op = c.choose(nw + nc + who * NK, "op");
        if (op < NW) { l.s.t += sl.waits[op]; if (!l.drain()) return false; continue; }
        if (op < nw) { l.s.t += sl.waits[op - NW]; continue; }
        op -= nw;
        if (op < nc) { l.create(sl.paths[op % sl.paths.size()], sl.keys[op / sl.paths.size()]); if (!l.drain()) return false; continue; }
        op -= nc; int t = int(ntx) - 1 - int(op / NK); uint32_t q = op % NK; int kind = sl.kinds[q % sl.kinds.size()]; std::string key = l.s.tx[t].key; if (q >= sl.kinds.size()) key = key.empty() ? "pw" : (q % 2 ? "" : "wrong");
        if (!l.can(t)) return false;
        l.respond(t, kind, key); if (!l.drain()) return false;
    }
    if (!l.finish()) return false;
    c.trace(); c.state(vh::hash_str(show(l.s.log), vh::hash_str(k.str()))); return true;
}
}
