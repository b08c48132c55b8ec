// The real STUN client and the real STUN server over a hostile network (C09).
// DEPS: src/stun src/crypto/openssl src/net src/util/util_error_code.cpp src/util/util_hash_murmur.cpp
// LIBS: -lcrypto
#include "simclient.hpp"
#include "stun/stun_server_stateless.hpp"
using namespace sim;
using stun::server::Stateless;
static const std::string PW = "correct horse battery staple, longer than a hash block, in fact it has more than sixty-four bytes";
struct Packet { bool to_server; int tx; Bytes data; bool operator==(const Packet&) const = default; };
struct Plan { int tx = 1; bool v6 = false; int auth = 0; /* 0 none, 1 right, 2 wrong password, 3 unknown user */ bool lazy = false, late = false, fp = true, sequential = false; int dups = 0, halves = 0, damages = 0, max_in_flight = 4; Conf conf; };
struct Net {
    vh::Ctx& c; Plan p; Sim s; Stateless server; std::vector<Packet> air; std::vector<bool> accepted; std::vector<int> delivered_requests; int64_t wake = -1; std::vector<std::string> script; bool idle = false; size_t seen = 0;
    ref::Addr who(int i) const { ref::Addr a = pub(i); if (p.v6) { a.v6 = true; a.b = Bytes(16, uint8_t(0xfd - i)); a.b[15] = 1; } return a; }
    static Stateless make(const Plan& p) { Stateless::Settings st; st.use_fingerprint = p.fp; Stateless s(crypto::openssl::sha1, st); auto pw = [](const std::string& x) { return stun::Password::short_term(precis::OpaqueString{x}, crypto::openssl::sha1).unwrap(); }; s.add_user(precis::OpaqueString{"other"}, pw("other")); if (p.auth != 3) s.add_user(precis::OpaqueString{"user"}, pw(PW)); return s; }
    Net(vh::Ctx& cc, const Plan& pl) : c(cc), p(pl), s(cc, pl.conf), server(make(pl)) { s.conf.fp = p.fp; }
    std::string story() const { std::string r; for (auto& x : script) r += " " + x + ";"; return r; }
    void create() { s.create(p.sequential ? 0 : int(s.tx.size()), p.auth == 0 ? "" : p.auth == 2 ? "wrong" : PW); accepted.push_back(false); delivered_requests.push_back(0); idle = false; script.push_back("create"); }
    int64_t total() const { int64_t r = 0, i = p.conf.rto; for (unsigned k = 0; k + 1 < p.conf.rc; ++k, i *= 2) r += i; return r + p.conf.rto * p.conf.rm; }
    void drain() {
        Step st = s.drain(); idle = st == IDLE; wake = idle ? -1 : s.t + s.sleep; c.require(idle || s.sleep > 0, "sleep", "the client asks to sleep for no time");
        for (; seen < s.log.size(); ++seen) { const Ev& e = s.log[seen]; c.require(e.tx >= 0, "unknown-handle", "an effect names an unknown transaction"); size_t k = size_t(e.tx); auto& x = s.tx[k];
            if (e.kind == 'S') { c.require(e.what.empty() && !accepted[k], "send", [&] { return "a request is sent after its response or with other bytes:" + story(); }); c.require(x.sends <= int(p.conf.rc), "sends", [&] { return "more requests than configured:" + story(); }); if (int(air.size()) < p.max_in_flight) air.push_back({true, e.tx, x.data}); }
            else if (e.kind == 'O') { c.require(accepted[k], p.auth >= 2 ? "forged-success" : "success", [&] { return "transaction " + N(e.tx) + " succeeds without an answer:" + story(); }); std::string w = addr_str(who(e.tx)) + " "; c.require(e.what.substr(0, w.size()) == w, "address", [&] { return "transaction " + N(e.tx) + " reports " + e.what + " instead of its public address " + w; }); }
            else { c.require(e.what == "timeout", "failure", [&] { return "transaction " + N(e.tx) + " ends in '" + e.what + "':" + story(); }); c.require(!accepted[k], "timeout-after-answer", [&] { return "transaction " + N(e.tx) + " times out although it was answered:" + story(); }); int64_t due = x.created + total(); c.require(p.sequential || (p.late ? s.t >= due : s.t == due), "timeout-time", [&] { return "transaction " + N(e.tx) + " times out at " + N(s.t) + "us instead of " + N(due) + "us:" + story(); }); c.require(x.sends == int(p.conf.rc), "too-few", [&] { return "transaction " + N(e.tx) + " times out after " + N(x.sends) + " requests:" + story(); }); }
            c.require(x.terminals <= 1, "ended-twice", [&] { return "transaction " + N(e.tx) + " ends twice:" + story(); }); }
    }
    void deliver(const Packet& k, bool intact) {
        size_t x = size_t(k.tx); c.step();
        if (k.to_server) {
            lib::Exact e(k.data); ref::Addr a = who(k.tx); auto r = server.process(net::UdpEndpoint{lib::addr(a), lib::port(a.port)}, e.view()); auto* w = std::get_if<Stateless::Respond>(&r); c.require((w != nullptr) == intact, "server-answer", [&] { return std::string(intact ? "the server ignores an intact request:" : "the server answers a damaged request:") + story(); });
            if (w) { auto b = w->response.build(w->maybe_integrity); c.require(b.is_ok(), "build", "the answer cannot be serialised"); Packet q{false, k.tx, {}}; for (auto z : b.unwrap()) q.data.push_back(z); if (int(air.size()) < p.max_in_flight) air.push_back(q); ++delivered_requests[x]; }
        } else {
            bool good = intact && p.auth < 2 && !accepted[x] && s.tx[x].terminals == 0; auto ec = s.respond(k.data); c.require(bool(ec) != good, good ? "answer-refused" : "answer-accepted", [&] { return std::string("the client ") + (good ? "refuses a valid answer (" + ec.message() + "):" : "accepts an answer that is damaged, late or not authentic:") + story(); }); if (good) accepted[x] = true;
            if (!p.lazy) drain();
        }
    }
    Bytes damage(Bytes b, uint32_t how) { size_t at = how == 0 ? 9 : how == 1 ? 1 : b.size() - 1; b[at] ^= how == 2 ? 0x10 : 0x01; return b; }
    void run(int steps) {
        create(); if (p.tx == 2 && !p.sequential) { if (c.flag()) { drain(); s.t += 200 * MS; } create(); } drain(); bool created_second = p.tx < 2 || !p.sequential;
        int after = 2;   // events after everything has ended
        for (int n = 0; n < steps; ++n) {
            if (s.live() == 0 && created_second && after-- == 0) break;
            { uint64_t h = vh::mix(uint64_t(s.t), s.log.size() * 8 + size_t(p.dups)); for (auto& q : air) h += vh::hash_bytes(q.data.data(), q.data.size(), uint64_t(q.tx) * 2 + q.to_server); for (bool a : accepted) h = vh::mix(h, a); c.state(h); }
            if (idle && !created_second && s.live() == 0) { created_second = true; create(); drain(); continue; }
            // distinct datagrams in the air
            std::vector<size_t> idx; for (size_t i = 0; i < air.size(); ++i) if (std::find(air.begin(), air.begin() + long(i), air[i]) == air.begin() + long(i)) idx.push_back(i);
            bool poll = s.live() > 0; uint32_t m = uint32_t(idx.size()), opts = poll + m * (1 + (p.dups > 0) + (p.damages > 0)) + (p.halves > 0 && poll && wake > s.t + 1); if (!opts) break; uint32_t k = c.choose(opts);
            if (poll && k == 0) { c.require(wake >= 0, "idle", [&] { return "the client is idle although a transaction is alive:" + story(); }); s.t = std::max(wake, s.t); if (p.late && c.flag()) s.t += 130 * MS; script.push_back("poll@" + N(s.t)); drain(); continue; }
            k -= poll;
            if (k < m * 2 && (k < m || p.dups > 0)) { bool dup = k >= m; Packet q = air[idx[k % m]]; if (dup) --p.dups; else air.erase(air.begin() + long(idx[k % m])); script.push_back(std::string(dup ? "duplicate-" : "") + (q.to_server ? "request" : "response") + N(q.tx) + "@" + N(s.t)); deliver(q, true); continue; }
            k -= p.dups > 0 ? m * 2 : m;
            if (p.damages > 0 && k < m) { --p.damages; Packet q = air[idx[k]]; air.erase(air.begin() + long(idx[k])); q.data = damage(q.data, c.choose(3)); script.push_back(std::string("damaged-") + (q.to_server ? "request" : "response") + N(q.tx) + "@" + N(s.t)); deliver(q, false); continue; }
            --p.halves; s.t += (wake - s.t) / 2; script.push_back("wait@" + N(s.t));
        }
        for (int i = 0; i < 60; ++i) { drain(); if (idle && created_second) break; if (idle && !created_second) { created_second = true; create(); drain(); } s.t = std::max(wake, s.t); }   // everything else is lost
        c.require(idle, "endless", [&] { return "the client never becomes idle:" + story(); });
        for (size_t i = 0; i < s.tx.size(); ++i) { c.require(s.tx[i].terminals == 1, "not-ended", [&] { return "transaction " + N(int64_t(i)) + " never ends:" + story(); }); c.require((s.tx[i].outcome[0] == 'O') == accepted[i], "outcome", [&] { return "transaction " + N(int64_t(i)) + " ends in '" + s.tx[i].outcome + "':" + story(); }); c.require(!accepted[i] || delivered_requests[i] > 0, "invented", "an answer without a request"); }
        uint64_t h = 5; for (auto& e : s.log) h = vh::mix(h, vh::mix(uint64_t(e.t), uint64_t(e.kind) * 7 + uint64_t(e.tx))); c.state(h); std::string o; for (auto& x : s.tx) o += x.outcome[0]; c.outcome(vh::hash_str(o)); c.trace(); c.sample([&] { return story() + " => " + o; });
    }
};
VH_SECTION("one exchange: every schedule of deliveries, losses, duplicates, delays", "C09") {
    Plan p; p.auth = int(c.choose(4)); uint32_t m = c.choose(vh::thorough() ? 5 : 4); p.v6 = m == 1; p.lazy = m == 2 || m == 4; p.late = m == 3 || m == 4; p.conf.rc = 3; p.conf.rm = 4; p.dups = vh::thorough() ? 2 : 1; p.halves = 1; Net(c, p).run(vh::thorough() ? 11 : 8);
}
VH_SECTION("one exchange: damaged datagrams count as lost", "C09") { Plan p; p.auth = int(c.choose(3)); p.conf.rc = 3; p.conf.rm = 4; p.damages = vh::thorough() ? 3 : 2; p.lazy = c.flag(); Net(c, p).run(vh::thorough() ? 11 : 9); }
VH_SECTION("one exchange: default number of requests, without fingerprint", "C09") { Plan p; p.auth = int(c.choose(3)); p.fp = false; p.dups = 1; p.max_in_flight = 2; Net(c, p).run(vh::thorough() ? 15 : 12); }
VH_SECTION("two concurrent exchanges: every schedule", "C09") { Plan p; p.tx = 2; p.auth = int(c.choose(3)); p.lazy = c.flag(); p.conf.rc = 2; p.conf.rm = 3; p.dups = 1; p.max_in_flight = 4; Net(c, p).run(vh::thorough() ? 9 : 7); }
VH_SECTION("two exchanges one after the other on the same path", "C09") { Plan p; p.tx = 2; p.sequential = true; p.auth = int(c.choose(2)); p.conf.rc = 2; p.conf.rm = 3; p.dups = 1; p.halves = 1; p.max_in_flight = 3; Net(c, p).run(vh::thorough() ? 11 : 9); }
