// Many at once and many in a row (client): what holds for a few transactions
// holds for hundreds that are live together and tens of thousands in a row.
// DEPS: src/stun src/crypto/openssl src/net src/util/util_error_code.cpp src/util/util_hash_murmur.cpp
// SAN: no
// LIBS: -lcrypto
#include "clientmodel.hpp"
using namespace sim;
static const std::vector<int>& sizes() { static std::vector<int> v; if (v.empty()) { int dense = vh::thorough() ? 300 : 24; for (int i = 1; i <= dense; ++i) v.push_back(i); for (int b : {32, 50, 64, 100, 128, 200, 256, 300, 400, 500, 512, 600, 1000, 1024}) for (int d = -1; d <= 1; ++d) if (b + d > dense) v.push_back(b + d); if (vh::thorough()) for (int b : {2047, 2048, 2049, 4096, 4097}) v.push_back(b); } return v; }
enum Order { FORWARD, BACKWARD, STRIDE, ONLY_LAST, ONLY_FIRST, NONE, ORDERS };
static std::vector<int> ordered(int n, int how) { std::vector<int> v; if (how == NONE) return v; if (how == ONLY_LAST) return {n - 1}; if (how == ONLY_FIRST) return {0}; int step = 1; if (how == STRIDE) { step = n / 3 + 1; auto gcd = [](int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a; }; while (gcd(step, n) != 1) ++step; } for (int i = 0; i < n; ++i) v.push_back(how == BACKWARD ? n - 1 - i : int(int64_t(i) * step % n)); return v; }
struct Mix { std::vector<int> kinds; int create = 3, paths = 2, drains = 2; };   // number of alternatives tried
static void scale(vh::Ctx& c, Conf k, const Mix& mx) {
    int n = c.pick(sizes()); int how = int(c.choose(ORDERS)), create = int(c.choose(mx.create)), paths = int(c.choose(mx.paths)), drains = int(c.choose(mx.drains));
    Lockstep l(c, k, c.choose(2) ? uint64_t(-500 * MS) : 0);
    for (int i = 0; i < n; ++i) { l.create(paths ? 10 + i : 0, i % 3 == 1 ? "pw" : i % 3 == 2 && n < 100 ? "key" + N(i) : ""); if (create && !l.drain()) return; if (create == 2) l.s.t += 40; }
    if (!l.drain()) return;
    std::set<Bytes> ids; for (auto& x : l.s.tx) ids.insert(x.tid); c.require(ids.size() == size_t(n), "ids", [&] { return N(n) + " live requests have only " + N(ids.size()) + " transaction ids"; });
    l.s.t = std::max<int64_t>(l.s.t, 41 * MS); if (!l.drain()) return; int g = 0;
    for (int i : ordered(n, how)) { int kind = mx.kinds[(size_t(i) + size_t(i) / 7) % mx.kinds.size()]; l.respond(i, kind, l.s.tx[i].key); if (drains == 0 || ++g % 50 == 0) if (!l.drain()) return; }
    if (!l.drain()) return;
    for (int i : {0, n / 2, n - 1}) if (!l.m.tx[i].live) l.respond(i, A_OK, l.s.tx[i].key);
    if (!l.finish()) return;
    for (auto& x : l.s.tx) c.require(x.terminals == 1, "outcomes", [&] { return "one of " + N(n) + " transactions has " + N(x.terminals) + " outcomes"; });
    l.create(0, "pw"); if (l.drain() && l.finish()) { c.trace(); c.state(c.prefix_hash()); }
}
static Conf quick() { Conf k; k.rto = 100 * MS; k.rc = 2; k.rm = 2; return k; }
VH_SECTION("scale: outcomes of up to a thousand transactions live together", "C01") { scale(c, quick(), {{A_OK, A_401, A_UNK, A_MAPPED, A_420, A_300ALT, A_NOCODE}}); }
VH_SECTION("scale: schedules of up to a thousand transactions live together", "C02") { Conf k; k.rto = 100 * MS; k.rc = 3; k.rm = 4; scale(c, k, {{A_600}, 3, 2, 1}); }
VH_SECTION("scale: advice with up to a thousand transactions live together", "C03") { Conf k = quick(); k.delay5 = 33 * MS; k.max5 = 2; scale(c, k, {{A_OK, A_500, A_600}, 3, 1, 1}); }
VH_SECTION("scale: outcome contents with up to a thousand transactions live together", "C05") { scale(c, quick(), {{A_OK, A_401, A_UNK, A_MAPPED, A_420, A_300ALT, A_NOCODE, A_300, A_NOADDR}, 1, 1, 2}); }
VH_SECTION("scale: server errors with up to a thousand transactions live together", "C07") { Conf k = quick(); k.delay5 = c.choose(2) ? 30 * MS : 170 * MS; k.max5 = 1; scale(c, k, {{A_500, A_500, A_OK}, 2, 1, 1}); }
VH_SECTION("scale: requests of up to a thousand transactions live together", "C08") { Conf k = quick(); k.rc = 3; k.fp = c.choose(2); scale(c, k, {{A_OK, A_401}, 3, 1, 1}); }
VH_SECTION("scale: timeouts of up to a thousand paths", "C06") {
    Conf k = quick(); int n = c.pick(sizes()), how = int(c.choose(3)), again = int(c.choose(2)); k.rto = 1 * SEC; Lockstep q(c, k); int64_t gap = std::max<int64_t>(2, 390 * MS / n / 2 * 2);
    for (int i = 0; i < n; ++i) q.create(10 + i, ""); if (!q.drain()) return;
    for (int i = 0; i < n; ++i) { q.s.t = 200 * MS + i * gap; q.respond(i, A_OK, ""); if (!q.drain()) return; }
    if (again) { q.s.t += k.history / 2; if (!q.drain()) return; }
    for (int i : ordered(n, how)) q.create(10 + i, ""); q.create(10 + n, ""); if (!q.drain()) return;
    if (q.finish()) { c.trace(); c.state(c.prefix_hash()); }
}
VH_SECTION("scale: tens of thousands of transactions in a row, some living through all of them", "C01,C09") {
    uint32_t variant = c.choose(4), old = c.choose(2); Conf k; k.rto = 3600 * SEC; k.rc = 2; k.rm = 1; ClientUDP cl(settings(k)); Rng rng; clock::Timepoint now = clock::Timepoint::epoch(); const int n = vh::thorough() ? 1 << 20 : 70000;
    struct Live { ClientUDP::Handle h; Bytes tid; }; std::vector<Live> keep; auto mk = [&]() -> Live { auto h = cl.create(rng, now, ClientUDP::Request{path(0), {}, {}, none()}); rng.drawn = 0; c.require(h.is_ok(), "create"); auto e = cl.next(now); auto* s = std::get_if<ClientUDP::SendData>(&e); c.require(s && s->handle == h.unwrap(), "send", "a new request is not the next to be sent"); Bytes d(s->message_view.begin(), s->message_view.end()); c.require(d.size() >= 20, "send"); return {h.unwrap(), Bytes(d.begin() + 8, d.begin() + 20)}; };
    auto take = [&](const Live& x, int kind) { Bytes a = answer(x.tid, kind, ""); c.step(); c.require(cl.response(now, lib::view(a)).is_ok(), "response", "the answer to a live transaction is refused"); auto e = cl.next(now); bool good = false; if (auto* o = std::get_if<ClientUDP::TransactionOk>(&e)) good = kind == A_OK && o->handle == x.h; if (auto* f = std::get_if<ClientUDP::TransactionFailed>(&e)) good = kind == A_401 && f->handle == x.h; c.require(good, "outcome", "the next effect is not the outcome of the transaction that was answered"); };
    if (old) for (int i = 0; i < 3; ++i) keep.push_back(mk());
    for (int i = 0; i < n; ++i) { Live x = mk(); for (auto& o : keep) c.require(!(o.h == x.h) && o.tid != x.tid, "handle-reused", [&] { return "request " + N(i) + " shares a handle or transaction id with a live one"; }); now = now.advance(us(1000)); take(x, variant == 0 ? A_OK : variant == 1 ? A_401 : i % 2 ? A_OK : A_401); if (variant == 3) { Bytes a = answer(x.tid, A_OK, ""); c.require(cl.response(now, lib::view(a)).is_err(), "late-response", "an answer to a finished transaction is taken"); } auto e = cl.next(now); c.require(old ? std::holds_alternative<ClientUDP::Sleep>(e) : !(std::holds_alternative<ClientUDP::SendData>(e) || std::holds_alternative<ClientUDP::TransactionOk>(e) || std::holds_alternative<ClientUDP::TransactionFailed>(e)), "after", "effects are left after the outcome was fetched"); }
    now = now.advance(us(5000)); for (auto& o : keep) take(o, A_OK); c.trace(); c.state(c.prefix_hash());
}
