// Objects and functions of the Node bindings used next to each other, in one
// thread and in two (worker threads of Node share the addon), under
// ThreadSanitizer.
// DEPS: src/stun src/ice src/net src/util src/crypto/openssl node/node_stun node/node_ice node/openssl
// INCS: .
// SAN: thread
// LIBS: -lcrypto -ldl
#include "vh.hpp"
#include "tsanssl.hpp"
#include "actors_node.hpp"
#include <thread>
#include <atomic>
using namespace act;
extern "C" __attribute__((used)) const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0:second_deadlock_stack=1"; }
extern "C" __attribute__((used)) const char* __tsan_default_suppressions() { return "called_from_lib:libcrypto.so\nrace:libcrypto.so\n"; }
static std::string label(int k, int v) { return std::string(kind_name(k)) + " " + N(v); }
static const std::vector<std::string>& alone(int k, int v) { static std::map<std::pair<int, int>, std::vector<std::string>> m; auto& r = m[{k, v}]; if (r.empty()) r = solo(k, v, 10); return r; }
static void pair_in_threads(vh::Ctx& c, int k1) {
    int v1 = int(c.choose(VARIANTS)), k2 = int(c.choose(KINDS)), v2 = int(c.choose(VARIANTS)), shift = int(c.choose(vh::thorough() ? 6 : 2)), n = 10; if (k2 == k1 && v2 < v1) return;
    int fd[2]; c.require(pipe(fd) == 0, "pipe"); fflush(stdout); pid_t p = fork();
    if (p == 0) {
        close(fd[0]); dup2(fd[1], 2); std::atomic<int> ready{0}; std::vector<std::string> o[2];
        auto body = [&](int which, int k, int v, int skip) { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < 2) std::this_thread::yield(); auto a = make(k, v); for (int i = 0; i < n; ++i) { o[which].push_back(a->op(i)); if (i < skip) std::this_thread::yield(); } };
        std::thread t1(body, 0, k1, v1, shift), t2(body, 1, k2, v2, 0); t1.join(); t2.join();
        bool same = o[0] == solo(k1, v1, n) && o[1] == solo(k2, v2, n); if (!same) dprintf(2, "results differ from those of a single thread\n"); _exit(same ? 0 : 7);
    }
    close(fd[1]); std::string err; char buf[4096]; ssize_t r; while ((r = read(fd[0], buf, sizeof buf)) > 0) if (err.size() < 6000) err.append(buf, size_t(r)); close(fd[0]); int st = 0; waitpid(p, &st, 0); c.step(20); c.trace(); c.state(c.prefix_hash());
    std::string who = label(k1, v1) + " and " + label(k2, v2); c.sample([&] { return who; });
    c.require(!(WIFEXITED(st) && WEXITSTATUS(st) == 66), "data-race", [&] { return who + " in two threads race:\n" + err; });
    c.require(WIFEXITED(st) && WEXITSTATUS(st) == 0, "thread-result", [&] { return who + " in two threads misbehave (status " + N(st) + "):\n" + err; }); c.outcome(uint64_t(st) + 1);
}
static void nested(vh::Ctx& c, int k1) {   // one program whole at every point of another
    int v1 = int(c.choose(VARIANTS)), k2 = int(c.choose(KINDS)), v2 = int(c.choose(VARIANTS)), at = int(c.choose(10)); auto a = make(k1, v1);
    auto check = [&](int k, int v, int i, const std::string& got) { c.step(); c.require(got == alone(k, v)[size_t(i)], "depends", [&] { return "operation " + N(i) + " of the " + label(k, v) + " gives\n    " + got + "\n  instead of, when alone,\n    " + alone(k, v)[size_t(i)] + "\n  with the " + label(k == k1 && v == v1 ? k2 : k1, k == k1 && v == v1 ? v2 : v1) + " beside it"; }); c.outcome(vh::hash_str(got)); };
    for (int i = 0; i < 10; ++i) { if (i == at) { auto b = make(k2, v2); for (int j = 0; j < 10; ++j) check(k2, v2, j, b->op(j)); } check(k1, v1, i, a->op(i)); } c.trace(); c.state(c.prefix_hash());
}
static void interleaved(vh::Ctx& c, int k1) {
    int v1 = int(c.choose(VARIANTS)), k2 = int(c.choose(KINDS)), v2 = int(c.choose(VARIANTS)), n = vh::thorough() ? 5 : 4, d[2] = {0, 0}; std::unique_ptr<Actor> a[2] = {make(k1, v1), make(k2, v2)}; std::string order;
    while (d[0] < n || d[1] < n) { int w = d[0] == n ? 1 : d[1] == n ? 0 : int(c.choose(2)); int k = w ? k2 : k1, v = w ? v2 : v1; order += w ? 'b' : 'a'; std::string got = a[w]->op(d[w]); c.step(); c.state(vh::hash_str(got)); c.require(got == alone(k, v)[size_t(d[w])], "depends", [&] { return "in the order " + order + " of a = " + label(k1, v1) + " and b = " + label(k2, v2) + " the last operation gives\n    " + got + "\n  instead of, when alone,\n    " + alone(k, v)[size_t(d[w])]; }); ++d[w]; }
    c.trace();
}
VH_SECTION("two bindings in two threads: the message parser", "B01,U07") { pair_in_threads(c, 0); }
VH_SECTION("two bindings in two threads: the server", "B02,U07") { pair_in_threads(c, 1); }
VH_SECTION("two bindings in two threads: the client", "B03,U07") { pair_in_threads(c, 2); }
VH_SECTION("two bindings in two threads: the candidate parser", "B04,U07") { pair_in_threads(c, 3); }
VH_SECTION("two bindings in two threads: the hashes", "B05,U07") { pair_in_threads(c, 4); }
VH_SECTION("whole binding scripts nested at every point: the message parser", "B01,U07") { nested(c, 0); }
VH_SECTION("whole binding scripts nested at every point: the server", "B02,U07") { nested(c, 1); }
VH_SECTION("whole binding scripts nested at every point: the client", "B03,U07") { nested(c, 2); }
VH_SECTION("whole binding scripts nested at every point: the candidate parser", "B04,U07") { nested(c, 3); }
VH_SECTION("whole binding scripts nested at every point: the hashes", "B05,U07") { nested(c, 4); }
VH_SECTION("interleavings of binding scripts: the message parser", "B01,U07") { interleaved(c, 0); }
VH_SECTION("interleavings of binding scripts: the server", "B02,U07") { interleaved(c, 1); }
VH_SECTION("interleavings of binding scripts: the client", "B03,U07") { interleaved(c, 2); }
VH_SECTION("interleavings of binding scripts: the candidate parser", "B04,U07") { interleaved(c, 3); }
VH_SECTION("interleavings of binding scripts: the hashes", "B05,U07") { interleaved(c, 4); }
