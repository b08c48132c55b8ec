// Independent instances in different threads (U07), under ThreadSanitizer.
// Every pair of programs runs in a fresh process, so that first-use
// initialisation races are seen as well; the happens-before analysis covers
// all schedules of the two threads.
// DEPS: src/stun src/rtp src/ice src/crypto src/net src/util
// SAN: thread
// LIBS: -lcrypto -ldl
#include "vh.hpp"
#include "tsanssl.hpp"
#include "actors.hpp"
#include <thread>
#include <atomic>
using namespace act;
extern "C" __attribute__((used)) const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0:second_deadlock_stack=1"; }
extern "C" __attribute__((used)) const char* __tsan_default_suppressions() { return "called_from_lib:libcrypto.so\nrace:libcrypto.so\n"; }
VH_SECTION("every pair of programs in two threads of a fresh process", "U07") {
    int k1 = int(c.choose(KINDS)), v1 = int(c.choose(VARIANTS)), k2 = int(c.choose(KINDS)), v2 = int(c.choose(VARIANTS)); int shift = int(c.choose(vh::thorough() ? 6 : 2)); if (k2 < k1 || (k1 == k2 && v2 < v1)) return;
    int fd[2]; c.require(pipe(fd) == 0, "pipe"); fflush(stdout); pid_t p = fork();
    if (p == 0) {
        close(fd[0]); dup2(fd[1], 2); std::atomic<int> ready{0}; std::vector<std::string> o[2]; int n = 10;
        auto body = [&](int which, int k, int v, int skip) { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < 2) std::this_thread::yield(); auto a = make(k, v); for (int i = 0; i < n; ++i) { o[which].push_back(a->op(i)); if (i < skip) std::this_thread::yield(); } };
        std::thread t1(body, 0, k1, v1, shift), t2(body, 1, k2, v2, 0); t1.join(); t2.join();
        bool same = o[0] == solo(k1, v1, n) && o[1] == solo(k2, v2, n); if (!same) dprintf(2, "results differ from those of a single thread\n"); _exit(same ? 0 : 7);
    }
    close(fd[1]); std::string err; char buf[4096]; ssize_t r; while ((r = read(fd[0], buf, sizeof buf)) > 0) if (err.size() < 6000) err.append(buf, size_t(r)); close(fd[0]); int st = 0; waitpid(p, &st, 0); c.step(20); c.trace(); c.state(c.prefix_hash());
    std::string who = std::string(kind_name(k1)) + N(v1) + " and " + kind_name(k2) + N(v2);
    c.require(!(WIFEXITED(st) && WEXITSTATUS(st) == 66), "data-race", [&] { return who + " in two threads race:\n" + err; });
    c.require(WIFEXITED(st) && WEXITSTATUS(st) == 0, "thread-result", [&] { return who + " in two threads misbehave (status " + N(st) + "):\n" + err; }); c.outcome(uint64_t(st) + 1);
}
