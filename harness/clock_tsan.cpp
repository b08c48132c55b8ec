// The steady clock read from two threads (U04), under ThreadSanitizer. The
// hand-over between the threads uses relaxed atomics only, so that it orders
// their steps in time without ordering them for the happens-before analysis:
// every enumerated schedule stands for all schedules of its accesses.
// DEPS: src/clock
// SAN: thread
#include "vh.hpp"
#include "clock/clock_timepoint.hpp"
#include "clock/clock_std.hpp"
#include <thread>
#include <atomic>
using namespace freewebrtc::clock;
extern "C" __attribute__((used)) const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0"; }
VH_SECTION("steady clock: every schedule of readings in two threads of a fresh process", "U04") {
    const uint32_t n = vh::thorough() ? 4 : 3; std::vector<int> who; uint32_t left[2] = {n, n}; while (left[0] + left[1]) { int w = left[0] == 0 ? 1 : left[1] == 0 ? 0 : int(c.choose(2)); --left[w]; who.push_back(w); }
    int fd[2]; c.require(pipe(fd) == 0, "pipe"); fflush(stdout); pid_t p = fork();
    if (p == 0) {
        close(fd[0]); dup2(fd[1], 2); std::atomic<size_t> turn{0}; std::vector<int64_t> seen(who.size()), lo(who.size()), hi(who.size()); auto raw = [] { return int64_t(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count() / 1000); };
        auto body = [&](int me) { for (size_t i = 0; i < who.size(); ++i) if (who[i] == me) { while (turn.load(std::memory_order_relaxed) < i) std::this_thread::yield(); lo[i] = raw(); seen[i] = (steady_clock_now() - Timepoint::epoch()).count(); hi[i] = raw(); turn.store(i + 1, std::memory_order_relaxed); } };
        std::thread a(body, 0), b(body, 1); a.join(); b.join(); for (size_t i = 0; i < who.size(); ++i) if (seen[i] < lo[i] || seen[i] > hi[i]) { dprintf(2, "reading %zu is at %lld us, outside %lld..%lld us\n", i, (long long)seen[i], (long long)lo[i], (long long)hi[i]); _exit(7); } _exit(0);
    }
    close(fd[1]); std::string err; char buf[4096]; ssize_t r; while ((r = read(fd[0], buf, sizeof buf)) > 0) if (err.size() < 6000) err.append(buf, size_t(r)); close(fd[0]); int st = 0; waitpid(p, &st, 0); c.step(who.size()); c.trace(); c.state(c.prefix_hash());
    c.require(!(WIFEXITED(st) && WEXITSTATUS(st) == 66), "data-race", [&] { return "two threads reading the steady clock race:\n" + err; });
    c.require(WIFEXITED(st) && WEXITSTATUS(st) == 0, "steady", [&] { return "two threads reading the steady clock (status " + std::to_string(st) + "): " + err; });
}
