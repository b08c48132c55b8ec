// The program around the library: locales, errno, errors pending in libcrypto,
// leftovers in memory and the place memory comes from, all under control.
#pragma once
#include <array>
#include <clocale>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <locale>
#include <new>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <fenv.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <openssl/err.h>
namespace amb {
// ---- memory: what it contains and where it lies
inline int g_fill = -1;               // what new and freed memory contains (-1: whatever)
inline int g_place = 0;               // 0: malloc, 1: upwards, never reused, 2: downwards
inline constexpr size_t ARENA = size_t(64) << 20;
inline unsigned char* g_base = nullptr; inline size_t g_up = 0, g_down = ARENA, g_live = 0;
struct Head { size_t size; size_t in; };
static_assert(sizeof(Head) == 16);
inline void* take(size_t n) {
    size_t all = (n + sizeof(Head) + 15) & ~size_t(15); unsigned char* p = nullptr; bool in = false;
    if (g_place && g_base && all <= ARENA / 8) { if (!g_live) g_up = 0, g_down = ARENA; if (g_down - g_up > all) { if (g_place == 1) p = g_base + g_up, g_up += all; else g_down -= all, p = g_base + g_down; in = true; ++g_live; } }
    if (!p) p = static_cast<unsigned char*>(std::malloc(all)); if (!p) throw std::bad_alloc();
    auto* h = reinterpret_cast<Head*>(p); h->size = n; h->in = in; p += sizeof(Head); if (g_fill >= 0) std::memset(p, g_fill, n); return p;
}
inline void give(void* v) { if (!v) return; auto* p = static_cast<unsigned char*>(v); auto* h = reinterpret_cast<Head*>(p - sizeof(Head)); if (g_fill >= 0) std::memset(p, g_fill ^ 0x5a, h->size); if (h->in) --g_live; else std::free(h); }
__attribute__((noinline)) inline void dirty_stack(int fill) { volatile unsigned char junk[24000]; for (auto& b : junk) b = static_cast<unsigned char>(fill); }
}
void* operator new(size_t n) { return amb::take(n); }
void* operator new[](size_t n) { return amb::take(n); }
void operator delete(void* p) noexcept { amb::give(p); }
void operator delete[](void* p) noexcept { amb::give(p); }
void operator delete(void* p, size_t) noexcept { amb::give(p); }
void operator delete[](void* p, size_t) noexcept { amb::give(p); }
namespace amb {
// ---- locales
struct Punct : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } char do_decimal_point() const override { return ','; } std::string do_grouping() const override { return "\1"; } std::string do_truename() const override { return "wahr"; } };
struct Letters : std::ctype<char> { char do_tolower(char c) const override { return c == 'I' ? char(0xfd) : std::ctype<char>::do_tolower(c); } char do_toupper(char c) const override { return c == 'i' ? char(0xdd) : std::ctype<char>::do_toupper(c); } const char* do_tolower(char* b, const char* e) const override { for (; b < e; ++b) *b = do_tolower(*b); return e; } const char* do_toupper(char* b, const char* e) const override { for (; b < e; ++b) *b = do_toupper(*b); return e; } };
inline const std::locale& odd() { static const std::locale l(std::locale(std::locale::classic(), new Punct), new Letters); return l; }
inline const std::vector<std::string>& names() {   // locales made for this run; the C locale alone when that fails
    static const std::vector<std::string> v = [] {
        std::vector<std::string> r{"C"}; std::string dir = vh::G().workdir + "/loc" + std::to_string(getpid()); ::mkdir(dir.c_str(), 0755); ::setenv("LOCPATH", dir.c_str(), 1);
        for (auto [n, i, f] : {std::array<const char*, 3>{"tr_TR.ISO-8859-9", "tr_TR", "ISO-8859-9"}, std::array<const char*, 3>{"de_DE.UTF-8", "de_DE", "UTF-8"}}) { std::string cmd = std::string("localedef -c -i ") + i + " -f " + f + " '" + dir + "/" + n + "' >/dev/null 2>&1"; if (std::system(cmd.c_str()) >= 0 && std::setlocale(LC_ALL, n)) r.push_back(n); std::setlocale(LC_ALL, "C"); }
        return r; }();
    return v;
}
constexpr unsigned LOCALES = 4;   // C, Turkish, German, a C++ locale with facets of its own
inline const char* locale_name(unsigned k) { static const char* n[] = {"the C locale", "a Turkish locale", "a German locale", "a C++ locale with grouped digits"}; return n[k]; }
inline void set_locale(unsigned k) { if (k == 0 || k == 3 || k >= names().size()) { std::setlocale(LC_ALL, "C"); std::locale::global(k == 3 ? odd() : std::locale::classic()); } else { static std::vector<std::locale> l = [] { std::vector<std::locale> v; for (auto& n : names()) v.emplace_back(n.c_str()); return v; }(); std::locale::global(l[k]); } }
// ---- everything together
struct Env {
    unsigned loc = 0; int err = 0; int stale = 0; int fill = -1; int place = 0;
    std::string show() const { return std::string(locale_name(loc)) + ", errno " + std::to_string(err) + ", " + std::to_string(stale) + " errors pending in libcrypto, memory filled with " + std::to_string(fill) + (place ? place == 1 ? ", addresses growing" : ", addresses falling" : ""); }
};
struct Watch { std::string loc; std::locale cpp; int round; sigset_t mask; void (*pipe)(int); int files; };
inline int files() { int n = ::dup(0); if (n < 0) n = ::open("/dev/null", O_RDONLY); if (n >= 0) ::close(n); return n; }   // the lowest free number
inline Watch look() { Watch w; w.loc = std::setlocale(LC_ALL, nullptr); w.round = ::fegetround(); ::sigprocmask(SIG_BLOCK, nullptr, &w.mask); struct sigaction sa; ::sigaction(SIGPIPE, nullptr, &sa); w.pipe = sa.sa_handler; w.files = files(); return w; }
inline std::string differs(const Watch& a, const Watch& b) { if (a.loc != b.loc || !(a.cpp == b.cpp)) return "the locale"; if (a.round != b.round) return "the rounding mode"; if (std::memcmp(&a.mask, &b.mask, sizeof(a.mask) / 16) != 0) return "the signal mask"; if (a.pipe != b.pipe) return "a signal handler"; if (a.files != b.files) return "the open files"; return ""; }
// The standard output and error while the library runs: a file that must remain empty.
struct Quiet {
    int fd, out, err; Quiet() { std::fflush(nullptr); fd = ::memfd_create("out", 0); out = ::dup(1); err = ::dup(2); ::dup2(fd, 1); ::dup2(fd, 2); }
    std::string stop() { if (fd < 0) return ""; std::fflush(nullptr); ::dup2(out, 1); ::dup2(err, 2); std::string s(400, 0); ssize_t n = ::pread(fd, s.data(), s.size(), 0); s.resize(n > 0 ? size_t(n) : 0); ::close(out); ::close(err); ::close(fd); fd = -1; return s; }
    ~Quiet() { (void)stop(); }
};
template<class F> auto in(const Env& e, std::string& changed, F&& f) {
    if (e.place && !g_base) { void* p = ::mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p != MAP_FAILED) g_base = static_cast<unsigned char*>(p); }
    struct Back { ~Back() { g_fill = -1; g_place = 0; set_locale(0); ERR_clear_error(); errno = 0; } };
    set_locale(e.loc); ERR_clear_error(); for (int i = 0; i < e.stale; ++i) ERR_raise(ERR_LIB_EVP, 100 + i); Watch w = look(), x; decltype(f()) r{};
    { Back back; if (e.fill >= 0) dirty_stack(e.fill); g_fill = e.fill; g_place = e.place; errno = e.err; auto t = f(); g_fill = -1; g_place = 0; x = look(); r = decltype(r)(t.begin(), t.end()); }
    changed = differs(w, x); return r;
}
inline const std::vector<Env>& all() {   // every combination
    static const std::vector<Env> v = [] { std::vector<Env> r; for (unsigned l = 0; l < LOCALES; ++l) for (int e : {0, ENOSPC, ERANGE, EAFNOSUPPORT}) for (int s : {0, 1, 20}) for (int f : {-1, 0, 0xff, 0xa5}) for (int p : {0, 1, 2}) r.push_back({l, e, s, f, p}); return r; }(); return v;
}
inline const std::vector<Env>& few() { static const std::vector<Env> v{{0, 0, 0, -1, 0}, {1, ENOSPC, 2, 0xff, 2}, {3, ERANGE, 0, 0, 1}, {2, EINVAL, 20, 0xa5, 0}}; return v; }
}
