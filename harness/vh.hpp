// Bounded-exhaustive explorer ("stateless model checking" of the real code).
//
// A section is a body that asks choose(n) whenever the environment has n
// options; the explorer runs it once for every sequence of choices, in
// depth-first order, in 8 forked workers that partition the choice tree.
// Every execution drives the real code and compares it with a reference model.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>

namespace vh {

inline uint64_t mix(uint64_t h, uint64_t v) {
    h = h * 0x9e3779b97f4a7c15ULL + v + 0x632be59bd9b4e019ULL;
    h ^= h >> 30; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 27; h *= 0x94d049bb133111ebULL; h ^= h >> 31;
    return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0x1234567) {
    const auto* b = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n; ++i) { h = (h ^ b[i]) * 0x100000001b3ULL; }
    return mix(h, n);
}
inline uint64_t hash_str(std::string_view s, uint64_t h = 0x1234567) { return hash_bytes(s.data(), s.size(), h); }

class HashSet {  // open addressing, 0 reserved
public:
    bool insert(uint64_t v) {
        if (v == 0) v = 1;
        if ((n_ + 1) * 2 > t_.size()) grow();
        size_t i = v & (t_.size() - 1);
        while (t_[i] != 0) { if (t_[i] == v) return false; i = (i + 1) & (t_.size() - 1); }
        t_[i] = v; ++n_;
        return true;
    }
    size_t size() const { return n_; }
    void dump(const std::string& path) const {
        std::vector<uint64_t> v; v.reserve(n_);
        for (auto x : t_) if (x) v.push_back(x);
        FILE* f = fopen(path.c_str(), "wb");
        if (f) { if (!v.empty()) (void)!fwrite(v.data(), 8, v.size(), f); fclose(f); }
    }
private:
    void grow() {
        std::vector<uint64_t> old; old.swap(t_);
        t_.assign(old.empty() ? 1024 : old.size() * 2, 0);
        n_ = 0;
        for (auto x : old) if (x) insert(x);
    }
    std::vector<uint64_t> t_; size_t n_ = 0;
};

struct Crumb {   // shared with the parent
    volatile double violated;   // of crumb 60: when the first violation was found
    volatile uint64_t seq;
    volatile int section;
    volatile uint32_t len;
    volatile uint32_t c[8000];
    char detail[512];
};

struct Violation { std::string key, msg; };
struct Skip {};
struct Prune {};

struct Globals {
    std::string property, tier = "quick", workdir = "/tmp";
    uint64_t seed = 1;
    double budget = 1e18;
    double after = 1e18;    // how long to go on once a violation was found
    bool first = false;     // survey mode: stop at the first violation, exit 77
    bool verbose = false;
};
inline Globals& G() { static Globals g; return g; }
inline bool thorough() { return G().tier == "thorough"; }
inline double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

class Ctx {
public:
    // ---- choices
    uint32_t choose(uint32_t n, const char* label = "") {
        if (n == 0) throw std::logic_error("choose(0)");
        uint32_t v = 0;
        if (pos_ < prefix_.size()) {
            v = prefix_[pos_];
            if (v >= n) {
                if (replay_) throw std::logic_error("replay: choice out of range");
                throw Violation{"nondeterminism", "the same history offered a different set of continuations the second time"};
            }
        } else {
            prefix_.push_back(0);
            arity_.push_back(n);
        }
        if (pos_ < arity_.size() && arity_[pos_] != n) {
            if (!replay_) throw Violation{"nondeterminism", "the same history offered a different number of continuations the second time"};
        }
        if (crumb_ && pos_ < 8000) { crumb_->c[pos_] = v; crumb_->len = pos_ + 1; }
        ph_ = mix(ph_, (uint64_t(n) << 32) | v);
        ++pos_;
        prod_ *= n; if (prod_ > (1ull << 40)) prod_ = 1ull << 40;
        if (!decided_ && prod_ >= split_at_) { decided_ = true; if (!mine()) throw Skip{}; }
        if (G().verbose && *label) { note_raw(std::string("choose ") + label + " = " + std::to_string(v) + " of " + std::to_string(n)); }
        return v;
    }
    bool flag(const char* label = "") { return choose(2, label) != 0; }
    template<class T> const T& pick(const std::vector<T>& v, const char* label = "") { return v[choose(v.size(), label)]; }
    // ---- accounting
    void step(uint64_t n = 1) { transitions += n; }
    bool state(uint64_t h) { used_state_ = true; return states.insert(mix(h, section_id)); }
    // canonical-state pruning: stop this execution if this state was already
    // expanded with at least as much depth left (subsumed future)
    void visit(uint64_t h, uint32_t left) {
        state(h);
        if (pos_ < prefix_.size() || replay_) return;   // still replaying the prefix: already expanded here
        if (!decided_) return;
        auto [it, fresh] = visited.try_emplace(mix(h, section_id), left + 1);
        if (fresh) return;
        if (it->second >= left + 1) { ++pruned; throw Prune{}; }
        it->second = left + 1;
    }
    void outcome(uint64_t h) { outcomes.insert(mix(h, section_id)); }
    void outcome(std::string_view s) { outcomes.insert(mix(hash_str(s), section_id)); }
    void trace() { ++traces; }      // one complete comparison of model and code
    // ---- verdicts
    bool active(const char* p) const { return G().property == p; }
    [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
    // property-tagged check: only the property being decided can fail
    template<class F> bool check(const char* p, bool cond, const char* key, F&& msg) {
        if (cond) return true;
        if (!active(p)) return false;
        if constexpr (std::is_invocable_v<F>) throw Violation{key, msg()}; else throw Violation{key, std::string(msg)};
    }
    template<class F> void require(bool cond, const char* key, F&& msg) {
        if (cond) return;
        if constexpr (std::is_invocable_v<F>) throw Violation{key, msg()}; else throw Violation{key, std::string(msg)};
    }
    template<class F> void require(bool cond, const std::string& key, F&& msg) { require(cond, key.c_str(), std::forward<F>(msg)); }
    void require(bool cond, const char* key) { if (!cond) throw Violation{key, key}; }
    bool verbose() const { return G().verbose; }
    template<class F> void note(F&& f) { if (G().verbose) note_raw(f()); }
    void note_raw(const std::string& s) { notes.push_back(s); }
    template<class F> void sample(F&& f) { if (samples.size() < 4) { auto s = f(); if (std::find(samples.begin(), samples.end(), s) == samples.end()) samples.push_back(s); } }
    void detail(const char* s) { if (crumb_) { strncpy(crumb_->detail, s, sizeof(crumb_->detail) - 1); } }
    uint64_t prefix_hash() const { return ph_; }

    // ---- engine state
    std::vector<std::string> notes, samples;
    uint64_t transitions = 0, traces = 0, executions = 0, pruned = 0;
    HashSet states, outcomes;
    struct VMap {   // hash -> depth left + 1
        std::vector<std::pair<uint64_t, uint32_t>> t; size_t n = 0;
        std::pair<std::pair<uint64_t,uint32_t>*, bool> find_or(uint64_t k, uint32_t v) {
            if (k == 0) k = 1;
            if ((n + 1) * 2 > t.size()) {
                auto old = std::move(t); t.assign(old.empty() ? 1024 : old.size() * 2, {0, 0}); n = 0;
                for (auto& e : old) if (e.first) { auto r = find_or(e.first, e.second); r.first->second = e.second; }
            }
            size_t i = k & (t.size() - 1);
            while (t[i].first) { if (t[i].first == k) return {&t[i], false}; i = (i + 1) & (t.size() - 1); }
            t[i] = {k, v}; ++n;
            return {&t[i], true};
        }
        std::pair<std::pair<uint64_t,uint32_t>*, bool> try_emplace(uint64_t k, uint32_t v) { return find_or(k, v); }
    } visited;
    uint64_t section_id = 0;

    bool mine() const { return replay_ || nshards_ == 1 || (ph_ >> 7) % nshards_ == shard_; }
    void begin(bool replay) { pos_ = 0; ph_ = 0x9abc; prod_ = 1; decided_ = replay; used_state_ = false; replay_ = replay; if (crumb_) { crumb_->len = 0; crumb_->detail[0] = 0; crumb_->seq = crumb_->seq + 1; } }
    // advance to the next choice sequence; false when the tree is exhausted
    bool next() {
        prefix_.resize(std::min<size_t>(pos_, prefix_.size())); arity_.resize(prefix_.size());
        while (!prefix_.empty() && prefix_.back() + 1 >= arity_.back()) { prefix_.pop_back(); arity_.pop_back(); }
        if (prefix_.empty()) return false;
        prefix_.back()++;
        return true;
    }
    std::vector<uint32_t> prefix_, arity_;
    size_t pos_ = 0;
    uint64_t ph_ = 0, prod_ = 1, split_at_ = 64;
    bool decided_ = false, used_state_ = false, replay_ = false;
    uint32_t nshards_ = 1, shard_ = 0;
    Crumb* crumb_ = nullptr;
    std::vector<uint32_t> taken() const { return {prefix_.begin(), prefix_.begin() + std::min(pos_, prefix_.size())}; }
};

struct Section { std::string name; std::set<std::string> props; std::function<void(Ctx&)> body; uint64_t split_at; };
inline std::vector<Section>& sections() { static std::vector<Section> s; return s; }
struct Reg {
    Reg(const char* name, const char* props, std::function<void(Ctx&)> b, uint64_t split_at = 64) {
        std::set<std::string> ps; std::istringstream is(props); std::string p;
        while (std::getline(is, p, ',')) ps.insert(p);
        sections().push_back({name, ps, std::move(b), split_at});
    }
};
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define VH_SECTION(name, props) \
    static void VH_CAT(vh_body_, __LINE__)(vh::Ctx&); \
    static vh::Reg VH_CAT(vh_reg_, __LINE__)(name, props, VH_CAT(vh_body_, __LINE__)); \
    static void VH_CAT(vh_body_, __LINE__)(vh::Ctx& c)

inline std::string jesc(std::string_view s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += char(ch);
    }
    return o + "\"";
}
inline std::string hex(const void* p, size_t n) {
    static const char* d = "0123456789abcdef"; std::string o;
    for (size_t i = 0; i < n; ++i) { auto b = static_cast<const uint8_t*>(p)[i]; o += d[b >> 4]; o += d[b & 15]; }
    return o;
}
inline std::string hex(const std::vector<uint8_t>& v) { return hex(v.data(), v.size()); }

struct Found { int section; std::vector<uint32_t> choices; std::string key, msg, kind; int shard; std::vector<std::string> notes; };

// run one execution; returns true if a violation occurred
inline bool run_once(Ctx& c, const Section& s, bool replay, Violation& v) {
    c.begin(replay);
    try {
        s.body(c);
        if (!c.decided_ && !c.mine()) return false;
        ++c.executions;
        if (!c.used_state_) c.states.insert(mix(c.ph_, c.section_id));
        return false;
    } catch (Skip&) { return false;
    } catch (Prune&) { ++c.executions; return false;
    } catch (Violation& x) { v = x; if (!c.decided_ && !c.mine()) return false; ++c.executions; return true;
    } catch (std::exception& x) { v = {std::string("exception:") + typeid(x).name(), std::string("unexpected exception escaped the code under test: ") + x.what()}; if (!c.decided_ && !c.mine()) return false; ++c.executions; return true;
    }
}

inline void write_lines(FILE* f, const char* tag, const std::string& s) { fprintf(f, "%s %s\n", tag, s.c_str()); }

inline int worker(Crumb* crumb, Crumb* common, uint32_t shard, uint32_t nshards, const std::string& out, double deadline, int only_section, uint64_t stop_after_exec) {
    std::string tmp = out + ".part";
    FILE* f = fopen(tmp.c_str(), "w");
    if (!f) return 3;
    for (size_t si = 0; si < sections().size(); ++si) {
        const auto& s = sections()[si];
        if (!s.props.count(G().property)) continue;
        if (only_section >= 0 && int(si) != only_section) continue;
        Ctx c; c.crumb_ = crumb; c.shard_ = shard; c.nshards_ = nshards; c.section_id = hash_str(s.name); c.split_at_ = s.split_at;
        crumb->section = int(si);
        bool capped = false; std::set<std::string> keys; double t0 = now_s();
        do {
            Violation v;
            if (run_once(c, s, false, v)) {
                if (common->violated == 0) common->violated = now_s();
                if (keys.insert(v.key).second) {
                    std::string ch; for (auto x : c.taken()) { ch += std::to_string(x); ch += ','; }
                    fprintf(f, "V %zu\t%s\t%s\t%s\t%llu\n", si, ch.c_str(), jesc(v.key).c_str(), jesc(v.msg).c_str(), (unsigned long long)c.executions);
                    fflush(f);
                    if (G().first) _exit(77);
                    if (keys.size() >= 8) { capped = true; break; }
                }
            }
            if (stop_after_exec && c.executions >= stop_after_exec) break;
            double t = now_s(); if (t > deadline || (common->violated != 0 && t > common->violated + G().after)) { capped = true; break; }
        } while (c.next());
        std::string sf = out + ".st" + std::to_string(si), of = out + ".oc" + std::to_string(si);
        c.states.dump(sf); c.outcomes.dump(of);
        fprintf(f, "S %zu\t%llu\t%llu\t%llu\t%llu\t%d\t%.3f\n", si, (unsigned long long)c.executions, (unsigned long long)c.transitions,
                (unsigned long long)(c.traces ? c.traces : c.executions), (unsigned long long)c.pruned, int(capped), now_s() - t0);
        for (auto& x : c.samples) fprintf(f, "E %zu\t%s\n", si, jesc(x).c_str());
        fflush(f);
    }
    fclose(f);
    rename(tmp.c_str(), out.c_str());
    return 0;
}

inline double proc_cpu(pid_t pid) {
    clockid_t id; timespec t;
    if (clock_getcpuclockid(pid, &id) != 0 || clock_gettime(id, &t) != 0) return -1;
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// run fn in a child with a CPU limit; 0 = clean, 1 = violation, 2 = crash, 3 = hang
inline int in_child(Crumb*, double cpu_limit, const std::function<int()>& fn) {
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) { int r = fn(); fflush(stdout); _exit(r); }
    double wall0 = now_s();
    while (true) {
        int st; pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) { if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1)) return WEXITSTATUS(st); return 2; }
        if (proc_cpu(pid) > cpu_limit || now_s() - wall0 > 20 * cpu_limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return 3; }
        usleep(2000);
    }
}

inline int main_impl(int argc, char** argv) {
    auto& g = G();
    std::string out, rp_section, rp_choices; bool replay = false; uint32_t nworkers = 8; double hang = 30;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--property") g.property = val(); else if (a == "--tier") g.tier = val();
        else if (a == "--seed") g.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--out") out = val(); else if (a == "--work") g.workdir = val();
        else if (a == "--budget") g.budget = atof(val().c_str()); else if (a == "--after") g.after = atof(val().c_str()); else if (a == "--workers") nworkers = atoi(val().c_str());
        else if (a == "--first") g.first = true;
        else if (a == "--replay") { replay = true; rp_section = val(); rp_choices = val(); }
    }
    auto* crumbs = static_cast<Crumb*>(mmap(nullptr, sizeof(Crumb) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset(static_cast<void*>(crumbs), 0, sizeof(Crumb) * 64);
    auto parse_choices = [](const std::string& s) { std::vector<uint32_t> v; std::istringstream is(s); std::string t; while (std::getline(is, t, ',')) if (!t.empty()) v.push_back(strtoul(t.c_str(), nullptr, 10)); return v; };
    auto replay_one = [&](int si, const std::vector<uint32_t>& ch, bool verbose, std::string* notes_out) -> int {
        (void)notes_out;
        g.verbose = verbose;
        Ctx c; c.crumb_ = &crumbs[63]; c.section_id = hash_str(sections()[si].name); c.prefix_ = ch; c.replay_ = true;
        c.arity_.assign(ch.size(), 0xffffffff);
        Violation v; bool bad = run_once(c, sections()[si], true, v);
        if (verbose) {
            for (auto& n : c.notes) printf("  %s\n", n.c_str());
            if (bad) printf("VIOLATED [%s] %s\n", v.key.c_str(), v.msg.c_str()); else printf("no violation in this execution\n");
            fflush(stdout);
        }
        return bad ? 1 : 0;
    };
    if (replay) {
        for (size_t si = 0; si < sections().size(); ++si) if (sections()[si].name == rp_section) return replay_one(int(si), parse_choices(rp_choices), true, nullptr);
        fprintf(stderr, "no such section\n"); return 2;
    }
    double t0 = now_s(), deadline = t0 + g.budget;
    std::vector<pid_t> pids(nworkers); std::vector<std::string> outs(nworkers);
    std::vector<uint64_t> lastseq(nworkers, 0); std::vector<double> lastcpu(nworkers, 0);
    std::vector<Found> found;
    fflush(stdout);
    for (uint32_t w = 0; w < nworkers; ++w) {
        outs[w] = g.workdir + "/w" + std::to_string(w);
        pid_t p = fork();
        if (p == 0) {
            std::string err = outs[w] + ".err"; int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
            int r = worker(&crumbs[w], &crumbs[60], w, nworkers, outs[w], deadline, -1, 0); _exit(r);
        }
        pids[w] = p;
    }
    uint32_t left = nworkers; bool internal_error = false;
    auto crumb_found = [&](uint32_t w, const char* kind) {
        Found f; f.section = crumbs[w].section; uint32_t n = std::min<uint32_t>(uint32_t(crumbs[w].len), 8000u);
        for (uint32_t i = 0; i < n; ++i) f.choices.push_back(uint32_t(crumbs[w].c[i]));
        f.kind = kind; f.key = kind; f.shard = int(w);
        std::string err; { FILE* e = fopen((outs[w] + ".err").c_str(), "r"); if (e) { char b[6000]; size_t k = fread(b, 1, sizeof b, e); err.assign(b, k); fclose(e); } }
        f.msg = std::string(kind) + " while executing this case" + (crumbs[w].detail[0] ? std::string(" (") + crumbs[w].detail + ")" : "") + (err.empty() ? "" : ": " + err);
        found.push_back(f);
    };
    while (left) {
        bool any = false;
        for (uint32_t w = 0; w < nworkers; ++w) {
            if (!pids[w]) continue;
            int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) {
                any = true; pids[w] = 0; --left;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                if (g.first) { for (auto q : pids) if (q) kill(q, SIGKILL); printf("%s\n", sections()[crumbs[w].section].name.c_str()); return 77; }
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker killed\n"); internal_error = true; continue; }
                crumb_found(w, "crash");
                continue;
            }
            double cpu = proc_cpu(pids[w]); uint64_t seq = crumbs[w].seq;
            if (seq != lastseq[w]) { lastseq[w] = seq; lastcpu[w] = cpu; }
            else if (cpu - lastcpu[w] > hang) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); if (g.first) { for (auto q : pids) if (q) kill(q, SIGKILL); return 77; } pids[w] = 0; --left; any = true; crumb_found(w, "hang"); }
        }
        if (!any) usleep(20000);
    }
    // merge
    struct Agg { uint64_t ex = 0, tr = 0, tc = 0, pr = 0, st = 0, oc = 0; bool capped = false; double wall = 0; std::vector<std::string> samples; };
    std::map<int, Agg> agg;
    std::map<std::pair<int, std::string>, Found> byk;
    for (uint32_t w = 0; w < nworkers; ++w) {
        FILE* f = fopen(outs[w].c_str(), "r"); if (!f) f = fopen((outs[w] + ".part").c_str(), "r"); if (!f) continue;
        std::string line; int ch;
        auto unq = [](const std::string& s) { std::string o; for (size_t i = 1; i + 1 < s.size(); ++i) { if (s[i] == '\\' && i + 1 < s.size()) { ++i; if (s[i] == 'n') o += '\n'; else if (s[i] == 'u') { o += char(strtoul(s.substr(i + 1, 4).c_str(), nullptr, 16)); i += 4; } else o += s[i]; } else o += s[i]; } return o; };
        auto handle = [&]() {
            std::vector<std::string> p; size_t a = 2; if (line.size() < 2) return;
            while (a <= line.size()) { size_t b = line.find('\t', a); if (b == std::string::npos) b = line.size(); p.push_back(line.substr(a, b - a)); a = b + 1; }
            if (line[0] == 'V' && p.size() >= 4) {
                Found x; x.section = atoi(p[0].c_str()); x.choices = parse_choices(p[1]); x.key = unq(p[2]); x.msg = unq(p[3]); x.kind = "violation"; x.shard = int(w);
                auto k = std::make_pair(x.section, x.key); auto it = byk.find(k);
                if (it == byk.end() || x.choices.size() < it->second.choices.size() || (x.choices.size() == it->second.choices.size() && x.choices < it->second.choices)) byk[k] = x;
            } else if (line[0] == 'S' && p.size() >= 7) {
                auto& g2 = agg[atoi(p[0].c_str())]; g2.ex += strtoull(p[1].c_str(), 0, 10); g2.tr += strtoull(p[2].c_str(), 0, 10); g2.tc += strtoull(p[3].c_str(), 0, 10);
                g2.pr += strtoull(p[4].c_str(), 0, 10); g2.capped |= p[5] == "1"; g2.wall = std::max(g2.wall, atof(p[6].c_str()));
            } else if (line[0] == 'E' && p.size() >= 2) { auto& v = agg[atoi(p[0].c_str())].samples; if (v.size() < 3) v.push_back(unq(p[1])); }
        };
        while ((ch = fgetc(f)) != EOF) { if (ch == '\n') { handle(); line.clear(); } else line += char(ch); }
        fclose(f);
    }
    for (auto& [si, a] : agg) {
        for (int kind = 0; kind < 2; ++kind) {
            std::vector<uint64_t> all;
            for (uint32_t w = 0; w < nworkers; ++w) {
                std::string p = outs[w] + (kind ? ".oc" : ".st") + std::to_string(si);
                FILE* f = fopen(p.c_str(), "rb"); if (!f) continue;
                fseek(f, 0, SEEK_END); long n = ftell(f) / 8; rewind(f); size_t o = all.size(); all.resize(o + n);
                if (n) (void)!fread(all.data() + o, 8, n, f); fclose(f); unlink(p.c_str());
            }
            std::sort(all.begin(), all.end()); uint64_t n = std::unique(all.begin(), all.end()) - all.begin();
            (kind ? a.oc : a.st) = n;
        }
    }
    for (auto& [k, x] : byk) found.push_back(x);
    // confirm every finding by replaying it twice in a fresh process
    std::string vj; int confirmed = 0; double tc = now_s();
    for (auto& x : found) {
        if (confirmed && now_s() - tc > g.after) break;    // enough: one confirmed violation decides
        int ok = 0;
        for (int i = 0; i < 2; ++i) {
            int r = in_child(crumbs, 60, [&] { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); return replay_one(x.section, x.choices, false, nullptr); });
            if (r == 1 || r == 2 || r == 3) ++ok;
        }
        std::string mode = "case";
        if (ok < 2) {   // depends on what ran before in the same process: replay the whole shard
            ok = 0;
            for (int i = 0; i < 2; ++i) {
                std::string o = g.workdir + "/re";
                int r = in_child(crumbs, 600, [&] {
                    int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
                    crumbs[61].violated = 0; int rr = worker(&crumbs[62], &crumbs[61], uint32_t(x.shard), nworkers, o, now_s() + 300, x.section, 0);
                    FILE* f = fopen(o.c_str(), "r"); bool v = false; char b[4]; if (f) { while (fgets(b, sizeof b, f)) if (b[0] == 'V' && b[1] == ' ') v = true; fclose(f); }
                    return rr ? rr : (v ? 1 : 0);
                });
                if (r) ++ok;
            }
            mode = "shard";
        }
        if (ok < 2) { fprintf(stderr, "finding did not reproduce: [%s] %s\n", x.key.c_str(), x.msg.c_str()); internal_error = true; continue; }
        ++confirmed;
        std::string ch; for (auto c2 : x.choices) { ch += std::to_string(c2); ch += ','; }
        if (!vj.empty()) vj += ",\n";
        vj += "  {\"section\":" + jesc(sections()[x.section].name) + ",\"choices\":" + jesc(ch) + ",\"key\":" + jesc(x.key) + ",\"kind\":" + jesc(x.kind) + ",\"replay_mode\":" + jesc(mode) + ",\"shard\":" + std::to_string(x.shard) + ",\"msg\":" + jesc(x.msg) + "}";
    }
    FILE* f = fopen(out.c_str(), "w"); if (!f) return 2;
    fprintf(f, "{\"violations\":[\n%s],\n\"sections\":[\n", vj.c_str());
    bool first = true; 
    for (auto& [si, a] : agg) {
        fprintf(f, "%s {\"name\":%s,\"executions\":%llu,\"transitions\":%llu,\"traces\":%llu,\"pruned\":%llu,\"states\":%llu,\"outcomes\":%llu,\"capped\":%s,\"wall\":%.2f,\"samples\":[", first ? "" : ",\n", jesc(sections()[si].name).c_str(),
            (unsigned long long)a.ex, (unsigned long long)a.tr, (unsigned long long)a.tc, (unsigned long long)a.pr, (unsigned long long)a.st, (unsigned long long)a.oc, a.capped ? "true" : "false", a.wall);
        for (size_t i = 0; i < a.samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jesc(a.samples[i]).c_str());
        fprintf(f, "]}"); first = false;
    }
    fprintf(f, "],\n\"internal_error\":%s,\"wall\":%.2f}\n", internal_error ? "true" : "false", now_s() - t0);
    fclose(f);
    return 0;
}
} // namespace vh

#ifndef VH_NO_MAIN
extern "C" __attribute__((used)) const char* __asan_default_options() { return "detect_leaks=0:hard_rss_limit_mb=6000:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
extern "C" __attribute__((used)) const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=98"; }
int main(int argc, char** argv) { return vh::main_impl(argc, argv); }
#endif
