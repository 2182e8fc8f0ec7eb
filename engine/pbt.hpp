// A small property-based testing engine.
//
// Every case is a pure function of a sequence of bounded choices ("draws").  In generation mode the
// choices come from a PRNG seeded by hash(seed, facet, variant, case index) and are recorded; in replay
// mode they are read back (0 after the end).  A failing sequence is shrunk (chunks removed, values
// lowered) by re-executing it, each time in a forked process, so that crashes, sanitizer reports,
// std::terminate and hangs shrink exactly like failed comparisons.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <unordered_set>
#include <functional>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <exception>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <dirent.h>

namespace pbt {

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
    return h;
}
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t s = a ^ (b * 0x9e3779b97f4a7c15ull + 0x7f4a7c15ull); return splitmix(s); }

struct Fail { std::string msg; };
[[noreturn]] inline void fail(const std::string& m) { throw Fail{m}; }

inline constexpr size_t MAXCH = 1u << 15;

struct Shm {
    uint64_t case_idx;
    uint64_t done;
    uint64_t nch;
    uint32_t status;                 // 0 running, 1 failed with message, 2 finished
    char msg[8192];
    char notes[16384];
    uint64_t notes_len;
    uint32_t ch[MAXCH];
};

// Anything that can deliver bounded choices.
struct Src {
    virtual ~Src() = default;
    virtual uint64_t draw(uint64_t bound) = 0;
    size_t below(size_t n) { return static_cast<size_t>(draw(n)); }
    long range(long lo, long hi) { return lo + static_cast<long>(draw(static_cast<uint64_t>(hi - lo + 1))); }
    // zig-zag: 0,1,-1,2,-2,...,k,-k
    long zig(long k) { long v = static_cast<long>(draw(static_cast<uint64_t>(2 * k + 1))); return (v & 1) ? (v + 1) / 2 : -(v / 2); }
    // true with probability num/den; the zero choice means false
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    template<typename C> auto pick_from(const C& l) { return l[below(l.size())]; }
};
struct Bulk : Src {
    uint64_t s;
    explicit Bulk(uint64_t seed): s(mix(seed, 0xb01d)) {}
    uint64_t draw(uint64_t b) override { auto r = splitmix(s); return b <= 1 ? 0 : r % b; }
};

struct Ctx : Src {
    Shm* shm = nullptr;
    uint64_t rng = 0;
    const std::vector<uint32_t>* replay = nullptr;
    const uint8_t* bytes = nullptr; size_t nbytes = 0, pos_bytes = 0;   // coverage-guided mode
    size_t pos = 0;
    bool is_nontrivial = false;
    bool want_notes = false;
    std::vector<std::string> labels;

    uint64_t draw(uint64_t bound) override {
        if (bound <= 1) { return 0; }
        if (bound > (1ull << 32)) { bound = 1ull << 32; }
        uint64_t v;
        if (replay) {
            v = pos < replay->size() ? (*replay)[pos] : 0;
            if (v >= bound) { v = v % bound; }
        } else if (bytes) {
            v = 0; int k = bound <= 256 ? 1 : bound <= 65536 ? 2 : 4;
            for (int i = 0; i < k; ++i) { v = (v << 8) | (pos_bytes < nbytes ? bytes[pos_bytes++] : 0); }
            v %= bound;
        } else {
            v = splitmix(rng) % bound;
        }
        if (pos < MAXCH) { shm->ch[pos] = static_cast<uint32_t>(v); shm->nch = pos + 1; }
        ++pos;
        return v;
    }
    // one choice that seeds a bulk generator (used for long arrays, so that sequences stay short)
    Bulk bulk() { return Bulk(draw(1ull << 32)); }
    void nontrivial(bool b = true) { is_nontrivial = is_nontrivial || b; }
    void label(const std::string& l) { labels.push_back(l); }
    void note(const std::string& s) {
        if (!want_notes) { return; }
        auto room = sizeof(shm->notes) - 1 - shm->notes_len;
        auto n = std::min(room, s.size() + 1);
        if (n == 0) { return; }
        memcpy(shm->notes + shm->notes_len, s.data(), std::min(n, s.size()));
        if (n > s.size()) { shm->notes[shm->notes_len + s.size()] = ' '; }
        shm->notes_len += n;
    }
};

// Message building, kept out of line so that the sanitizer builds stay quick to compile.
#define PBT_NOINLINE __attribute__((noinline, no_sanitize("address", "undefined")))
#define PBT_NOINLINE_PLAIN __attribute__((noinline))
struct Cat {
    std::ostringstream o;
    PBT_NOINLINE Cat() { o.precision(17); }
    PBT_NOINLINE ~Cat() {}
    PBT_NOINLINE std::string str() const { return o.str(); }
    PBT_NOINLINE void put(const char* s) { o << s; }
    PBT_NOINLINE void put(const std::string& s) { o << s; }
    PBT_NOINLINE void put(int v) { o << v; }
    PBT_NOINLINE void put(long v) { o << v; }
    PBT_NOINLINE void put(unsigned long v) { o << v; }
    PBT_NOINLINE void put(float v) { o << v; }
    PBT_NOINLINE void put(double v) { o << v; }
    template<typename T> PBT_NOINLINE void put(const T& v) { o << v; }
};
template<typename... A> std::string cat(const A&... a) { Cat c; (c.put(a), ...); return c.str(); }

#define PBT_CHECK(cond, ...) do { if (!(cond)) { ::pbt::fail(::pbt::cat(__VA_ARGS__)); } } while (0)

struct Facet { std::string name; double weight; std::function<void(Ctx&)> fn; };
inline std::vector<Facet>& facets() { static std::vector<Facet> f; return f; }
struct Reg { Reg(const std::string& n, double w, std::function<void(Ctx&)> f) { facets().push_back({n, w, std::move(f)}); } };

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_FACET(name, weight, ...) static ::pbt::Reg PBT_CAT(pbt_reg_, __COUNTER__)(name, weight, __VA_ARGS__)

// hook that resets global state before each case (thread counts)
inline std::function<void(Ctx&)>& before_case() { static std::function<void(Ctx&)> f; return f; }

inline std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
        else if (ch == '\n') { o += "\\n"; }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else { o += static_cast<char>(ch); }
    }
    return o + "\"";
}

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec); }

inline void cpu_limit(int seconds) {
    itimerval it{}; it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr);
}

inline std::string& stderr_path() { static std::string p; return p; }
inline void block_sigchld(bool on);
inline void child_setup() {
    block_sigchld(false);
    int fd = open(stderr_path().c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
inline std::string stderr_tail() {
    std::ifstream f(stderr_path()); std::stringstream ss; ss << f.rdbuf();
    auto s = ss.str();
    auto p = s.find("ERROR: AddressSanitizer"); if (p != std::string::npos) { s = s.substr(p); }
    if (s.size() > 1500) { s = s.substr(0, 1500); }
    return s;
}

// Fills the stack below with NaN bytes, so that a result that depends on an uninitialised local shows.
__attribute__((noinline, no_sanitize("address"))) inline void dirty_stack() {
    char a[1 << 15]; memset(a, 0xff, sizeof a); asm volatile("" : : "r"(a) : "memory");
}

// Runs one case in this process; returns the failure message or an empty string.
inline std::string run_case(const Facet& f, Ctx& c) {
    try {
        if (before_case()) { before_case()(c); }
        dirty_stack();
        f.fn(c);
    }
    catch (const Fail& e) { return e.msg.empty() ? "failed" : e.msg; }
    catch (const std::exception& e) { return cat("unexpected exception: ", e.what()); }
    catch (...) { return "unexpected exception of unknown type"; }
    return "";
}

struct Outcome { bool failed = false; bool hang = false; bool checked = false; std::string msg; };

inline Outcome decode(Shm* shm, int st) {
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->status == 2) { return o; }
    o.failed = true;
    if (shm->status == 1) { o.msg = shm->msg; o.checked = true; }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { o.hang = true; o.msg = "the call did not terminate (CPU time limit per case reached)"; }
    else if (WIFSIGNALED(st)) { o.msg = cat("process died with signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), "): ", stderr_tail()); }
    else { o.msg = cat("process exited with code ", WIFEXITED(st) ? WEXITSTATUS(st) : -1, ": ", stderr_tail()); }
    return o;
}

// Waits for a child. A child all of whose threads sleep without using any CPU time for `blocked` seconds is stuck (a
// deadlock, which a CPU limit does not see); it is ended. A child that merely gets no CPU is runnable and not affected.
inline bool runnable(pid_t pid) {
    auto dir = cat("/proc/", static_cast<long>(pid), "/task"); bool any = false, seen = false;
    if (DIR* d = opendir(dir.c_str())) {
        while (auto* e = readdir(d)) {
            if (e->d_name[0] == '.') { continue; }
            std::ifstream f(dir + "/" + e->d_name + "/stat"); std::string t; std::getline(f, t); auto q = t.rfind(')');
            if (q == std::string::npos || q + 2 >= t.size()) { any = true; continue; }
            seen = true; any = any || t[q + 2] != 'S';
        }
        closedir(d);
    }
    return any || !seen;
}
inline int wait_child(pid_t pid, bool& stuck, int blocked) {
    static sigset_t chld; static bool once = [] { sigemptyset(&chld); sigaddset(&chld, SIGCHLD); return true; }(); (void)once;
    int st = 0; stuck = false; double last = -1; int quiet = 0; clockid_t clk; bool have = clock_getcpuclockid(pid, &clk) == 0;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid || (r < 0 && errno != EINTR)) { return st; }
        timespec tick{5, 0};
        if (sigtimedwait(&chld, nullptr, &tick) >= 0 || errno != EAGAIN || !have) { continue; }
        timespec t; double cpu = clock_gettime(clk, &t) == 0 ? static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec) : -2;
        quiet = cpu >= 0 && last >= 0 && cpu - last < 0.01 && !runnable(pid) ? quiet + 1 : 0; last = cpu;
        if (quiet * 5 >= blocked) { stuck = true; kill(pid, SIGKILL); while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} return st; }
    }
}
inline void block_sigchld(bool on) { sigset_t s; sigemptyset(&s); sigaddset(&s, SIGCHLD); sigprocmask(on ? SIG_BLOCK : SIG_UNBLOCK, &s, nullptr); }
inline Outcome stuck_outcome() { Outcome o; o.failed = o.hang = o.checked = true; o.msg = "the call never returned: every thread is blocked"; return o; }

inline Outcome run_forked(const Facet& f, Shm* shm, const std::vector<uint32_t>& ch, int cpu, bool notes, std::vector<uint32_t>* used = nullptr) {
    shm->status = 0; shm->nch = 0; shm->notes_len = 0; shm->msg[0] = 0;
    fflush(stdout); fflush(stderr); block_sigchld(true);
    pid_t pid = fork();
    if (pid == 0) {
        child_setup();
        cpu_limit(cpu);
        Ctx c; c.shm = shm; c.replay = &ch; c.want_notes = notes;
        auto m = run_case(f, c);
        if (!m.empty()) { snprintf(shm->msg, sizeof shm->msg, "%s", m.c_str()); shm->status = 1; _exit(0); }
        shm->status = 2; _exit(0);
    }
    bool stuck; int st = wait_child(pid, stuck, 15);
    auto o = stuck ? stuck_outcome() : decode(shm, st);
    if (used) { used->assign(shm->ch, shm->ch + std::min<size_t>(shm->nch, MAXCH)); }
    return o;
}

inline std::vector<uint32_t> shrink(const Facet& f, Shm* shm, std::vector<uint32_t> best, bool hang, double seconds) {
    auto t0 = now();
    size_t budget = hang ? 12 : 1500;
    auto out = [&] { return budget == 0 || now() - t0 > seconds; };
    auto attempt = [&](const std::vector<uint32_t>& cand) {
        if (out()) { return false; }
        --budget;
        std::vector<uint32_t> used;
        auto o = run_forked(f, shm, cand, hang ? 20 : 10, false, &used);
        if (!o.failed || (o.hang && !hang)) { return false; }
        if (used.size() > cand.size()) { used.resize(std::max(cand.size(), size_t(1))); }
        // drop trailing zeros: replay supplies them
        auto r = used; while (!r.empty() && r.back() == 0) { r.pop_back(); }
        auto b = best; while (!b.empty() && b.back() == 0) { b.pop_back(); }
        if (r.size() < b.size() || (r.size() == b.size() && r < b)) { best = r; return true; }
        return false;
    };
    bool progress = true;
    while (progress && !out()) {
        progress = false;
        for (size_t len : {64u, 16u, 8u, 4u, 2u, 1u}) {               // remove chunks
            for (size_t i = 0; i + len <= best.size() && !out();) {
                auto c = best; c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len));
                if (attempt(c)) { progress = true; } else { i += len; }
            }
        }
        for (size_t len : {32u, 8u, 1u}) {                             // zero chunks
            for (size_t i = 0; i < best.size() && !out(); i += len) {
                auto c = best; bool ch = false;
                for (size_t k = i; k < std::min(i + len, c.size()); ++k) { if (c[k]) { c[k] = 0; ch = true; } }
                if (ch && attempt(c)) { progress = true; }
            }
        }
        for (size_t i = 0; i < best.size() && !out(); ++i) {           // lower single values
            uint32_t lo = 0;
            while (i < best.size() && best[i] > lo && !out()) {
                auto c = best; auto mid = lo + (best[i] - lo) / 2; c[i] = mid;
                if (attempt(c)) { progress = true; } else { lo = mid + 1; }
            }
        }
    }
    return best;
}

struct Opts { std::string variant = "v"; uint64_t seed = 1; double scale = 1; unsigned shard = 0, shards = 1; std::string out, only; double deadline = 1e9; };

inline void write_replay(const std::string& path, const Facet& f, const Opts& o, const std::string& kind, const std::vector<uint32_t>& ch,
                         uint64_t idx, uint64_t start, const std::string& msg, const std::string& notes) {
    std::ofstream w(path);
    w << "{\"facet\":" << json_str(f.name) << ",\"variant\":" << json_str(o.variant) << ",\"kind\":" << json_str(kind)
      << ",\"seed\":" << o.seed << ",\"case\":" << idx << ",\"start\":" << start << ",\"step\":" << o.shards << ",\"message\":" << json_str(msg)
      << ",\"input\":" << json_str(notes) << ",\"choices\":[";
    for (size_t i = 0; i < ch.size(); ++i) { w << (i ? "," : "") << ch[i]; }
    w << "]}\n";
}

// Runs cases start, start+step, ... < end in a forked process.
struct Batch { uint64_t start, step, end; };
inline Outcome run_batch(const Facet& f, Shm* shm, const Opts& o, Batch b, int sample_first, const std::string& statfile) {
    shm->status = 0; shm->done = 0; shm->nch = 0; shm->msg[0] = 0; shm->notes_len = 0;
    fflush(stdout); fflush(stderr); block_sigchld(true);
    pid_t pid = fork();
    if (pid == 0) {
        child_setup();
        uint64_t nontriv = 0, evals = 0;
        std::unordered_set<uint64_t> seen;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string> samples;
        uint64_t fh = hash_str(f.name), vh = hash_str(o.variant);
        for (uint64_t i = b.start; i < b.end; i += b.step) {
            if ((evals & 15) == 0) { cpu_limit(60); if (now() > o.deadline) { labels["(stopped at the wall-clock cap)"]++; break; } }
            Ctx c; c.shm = shm; c.rng = mix(mix(mix(o.seed, fh), vh), i);
            c.want_notes = static_cast<int>(samples.size()) < sample_first && evals % 3 == 0;
            shm->case_idx = i; shm->nch = 0; shm->notes_len = 0;
            auto m = run_case(f, c);
            ++evals; shm->done = evals;
            if (!m.empty()) { snprintf(shm->msg, sizeof shm->msg, "%s", m.c_str()); shm->status = 1; _exit(0); }
            if (c.is_nontrivial) {
                uint64_t h = fh;
                for (size_t k = 0; k < std::min<size_t>(shm->nch, MAXCH); ++k) { h = mix(h, shm->ch[k]); }
                if (seen.insert(h).second) {
                    ++nontriv;
                    if (c.want_notes) { samples.push_back(std::string(shm->notes, std::min<size_t>(shm->notes_len, 400))); }
                }
            }
            for (auto& l : c.labels) { labels[l]++; }
        }
        if (!statfile.empty()) {
            std::ofstream w(statfile);
            w << "{\"facet\":" << json_str(f.name) << ",\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"labels\":{";
            bool first = true;
            for (auto& [k, v] : labels) { w << (first ? "" : ",") << json_str(k) << ":" << v; first = false; }
            w << "},\"samples\":[";
            for (size_t k = 0; k < samples.size(); ++k) { w << (k ? "," : "") << json_str(samples[k]); }
            w << "]}\n";
            w.close();
            std::ofstream hs(statfile + ".hashes", std::ios::binary);
            for (auto h : seen) { hs.write(reinterpret_cast<const char*>(&h), 8); }
        }
        shm->status = 2; _exit(0);
    }
    bool stuck; int st = wait_child(pid, stuck, 30);
    return stuck ? stuck_outcome() : decode(shm, st);
}

inline int run_main(int argc, char** argv) {
    Opts o; std::string replay; double cases_base = 1;
    auto* shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::string mode = argc > 1 ? argv[1] : "";
    std::map<std::string, std::string> a;
    for (int i = 2; i + 1 < argc; i += 2) { a[argv[i]] = argv[i + 1]; }
    if (a.count("--variant")) { o.variant = a["--variant"]; }
    if (a.count("--seed")) { o.seed = std::stoull(a["--seed"]); }
    if (a.count("--scale")) { o.scale = std::stod(a["--scale"]); }
    if (a.count("--shard")) { o.shard = static_cast<unsigned>(std::stoul(a["--shard"])); }
    if (a.count("--shards")) { o.shards = static_cast<unsigned>(std::stoul(a["--shards"])); }
    if (a.count("--out")) { o.out = a["--out"]; }
    if (a.count("--only")) { o.only = a["--only"]; }
    if (a.count("--seconds")) { o.deadline = now() + std::stod(a["--seconds"]); }
    (void)cases_base;
    if (mode == "list") { for (auto& f : facets()) { std::cout << f.name << " " << f.weight << "\n"; } return 0; }
    stderr_path() = o.out + ".stderr";
    if (mode == "replay") {              // --choices "1,2,3" --facet NAME  or  --facet NAME --start a --case b (batch)
        for (auto& f : facets()) {
            if (f.name != a["--facet"]) { continue; }
            if (a["--kind"] == "batch") {
                Batch b{std::stoull(a["--start"]), o.shards, std::stoull(a["--case"]) + 1};
                auto r = run_batch(f, shm, o, b, 0, "");
                std::cout << (r.failed ? "FAIL " + r.msg : std::string("PASS")) << "\n";
                return r.failed ? 1 : 0;
            }
            std::vector<uint32_t> ch; std::stringstream ss(a["--choices"]); std::string t;
            while (std::getline(ss, t, ',')) { ch.push_back(static_cast<uint32_t>(std::stoul(t))); }
            auto r = run_forked(f, shm, ch, 60, true);
            std::cout << (r.failed ? "FAIL " + r.msg : std::string("PASS")) << "\ninput: " << std::string(shm->notes, shm->notes_len) << "\n";
            return r.failed ? 1 : 0;
        }
        std::cout << "no such facet\n"; return 2;
    }
    // mode == "run"
    int rc = 0;
    for (size_t fi = 0; fi < facets().size(); ++fi) {
        auto& f = facets()[fi];
        if (!o.only.empty() && f.name.find(o.only) == std::string::npos) { continue; }
        auto total = static_cast<uint64_t>(std::max(1.0, f.weight * o.scale));
        Batch b{o.shard, o.shards, total};
        auto t0 = now();
        auto stat = cat(o.out, ".", fi, ".json");
        auto r = run_batch(f, shm, o, b, 2, stat);
        if (getenv("PBT_TIMES")) { fprintf(stderr, "%-40s %8lu cases %.2fs\n", f.name.c_str(), static_cast<unsigned long>(total / o.shards), now() - t0); }
        if (!r.failed) { continue; }
        auto idx = shm->case_idx;
        std::vector<uint32_t> ch(shm->ch, shm->ch + std::min<size_t>(shm->nch, MAXCH));
        fprintf(stderr, "failure in %s case %lu: %s\n", f.name.c_str(), static_cast<unsigned long>(idx), r.msg.substr(0, 600).c_str());
        auto path = cat(o.out, ".", fi, ".replay.json");
        // reproduce from the choices alone, up to 20 times
        int again = 0; Outcome rr;
        for (int k = 0; k < (r.hang ? 1 : 20) && again < 3; ++k) { auto x = run_forked(f, shm, ch, 60, true); if (x.failed) { ++again; rr = x; } else if (again == 0 && k >= 19) { break; } }
        if (again > 0) {
            auto best = shrink(f, shm, ch, rr.hang, 40);
            int ok = 0; Outcome last; std::string notes; int tries = rr.hang ? 1 : 12;
            for (int k = 0; k < tries && ok < 3; ++k) { auto x = run_forked(f, shm, best, rr.hang ? 30 : 60, true); if (x.failed) { ++ok; last = x; notes = std::string(shm->notes, shm->notes_len); } }
            if (ok == 0) { best = ch; last = rr; run_forked(f, shm, best, 60, true); notes = std::string(shm->notes, shm->notes_len); }
            write_replay(path, f, o, "choices", best, idx, b.start, last.msg, notes);
            rc = 1;
        } else {
            // the failure needs the cases before it: replay the batch
            int ok = 0;
            for (int k = 0; k < 3 && ok == 0; ++k) { auto x = run_batch(f, shm, o, Batch{b.start, b.step, idx + 1}, 0, ""); if (x.failed) { ++ok; rr = x; } }
            // A wrong value is a wrong value even if the schedule that produced it does not come back
            // (a data race); a crash or an exception of the allocator is only reported when it repeats.
            bool wrong_value = r.checked && r.msg.find("bad_alloc") == std::string::npos;
            if (ok || wrong_value) { write_replay(path, f, o, "batch", ch, ok ? shm->case_idx : idx, b.start, ok ? rr.msg : r.msg + " [seen once, depends on scheduling]", ""); rc = 1; }
            else { fprintf(stderr, "not reproducible, not reported: %s\n", r.msg.c_str()); std::ofstream(cat(o.out, ".", fi, ".flaky")) << f.name << ": " << r.msg << "\n"; }
        }
        if (rc) { break; }
    }
    return rc;
}

}

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    static pbt::Shm* shm = new pbt::Shm();
    auto& fs = pbt::facets();
    if (size < 2) { return 0; }
    pbt::Ctx c; c.shm = shm; shm->nch = 0; shm->notes_len = 0;
    auto& f = fs[(data[0] * 256u + data[1]) % fs.size()];
    c.bytes = data + 2; c.nbytes = size - 2;
    auto m = pbt::run_case(f, c);
    if (!m.empty()) {
        fprintf(stderr, "PBT-FUZZ-FAIL facet=%s choices=", f.name.c_str());
        for (size_t i = 0; i < std::min<size_t>(shm->nch, pbt::MAXCH); ++i) { fprintf(stderr, "%s%u", i ? "," : "", shm->ch[i]); }
        fprintf(stderr, "\nPBT-FUZZ-MSG %s\n", m.c_str());
        __builtin_trap();
    }
    return 0;
}
#else
int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
