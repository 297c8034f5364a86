// Stateless exhaustive explorer for the real code.
//
// A scenario is a deterministic body that calls mc::choose(n) wherever it may go n ways.  The explorer
// runs the body once for every sequence of answers (depth first, odometer order, 0 first), so every
// combination the body can ask for is executed on the real implementation.  Work is split over processes at
// a fixed choice depth.  A crash, an abort, a hang or an uncaught exception of the code under test counts as a
// violation like a failed mc::require().  Every violation is replayed alone in a fresh process before it is
// reported, and written out as a choice list that `--replay` runs again.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace mc {

struct Violation { // not a std::exception: what catches those must not catch this
    std::string msg;
    explicit Violation(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept { return msg.c_str(); }
};
struct SkipPrefix {};

static const int MAXCH = 512;
static const int MAXW = 64;
static const uint64_t TAB = uint64_t(1) << 24;

struct Slot { // one per worker
    std::atomic<uint64_t> exec_start_ms; // 0: idle
    int nch;
    uint32_t ch[MAXCH];
    char msg[2048];
    int violated; // 1: violation recorded in msg/ch
    uint64_t execs, trans, checks;
    int done, capped;
};
struct Shared {
    std::atomic<uint64_t> next_claim;
    std::atomic<int> stop;
    Slot w[MAXW];
    std::atomic<uint64_t> states;
    std::atomic<uint64_t> outcomes;
    std::atomic<uint64_t> tab[TAB];
};
static Shared* g_sh = nullptr;
static Slot* g_slot = nullptr;
static std::vector<uint32_t> g_ch;    // answers of this execution
static std::vector<uint32_t> g_lim;   // number of alternatives at each point
static size_t g_fixed = 0;            // answers to take from g_ch before defaulting to 0
static size_t g_fresh = 0;            // first index whose answer differs from the previous execution
static int g_split = 0;
static uint64_t g_prefix_idx = 0, g_claim = 0;
static bool g_prefix_new = false, g_worker = false, g_own = true;
static bool g_verbose = false;
static FILE* g_log = nullptr;

inline uint64_t now_ms()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return uint64_t(t.tv_sec) * 1000 + t.tv_nsec / 1000000;
}

// this execution may take that much longer before it counts as hung
inline void slow(unsigned secs)
{
    if (g_slot && g_worker) g_slot->exec_start_ms += secs * 1000ull;
    else if (unsigned left = alarm(0)) alarm(left + secs);
}

inline std::string fmt(const char* f, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

// n-way choice; all n answers get explored
inline int choose(int n)
{
    if (n <= 0) throw Violation("harness error: choose(0)");
    size_t i = g_lim.size();
    if (i >= (size_t)MAXCH) throw Violation("harness error: too many choices");
    uint32_t v;
    if (i < g_fixed) {
        v = g_ch[i];
        if (v >= (uint32_t)n) throw Violation("harness error: replay diverged");
    } else {
        v = 0;
        g_ch.resize(i);
        g_ch.push_back(0);
    }
    g_lim.push_back(n);
    if (g_slot) { g_slot->ch[i] = v; g_slot->nch = int(i) + 1; }
    if (g_worker && (int)g_lim.size() == g_split && g_prefix_new) {
        // a new prefix of the split depth: is it ours?
        g_prefix_new = false;
        g_own = g_prefix_idx++ == g_claim;
        if (!g_own) throw SkipPrefix();
    }
    return int(v);
}
inline bool flip() { return choose(2) == 1; }

// a transition of the system under test; counted once per distinct history
inline void step(const char* f = nullptr, ...)
{
    if (g_slot && g_lim.size() >= g_fresh) g_slot->trans++;
    if (g_log && f) {
        va_list ap;
        va_start(ap, f);
        fprintf(g_log, "    ");
        vfprintf(g_log, f, ap);
        fprintf(g_log, "\n");
        fflush(g_log);
        va_end(ap);
    }
}
inline bool verbose() { return g_log != nullptr; }

inline uint64_t mix(uint64_t h)
{
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
    return h;
}
inline bool table_add(uint64_t h)
{
    h = mix(h);
    if (!h) h = 1;
    if (!g_sh) return false;
    for (uint64_t i = h & (TAB - 1), n = 0; n < 4096; i = (i + 1) & (TAB - 1), n++) {
        uint64_t c = g_sh->tab[i].load(std::memory_order_relaxed);
        if (c == h) return false;
        if (c == 0) {
            if (g_sh->tab[i].compare_exchange_strong(c, h)) return true;
            if (c == h) return false;
        }
    }
    return false; // table full: undercounts
}
struct Hasher {
    uint64_t h = 0x9e3779b97f4a7c15ull;
    Hasher& u(uint64_t x) { h = mix(h ^ mix(x + 0x632be59bd9b4e019ull)); return *this; }
    template <class A> Hasher& bytes(const A& a)
    {
        uint64_t x = 0;
        int k = 0;
        for (uint8_t b : a) { x = (x << 8) | b; if (++k == 8) { u(x); x = 0; k = 0; } }
        return u(x + k);
    }
};
// a distinct state of the system (canonical form of what the property can observe)
inline void state(uint64_t h) { if (table_add(h * 2 + 1) && g_sh) g_sh->states++; }
// a distinct observed outcome
inline void outcome(uint64_t h) { if (table_add(h * 2 + 0x5bd1e995) && g_sh) g_sh->outcomes++; }

inline void require(bool c, const char* f, ...)
{
    if (g_slot) g_slot->checks++;
    if (c) return;
    char b[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    throw Violation(b);
}

struct Scenario {
    std::string name;
    std::string what; // bounds, in words
    int split;        // choice depth at which work is divided
    std::function<void()> body;
};

// runs one execution with the first `fixed` answers of g_ch given; returns "" or the violation text
inline std::string run_once(const std::function<void()>& body)
{
    g_lim.clear();
    try {
        body();
    } catch (const SkipPrefix&) {
        return "\x01skip";
    } catch (const Violation& v) {
        return v.msg.empty() ? "violation" : v.msg;
    } catch (const std::exception& e) {
        return std::string("uncaught exception: ") + e.what();
    } catch (...) {
        return "uncaught exception";
    }
    return "";
}

inline bool next_choice()
{
    // odometer over g_ch[0..g_lim.size())
    g_ch.resize(g_lim.size());
    while (!g_ch.empty() && g_ch.back() + 1 >= g_lim[g_ch.size() - 1]) g_ch.pop_back();
    if (g_ch.empty()) return false;
    g_ch.back()++;
    g_fixed = g_ch.size();
    g_fresh = g_ch.size();
    if ((int)g_ch.size() <= g_split) g_prefix_new = true;
    return true;
}

inline void quiet_io()
{
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    dup2(n, 2);
}

inline void worker(int id, const Scenario& s, uint64_t deadline_ms, size_t mem)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    quiet_io();
    rlimit nocore{0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    if (mem) { rlimit rl{mem, RLIM_INFINITY}; setrlimit(RLIMIT_AS, &rl); }
    g_slot = &g_sh->w[id];
    g_worker = true;
    g_split = s.split;
    g_ch.clear(); g_lim.clear();
    g_fixed = 0; g_fresh = 0;
    g_prefix_idx = 0;
    g_claim = g_sh->next_claim++;
    g_prefix_new = true;
    g_own = false;
    while (true) {
        if (g_sh->stop.load(std::memory_order_relaxed)) break;
        g_slot->nch = 0;
        g_slot->exec_start_ms = now_ms();
        std::string r = run_once(s.body);
        g_slot->exec_start_ms = 0;
        bool skipped = r == "\x01skip";
        if (!skipped && (int)g_lim.size() < g_split && g_prefix_new) {
            // the execution ended above the split depth: it is a prefix of its own
            g_own = g_prefix_idx++ == g_claim;
            g_prefix_new = false;
        }
        if (!skipped && g_own) g_slot->execs++;
        if (!skipped && !r.empty()) {
            snprintf(g_slot->msg, sizeof g_slot->msg, "%s", r.c_str());
            g_slot->violated = 1;
            break;
        }
        bool was_own = g_own;
        if (!next_choice()) break;
        if (g_prefix_new && was_own) { g_claim = g_sh->next_claim++; g_own = false; }
        if (deadline_ms && now_ms() > deadline_ms) { g_slot->capped = 1; break; }
    }
    g_slot->done = 1;
    fflush(nullptr);
    _exit(0);
}

struct Result {
    bool violated = false, capped = false;
    std::string msg, log;
    std::vector<uint32_t> ch;
    uint64_t execs = 0, trans = 0, checks = 0, states = 0, outcomes = 0;
    double secs = 0;
    std::vector<std::string> samples;
};

inline std::string sig_text(int st)
{
    if (WIFSIGNALED(st)) return fmt("process killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    return fmt("process exited with status %d", WEXITSTATUS(st));
}

// replay one choice list in a child; returns violation text ("" if it passes); fills log
inline std::string replay(const Scenario& s, const std::vector<uint32_t>& ch, std::string& log, unsigned limit_s, size_t mem)
{
    char path[] = "/tmp/mc-replay-XXXXXX";
    int fd = mkstemp(path);
    int pfd[2];
    if (pipe(pfd)) abort();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(pfd[0]);
        g_log = fdopen(fd, "w");
        int er = open("/dev/null", O_WRONLY);
        dup2(er, 1);
        dup2(fileno(g_log), 2);
        rlimit nocore{0, 0};
        setrlimit(RLIMIT_CORE, &nocore);
        if (mem) { rlimit rl{mem, RLIM_INFINITY}; setrlimit(RLIMIT_AS, &rl); }
        g_slot = nullptr;
        g_worker = false;
        g_ch = ch;
        g_fixed = ch.size();
        alarm(limit_s);
        signal(SIGALRM, SIG_DFL);
        std::string r = run_once(s.body);
        fflush(nullptr);
        ssize_t k = write(pfd[1], r.data(), r.size());
        (void)k;
        _exit(0);
    }
    close(pfd[1]);
    std::string r;
    char b[4096];
    ssize_t k;
    while ((k = read(pfd[0], b, sizeof b)) > 0) r.append(b, k);
    close(pfd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) r = fmt("hang: no result after %u s", limit_s);
        else r = sig_text(st);
    }
    log.clear();
    FILE* f = fopen(path, "r");
    if (f) {
        while ((k = fread(b, 1, sizeof b, f)) > 0) log.append(b, k);
        fclose(f);
    }
    close(fd);
    unlink(path);
    if (log.size() > 20000) log.resize(20000);
    return r;
}

inline Result explore(const Scenario& s, int nworkers, double cap_s, size_t mem = 0, unsigned hang_s = 10)
{
    Result R;
    if (!g_sh) {
        g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (g_sh == MAP_FAILED) { perror("mmap"); exit(3); }
    }
    madvise(g_sh, sizeof(Shared), MADV_REMOVE); // zero it
    g_sh->next_claim = 0; g_sh->stop = 0; g_sh->states = 0; g_sh->outcomes = 0;
    uint64_t t0 = now_ms();
    uint64_t deadline = cap_s > 0 ? t0 + uint64_t(cap_s * 1000) : 0;
    std::vector<pid_t> pids(nworkers);
    fflush(nullptr);
    for (int i = 0; i < nworkers; i++) {
        pid_t p = fork();
        if (p == 0) worker(i, s, deadline, mem);
        pids[i] = p;
    }
    int live = nworkers;
    int bad = -1;
    std::string why;
    bool hang = false;
    while (live > 0) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (int i = 0; i < nworkers; i++)
                if (pids[i] == p) {
                    pids[i] = 0;
                    live--;
                    bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0 && g_sh->w[i].done;
                    if (!clean && bad < 0 && !hang) { bad = i; why = sig_text(st); }
                    if (clean && g_sh->w[i].violated && bad < 0) { bad = i; why = g_sh->w[i].msg; }
                    if (bad >= 0) g_sh->stop = 1;
                }
            continue;
        }
        uint64_t t = now_ms();
        for (int i = 0; i < nworkers; i++) {
            uint64_t e = g_sh->w[i].exec_start_ms;
            if (pids[i] && e && t > e && t - e > hang_s * 1000ull) {
                if (bad < 0) { bad = i; why = "hang"; hang = true; }
                g_sh->stop = 1;
                kill(pids[i], SIGKILL);
            }
        }
        usleep(2000);
    }
    for (int i = 0; i < nworkers; i++) {
        R.execs += g_sh->w[i].execs;
        R.trans += g_sh->w[i].trans;
        R.checks += g_sh->w[i].checks;
        R.capped |= g_sh->w[i].capped;
    }
    R.states = g_sh->states;
    R.outcomes = g_sh->outcomes;
    if (bad >= 0) {
        Slot& b = g_sh->w[bad];
        std::vector<uint32_t> ch(b.ch, b.ch + b.nch);
        std::string log, log2;
        std::string r1 = replay(s, ch, log, hang ? hang_s * 6 : 120, mem);
        bool transient = hang || why.find("signal 9") != std::string::npos;
        if (r1.empty() && transient) {
            // a slow machine, not a property violation: the schedule passes when run alone
            fprintf(stderr, "note: scenario %s: '%s' did not reproduce when replayed alone; exploration incomplete\n", s.name.c_str(), why.c_str());
            R.capped = true;
        } else {
            R.violated = true;
            R.ch = ch;
            R.msg = r1.empty() ? why + " (not reproduced when replayed alone)" : r1;
            R.log = log;
        }
    }
    R.secs = (now_ms() - t0) / 1000.0;
    // one written-out sample: the last execution of a worker
    if (!R.violated)
        for (int i = 0; i < nworkers && R.samples.size() < 2; i++) {
            Slot& b = g_sh->w[i];
            if (!b.execs || b.nch == 0) continue;
            std::vector<uint32_t> ch(b.ch, b.ch + b.nch);
            std::string log;
            replay(s, ch, log, 120, mem);
            if (log.size() > 600) log = log.substr(0, 600) + "...";
            std::string c;
            for (auto v : ch) c += (c.empty() ? "" : ",") + std::to_string(v);
            R.samples.push_back(s.name + " [" + c + "]\n" + log);
        }
    return R;
}

inline std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c > 0x7e) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}

// main for a check binary
//   BIN run OUT.json [--workers N] [--cap SECONDS] [--mem BYTES]     explore all scenarios
//   BIN replay SCENARIO c,c,c,...                    replay one choice list verbosely
inline int main_loop(int argc, char** argv, const std::map<std::string, std::function<std::vector<Scenario>()>>& props)
{
    int workers = int(sysconf(_SC_NPROCESSORS_ONLN));
    if (workers > 16) workers = 16;
    double cap = 0;
    size_t mem = 0;
    std::string only;
    std::string prop;
    for (int i = 3; i + 1 < argc; i++) {
        if (!strcmp(argv[i], "--prop")) prop = argv[++i];
        else
        if (!strcmp(argv[i], "--workers")) workers = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--cap")) cap = atof(argv[++i]);
        else if (!strcmp(argv[i], "--mem")) mem = strtoull(argv[++i], nullptr, 10);
        else if (!strcmp(argv[i], "--only")) only = argv[++i];
    }
    if (!props.count(prop)) { fprintf(stderr, "--prop ID missing or unknown\n"); return 2; }
    const std::vector<Scenario> sc = props.at(prop)();
    if (argc >= 4 && !strcmp(argv[1], "replay")) {
        for (auto& s : sc)
            if (s.name == argv[2]) {
                std::vector<uint32_t> ch;
                for (char* p = strtok(argv[3], ","); p; p = strtok(nullptr, ",")) ch.push_back(strtoul(p, nullptr, 10));
                std::string log;
                std::string r = replay(s, ch, log, 120, mem);
                printf("scenario %s (%s)\n%s", s.name.c_str(), s.what.c_str(), log.c_str());
                if (r.empty()) { printf("PASSES\n"); return 0; }
                printf("VIOLATES: %s\n", r.c_str());
                return 1;
            }
        fprintf(stderr, "no such scenario\n");
        return 2;
    }
    if (argc < 3 || strcmp(argv[1], "run")) { fprintf(stderr, "usage: run OUT.json | replay SCENARIO CHOICES\n"); return 2; }
    uint64_t t0 = now_ms();
    std::string js = "{\"scenarios\": [\n";
    bool bad = false, first = true;
    for (auto& s : sc) {
        if (!only.empty() && s.name.find(only) == std::string::npos) continue;
        double left = cap > 0 ? cap - (now_ms() - t0) / 1000.0 : 0;
        if (cap > 0 && left < 1) left = 1;
        Result r = explore(s, workers, left, mem);
        printf("  %-28s execs=%llu transitions=%llu states=%llu outcomes=%llu checks=%llu %.1fs%s%s\n", s.name.c_str(),
               (unsigned long long)r.execs, (unsigned long long)r.trans, (unsigned long long)r.states, (unsigned long long)r.outcomes,
               (unsigned long long)r.checks, r.secs, r.capped ? " CAPPED" : "", r.violated ? " VIOLATED" : "");
        fflush(stdout);
        std::string chs;
        for (auto v : r.ch) chs += (chs.empty() ? "" : ",") + std::to_string(v);
        js += first ? "" : ",\n";
        first = false;
        js += fmt("{\"name\": %s, \"what\": %s, \"execs\": %llu, \"transitions\": %llu, \"states\": %llu, \"outcomes\": %llu, \"checks\": %llu, \"secs\": %.2f, \"capped\": %s, \"violated\": %s",
                  json_str(s.name).c_str(), json_str(s.what).c_str(), (unsigned long long)r.execs, (unsigned long long)r.trans, (unsigned long long)r.states,
                  (unsigned long long)r.outcomes, (unsigned long long)r.checks, r.secs, r.capped ? "true" : "false", r.violated ? "true" : "false");
        js += ", \"samples\": [";
        for (size_t i = 0; i < r.samples.size(); i++) js += (i ? ", " : "") + json_str(r.samples[i]);
        js += "]";
        if (r.violated) {
            js += ", \"msg\": " + json_str(r.msg) + ", \"choices\": \"" + chs + "\", \"log\": " + json_str(r.log);
            printf("  VIOLATED in %s: %s\n    choices %s\n%s\n", s.name.c_str(), r.msg.c_str(), chs.c_str(), r.log.c_str());
        }
        js += "}";
        if (r.violated) { bad = true; break; }
    }
    js += "\n]}\n";
    FILE* f = fopen(argv[2], "w");
    if (!f) { perror(argv[2]); return 2; }
    fwrite(js.data(), 1, js.size(), f);
    fclose(f);
    return bad ? 1 : 0;
}

} // namespace mc
