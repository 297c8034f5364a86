// The forest on disk: C04 close/reopen, C05 commit durability, write faults and damaged files.
#include "forest_world.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace sys;
typedef std::vector<mc::Scenario> Scn;

// ---- fault injector on the file descriptors of our own scratch file ------------------------------------
static bool g_arm = false;     // count and fault writes to regular files
static int g_countdown = -1;   // fault the write call with this index (0 based); -1: none
static int g_kind = 0;         // 0: ENOSPC once, 1: half of the bytes once (short write), 2: EIO from then on
static int g_calls = 0;
static bool g_hit = false;

static ssize_t fault(int fd, size_t want, bool& shorten)
{
    shorten = false;
    if (!g_arm) return 0;
    struct stat st;
    if (fstat(fd, &st) || !S_ISREG(st.st_mode)) return 0;
    int k = g_calls++;
    if (g_countdown < 0) return 0;
    if (g_kind == 2 ? k < g_countdown : k != g_countdown) return 0;
    if (g_kind == 1) {
        if (want < 2) return 0;
        g_hit = true;
        shorten = true;
        return 0;
    }
    g_hit = true;
    errno = g_kind == 0 ? ENOSPC : EIO;
    return -1;
}
// content of the watched file after every write to any regular file
static std::string g_watch;
static std::vector<std::string> g_seen;
static std::string slurp(const std::string& p);
static void seen(int fd)
{
    struct stat st;
    if (g_watch.empty() || fstat(fd, &st) || !S_ISREG(st.st_mode)) return;
    std::string w;
    w.swap(g_watch);
    if (g_seen.size() < 50) g_seen.push_back(slurp(w));
    g_watch.swap(w);
}
extern "C" ssize_t write(int fd, const void* b, size_t n)
{
    static auto real = (ssize_t(*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
    bool sh;
    if (fault(fd, n, sh) < 0) return -1;
    ssize_t r = real(fd, b, sh ? n / 2 : n);
    seen(fd);
    return r;
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c)
{
    static auto real = (ssize_t(*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "writev");
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    bool sh;
    if (fault(fd, n, sh) < 0) return -1;
    if (!sh) {
        ssize_t r = real(fd, v, c);
        seen(fd);
        return r;
    }
    struct iovec one = v[0];
    if (one.iov_len > n / 2) one.iov_len = n / 2;
    return real(fd, &one, 1);
}

// ---- scratch files ----------------------------------------------------------------------------------------
static std::string scratch(const char* name)
{
    static std::string dir;
    static pid_t owner = 0;
    if (owner != getpid()) {
        const char* d = getenv("MC_SCRATCH");
        if (!d) { fprintf(stderr, "MC_SCRATCH not set\n"); _exit(3); }
        dir = std::string(d) + "/" + std::to_string(getpid());
        mkdir(dir.c_str(), 0700);
        owner = getpid();
    }
    return dir + "/" + name;
}
static std::string slurp(const std::string& p)
{
    std::string s;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) return "\x01none";
    char b[65536];
    size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
    fclose(f);
    return s;
}
static void spit(const std::string& p, const std::string& s)
{
    FILE* f = fopen(p.c_str(), "wb");
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}
static void reset_io()
{
    g_arm = false;
    g_countdown = -1;
    g_calls = 0;
    g_hit = false;
    g_watch.clear();
}

// ------------------------------------------------------------------------------------------- C04
static void reopen(FW& w, const std::string& path, const char* when)
{
    step("close and reopen");
    w.f.reset();
    w.f.reset(new RamForest(path));
    w.check_all(when);
}
static Scn c04()
{
    Scn S;
    const int N1 = B(10, 12, 6);
    S.push_back({"one-block", mc::fmt("n<=%d, block (every subset, 0..2 additions), close/reopen before and/or after, then undo, then reopen", N1), 3, [=] {
        reset_io();
        std::string p = scratch("forest");
        unlink(p.c_str());
        FW w(p, choose(2) ? FAM_ZERO : FAM_SPREAD);
        w.block({}, choose(N1 + 1), "fill");
        if (w.fam != FAM_SPREAD && w.r.n() > 4) return;
        bool first = flip();
        int a = choose(3);
        V64 d = choose_subset(w.r.n());
        if (first) reopen(w, p, "reopened after fill");
        w.block(d, a, "block");
        reopen(w, p, "reopened after block");
        w.undo_last(choose(2), "undo");
        w.check_all("after undo in the reopened forest");
        reopen(w, p, "reopened after undo");
    }});
    const int N6 = B(5, 6, 4);
    S.push_back({"returning", mc::fmt("n<=%d, a block (every subset) that adds leaves which were in the forest before in 5 arrangements, reopened, undone, optionally reopened, the same block again, reopened", N6), 3, [=] {
        reset_io();
        std::string p = scratch("forest");
        unlink(p.c_str());
        FW w(p, FAM_SPREAD);
        w.block({}, choose(N6 + 1), "fill");
        V64 d = choose_subset(w.r.n());
        auto l = w.returning(d);
        w.block(d, l, "block");
        reopen(w, p, "reopened after block");
        w.undo_last(1, "undo");
        w.check_all("after undo in the reopened forest");
        if (flip()) reopen(w, p, "reopened after undo");
        w.block(d, l, "the same block again");
        w.check_all("after the same block");
        reopen(w, p, "reopened after the same block");
    }});
    const int D = B(6, 7, 4);
    S.push_back({"walk", mc::fmt("every sequence of %d steps out of: 5 block shapes, undo, commit, close/reopen; ends with close/reopen twice", D), 4, [=] {
        reset_io();
        std::string p = scratch("forest");
        unlink(p.c_str());
        FW w(p, FAM_SPREAD);
        for (int i = 0; i < D; i++) {
            uint64_t n = w.r.n();
            switch (choose(8)) {
            case 0: w.block({}, 1, "add 1"); break;
            case 1: w.block({}, 4, "add 4"); break;
            case 2: reopen(w, p, "reopened"); break;
            case 3: if (n < 1) return; w.block({0}, 0, "delete first"); break;
            case 4: if (n < 3) return; w.block({1, n - 1}, 2, "replace two"); break;
            case 5: {
                if (n < 2) return;
                V64 d;
                for (uint64_t k = 0; k + 1 < n; k++) d.push_back(k);
                w.block(d, 0, "delete all but the last");
                break;
            }
            case 6: if (w.undo.empty()) return; w.undo_last(1, "undo"); break;
            case 7: step("commit"); require(w.f->Commit(), "commit fails"); break;
            }
            w.check("after step");
        }
        reopen(w, p, "reopened");
        reopen(w, p, "reopened again");
        while (!w.undo.empty()) w.undo_last(0, "undo");
        w.check_all("after undoing everything");
        reopen(w, p, "reopened empty");
    }});
    const int NL = B(40, 130, 20);
    S.push_back({"sizes", mc::fmt("every n<=%d, then shrunk to every m<=n (leading leaves deleted), reopened, grown again by 0..3, reopened, undone", NL), 3, [=] {
        reset_io();
        std::string p = scratch("forest");
        unlink(p.c_str());
        FW w(p, FAM_SPREAD);
        int n = choose(NL + 1);
        w.block({}, n, "fill");
        int m = choose(n + 1);
        V64 d;
        for (int i = 0; i < n - m; i++) d.push_back(i);
        require(w.f->Commit(), "commit fails");
        w.block(d, 0, "shrink");
        reopen(w, p, "reopened after shrinking");
        w.block({}, choose(4), "grow");
        reopen(w, p, "reopened after growing");
        w.undo_last(0, "undo growing");
        w.undo_last(0, "undo shrinking");
        reopen(w, p, "reopened after undo");
    }});
    const int NW = B(14, 14, 4);
    S.push_back({"wide", mc::fmt("%d sizes from 127 to 1280: reopened, one of 16 large deletion sets and 0, 1, 130 or 300 additions, reopened, undone, reopened", NW), 3, [=] {
        reset_io();
        uint64_t n = choose_wide_n(NW);
        V64 d = choose_wide(n);
        static const int A[] = {0, 1, 130, 300};
        int add = A[choose(4)];
        std::string p = scratch("forest");
        unlink(p.c_str());
        FW w(p, FAM_SPREAD);
        auto again = [&](const char* when) {
            step("close and reopen");
            w.f.reset();
            w.f.reset(new RamForest(p));
            w.check(when);
            VH lv = w.r.leaves();
            V64 o;
            for (uint64_t i = lv.size(); i-- > 0;)
                if (i % 3) o.push_back(i);
            if (!lv.empty()) check_proof(*w.f, w.r, lv, o, when);
        };
        w.block({}, int(n), "fill");
        again("reopened after fill");
        w.block(d, add, "block");
        again("reopened after block");
        w.undo_last(1, "undo");
        w.check("after undo in the reopened forest");
        again("reopened after undo");
    }});
#ifndef __SANITIZE_ADDRESS__
    const int NX = B(2, 4, 1), DX = B(4, 9, 4);
    S.push_back({"bulk", mc::fmt("%d sizes of about 65836 to 327680 leaves: %d deletion sets from one leaf to all, 0 or 65537 additions, reopened after every step, undone, reopened", NX, DX), 3, [=] {
        reset_io();
        uint64_t n = choose_bulk_n(NX);
        V64 d = choose_bulk(n, DX);
        int add = flip() ? 65537 : 0;
        mc::slow(60);
        std::string p = scratch("forest");
        unlink(p.c_str());
        FW w(p, FAM_SPREAD);
        auto again = [&](const char* when) {
            step("close and reopen");
            w.f.reset();
            w.f.reset(new RamForest(p));
            w.check(when);
        };
        w.block({}, int(n), "fill");
        again("reopened after fill");
        w.block(d, add, "block");
        again("reopened after block");
        w.undo_last(0, "undo");
        again("reopened after undo");
        unlink(p.c_str());
    }});
#endif
    S.push_back({"twins", "two forests in two files driven in turn by every sequence of 5 steps (add, delete, reopen on either); compared with each other", 4, [=] {
        reset_io();
        std::string p = scratch("forest"), q = scratch("other");
        unlink(p.c_str());
        unlink(q.c_str());
        FW a(p, FAM_SPREAD), b(q, FAM_SPREAD);
        for (int i = 0; i < 5; i++) {
            bool second = flip();
            FW& w = second ? b : a;
            switch (choose(3)) {
            case 0: w.block({}, 2, "add 2"); break;
            case 1: if (!w.r.n()) return; w.block({w.r.n() - 1}, 0, "delete last"); break;
            case 2: reopen(w, second ? q : p, "reopened"); break;
            }
        }
        a.check_all("first");
        b.check_all("second");
        require((*a.f == *b.f) == (a.r.leaves() == b.r.leaves()), "comparison of the two forests is wrong");
    }});
    return S;
}

// ------------------------------------------------------------------------------------------- C05
// what a process that opens the file now would see
static void must_recover(const std::string& path, const ref::Forest& want, const char* when)
{
    std::string copy = scratch("copy");
    spit(copy, slurp(path));
    RamForest f(copy);
    check_forest(f, want, when);
    VH lv = want.leaves();
    for (uint64_t i = 0; i < lv.size(); i++) check_proof(f, want, lv, {i}, when);
}
// shape of a history: five kinds of steps
static bool some_step(FW& w)
{
    uint64_t n = w.r.n();
    switch (choose(5)) {
    case 0: w.block({}, 1, "add 1"); return true;
    case 1: w.block({}, 5, "add 5"); return true;
    case 2: if (!n) return false; w.block({n / 2}, 0, "delete one"); return true;
    case 3: if (n < 4) return false; w.block({0, 1, n - 1}, 1, "delete three"); return true;
    case 4: if (w.undo.empty()) return false; w.undo_last(0, "undo"); return true;
    }
    return false;
}
static Scn c05()
{
    Scn S;
    const int D = B(5, 6, 4);
    S.push_back({"kill", mc::fmt("every history of %d steps (4 block shapes, undo), a commit or not after each; the process is killed after any step: the file holds the last committed state", D), 4, [=] {
        reset_io();
        std::string p = scratch("forest");
        unlink(p.c_str());
        FW w(p, FAM_SPREAD);
        ref::Forest committed;
        must_recover(p, committed, "killed right after creation");
        for (int i = 0; i < D; i++) {
            // a write in the middle of an operation is a moment to die, too
            g_seen.clear();
            g_watch = p;
            bool did = some_step(w);
            g_watch.clear();
            if (!did) return;
            for (auto& c : g_seen) {
                std::string q = scratch("midway");
                spit(q, c);
                must_recover(q, committed, "killed in the middle of this step");
            }
            if (flip()) {
                step("commit");
                require(w.f->Commit(), "commit fails on a healthy disk");
                committed = w.r;
            }
            must_recover(p, committed, "killed after this step");
        }
        w.check_all("in memory");
    }});
    const int NW = B(14, 14, 4);
    S.push_back({"kill-wide", mc::fmt("%d sizes from 127 to 1280: commit, one of 16 large deletion sets with 0, 1, 130 or 300 additions, killed (also in the middle of its writes, if any); commit again, undo, killed; commit, killed", NW), 3, [=] {
        reset_io();
        uint64_t n = choose_wide_n(NW);
        V64 d = choose_wide(n);
        static const int A[] = {0, 1, 130, 300};
        int add = A[choose(4)];
        std::string p = scratch("forest");
        unlink(p.c_str());
        FW w(p, FAM_SPREAD);
        ref::Forest committed;
        auto during = [&](const std::function<void()>& op, const char* when) {
            g_seen.clear();
            g_watch = p;
            op();
            g_watch.clear();
            for (auto& c : g_seen) {
                std::string q = scratch("midway");
                spit(q, c);
                must_recover(q, committed, "killed in the middle");
            }
            must_recover(p, committed, when);
        };
        auto commit = [&]() {
            step("commit");
            require(w.f->Commit(), "commit fails on a healthy disk");
            committed = w.r;
        };
        during([&] { w.block({}, int(n), "fill"); }, "killed after the fill");
        commit();
        must_recover(p, committed, "killed after the first commit");
        during([&] { w.block(d, add, "block"); }, "killed after the block");
        commit();
        must_recover(p, committed, "killed after the second commit");
        during([&] { w.undo_last(1, "undo"); }, "killed after the undo");
        commit();
        must_recover(p, committed, "killed after the third commit");
    }});
    const int NF = B(40, 120, 20);
    S.push_back({"write-fault", mc::fmt("a forest of n<=%d leaves or of one of 9 sizes up to 600 (old file of m<=4 leaves or of 2n), commit with each of its write calls failing (no space), cut short, or failing from there on; success is only reported if the file holds the state", NF), 3, [=] {
        reset_io();
        std::string p = scratch("forest");
        unlink(p.c_str());
        FW w(p, FAM_SPREAD);
        static const int big[] = {127, 128, 129, 200, 255, 256, 300, 511, 600};
        int k = choose(NF + 1 + 9);
        int n = k <= NF ? k : big[k - NF - 1];
        int old = choose(3);
        w.block({}, old == 0 ? 0 : old == 1 ? 4 : 2 * n + 3, "old content");
        require(w.f->Commit(), "commit of the old content fails");
        if (old == 2) {
            V64 d;
            for (uint64_t i = 0; i < w.r.n() - n; i++) d.push_back(i);
            w.block(d, 0, "shrink");
        } else w.block({}, n, "fill");
        // how many write calls does a commit take here? at most 1 per KiB plus a few
        g_kind = choose(3);
        g_countdown = choose(10);
        g_calls = 0;
        g_hit = false;
        g_arm = true;
        step("commit, write call %d %s", g_countdown, g_kind == 0 ? "fails (ENOSPC)" : g_kind == 1 ? "is short" : "and later ones fail (EIO)");
        bool ok = w.f->Commit();
        g_arm = false;
        if (ok) must_recover(p, w.r, "commit reported success");
        else require(g_hit, "commit fails on a healthy disk");
        w.check("in memory after the commit");
        mc::outcome(mc::Hasher().u(ok).u(g_hit).u(g_calls).h);
        // the write works again: another commit must be honest, too
        g_countdown = -1;
        ok = w.f->Commit();
        if (ok) must_recover(p, w.r, "second commit reported success");
        // no fault may come from the destructor either
        w.f.reset();
        mc::state(mc::Hasher().u(n).u(old).u(g_kind).u(g_calls).h);
    }});
    S.push_back({"no-file", "a forest whose file cannot be created (missing directory): no commit reports success, the forest works in memory", 2, [=] {
        reset_io();
        FW w(scratch("missing-directory") + "/forest", FAM_SPREAD);
        for (int i = 0; i < 3; i++) {
            if (!some_step(w)) return;
            w.check_all("in memory");
            require(!w.f->Commit(), "commit reports success without a file");
        }
    }});
    const int NT = B(12, 20, 6);
    S.push_back({"truncated", mc::fmt("the file of every n<=%d (also with leftovers of a larger forest behind it), cut to every length: opening it either yields exactly the saved forest or fails, and a failure leaves the file alone", NT), 3, [=] {
        reset_io();
        std::string p = scratch("forest");
        unlink(p.c_str());
        ref::Forest saved;
        {
            FW w(p, FAM_SPREAD);
            int n = choose(NT + 1);
            bool left = flip();
            w.block({}, left ? n + 3 : n, "fill");
            if (left) {
                require(w.f->Commit(), "commit fails");
                w.block({0, 1, 2}, 0, "shrink");
            }
            saved = w.r;
        }
        std::string all = slurp(p);
        size_t len = choose(unsigned(all.size() + 1));
        std::string cut = all.substr(0, len);
        std::string q = scratch("copy");
        spit(q, cut);
        step("open the file cut from %zu to %zu bytes", all.size(), len);
        bool opened = false;
        try {
            RamForest f(q);
            opened = true;
            if (len == 0) { // an empty file may also be taken as a new, empty forest
                require(f.NumLeaves() == 0 && roots_of(f).empty(), "an empty file gives a forest of %llu leaves", (unsigned long long)f.NumLeaves());
            } else {
                check_forest(f, saved, "opened");
            }
        } catch (const std::exception& e) {
            require(slurp(q) == cut, "the file was changed though it could not be opened");
            require(len < all.size(), "the complete file is refused");
        }
        mc::outcome(mc::Hasher().u(opened).h);
    }});
    S.push_back({"header", "the leaf count in the file of n<=6 leaves raised to every larger value below 40 and to every power of two: opening it fails or terminates with a forest of exactly that many leaves backed by file content", 3, [=] {
        reset_io();
        std::string p = scratch("forest");
        unlink(p.c_str());
        int n = choose(7);
        {
            FW w(p, FAM_SPREAD);
            w.block({}, n, "fill");
        }
        std::string all = slurp(p);
        int k = choose(40 + 64);
        uint64_t c = k < 40 ? uint64_t(k) : 1ull << (k - 40);
        if (c <= (uint64_t)n) return;
        require(all.size() >= 8, "file too short");
        // only meaningful if the count is where a big-endian count would be; otherwise there is nothing to damage
        uint64_t is = 0;
        for (int i = 0; i < 8; i++) is = is << 8 | uint8_t(all[i]);
        if (is != (uint64_t)n) return;
        for (int i = 0; i < 8; i++) all[i] = char(c >> (56 - 8 * i));
        spit(p, all);
        step("open with leaf count %llu instead of %d", (unsigned long long)c, n);
        bool opened = false;
        try {
            RamForest f(p);
            opened = true;
        } catch (const std::exception&) {
        }
        require(!opened, "a file of %d leaves that claims %llu was opened", n, (unsigned long long)c);
    }});
    return S;
}

int main(int argc, char** argv)
{
    return mc::main_loop(argc, argv, {{"C04", c04}, {"C05", c05}});
}
