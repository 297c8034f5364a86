// C20: schedules of two threads.  Each thread uses its own instances, or both only read the same one.
//
// The library is compiled with the compiler's memory-access instrumentation (-fsanitize=thread) but linked
// with the callbacks below instead of the sanitizer's runtime.  They are the controlled scheduler: thread A stops
// just before its k-th instrumented memory access, thread B runs (to its end, or to its j-th access), then A
// finishes, then B.  Every operation pair and every k is executed on the real code; the results must be the ones the
// operations give alone.  The recorded access sets give the dependency relation: where no access of A conflicts with
// one of B, all their interleavings are equivalent to one that was run; where there are conflicts, every (k, j) on
// conflicting accesses is run as well.
//
// Every run starts alike: new memory at the same addresses, and the library's writable data, thread-local data
// included, as it was when the process began.  In "cold" runs that data is put back once more after the
// instances were made, so that the two operations are the first ones: what the library initialises on first use is
// initialised by them.
#include "forest_world.h"
#include "src/crypto/sha512.h"
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sstream>
#include <sys/syscall.h>
using namespace sys;
typedef unsigned long long ull;

#define NOI __attribute__((no_sanitize("thread")))

// ------------------------------------------------------------------------------------------- memory of a run
// Everything allocated while a world is set up or an operation runs comes from that context's arena and is
// never reused, so that addresses identify objects.
static const size_t ARENA = size_t(1) << 26;
static char* g_arena[3];
static size_t g_used[3];
static __thread int t_ctx = -1; // -1: harness, 0: set-up, 1: thread A, 2: thread B
static bool in_arena(const void* p)
{
    return g_arena[0] && p >= g_arena[0] && p < g_arena[0] + 3 * ARENA;
}
static void arenas_reset()
{
    if (!g_arena[0]) {
        char* p = (char*)mmap(nullptr, 3 * ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) abort();
        for (int i = 0; i < 3; i++) g_arena[i] = p + i * ARENA;
    }
    for (int i = 0; i < 3; i++) g_used[i] = 0;
}
static void* arena_alloc(size_t n)
{
    n = (n + 15) & ~size_t(15);
    int c = t_ctx;
    if (g_used[c] + n > ARENA) throw std::bad_alloc();
    void* p = g_arena[c] + g_used[c];
    g_used[c] += n;
    return p;
}
void* operator new(size_t n)
{
    if (t_ctx >= 0) return arena_alloc(n);
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (!in_arena(p)) free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------------------------------------------- the scheduler
struct Access { uintptr_t a; uint32_t n; bool w; };
struct Thread {
    int id;
    pthread_t th;
    pid_t tid;
    char* stack;
    sem_t go;
    sem_t done; // finished or reached its stop
    std::function<std::string()> op;
    std::string result;
    bool finished;
    // points
    uint64_t count, stop_at; // stop before access number stop_at (0: never)
    bool conflict_only;      // count only accesses to conflicting addresses
    uintptr_t stack_lo, stack_hi;
};
static Thread g_t[3]; // A, B and the one that sets the instances up
static pid_t g_threads_pid = 0;
static __thread Thread* t_me = nullptr;
static __thread bool t_armed = false;
static bool g_record = false;
static Access* g_rec[2]; // recorded accesses; raw memory, used inside the callbacks
static size_t g_nrec[2];
static const size_t MAXREC = size_t(1) << 21;
static uintptr_t* g_conf = nullptr; // sorted conflicting bytes
static size_t g_nconf = 0;
static std::atomic<bool> g_blocked_once{false};

static bool conflicting(uintptr_t a, uint32_t n)
{
    size_t lo = 0, hi = g_nconf;
    while (lo < hi) {
        size_t m = (lo + hi) / 2;
        if (g_conf[m] < a) lo = m + 1;
        else hi = m;
    }
    return lo < g_nconf && g_conf[lo] < a + n;
}
static void access_(uintptr_t a, uint32_t n, bool w)
{
    if (!t_armed) return;
    Thread& me = *t_me;
    if (a >= me.stack_lo && a < me.stack_hi) return;
    t_armed = false;
    if (g_record) {
        size_t& k = g_nrec[me.id];
        if (k < MAXREC) g_rec[me.id][k++] = {a, n, w};
    }
    if (!me.conflict_only || conflicting(a, n)) {
        if (++me.count == me.stop_at) {
            sem_post(&me.done);
            sem_wait(&me.go);
        }
    }
    t_armed = true;
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                              \
    void __tsan_read##n(void* p) { access_((uintptr_t)p, n, false); }                      \
    void __tsan_write##n(void* p) { access_((uintptr_t)p, n, true); }                      \
    void __tsan_unaligned_read##n(void* p) { access_((uintptr_t)p, n, false); }            \
    void __tsan_unaligned_write##n(void* p) { access_((uintptr_t)p, n, true); }            \
    void __tsan_volatile_read##n(void* p) { access_((uintptr_t)p, n, false); }             \
    void __tsan_volatile_write##n(void* p) { access_((uintptr_t)p, n, true); }             \
    void __tsan_unaligned_volatile_read##n(void* p) { access_((uintptr_t)p, n, false); }   \
    void __tsan_unaligned_volatile_write##n(void* p) { access_((uintptr_t)p, n, true); }   \
    void __tsan_read_write##n(void* p) { access_((uintptr_t)p, n, true); }                 \
    void __tsan_unaligned_read_write##n(void* p) { access_((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access_((uintptr_t)p, uint32_t(n), false); }
void __tsan_write_range(void* p, unsigned long n) { access_((uintptr_t)p, uint32_t(n), true); }
void __tsan_vptr_read(void** p) { access_((uintptr_t)p, 8, false); }
void __tsan_vptr_update(void** p, void*) { access_((uintptr_t)p, 8, true); }
#define AT(b, T)                                                                                                                      \
    T __tsan_atomic##b##_load(const volatile T* p, int) { access_((uintptr_t)p, sizeof(T), false); return __atomic_load_n(p, 5); }     \
    void __tsan_atomic##b##_store(volatile T* p, T v, int) { access_((uintptr_t)p, sizeof(T), true); __atomic_store_n(p, v, 5); }      \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { access_((uintptr_t)p, sizeof(T), true); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { access_((uintptr_t)p, sizeof(T), true); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { access_((uintptr_t)p, sizeof(T), true); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { access_((uintptr_t)p, sizeof(T), true); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { access_((uintptr_t)p, sizeof(T), true); return __atomic_fetch_or(p, v, 5); }   \
    T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { access_((uintptr_t)p, sizeof(T), true); return __atomic_fetch_xor(p, v, 5); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access_((uintptr_t)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { access_((uintptr_t)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }   \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { access_((uintptr_t)p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}
// copies through libc are accesses as well (only the library's own calls get here: --wrap)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    access_((uintptr_t)s, uint32_t(n), false);
    access_((uintptr_t)d, uint32_t(n), true);
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    access_((uintptr_t)s, uint32_t(n), false);
    access_((uintptr_t)d, uint32_t(n), true);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    access_((uintptr_t)d, uint32_t(n), true);
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
    access_((uintptr_t)a, uint32_t(n), false);
    access_((uintptr_t)b, uint32_t(n), false);
    return __real_memcmp(a, b, n);
}
}

// the library's writable data lies between these (see build() in ../check)
extern "C" char mc_lib_data_begin[], mc_lib_data_end[], mc_lib_bss_begin[], mc_lib_bss_end[];
extern "C" __thread char mc_lib_tdata_begin[], mc_lib_tdata_end[], mc_lib_tbss_begin[], mc_lib_tbss_end[];
static std::vector<char> g_image[4];
static void image_take()
{
    if (mc_lib_data_begin > mc_lib_data_end || mc_lib_bss_begin > mc_lib_bss_end) { fprintf(stderr, "harness error: order of the library's data\n"); _exit(3); }
    g_image[0].assign(mc_lib_data_begin, mc_lib_data_end);
    if (mc_lib_tdata_begin > mc_lib_tdata_end || mc_lib_tbss_begin > mc_lib_tbss_end) { fprintf(stderr, "harness error: order of the library's thread-local data\n"); _exit(3); }
    g_image[1].assign(mc_lib_bss_begin, mc_lib_bss_end);
    g_image[2].assign(mc_lib_tdata_begin, mc_lib_tdata_end);
    g_image[3].assign(mc_lib_tbss_begin, mc_lib_tbss_end);
}
static void thread_image_restore()
{
    __real_memcpy(mc_lib_tdata_begin, g_image[2].data(), g_image[2].size());
    __real_memcpy(mc_lib_tbss_begin, g_image[3].data(), g_image[3].size());
}
static void image_restore()
{
    __real_memcpy(mc_lib_data_begin, g_image[0].data(), g_image[0].size());
    __real_memcpy(mc_lib_bss_begin, g_image[1].data(), g_image[1].size());
}

static void* thread_main(void* v)
{
    Thread& me = *(Thread*)v;
    t_me = &me;
    me.tid = pid_t(syscall(SYS_gettid));
    while (true) {
        while (sem_wait(&me.go)) {}
        thread_image_restore();
        std::string r;
        t_ctx = me.id == 2 ? 0 : me.id + 1;
        try {
            t_armed = me.id < 2;
            r = me.op();
            t_armed = false;
        } catch (const mc::Violation& e) {
            t_armed = false;
            t_ctx = -1;
            r = std::string("violation ") + e.what();
        } catch (const std::exception& e) {
            t_armed = false;
            t_ctx = -1;
            r = std::string("exception: ") + e.what();
        }
        t_ctx = -1;
        me.result.assign(r.data(), r.size());
        me.finished = true;
        sem_post(&me.done);
    }
}
static const size_t STACK = 1 << 20;
static void threads_start()
{
    if (g_threads_pid == getpid()) return;
    g_threads_pid = getpid();
    for (int i = 0; i < 3; i++) {
        Thread& t = g_t[i];
        t.id = i;
        sem_init(&t.go, 0, 0);
        sem_init(&t.done, 0, 0);
        t.stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (t.stack == MAP_FAILED) abort();
        t.stack_lo = (uintptr_t)t.stack;
        t.stack_hi = t.stack_lo + STACK;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, t.stack, STACK);
        if (pthread_create(&t.th, &at, thread_main, &t)) abort();
        pthread_attr_destroy(&at);
        if (i == 2) continue;
        g_rec[i] = (Access*)mmap(nullptr, MAXREC * sizeof(Access), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (g_rec[i] == MAP_FAILED) abort();
    }
}
// is the thread asleep (on something other than its own stop: then it has posted "done")?
static bool asleep(Thread& t)
{
    char path[64], buf[512];
    snprintf(path, sizeof path, "/proc/self/task/%d/stat", int(t.tid));
    int fd = open(path, O_RDONLY);
    if (fd < 0) return false;
    ssize_t n = read(fd, buf, sizeof buf - 1);
    close(fd);
    if (n <= 0) return false;
    buf[n] = 0;
    const char* p = strrchr(buf, ')');
    return p && p[1] == ' ' && p[2] == 'S';
}
// let a thread go on until it finishes or stops; false if it waits for the other one (asleep, or spinning for long)
static bool resume(Thread& t, bool may_block)
{
    sem_post(&t.go);
    if (!may_block) {
        while (sem_wait(&t.done)) {}
        return true;
    }
    for (int ms = 0, slept = 0; ms < 500; ms++) {
        timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_nsec += 1000000;
        if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
        while (true) {
            if (!sem_timedwait(&t.done, &ts)) return true;
            if (errno == ETIMEDOUT) break;
        }
        slept = asleep(t) ? slept + 1 : 0;
        if (slept == 2) return false;
    }
    return false;
}
static void prepare(Thread& t, std::function<std::string()> op, uint64_t stop, bool conf)
{
    t.op = std::move(op);
    t.finished = false;
    t.count = 0;
    t.stop_at = stop;
    t.conflict_only = conf;
}

// ------------------------------------------------------------------------------------------- operations
// A world: the instances one thread uses.  `who` makes the two worlds different.
struct World {
    std::unique_ptr<RamForest> f, f2;
    std::unique_ptr<Pollard> p;
    UndoBatch u;
    ref::Forest r;
    int who;
    std::string file;
    uint32_t id;
    VH lv;
    BatchProof good, bad;
    std::vector<uint8_t> ser_bp, ser_u;
    std::vector<Leaf> more;
    std::vector<uint64_t> del, tgt;
    VH th;
    std::vector<unsigned char> msg;
    World(int w, bool with_file, bool big) : who(w)
    {
        id = 1000 * w;
        int n = big ? (w == 0 ? 75 : 44) : w == 0 ? 11 : 6;
        if (with_file) {
            file = std::string(getenv("MC_SCRATCH")) + "/s" + std::to_string(getpid()) + "_" + std::to_string(w);
            unlink(file.c_str());
            f.reset(new RamForest(file));
        } else f.reset(new RamForest(0));
        f2.reset(new RamForest(0));
        p.reset(new Pollard(0));
        auto l = mk_leaves(id, n, w == 0 ? 0x24 : 0x12, FAM_SPREAD);
        bool ok = f->Modify(u, l, {}) && p->Modify(l, {}) && f2->Modify(u, l, {});
        for (auto& x : l) r.add(x.first);
        std::vector<Leaf> l2 = mk_leaves(id, 3, 4, FAM_SPREAD);
        del = w == 0 ? V64{1, 4} : V64{0, 5};
        for (auto d : del) th.push_back(r.leaves()[d]);
        ok = ok && p->Verify(BatchProof(del, r.proof(del)), th) && p->Modify(l2, del) && f->Modify(u, l2, del);
        r.remove(del);
        for (auto& x : l2) r.add(x.first);
        if (!ok) throw mc::Violation("set-up of the two threads' instances failed");
        more = mk_leaves(id, w == 0 ? 3 : 2, 1, FAM_SPREAD);
        tgt = w == 0 ? V64{0, 3, 7} : V64{2, 4};
        if (big) {
            more = mk_leaves(id, w == 0 ? 20 : 33, 5, FAM_SPREAD);
            for (uint64_t i = 9; i < r.n(); i += w == 0 ? 3 : 2) tgt.push_back(i);
        }
        lv = r.leaves();
        th = pick(lv, tgt);
        VH pr = r.proof(tgt);
        good = BatchProof(tgt, pr);
        if (!pr.empty()) pr[0][3] ^= 1;
        bad = BatchProof(tgt, pr);
        good.Serialize(ser_bp);
        u.Serialize(ser_u);
        for (int i = 0; i < 700; i++) msg.push_back((unsigned char)(i * 7 + w * 13));
    }
    ~World() { if (!file.empty()) unlink(file.c_str()); }
};
static std::string dump(const VH& v)
{
    std::string s;
    for (auto& h : v) s.append((const char*)h.data(), 32);
    return s;
}
static std::string dump(const V64& v) { return std::string((const char*)v.data(), v.size() * 8); }
static std::string dump(const BatchProof& b) { return dump(b.GetTargets()) + dump(b.GetSortedTargets()) + dump(b.GetHashes()); }
static std::string dump(const Accumulator& a) { return std::to_string(a.NumLeaves()) + dump(roots_of(a)); }
static std::string dump(const RamForest& f)
{
    std::string s = dump((const Accumulator&)f);
    VH v;
    for (uint64_t i = 0; i < f.NumLeaves(); i++) v.push_back(f.GetLeaf(i));
    return s + dump(v);
}

struct Op {
    const char* name;
    std::function<std::string(World&)> run;
    bool readonly; // may run on a shared instance
    bool file;
};
static std::string yn(bool b) { return b ? "y" : "n"; }
static const std::vector<Op>& ops()
{
    static const std::vector<Op> O = {
        {"forest prove", [](World& w) { BatchProof b; bool ok = w.f->Prove(b, w.th); return yn(ok) + dump(b); }, true, false},
        {"forest read", [](World& w) { return dump(*w.f) + yn(*w.f == *w.f2); }, true, false},
        {"pollard prove", [](World& w) { BatchProof b; std::string s; for (auto& h : w.lv) { bool ok = w.p->Prove(b, {h}); s += yn(ok); if (ok) s += dump(b); } return s; }, true, false},
        {"pollard read", [](World& w) { return dump(*w.p) + std::to_string(w.p->CountNodes()); }, true, false},
        {"compare maps", [](World& w) { return yn(w.f->ComparePositionMap(*w.f2)) + yn(w.p->ComparePositionMap(*w.f)); }, true, false},
        {"proof codec", [](World& w) { BatchProof b; std::vector<uint8_t> o; bool ok = b.Unserialize(w.ser_bp); b.Serialize(o); return yn(ok) + dump(b) + std::string(o.begin(), o.end()) + yn(b == w.good) + yn(b.CheckSanity(w.f->NumLeaves())) + yn(b.CheckSanity(2)); }, true, false},
        {"undo codec", [](World& w) { UndoBatch b; std::vector<uint8_t> o; bool ok = b.Unserialize(w.ser_u); b.Serialize(o); return yn(ok) + std::string(o.begin(), o.end()) + yn(b == w.u); }, true, false},
        {"positions", [](World& w) {
             ForestState s(w.f->NumLeaves());
             auto pp = s.ProofPositions(w.tgt);
             auto sw = s.Transform(w.tgt);
             std::string o = dump(pp.first) + dump(pp.second) + dump(s.RootPositions()) + std::to_string(s.NumRoots()) + std::to_string(s.MaxNodes());
             for (auto& row : sw) for (auto& x : row) o += dump(V64{x.m_from, x.m_to});
             for (auto& x : s.UndoTransform(w.tgt)) o += dump(V64{x.m_from, x.m_to, x.m_range});
             for (uint64_t i = 0; i < w.f->NumLeaves(); i++) { auto [t, l, b] = s.Path(i); o += dump(V64{uint64_t(t), uint64_t(l), uint64_t(b), s.Parent(i), s.DetectRow(i)}); }
             return o; }, true, false},
        {"sha-512", [](World& w) { unsigned char d[64]; utreexo::CSHA512 h; h.Write(w.msg.data(), 300).Write(w.msg.data() + 300, 200).Finalize(d); return std::string((char*)d, 64); }, true, false},
        {"sha-512/256", [](World& w) { unsigned char d[32]; utreexo::CSHA512 h(utreexo::CSHA512::OUTPUT_SIZE_256); h.Write(w.msg.data() + 5, 64).Finalize256(d); return std::string((char*)d, 32); }, true, false},
        {"forest modify", [](World& w) { UndoBatch u; bool ok = w.f->Modify(u, w.more, w.tgt); std::vector<uint8_t> o; u.Serialize(o); return yn(ok) + dump(*w.f) + std::string(o.begin(), o.end()); }, false, false},
        {"forest undo", [](World& w) { bool ok = w.f->Undo(w.u); return yn(ok) + dump(*w.f); }, false, false},
        {"forest refuse", [](World& w) { UndoBatch u; bool ok = w.f->Modify(u, w.more, {3, 1}); return yn(ok) + dump(*w.f); }, false, false},
        {"forest commit", [](World& w) { bool ok = w.f->Commit(); w.f.reset(); w.f.reset(new RamForest(w.file)); return yn(ok) + dump(*w.f); }, false, true},
        {"pollard verify", [](World& w) { bool ok = w.p->Verify(w.good, w.th); return yn(ok) + dump(*w.p) + std::to_string(w.p->CountNodes()); }, false, false},
        {"pollard reject", [](World& w) { bool ok = w.p->Verify(w.bad, w.th); return yn(ok) + dump(*w.p) + std::to_string(w.p->CountNodes()); }, false, false},
        {"pollard modify", [](World& w) { bool ok = w.p->Verify(w.good, w.th) && w.p->Modify(w.more, w.tgt); return yn(ok) + dump(*w.p) + std::to_string(w.p->CountNodes()); }, false, false},
        {"pollard prune", [](World& w) { w.p->Prune(); return dump(*w.p) + std::to_string(w.p->CountNodes()); }, false, false},
        {"new instances", [](World& w) { RamForest f(0); UndoBatch u; bool a = f.Modify(u, w.more, {}); Pollard p(roots_of(*w.f), w.f->NumLeaves()); bool b = p.Modify(w.more, {}); return yn(a) + yn(b) + dump(f) + dump(p); }, true, false},
    };
    return O;
}

// ------------------------------------------------------------------------------------------- runs
// returns the results of the two operations under the schedule (k, j): 0 = never stop
struct Pair {
    int a, b;
    bool shared, cold, big;
};
// the number of conflicting accesses B had made when it was found to be blocked by A; ~0 if it was not
static uint64_t g_blocked_at;
static void run_pair(const Pair& P, uint64_t k, bool kconf, uint64_t j, std::string& ra, std::string& rb, int solo)
{
    threads_start();
    arenas_reset();
    image_restore();
    bool file = ops()[P.a].file || ops()[P.b].file;
    std::unique_ptr<World> wa, wb;
    prepare(g_t[2], [&] {
        wa.reset(new World(0, file, P.big));
        if (!P.shared) wb.reset(new World(1, file, P.big));
        return std::string();
    }, 0, false);
    resume(g_t[2], false);
    g_t[2].op = nullptr;
    if (!wa || (!P.shared && !wb)) throw mc::Violation("set-up of the two threads' instances failed: " + g_t[2].result);
    if (P.cold) image_restore();
    World& A = *wa;
    World& Bw = P.shared ? *wa : *wb;
    g_nrec[0] = g_nrec[1] = 0;
    g_blocked_at = ~0ull;
    if (solo != 1) prepare(g_t[0], [&] { return ops()[P.a].run(A); }, k, kconf);
    if (solo != 0) prepare(g_t[1], [&] { return ops()[P.b].run(Bw); }, j, true);
    if (solo == 0) {
        resume(g_t[0], false);
    } else if (solo == 1) {
        resume(g_t[1], false);
    } else {
        resume(g_t[0], false); // to its stop, or its end
        bool b_ok = resume(g_t[1], true);
        if (!b_ok) {
            g_blocked_at = g_t[1].count;
            g_t[1].stop_at = 0; // it goes on to its end once A lets it
        }
        bool a_ok = true; // A may wait for what B holds where it stopped
        if (!g_t[0].finished) a_ok = resume(g_t[0], b_ok && !g_t[1].finished);
        if (!b_ok) { while (sem_wait(&g_t[1].done)) {} }
        if (!g_t[1].finished) resume(g_t[1], false);
        if (!a_ok) { while (sem_wait(&g_t[0].done)) {} }
    }
    ra.assign(g_t[0].result.data(), g_t[0].result.size());
    rb.assign(g_t[1].result.data(), g_t[1].result.size());
    // results live in the arenas' lifetime; the operations' closures must go before the next reset
    g_t[0].op = nullptr;
    g_t[1].op = nullptr;
    wa.reset();
    wb.reset();
}
typedef std::vector<uintptr_t> Bytes; // sorted
struct Solo { // an operation on its own, in the place of A or B
    std::string result;
    uint64_t n; // accesses
    Bytes read, written;
    std::vector<Access> log;
};
static const Solo& solo(const Pair& P, int who)
{
    static std::map<std::tuple<int, bool, bool, bool, bool, int>, Solo> cache;
    static pid_t pid = 0;
    if (pid != getpid()) { cache.clear(); pid = getpid(); }
    bool file = ops()[P.a].file || ops()[P.b].file;
    int op = who ? P.b : P.a;
    auto key = std::make_tuple(op, P.shared, P.cold, P.big, file, who);
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    if (cache.size() > 16) cache.clear();
    Solo F;
    std::string r, dummy;
    auto run = [&](std::string& res) { run_pair(P, 0, false, 0, who ? dummy : res, who ? res : dummy, who); };
    run(F.result);
    g_record = true;
    run(r);
    g_record = false;
    require(r == F.result, "%s alone gives different results when repeated on equal new instances", ops()[op].name);
    require(g_nrec[who] < MAXREC, "harness error: access log full");
    F.log.assign(g_rec[who], g_rec[who] + g_nrec[who]);
    F.n = F.log.size();
    for (auto& x : F.log)
        for (uint32_t i = 0; i < x.n; i++) (x.w ? F.written : F.read).push_back(x.a + i);
    for (Bytes* b : {&F.read, &F.written}) {
        std::sort(b->begin(), b->end());
        b->erase(std::unique(b->begin(), b->end()), b->end());
    }
    return cache[key] = F;
}
struct Facts {
    std::string ra, rb;
    uint64_t na, ca, cb; // accesses of A; conflicting accesses of A and of B
    Bytes conf;
};
static const Facts& facts(const Pair& P)
{
    static std::map<std::tuple<int, int, bool, bool, bool>, Facts> cache;
    static pid_t pid = 0;
    if (pid != getpid()) { cache.clear(); pid = getpid(); }
    auto key = std::make_tuple(P.a, P.b, P.shared, P.cold, P.big);
    auto it = cache.find(key);
    if (it != cache.end()) {
        g_conf = (uintptr_t*)it->second.conf.data();
        g_nconf = it->second.conf.size();
        return it->second;
    }
    Facts F;
    const Solo A = solo(P, 0);
    const Solo& Bv = solo(P, 1);
    F.ra = A.result;
    F.rb = Bv.result;
    F.na = A.n;
    auto both = [&](const Bytes& x, const Bytes& y) { std::set_intersection(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(F.conf)); };
    both(A.written, Bv.written);
    both(A.written, Bv.read);
    both(A.read, Bv.written);
    std::sort(F.conf.begin(), F.conf.end());
    F.conf.erase(std::unique(F.conf.begin(), F.conf.end()), F.conf.end());
    Facts& G = cache[key] = F;
    g_conf = G.conf.data();
    g_nconf = G.conf.size();
    G.ca = G.cb = 0;
    for (auto& x : A.log) G.ca += conflicting(x.a, x.n);
    for (auto& x : Bv.log) G.cb += conflicting(x.a, x.n);
    return G;
}
static void check_run(const Pair& P, uint64_t k, bool kconf, uint64_t j)
{
    const Facts& F = facts(P);
    std::string ra, rb;
    run_pair(P, k, kconf, j, ra, rb, 2);
    require(ra == F.ra, "'%s' gives a wrong result when another thread runs '%s' on %s in between", ops()[P.a].name, ops()[P.b].name, P.shared ? "the same instances" : "its own instances");
    require(rb == F.rb, "'%s' gives a wrong result when run on %s while another thread is in the middle of '%s'", ops()[P.b].name, P.shared ? "the same instances" : "its own instances", ops()[P.a].name);
    mc::outcome(mc::Hasher().u(P.a).u(P.b).u(P.shared).u(k).u(j).h);
}
typedef std::vector<mc::Scenario> Scn;
static Pair choose_pair(bool shared)
{
    std::vector<int> o;
    for (size_t i = 0; i < ops().size(); i++)
        if (!shared || ops()[i].readonly) o.push_back(int(i));
    int a = o[choose(int(o.size()))];
    int b = o[choose(int(o.size()))];
    return {a, b, shared, false, false};
}
static Scn c20()
{
    Scn S;
    for (int sh = 0; sh < 2; sh++) {
        const bool shared = sh;
        const char* on = shared ? "reading operations on the same instances" : "operations on separate instances";
        const int STEP = B(1, 1, 20);
        S.push_back({shared ? "shared" : "separate", mc::fmt("every ordered pair of %s: thread A stopped before every %s instrumented memory access outside its stack, thread B run to its end there, results compared with those of the operations alone", on, STEP == 1 ? "" : mc::fmt("%d-th", STEP).c_str()), 2, [=] {
            Pair P = choose_pair(shared);
            const Facts& F = facts(P);
            uint64_t n = (F.na + 1) / STEP + 1;
            // larger operations: two-level choice
            uint64_t k = (n > 256 ? choose(unsigned((n + 255) / 256)) * 256ull + choose(256) : choose(unsigned(n))) * STEP + 1;
            if (k > F.na + 1) return;
            step("A: %s, B: %s (%s), A stops before access %llu of %llu; %zu conflicting bytes", ops()[P.a].name, ops()[P.b].name, shared ? "shared" : "separate", (ull)k, (ull)F.na, F.conf.size());
            mc::state(mc::Hasher().u(P.a).u(P.b).u(shared).u(k).h);
            check_run(P, k, false, 0);
        }});
        for (int v = 0; v < 4; v++) {
            const bool cold = v & 1, big = v & 2;
            std::string name = std::string(shared ? "shared" : "separate") + "-conflicts" + (cold ? "-cold" : "") + (big ? "-big" : "");
            const uint64_t CA = big ? B(20, 100, 10) : B(60, 400, 30), CB = CA;
            S.push_back({name, mc::fmt("every ordered pair of %s%s%s: A stopped before every access that conflicts with one of B's (same memory, one of them writes; up to %llu), B stopped at every such access of its own (up to %llu) or not at all; where there is none, all interleavings are equivalent and one is run", on, big ? " with some 75 and 44 leaves, 25 targets" : "", cold ? ", which are the first users of the library" : "", (ull)CA, (ull)CB), 2, [=] {
                Pair P = choose_pair(shared);
                P.cold = cold;
                P.big = big;
                const Facts& F = facts(P);
                uint64_t k = choose(unsigned(std::min<uint64_t>(F.ca, CA) + 1));
                // where B waits for A, stopping it later than that is the same as not at all
                uint64_t j = k ? choose(unsigned(std::min<uint64_t>(F.cb, CB) + 1)) : 0;
                static std::map<std::tuple<int, int, uint64_t>, uint64_t> waits[2][4];
                auto& W = waits[sh][v];
                auto wk = std::make_tuple(P.a, P.b, k);
                if (j) {
                    if (!W.count(wk)) {
                        check_run(P, k, true, 0);
                        W[wk] = g_blocked_at;
                    }
                    if (j > W[wk]) return;
                }
                step("A: %s, B: %s, A stops before conflicting access %llu of %llu, B before %llu of %llu", ops()[P.a].name, ops()[P.b].name, (ull)k, (ull)F.ca, (ull)j, (ull)F.cb);
                mc::state(mc::Hasher().u(P.a).u(P.b).u(shared).u(cold).u(big).u(k).u(j).h);
                check_run(P, k, true, j);
            }});
        }
    }
    return S;
}
int main(int argc, char** argv)
{
    image_take();
    return mc::main_loop(argc, argv, {{"C20", c20}});
}
