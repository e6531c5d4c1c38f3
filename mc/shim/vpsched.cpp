// The controlled scheduler: see vpsched.h and /verif/DESIGN.md.
//
// One real thread carries out every "parallel" loop of the library; which pieces a loop is cut
// into, in which order they start, on which virtual worker they run and (mode 3) where one piece
// is preempted in favour of another are choices taken from a prefix the model checker supplies,
// 0 after its end.  Every choice taken is recorded, so the checker can enumerate all of them.
//
// Compiled with the library's sources under -fsanitize=thread (compile step only), this file also
// provides the __tsan_* entry points: mode 2 uses them to detect conflicting accesses of different
// iterations, mode 3 to switch between tasks at each atomic operation.
#include "vpsched.h"
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <functional>
#include <map>
#include <mutex>
#include <new>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

extern "C" char __libc_single_threaded;

namespace {

struct Choice
{
    int n, tag, c;
};

// All state is touched by the one thread that explores; other threads only see mode 0.
int g_mode = 0;
std::vector<int> g_prefix;
std::vector<Choice> g_trace;
int g_bound = 0;      // preemption bound of mode 3
int g_preempt = 0;    // preemptions taken
int g_diverged = 0;
int g_livelock = 0;
long g_steps = 0;
long g_maxsteps = 2000000;
int g_regions = 0;
int g_loops_big = 0;
int g_max_tasks = 0;
pthread_t g_owner;
bool g_have_owner = false;
std::mutex g_mutex;

thread_local int t_worker = 0;
thread_local int t_region = 0;
thread_local int t_ignore = 0;

bool owner()
{
    return g_have_owner && pthread_equal(pthread_self(), g_owner);
}

// ------------------------------------------------------------------ race detection (mode 2)
struct Access
{
    uint8_t mask;
    bool write, atomic;
    int task;
    uint32_t clock;
    const void* pc;
};
struct Race
{
    const void *pc1, *pc2;
    const void* addr;
    int t1, t2;
    bool w1, w2;
};
using VC = std::vector<uint32_t>;
bool g_rec = false; // recording accesses now
int g_task = -1;    // running task
char* g_stack_hi = nullptr;
char* g_stack_lo = nullptr;
// The detector's own containers must not go through the interposed allocator's quarantine:
// t_ignore is raised whenever they are used.
std::unordered_map<uintptr_t, std::vector<Access>>* g_shadow = nullptr;
std::vector<VC>* g_clock = nullptr;
std::unordered_map<uintptr_t, VC>* g_sync = nullptr;
std::vector<Race>* g_races = nullptr;
std::vector<void*>* g_quarantine = nullptr;
long g_accesses = 0;

//! A write that conflicts with an earlier one, until it is known whether it changes the value.
struct Pending
{
    Race race;
    std::string before;
};
std::vector<Pending>* g_pending = nullptr;

void addRace(const Race& x)
{
    for (auto& r : *g_races)
    {
        if (r.pc1 == x.pc1 && r.pc2 == x.pc2)
        {
            return;
        }
    }
    if (g_races->size() < 64)
    {
        g_races->push_back(x);
    }
}

//! Unordered writes of the value that is there already are no conflict.
void settle()
{
    if (g_pending == nullptr || g_pending->empty())
    {
        return;
    }
    for (auto& p : *g_pending)
    {
        if (memcmp(p.before.data(), p.race.addr, p.before.size()) != 0)
        {
            addRace(p.race);
        }
    }
    g_pending->clear();
}

void raceReset()
{
    if (g_shadow == nullptr)
    {
        g_shadow = new std::unordered_map<uintptr_t, std::vector<Access>>();
        g_clock = new std::vector<VC>();
        g_sync = new std::unordered_map<uintptr_t, VC>();
        g_quarantine = new std::vector<void*>();
        g_pending = new std::vector<Pending>();
    }
    settle();
    g_shadow->clear();
    g_clock->clear();
    g_sync->clear();
}

void record(const void* p, size_t size, bool write, bool atomic, const void* pc)
{
    if (!g_rec || t_ignore > 0 || g_task < 0)
    {
        return;
    }
    const char* cp = static_cast<const char*>(p);
    if (cp >= g_stack_lo && cp < g_stack_hi)
    {
        return; // the task's own stack frames
    }
    ++t_ignore;
    ++g_accesses;
    settle();
    bool writes = false;
    Race conflict {};
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    const uintptr_t e = a + size;
    while (a < e)
    {
        const uintptr_t g = a >> 3;
        uint8_t mask = 0;
        for (; a < e && (a >> 3) == g; ++a)
        {
            mask |= uint8_t(1u << (a & 7));
        }
        auto& v = (*g_shadow)[g];
        VC& my = (*g_clock)[g_task];
        bool have = false;
        for (auto& x : v)
        {
            if (x.task == g_task)
            {
                if (x.write == write && x.atomic == atomic && x.clock == my[g_task]
                    && (x.mask & mask) == mask)
                {
                    have = true;
                }
                continue;
            }
            if ((x.mask & mask) != 0 && (x.write || write) && !(x.atomic && atomic)
                && x.clock > my[x.task])
            {
                const Race r {x.pc, pc, p, x.task, g_task, x.write, write};
                if (x.write && write && !x.atomic && !atomic)
                {
                    writes = true;
                    conflict = r;
                }
                else
                {
                    addRace(r);
                }
            }
        }
        if (!have && v.size() < 4096)
        {
            v.push_back({mask, write, atomic, g_task, my[g_task], pc});
        }
    }
    if (writes)
    {
        g_pending->push_back({conflict, std::string(static_cast<const char*>(p), size)});
    }
    --t_ignore;
}

void syncAcquire(const void* p)
{
    if (!g_rec || t_ignore > 0 || g_task < 0)
    {
        return;
    }
    ++t_ignore;
    auto it = g_sync->find(reinterpret_cast<uintptr_t>(p));
    if (it != g_sync->end())
    {
        VC& my = (*g_clock)[g_task];
        for (size_t i = 0; i < my.size(); ++i)
        {
            my[i] = std::max(my[i], it->second[i]);
        }
    }
    --t_ignore;
}
void syncRelease(const void* p)
{
    if (!g_rec || t_ignore > 0 || g_task < 0)
    {
        return;
    }
    ++t_ignore;
    VC& my = (*g_clock)[g_task];
    VC& s = (*g_sync)[reinterpret_cast<uintptr_t>(p)];
    s.resize(my.size(), 0);
    for (size_t i = 0; i < my.size(); ++i)
    {
        s[i] = std::max(s[i], my[i]);
    }
    ++my[g_task];
    --t_ignore;
}

// ------------------------------------------------------------------ coroutines (mode 3)
struct Co
{
    ucontext_t ctx;
    char* stack = nullptr;
    bool done = false;
    const std::function<void()>* f = nullptr;
    std::exception_ptr ex;
    int worker = 0;
};
std::vector<Co>* g_co = nullptr;
ucontext_t g_main;
int g_cur = -1;
bool g_abort = false;
struct Abort
{};

void coMain()
{
    Co& c = (*g_co)[g_cur];
    try
    {
        (*c.f)();
    }
    catch (const Abort&)
    {}
    catch (...)
    {
        c.ex = std::current_exception();
    }
    c.done = true;
    swapcontext(&c.ctx, &g_main);
}

//! A point at which another task may take over.
void switchPoint()
{
    if (g_co == nullptr || g_cur < 0 || t_ignore > 0)
    {
        return;
    }
    if (++g_steps > g_maxsteps)
    {
        g_livelock = 1;
        g_abort = true;
    }
    if (g_abort)
    {
        return;
    }
    if (g_preempt >= g_bound)
    {
        return;
    }
    ++t_ignore;
    std::vector<int> others;
    for (int i = 0; i < (int) g_co->size(); ++i)
    {
        if (i != g_cur && !(*g_co)[i].done)
        {
            others.push_back(i);
        }
    }
    int c = 0;
    if (!others.empty())
    {
        c = vps_choose(1 + (int) others.size(), 3);
    }
    --t_ignore;
    if (c > 0)
    {
        ++g_preempt;
        const int me = g_cur;
        g_cur = others[c - 1];
        t_worker = (*g_co)[g_cur].worker;
        swapcontext(&(*g_co)[me].ctx, &(*g_co)[g_cur].ctx);
    }
}

//! A weak compare-and-swap may fail although the values agree.
int g_spurious = 0, g_spurious_bound = 0;
bool spurious()
{
    if (g_co == nullptr || g_cur < 0 || t_ignore > 0 || g_abort || g_spurious >= g_spurious_bound)
    {
        return false;
    }
    if (vps_choose(2, 5) == 1)
    {
        ++g_spurious;
        return true;
    }
    return false;
}

} // namespace

extern "C" {
int vps_mode()
{
    return owner() ? g_mode : 0;
}
int vps_choose(int n, int tag)
{
    if (!owner() || n <= 1)
    {
        return 0;
    }
    ++t_ignore;
    int c = 0;
    const size_t i = g_trace.size();
    if (i < g_prefix.size())
    {
        c = g_prefix[i];
        if (c >= n)
        {
            g_diverged = 1;
            c = 0;
        }
    }
    g_trace.push_back({n, tag, c});
    --t_ignore;
    return c;
}
int vps_worker()
{
    return t_worker;
}
int vps_in_region()
{
    return t_region;
}
long vps_thread_key()
{
    if (!g_have_owner || owner())
    {
        return t_worker;
    }
    return 1000000L + t_worker + 64L * syscall(SYS_gettid);
}
void vps_ignore(int delta)
{
    t_ignore += delta;
}
void vps_lock()
{
    g_mutex.lock();
}
void vps_unlock()
{
    g_mutex.unlock();
}

// ------------------------------------------------------------------ control, from Python
void vps_begin(int mode, const int* prefix, int n, int bound)
{
    ++t_ignore;
    __libc_single_threaded = 0;
    g_owner = pthread_self();
    g_have_owner = true;
    g_mode = mode;
    g_prefix.assign(prefix, prefix + n);
    g_trace.clear();
    g_bound = bound;
    g_preempt = 0;
    g_spurious = 0;
    g_diverged = 0;
    g_livelock = 0;
    g_steps = 0;
    g_regions = 0;
    g_max_tasks = 0;
    g_accesses = 0;
    if (g_races == nullptr)
    {
        g_races = new std::vector<Race>();
    }
    g_races->clear();
    --t_ignore;
}
//! Back to mode 0; number of recorded choices.
int vps_end()
{
    g_mode = 0;
    g_prefix.clear();
    return (int) g_trace.size();
}
void vps_trace(int* n, int* tag, int* c)
{
    for (size_t i = 0; i < g_trace.size(); ++i)
    {
        n[i] = g_trace[i].n;
        tag[i] = g_trace[i].tag;
        c[i] = g_trace[i].c;
    }
}
int vps_diverged()
{
    return g_diverged;
}
void vps_spurious_bound(int b)
{
    g_spurious_bound = b;
}
int vps_livelock()
{
    return g_livelock;
}
long vps_accesses()
{
    return g_accesses;
}
int vps_regions()
{
    return g_regions;
}
int vps_max_tasks()
{
    return g_max_tasks;
}
int vps_race_count()
{
    return g_races == nullptr ? 0 : (int) g_races->size();
}
//! Describe race i: module+offset of both accesses.
void vps_race(int i, char* buf, int len)
{
    const Race& r = (*g_races)[i];
    Dl_info a {}, b {};
    dladdr(r.pc1, &a);
    dladdr(r.pc2, &b);
    snprintf(buf, len, "%s %s+0x%lx %d | %s %s+0x%lx %d", r.w1 ? "write" : "read",
             a.dli_fname ? a.dli_fname : "?",
             (unsigned long) ((const char*) r.pc1 - (const char*) a.dli_fbase), r.t1,
             r.w2 ? "write" : "read", b.dli_fname ? b.dli_fname : "?",
             (unsigned long) ((const char*) r.pc2 - (const char*) b.dli_fbase), r.t2);
}
}

namespace vps {

//! The cuts a loop of n iterations is explored with in mode 1 (without the trivial one).
static std::vector<std::vector<size_t>> cutSets(size_t n)
{
    std::vector<std::vector<size_t>> r;
    if (n <= 5)
    {
        for (size_t m = 1; m < (size_t(1) << (n - 1)); ++m)
        {
            std::vector<size_t> s;
            for (size_t b = 0; b + 1 < n; ++b)
            {
                if ((m >> b) & 1)
                {
                    s.push_back(b + 1);
                }
            }
            r.push_back(s);
        }
        return r;
    }
    // every single cut when there are few, else a spread of them; halves, thirds, quarters; all.
    if (n <= 12)
    {
        for (size_t c = 1; c < n; ++c)
        {
            r.push_back({c});
        }
    }
    else
    {
        for (size_t c : {size_t(1), size_t(2), n / 4, n / 3, n / 2, 2 * n / 3, n - 2, n - 1})
        {
            r.push_back({c});
        }
    }
    r.push_back({n / 3, 2 * n / 3});
    r.push_back({1, n - 1});
    r.push_back({n / 4 ? n / 4 : 1, n / 2, 3 * n / 4});
    std::vector<size_t> all;
    const size_t step = n <= 64 ? 1 : n / 64 + 1;
    for (size_t c = step; c < n; c += step)
    {
        all.push_back(c);
    }
    r.push_back(all);
    return r;
}

static std::vector<Chunk> make(const std::vector<size_t>& cuts, size_t n, int variant)
{
    std::vector<Chunk> r;
    size_t b = 0;
    for (size_t i = 0; i <= cuts.size(); ++i)
    {
        const size_t e = i < cuts.size() ? cuts[i] : n;
        int w = 0;
        switch (variant)
        {
        case 0: w = int(i % 2); break;                   // two workers, alternating
        case 1: w = int(i); break;                       // every piece its own worker
        case 2: w = 0; break;                            // one worker, pieces in order
        default: w = 0; break;                           // one worker, pieces reversed
        }
        r.push_back({b, e, w});
        b = e;
    }
    if (variant == 1 || variant == 3)
    {
        std::vector<Chunk> q(r.rbegin(), r.rend());
        r = q;
    }
    return r;
}

std::vector<Chunk> plan(size_t n)
{
    if (n <= 1 || t_region > 0)
    {
        return {Chunk {0, n, t_worker}};
    }
    const int mode = vps_mode();
    if (mode == 0)
    {
        // Two workers, three pieces, out of order: deterministic, but never the trivial case.
        if (n == 2)
        {
            return {Chunk {1, 2, 1}, Chunk {0, 1, 0}};
        }
        const size_t a = n / 3, b = 2 * n / 3;
        return {Chunk {b, n, 1}, Chunk {0, a, 0}, Chunk {a, b, 1}};
    }
    if (mode == 1)
    {
        auto cs = cutSets(n);
        const int c = vps_choose(1 + 4 * (int) cs.size(), 1);
        if (c == 0)
        {
            return {Chunk {0, n, 0}};
        }
        return make(cs[(c - 1) / 4], n, (c - 1) % 4);
    }
    std::vector<Chunk> r;
    const size_t step = n <= 4096 ? 1 : n / 4096 + 1;
    int w = 0;
    for (size_t i = 0; i < n; i += step)
    {
        r.push_back({i, std::min(n, i + step), w++});
    }
    if (mode == 2 && g_bound == 1)
    {
        std::vector<Chunk> q(r.rbegin(), r.rend());
        r = q;
    }
    return r;
}

void plan2(size_t nr, size_t nc, std::vector<Chunk>& rows, std::vector<Chunk>& cols)
{
    rows = plan(nr);
    if (vps_mode() >= 2 && nr > 1)
    {
        // rows alone already make up many tasks: cut the columns in two
        cols.clear();
        if (nc > 1)
        {
            cols = {Chunk {0, nc / 2, 0}, Chunk {nc / 2, nc, 1}};
            return;
        }
    }
    cols = plan(nc);
}

void run(const std::vector<std::function<void()>>& tasks, const std::vector<int>& workers)
{
    struct Restore
    {
        int w = t_worker, r = t_region;
        ~Restore()
        {
            t_worker = w;
            t_region = r;
        }
    } restore;
    const int mode = vps_mode();
    const bool outer = t_region == 0;
    if (outer)
    {
        ++g_regions;
        g_max_tasks = std::max(g_max_tasks, (int) tasks.size());
    }
    if (mode == 3 && outer && tasks.size() > 1)
    {
        const size_t SZ = 1 << 18;
        ++t_ignore;
        std::vector<Co> co(tasks.size());
        for (size_t i = 0; i < co.size(); ++i)
        {
            co[i].stack = static_cast<char*>(
                mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            getcontext(&co[i].ctx);
            co[i].ctx.uc_stack.ss_sp = co[i].stack;
            co[i].ctx.uc_stack.ss_size = SZ;
            co[i].ctx.uc_link = nullptr;
            makecontext(&co[i].ctx, coMain, 0);
            co[i].f = &tasks[i];
            co[i].worker = workers[i];
        }
        g_co = &co;
        g_abort = false;
        const int saved_ignore = t_ignore;
        t_ignore = 0;
        t_region = 1;
        while (true)
        {
            std::vector<int> ready;
            for (int i = 0; i < (int) co.size(); ++i)
            {
                if (!co[i].done)
                {
                    ready.push_back(i);
                }
            }
            if (ready.empty())
            {
                break;
            }
            g_cur = ready[vps_choose((int) ready.size(), 4)];
            t_worker = co[g_cur].worker;
            swapcontext(&g_main, &co[g_cur].ctx);
        }
        g_co = nullptr;
        g_cur = -1;
        t_ignore = saved_ignore;
        std::exception_ptr ex;
        for (auto& c : co)
        {
            munmap(c.stack, SZ);
            if (c.ex && !ex)
            {
                ex = c.ex;
            }
        }
        --t_ignore;
        if (ex)
        {
            std::rethrow_exception(ex);
        }
        return;
    }
    const bool rec = mode == 2 && outer && tasks.size() > 1;
    if (rec)
    {
        ++t_ignore;
        raceReset();
        g_clock->assign(tasks.size(), VC(tasks.size(), 0));
        for (size_t i = 0; i < tasks.size(); ++i)
        {
            (*g_clock)[i][i] = 1;
        }
        g_stack_hi = static_cast<char*>(__builtin_frame_address(0));
        g_stack_lo = g_stack_hi - (64 << 20);
        --t_ignore;
    }
    t_region = 1;
    struct RecGuard
    {
        bool rec;
        ~RecGuard()
        {
            if (!rec)
            {
                return;
            }
            g_rec = false;
            g_task = -1;
            ++t_ignore;
            raceReset();
            for (void* p : *g_quarantine)
            {
                ::operator delete(p);
            }
            g_quarantine->clear();
            --t_ignore;
        }
    } guard {rec};
    for (size_t i = 0; i < tasks.size(); ++i)
    {
        t_worker = workers[i];
        if (rec)
        {
            g_task = (int) i;
            g_rec = true;
        }
        tasks[i]();
        g_rec = false;
        g_task = -1;
    }
}
} // namespace vps

// ---------------------------------------------------------------- instrumentation entry points
#ifdef VPS_INST
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                          \
    void __tsan_read##N(void* p) { if (g_rec) record(p, N, false, false, PC); }        \
    void __tsan_write##N(void* p) { if (g_rec) record(p, N, true, false, PC); }        \
    void __tsan_unaligned_read##N(void* p) { if (g_rec) record(p, N, false, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { if (g_rec) record(p, N, true, false, PC); } \
    void __tsan_volatile_read##N(void* p) { if (g_rec) record(p, N, false, false, PC); }  \
    void __tsan_volatile_write##N(void* p) { if (g_rec) record(p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { if (g_rec) record(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { if (g_rec) record(p, 8, false, false, PC); }
void __tsan_read_range(void* p, size_t n) { if (g_rec) record(p, n, false, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (g_rec) record(p, n, true, false, PC); }

// 32-bit +-1 counters (shared_ptr reference counts) order nothing, except the last release.
#define AT(B, T)                                                                              \
    T __tsan_atomic##B##_load(const volatile T* a, int)                                       \
    {                                                                                         \
        switchPoint();                                                                        \
        if (g_rec) { record((const void*) a, sizeof(T), false, true, PC); syncAcquire((const void*) a); } \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                          \
    }                                                                                         \
    void __tsan_atomic##B##_store(volatile T* a, T v, int)                                    \
    {                                                                                         \
        switchPoint();                                                                        \
        if (g_rec) { record((const void*) a, sizeof(T), true, true, PC); syncRelease((const void*) a); } \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                             \
    }                                                                                         \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int)                                    \
    {                                                                                         \
        switchPoint();                                                                        \
        if (g_rec) { record((const void*) a, sizeof(T), true, true, PC); syncAcquire((const void*) a); syncRelease((const void*) a); } \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                   \
    }                                                                                         \
    RMW(B, T, add) RMW(B, T, sub) RMW(B, T, and) RMW(B, T, or) RMW(B, T, xor) RMW(B, T, nand) \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int)        \
    {                                                                                         \
        switchPoint();                                                                        \
        if (g_rec) { record((const void*) a, sizeof(T), true, true, PC); syncAcquire((const void*) a); syncRelease((const void*) a); } \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }                                                                                         \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int)          \
    {                                                                                         \
        switchPoint();                                                                        \
        if (g_rec) { record((const void*) a, sizeof(T), true, true, PC); syncAcquire((const void*) a); syncRelease((const void*) a); } \
        if (spurious()) { *c = __atomic_load_n(a, __ATOMIC_SEQ_CST); return 0; }              \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }                                                                                         \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int)              \
    {                                                                                         \
        switchPoint();                                                                        \
        if (g_rec) { record((const void*) a, sizeof(T), true, true, PC); syncAcquire((const void*) a); syncRelease((const void*) a); } \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);     \
        return c;                                                                             \
    }
#define RMW(B, T, op)                                                                         \
    T __tsan_atomic##B##_fetch_##op(volatile T* a, T v, int)                                  \
    {                                                                                         \
        switchPoint();                                                                        \
        if (g_rec) {                                                                          \
            record((const void*) a, sizeof(T), true, true, PC);                               \
            if (!(sizeof(T) == 4 && (v == (T) 1 || v == (T) -1) && *a != (T) 1)) {           \
                syncAcquire((const void*) a); syncRelease((const void*) a); } }               \
        return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);                                   \
    }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (g_rec) { record(s, n, false, false, PC); record(d, n, true, false, PC); }
    return memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (g_rec) { record(s, n, false, false, PC); record(d, n, true, false, PC); }
    return memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (g_rec) { record(d, n, true, false, PC); }
    return memset(d, c, n);
}
// A block freed inside a region is not handed out again before its end, so that two tasks never
// meet at an address only because the allocator reused it.
static void vpsDelete(void* p)
{
    if (p != nullptr && g_rec && t_ignore == 0)
    {
        ++t_ignore;
        g_quarantine->push_back(p);
        --t_ignore;
        return;
    }
    ::operator delete(p);
}
void __wrap__ZdlPv(void* p) { vpsDelete(p); }
void __wrap__ZdaPv(void* p) { vpsDelete(p); }
void __wrap__ZdlPvm(void* p, size_t) { vpsDelete(p); }
void __wrap__ZdaPvm(void* p, size_t) { vpsDelete(p); }
}
#endif
