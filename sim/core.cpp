// The simulator core: everything the code under test could observe that is not a function of its input goes
// through here. Linked into the executable, so these definitions take precedence over the C library for the
// executable and for all shared libraries (libclang-cpp, libLLVM, libstdc++).
#include "sim.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

#define EXPORT extern "C" __attribute__((visibility("default")))

extern "C" char __data_start, _end;

namespace {

struct Spin {
    std::atomic<int> v{0};
    void lock()
    {
        while (v.exchange(1, std::memory_order_acquire))
            ;
    }
    void unlock() { v.store(0, std::memory_order_release); }
};

// ------------------------------------------------------------------------------------------------ allocator
constexpr uintptr_t ArenaBase = 0x200000000000ull;
constexpr size_t ArenaSize = 64ull << 30;
constexpr size_t BigLimit = 256 * 1024;
constexpr int NumClasses = 64;

struct Header {
    uint32_t cls; // class or 0xFFFFFFFF for big
    uint32_t magic;
    uint64_t size; // usable
};
static_assert(sizeof(Header) == 16);
constexpr uint32_t MagicLive = 0xC1A2B3D4, MagicFree = 0xDEADF4EE, MagicAligned = 0xA116BEEF;

struct FreeNode {
    FreeNode *next;
};

size_t classSize(int c)
{
    // 16,32,48,64,80,96,112,128, then four steps per power of two
    if (c < 8)
        return 16 * (c + 1);
    int k = c - 8;
    size_t base = size_t(128) << (k / 4);
    return base + (base / 4) * (k % 4 + 1);
}
int classFor(size_t n)
{
    if (n <= 128)
        return n ? int((n + 15) / 16) - 1 : 0;
    int c = 8;
    while (classSize(c) < n)
        ++c;
    return c;
}

struct Pool { // random access pool of free slots
    void **v = nullptr;
    size_t n = 0, cap = 0;
};

Spin g_allocLock;
sim::AllocConfig g_alloc;
sim::Rng g_allocRng{1};
uintptr_t g_cur = 0, g_end = 0;
Pool g_pool[NumClasses];
FreeNode *g_bigFree = nullptr;
bool g_arenaReady = false;
uint64_t g_liveBytes = 0;

void arenaInit()
{
    void *p = mmap(reinterpret_cast<void *>(ArenaBase), ArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void *>(ArenaBase)) {
        const char m[] = "sim: cannot map arena\n";
        (void)!::syscall(SYS_write, 2, m, sizeof m - 1);
        ::syscall(SYS_exit_group, 99);
    }
    g_cur = ArenaBase + 4096;
    g_end = ArenaBase + ArenaSize;
    g_arenaReady = true;
}

void *bump(size_t n)
{
    n = (n + 15) & ~size_t(15);
    if (g_cur + n > g_end) {
        const char m[] = "sim: arena exhausted\n";
        (void)!::syscall(SYS_write, 2, m, sizeof m - 1);
        ::syscall(SYS_exit_group, 98);
    }
    void *p = reinterpret_cast<void *>(g_cur);
    g_cur += n;
    return p;
}

void poolPush(Pool &p, void *q)
{
    if (p.n == p.cap) {
        size_t cap = p.cap ? p.cap * 2 : 64;
        void **v = static_cast<void **>(mmap(nullptr, cap * sizeof(void *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (p.n)
            memcpy(v, p.v, p.n * sizeof(void *));
        if (p.v)
            munmap(p.v, p.cap * sizeof(void *));
        p.v = v;
        p.cap = cap;
    }
    p.v[p.n++] = q;
}

void refill(int c)
{
    const size_t sz = classSize(c) + sizeof(Header);
    size_t count = c < 8 ? 256 : (sz < 4096 ? 64 : (sz < 32768 ? 16 : 4));
    for (size_t i = 0; i < count; ++i) {
        auto *h = static_cast<Header *>(bump(sz));
        poolPush(g_pool[c], h);
    }
    if (g_alloc.mode == sim::Alloc_Sequential || g_alloc.mode == sim::Alloc_Sticky || g_alloc.mode == sim::Alloc_NoReuse) {
        // hand out in ascending order
        Pool &p = g_pool[c];
        for (size_t i = 0, j = count - 1; i < j; ++i, --j)
            std::swap(p.v[p.n - count + i], p.v[p.n - count + j]);
    }
}

void fill(void *p, size_t n, int how, sim::Rng &rng)
{
    if (how < 0)
        return;
    if (how < 256) {
        memset(p, how, n);
        return;
    }
    auto *q = static_cast<unsigned char *>(p);
    uint64_t x = rng.next();
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        memcpy(q + i, &x, 8);
    }
    for (; i < n; ++i)
        q[i] = static_cast<unsigned char>(x >> (8 * (i & 7)));
}

void shadowClear(uintptr_t a, size_t n); // race detector

void *allocate(size_t n, bool zero)
{
    g_allocLock.lock();
    if (!g_arenaReady)
        arenaInit();
    Header *h;
    size_t usable;
    bool fresh = true;
    if (n <= BigLimit) {
        int c = classFor(n);
        usable = classSize(c);
        Pool &p = g_pool[c];
        switch (g_alloc.mode) {
        case sim::Alloc_Random: {
            const size_t want = usable < 4096 ? 128 : 12;
            while (p.n < want)
                refill(c);
            size_t i = g_allocRng.below(p.n);
            std::swap(p.v[i], p.v[p.n - 1]);
            h = static_cast<Header *>(p.v[--p.n]);
            break;
        }
        default:
            if (!p.n)
                refill(c);
            h = static_cast<Header *>(p.v[--p.n]);
        }
        h->cls = c;
    } else {
        usable = (n + 4095) & ~size_t(4095);
        if (g_alloc.mode == sim::Alloc_Random)
            g_cur += 16 * g_allocRng.below(4096);
        h = static_cast<Header *>(bump(usable + sizeof(Header)));
        h->cls = 0xFFFFFFFF;
    }
    h->magic = MagicLive;
    h->size = usable;
    g_liveBytes += usable;
    void *r = h + 1;
    if (zero)
        memset(r, 0, n);
    else if (fresh)
        fill(r, usable > 65536 ? 65536 : usable, g_alloc.fillNew, g_allocRng);
    g_allocLock.unlock();
    return r;
}

Header *headerOf(void *p)
{
    Header *h = static_cast<Header *>(p) - 1;
    if (h->magic == MagicAligned) {
        return reinterpret_cast<Header *>(h->size);
    }
    return h;
}

void release(void *p)
{
    Header *h = headerOf(p);
    if (h->magic != MagicLive) {
        const char m[] = "sim: invalid or double free\n";
        (void)!::syscall(SYS_write, 2, m, sizeof m - 1);
        ::abort();
    }
    shadowClear(reinterpret_cast<uintptr_t>(h), h->size + sizeof(Header));
    g_allocLock.lock();
    h->magic = MagicFree;
    g_liveBytes -= h->size;
    fill(h + 1, h->size > 65536 ? 65536 : h->size, g_alloc.fillFreed, g_allocRng);
    if (h->cls != 0xFFFFFFFF) {
        if (g_alloc.mode != sim::Alloc_NoReuse)
            poolPush(g_pool[h->cls], h);
    } else {
        madvise(reinterpret_cast<void *>((reinterpret_cast<uintptr_t>(h + 1) + 4095) & ~uintptr_t(4095)), (h->size & ~size_t(4095)) - 4096, MADV_DONTNEED);
    }
    g_allocLock.unlock();
}

void *allocateAligned(size_t align, size_t n)
{
    if (align <= 16)
        return allocate(n, false);
    char *raw = static_cast<char *>(allocate(n + align + sizeof(Header), false));
    Header *base = reinterpret_cast<Header *>(raw) - 1;
    uintptr_t a = (reinterpret_cast<uintptr_t>(raw) + sizeof(Header) + align - 1) & ~uintptr_t(align - 1);
    auto *h = reinterpret_cast<Header *>(a) - 1;
    h->magic = MagicAligned;
    h->cls = 0;
    h->size = reinterpret_cast<uint64_t>(base);
    return reinterpret_cast<void *>(a);
}

size_t usableSize(void *p)
{
    Header *h = static_cast<Header *>(p) - 1;
    if (h->magic == MagicAligned) {
        auto *b = reinterpret_cast<Header *>(h->size);
        return reinterpret_cast<uintptr_t>(b + 1) + b->size - reinterpret_cast<uintptr_t>(p);
    }
    return h->size;
}
} // namespace

EXPORT void *malloc(size_t n) { return allocate(n, false); }
EXPORT void free(void *p)
{
    int e = errno;
    if (p)
        release(p);
    errno = e;
}
EXPORT void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    return allocate(n, true);
}
EXPORT void *realloc(void *p, size_t n)
{
    if (!p)
        return allocate(n, false);
    if (!n) {
        release(p);
        return nullptr;
    }
    size_t old = usableSize(p);
    if (n <= old && n * 2 >= old)
        return p;
    void *q = allocate(n, false);
    memcpy(q, p, old < n ? old : n);
    release(p);
    return q;
}
EXPORT void *reallocarray(void *p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    return realloc(p, n);
}
EXPORT void *memalign(size_t a, size_t n) { return allocateAligned(a, n); }
EXPORT void *aligned_alloc(size_t a, size_t n) { return allocateAligned(a, n); }
EXPORT int posix_memalign(void **out, size_t a, size_t n)
{
    *out = allocateAligned(a, n);
    return 0;
}
EXPORT void *valloc(size_t n) { return allocateAligned(4096, n); }
EXPORT void *pvalloc(size_t n) { return allocateAligned(4096, (n + 4095) & ~size_t(4095)); }
EXPORT size_t malloc_usable_size(void *p) { return p ? usableSize(p) : 0; }

void sim::allocConfigure(const AllocConfig &c)
{
    g_allocLock.lock();
    g_alloc = c;
    g_allocRng.s = c.seed;
    if (c.mode == Alloc_Random) {
        // displace everything that follows
        g_cur += 16 * g_allocRng.below(1 << 20);
    }
    g_allocLock.unlock();
}

// ------------------------------------------------------------------------------------------------ threads, races
namespace {
constexpr int MaxT = 8;

struct VC {
    uint32_t c[MaxT] = {};
    void join(const VC &o)
    {
        for (int i = 0; i < MaxT; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

struct Thread {
    std::atomic<int> go{0};
    pthread_t handle{};
    uintptr_t stackLo = 0, stackHi = 0;
    bool finished = false;
    const void *blockedOn = nullptr;
    int priority = 0;
    VC vc;
};

bool g_sched = false; // simulated scheduling on
bool g_races = false;
int g_cur_t = -1;
int g_n = 0;
Thread g_threads[MaxT];
Thread g_mainThread;
sim::SchedConfig g_sc;
sim::SchedResult g_sr;
sim::Rng g_schedRng{1};
size_t g_replayPos = 0;
std::vector<uint64_t> *g_changePoints = nullptr;
uint64_t g_budget = 0;
uint64_t g_steps = 0;
__thread int t_inSim = 0; // no recursion from the simulator's own work
__thread int t_id = -1;

struct InSim {
    InSim() { ++t_inSim; }
    ~InSim() { --t_inSim; }
};

void futexWait(std::atomic<int> &a)
{
    while (a.load(std::memory_order_acquire) == 0)
        ::syscall(SYS_futex, reinterpret_cast<int *>(&a), FUTEX_WAIT, 0, nullptr, nullptr, 0);
    a.store(0, std::memory_order_relaxed);
}
void futexWake(std::atomic<int> &a)
{
    a.store(1, std::memory_order_release);
    ::syscall(SYS_futex, reinterpret_cast<int *>(&a), FUTEX_WAKE, 1, nullptr, nullptr, 0);
}

void mix(uint64_t v)
{
    g_sr.hash ^= v + 0x9E3779B97F4A7C15ull + (g_sr.hash << 6) + (g_sr.hash >> 2);
    g_sr.hash *= 0xff51afd7ed558ccdull;
}

bool runnable(int t)
{
    return !g_threads[t].finished && !g_threads[t].blockedOn;
}

void abnormal(const char *why)
{
    ++t_inSim;
    if (sim::onAbnormalEnd)
        sim::onAbnormalEnd(why);
    ::syscall(SYS_exit_group, 97);
}

void switchTo(int t)
{
    int me = g_cur_t;
    if (t == me)
        return;
    g_sr.switches++;
    mix((g_sr.yields << 4) | unsigned(t));
    g_cur_t = t;
    futexWake(g_threads[t].go);
    futexWait(g_threads[me].go);
}

int pickOther(bool includeSelf)
{
    int c[MaxT], n = 0;
    for (int i = 0; i < g_n; ++i)
        if (runnable(i) && (includeSelf || i != g_cur_t))
            c[n++] = i;
    if (!n)
        return -1;
    if (g_sc.strategy == 1) {
        int best = c[0];
        for (int i = 1; i < n; ++i)
            if (g_threads[c[i]].priority > g_threads[best].priority)
                best = c[i];
        return best;
    }
    if (g_sc.strategy == 2)
        return c[0];
    return c[g_schedRng.below(n)];
}

// the current thread cannot go on
void blockCurrent(const void *on)
{
    int me = g_cur_t;
    g_threads[me].blockedOn = on;
    // a forced switch is recorded too, it must replay identically
    int t = -1;
    if (g_sc.strategy == 2 && g_replayPos < g_sc.replay.size() && g_sc.replay[g_replayPos].first == g_sr.yields && runnable(g_sc.replay[g_replayPos].second)) {
        t = g_sc.replay[g_replayPos].second;
        ++g_replayPos;
    } else {
        t = pickOther(false);
    }
    if (t < 0) {
        g_sr.deadlock = true;
        abnormal("deadlock");
    }
    g_sr.preemptions.push_back({g_sr.yields, t});
    switchTo(t);
}

void unblock(const void *on)
{
    for (int i = 0; i < g_n; ++i)
        if (g_threads[i].blockedOn == on)
            g_threads[i].blockedOn = nullptr;
}

// the frames the entered function is going to call will lie in this memory
__attribute__((noinline)) void paintStack()
{
    static uint64_t x = 0x9E3779B97F4A7C15;
    uint64_t b[256];
    if (g_alloc.stack < 256) {
        memset(b, g_alloc.stack, sizeof b);
    } else {
        for (auto &w : b) {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            w = x;
        }
    }
    asm volatile("" ::"r"(b) : "memory");
}

inline void step()
{
    if (++g_steps == g_budget && g_budget)
        abnormal("budget");
}

void yieldPoint(uint32_t p)
{
    const uint64_t y = ++g_sr.yields;
    int t = -1;
    if (g_sc.strategy == 2) {
        // skip points that were passed while blocked
        while (g_replayPos < g_sc.replay.size() && g_sc.replay[g_replayPos].first < y)
            ++g_replayPos;
        if (g_replayPos < g_sc.replay.size() && g_sc.replay[g_replayPos].first == y) {
            t = g_sc.replay[g_replayPos].second;
            ++g_replayPos;
            if (t >= g_n || !runnable(t))
                t = -1;
        }
    } else if (g_sc.strategy == 1) {
        auto &cp = *g_changePoints;
        while (!cp.empty() && cp.back() <= y) {
            cp.pop_back();
            g_threads[g_cur_t].priority = -int(g_sr.preemptions.size()) - 1;
            t = pickOther(true);
        }
    } else if (p && g_schedRng.below(65536) < p) {
        t = pickOther(false);
    }
    if (t >= 0 && t != g_cur_t) {
        g_sr.preemptions.push_back({y, t});
        switchTo(t);
    }
}

// the program itself asks for others to go first (or spins): let them, whatever the strategy
void explicitYield()
{
    if (g_sc.strategy == 2) {
        yieldPoint(0);
        return;
    }
    const uint64_t y = ++g_sr.yields;
    if (g_sc.strategy == 1) {
        g_threads[g_cur_t].priority = -int(g_sr.preemptions.size()) - 1;
    }
    const int t = pickOther(false);
    if (t >= 0) {
        g_sr.preemptions.push_back({y, t});
        switchTo(t);
    }
}

// --- shadow memory
struct Cell {
    uint32_t wclk = 0;
    int8_t wt = -1;
    uint8_t wmask = 0;
    uint8_t reported = 0;
    uint64_t wpc = 0;
    uint32_t rclk[MaxT] = {};
    uint8_t rmask[MaxT] = {};
    uint64_t rpc[MaxT] = {};
};
struct Page {
    Cell c[512];
};
std::unordered_map<uintptr_t, Page *> *g_shadow = nullptr;
std::unordered_map<uintptr_t, VC> *g_syncVC = nullptr;

void shadowClear(uintptr_t a, size_t n)
{
    if (!g_races || !g_shadow || t_inSim)
        return;
    InSim s;
    uintptr_t end = a + n;
    for (uintptr_t pg = a >> 12; pg <= (end - 1) >> 12; ++pg) {
        auto it = g_shadow->find(pg);
        if (it == g_shadow->end())
            continue;
        uintptr_t lo = pg << 12, hi = lo + 4096;
        uintptr_t f = a > lo ? a : lo, t = end < hi ? end : hi;
        for (uintptr_t x = f >> 3; x < (t + 7) >> 3; ++x)
            it->second->c[x & 511] = Cell();
    }
}

bool isStaticAddr(uintptr_t a)
{
    return a >= reinterpret_cast<uintptr_t>(&__data_start) && a < reinterpret_cast<uintptr_t>(&_end);
}

void report(int kind, int t1, uint64_t pc1, int t2, uint64_t pc2, uintptr_t addr, Cell &c)
{
    if (c.reported)
        return;
    c.reported = 1;
    if (g_sr.races.size() < 64)
        g_sr.races.push_back({kind, t1, t2, pc1, pc2, addr, isStaticAddr(addr)});
}

void access1(uintptr_t cellAddr, uint8_t mask, bool write, uint64_t pc)
{
    const int me = g_cur_t;
    Page *&pg = (*g_shadow)[cellAddr >> 12];
    if (!pg)
        pg = new Page();
    Cell &c = pg->c[(cellAddr >> 3) & 511];
    VC &vc = g_threads[me].vc;
    if (c.wt >= 0 && c.wt != me && (c.wmask & mask) && c.wclk > vc.c[c.wt])
        report(write ? 0 : 1, c.wt, c.wpc, me, pc, cellAddr, c);
    if (write) {
        for (int i = 0; i < g_n; ++i)
            if (i != me && (c.rmask[i] & mask) && c.rclk[i] > vc.c[i])
                report(1, i, c.rpc[i], me, pc, cellAddr, c);
        if (c.wt == me && c.wclk == vc.c[me])
            c.wmask |= mask;
        else
            c.wmask = mask;
        c.wt = me;
        c.wclk = vc.c[me];
        c.wpc = pc;
    } else {
        if (c.rclk[me] == vc.c[me])
            c.rmask[me] |= mask;
        else
            c.rmask[me] = mask;
        c.rclk[me] = vc.c[me];
        c.rpc[me] = pc;
    }
}

inline void memAccess(uintptr_t a, size_t n, bool write, uint64_t pc)
{
    step();
    if (!g_sched || t_inSim || t_id < 0 || !n)
        return;
    Thread &t = g_threads[t_id];
    if (a >= t.stackLo && a < t.stackHi)
        return;
    InSim s;
    const bool st = isStaticAddr(a);
    if (st)
        g_sr.staticAccesses++;
    yieldPoint(st ? g_sc.pStatic : g_sc.pOther);
    if (!g_races)
        return;
    uintptr_t end = a + n;
    for (uintptr_t c = a & ~uintptr_t(7); c < end; c += 8) {
        uint8_t mask = 0xff;
        if (c < a)
            mask &= uint8_t(0xff << (a - c));
        if (c + 8 > end)
            mask &= uint8_t(0xff >> (c + 8 - end));
        access1(c, mask, write, pc);
    }
}

void acquire(const void *o)
{
    if (!g_sched || t_id < 0)
        return;
    g_threads[t_id].vc.join((*g_syncVC)[reinterpret_cast<uintptr_t>(o)]);
}
void releaseVC(const void *o)
{
    if (!g_sched || t_id < 0)
        return;
    Thread &t = g_threads[t_id];
    (*g_syncVC)[reinterpret_cast<uintptr_t>(o)].join(t.vc);
    t.vc.c[t_id]++;
}
void syncOp(const void *o, int what)
{
    mix(uint64_t(what) * 31 + unsigned(t_id));
    (void)o;
    yieldPoint(g_sc.pStatic);
}
inline bool simulated()
{
    return g_sched && !t_inSim && t_id >= 0;
}

struct MutexState {
    int owner = -1;
    int count = 0;
    int readers = 0;
};
std::unordered_map<uintptr_t, MutexState> *g_mutexes = nullptr;

template<typename F>
F next(F &slot, const char *name)
{
    if (!slot)
        slot = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    return slot;
}
} // namespace

void (*sim::onAbnormalEnd)(const char *) = nullptr;
void sim::schedSetBudget(uint64_t n)
{
    g_budget = n ? g_steps + n : 0;
}
const sim::SchedResult &sim::schedResult()
{
    g_sr.steps = g_steps;
    return g_sr;
}
void sim::noteEvent(uint64_t v)
{
    mix(v);
}

namespace {
struct StartArg {
    int id;
    void (*body)(int, void *);
    void *arg;
};
void *threadMain(void *p)
{
    auto *a = static_cast<StartArg *>(p);
    t_inSim = 1;
    futexWait(g_threads[a->id].go);
    t_id = a->id;
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void *lo;
    size_t sz;
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    g_threads[t_id].stackLo = reinterpret_cast<uintptr_t>(lo);
    g_threads[t_id].stackHi = reinterpret_cast<uintptr_t>(lo) + sz;
    t_inSim = 0;
    a->body(a->id, a->arg);
    t_inSim = 1;
    g_threads[t_id].finished = true;
    g_sr.yields++;
    int t = -1;
    if (g_sc.strategy == 2 && g_replayPos < g_sc.replay.size() && g_sc.replay[g_replayPos].first == g_sr.yields && runnable(g_sc.replay[g_replayPos].second)) {
        t = g_sc.replay[g_replayPos].second;
        ++g_replayPos;
    } else {
        t = pickOther(false);
    }
    if (t >= 0) {
        g_sr.preemptions.push_back({g_sr.yields, t});
        mix((g_sr.yields << 4) | unsigned(t));
        g_cur_t = t;
        futexWake(g_threads[t].go);
    } else {
        for (int i = 0; i < g_n; ++i)
            if (!g_threads[i].finished) {
                g_sr.deadlock = true;
                abnormal("deadlock");
            }
        futexWake(g_mainThread.go);
    }
    return nullptr;
}
}

void sim::runThreads(const SchedConfig &c, const std::vector<void (*)(int, void *)> &bodies, void *arg)
{
    ++t_inSim;
    g_sc = c;
    g_schedRng.s = c.seed;
    g_n = int(bodies.size());
    g_races = c.races;
    g_shadow = new std::unordered_map<uintptr_t, Page *>();
    g_syncVC = new std::unordered_map<uintptr_t, VC>();
    g_mutexes = new std::unordered_map<uintptr_t, MutexState>();
    g_changePoints = new std::vector<uint64_t>();
    g_sr.preemptions.reserve(4096);
    for (uint32_t i = 0; i < c.nChange; ++i)
        g_changePoints->push_back(g_schedRng.below(c.horizon ? c.horizon : 1));
    std::sort(g_changePoints->rbegin(), g_changePoints->rend());
    std::vector<StartArg> args(g_n);
    for (int i = 0; i < g_n; ++i) {
        args[i] = {i, bodies[i], arg};
        g_threads[i].vc.c[i] = 1;
        g_threads[i].priority = 1000 + int(g_schedRng.below(1000));
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 64 << 20);
        if (pthread_create(&g_threads[i].handle, &at, threadMain, &args[i]) != 0) {
            const char m[] = "sim: cannot create thread\n";
            (void)!::syscall(SYS_write, 2, m, sizeof m - 1);
            ::syscall(SYS_exit_group, 96);
        }
        pthread_attr_destroy(&at);
    }
    g_sched = true;
    int first = c.strategy == 1 ? -1 : 0;
    g_cur_t = 0;
    if (first < 0 || c.strategy == 0)
        first = pickOther(true);
    if (c.strategy == 2 && !c.replay.empty() && c.replay[0].first == 0) {
        first = c.replay[0].second < g_n ? c.replay[0].second : 0;
        g_replayPos = 1;
    }
    g_sr.preemptions.push_back({0, first});
    g_cur_t = first;
    futexWake(g_threads[first].go);
    futexWait(g_mainThread.go);
    g_sched = false;
    g_races = false;
    for (int i = 0; i < g_n; ++i)
        pthread_join(g_threads[i].handle, nullptr);
    --t_inSim;
}

// ------------------------------------------------------------------------------------------------ synchronisation
static int (*r_mlock)(pthread_mutex_t *);
static int (*r_mtry)(pthread_mutex_t *);
static int (*r_munlock)(pthread_mutex_t *);
static int (*r_rdlock)(pthread_rwlock_t *);
static int (*r_wrlock)(pthread_rwlock_t *);
static int (*r_tryrd)(pthread_rwlock_t *);
static int (*r_trywr)(pthread_rwlock_t *);
static int (*r_rwunlock)(pthread_rwlock_t *);
static int (*r_once)(pthread_once_t *, void (*)());
static int (*r_gacq)(uint64_t *);
static void (*r_grel)(uint64_t *);
static void (*r_gabort)(uint64_t *);

static int simLock(const void *m, bool tryOnly, bool shared, bool recursive)
{
    InSim s;
    syncOp(m, 1);
    for (;;) {
        MutexState &st = (*g_mutexes)[reinterpret_cast<uintptr_t>(m)];
        bool ok;
        if (shared)
            ok = st.owner < 0;
        else
            ok = (st.owner < 0 && st.readers == 0) || (recursive && st.owner == t_id);
        if (ok) {
            if (shared)
                st.readers++;
            else {
                st.owner = t_id;
                st.count++;
            }
            acquire(m);
            return 0;
        }
        if (tryOnly)
            return EBUSY;
        blockCurrent(m);
    }
}
static int simUnlock(const void *m)
{
    InSim s;
    MutexState &st = (*g_mutexes)[reinterpret_cast<uintptr_t>(m)];
    releaseVC(m);
    if (st.readers > 0)
        st.readers--;
    else if (--st.count <= 0) {
        st.count = 0;
        st.owner = -1;
    }
    if (st.owner < 0)
        unblock(m);
    syncOp(m, 2);
    return 0;
}
static bool isRecursive(pthread_mutex_t *m)
{
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    if (simulated())
        return simLock(m, false, false, isRecursive(m));
    return next(r_mlock, "pthread_mutex_lock")(m);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
    if (simulated())
        return simLock(m, true, false, isRecursive(m));
    return next(r_mtry, "pthread_mutex_trylock")(m);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    if (simulated())
        return simUnlock(m);
    return next(r_munlock, "pthread_mutex_unlock")(m);
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept
{
    if (simulated())
        return simLock(m, false, true, false);
    return next(r_rdlock, "pthread_rwlock_rdlock")(m);
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept
{
    if (simulated())
        return simLock(m, false, false, false);
    return next(r_wrlock, "pthread_rwlock_wrlock")(m);
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) noexcept
{
    if (simulated())
        return simLock(m, true, true, false);
    return next(r_tryrd, "pthread_rwlock_tryrdlock")(m);
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *m) noexcept
{
    if (simulated())
        return simLock(m, true, false, false);
    return next(r_trywr, "pthread_rwlock_trywrlock")(m);
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept
{
    if (simulated())
        return simUnlock(m);
    return next(r_rwunlock, "pthread_rwlock_unlock")(m);
}
// pthread_once and the guards of function-local statics: the real state word is used, the waiting is ours
namespace {
std::unordered_map<uintptr_t, int> *g_onces = nullptr; // 1: running
}
EXPORT int pthread_once(pthread_once_t *o, void (*f)()) noexcept(false)
{
    if (!simulated())
        return next(r_once, "pthread_once")(o, f);
    {
        InSim s;
        syncOp(o, 3);
        if (!g_onces)
            g_onces = new std::unordered_map<uintptr_t, int>();
        while ((*g_onces)[reinterpret_cast<uintptr_t>(o)] == 1)
            blockCurrent(o);
        if ((*reinterpret_cast<volatile int *>(o) & 2) != 0) {
            acquire(o);
            return 0;
        }
        (*g_onces)[reinterpret_cast<uintptr_t>(o)] = 1;
    }
    f();
    {
        InSim s;
        *reinterpret_cast<volatile int *>(o) = 2; // what glibc stores once done
        (*g_onces)[reinterpret_cast<uintptr_t>(o)] = 2;
        releaseVC(o);
        unblock(o);
        syncOp(o, 4);
    }
    return 0;
}
namespace {
std::unordered_map<uintptr_t, int> *g_guards = nullptr; // 1: being initialised
}
EXPORT int __cxa_guard_acquire(uint64_t *g)
{
    if (!simulated())
        return next(r_gacq, "__cxa_guard_acquire")(g);
    InSim s;
    syncOp(g, 5);
    if (!g_guards)
        g_guards = new std::unordered_map<uintptr_t, int>();
    for (;;) {
        if (*reinterpret_cast<volatile char *>(g)) {
            acquire(g);
            return 0;
        }
        int &st = (*g_guards)[reinterpret_cast<uintptr_t>(g)];
        if (st == 0) {
            st = 1;
            return 1;
        }
        blockCurrent(g);
    }
}
EXPORT void __cxa_guard_release(uint64_t *g)
{
    if (!simulated()) {
        next(r_grel, "__cxa_guard_release")(g);
        return;
    }
    InSim s;
    *reinterpret_cast<volatile char *>(g) = 1;
    (*g_guards)[reinterpret_cast<uintptr_t>(g)] = 0;
    releaseVC(g);
    unblock(g);
    syncOp(g, 6);
}
EXPORT void __cxa_guard_abort(uint64_t *g)
{
    if (!simulated()) {
        next(r_gabort, "__cxa_guard_abort")(g);
        return;
    }
    InSim s;
    (*g_guards)[reinterpret_cast<uintptr_t>(g)] = 0;
    unblock(g);
}

// ------------------------------------------------------------------------------------------------ instrumentation callbacks
#define PC reinterpret_cast<uint64_t>(__builtin_return_address(0))
#define RW(N)                                                                                                                                                  \
    EXPORT void __tsan_read##N(void *a) { memAccess(reinterpret_cast<uintptr_t>(a), N, false, PC); }                                                          \
    EXPORT void __tsan_write##N(void *a) { memAccess(reinterpret_cast<uintptr_t>(a), N, true, PC); }                                                          \
    EXPORT void __tsan_unaligned_read##N(void *a) { memAccess(reinterpret_cast<uintptr_t>(a), N, false, PC); }                                                \
    EXPORT void __tsan_unaligned_write##N(void *a) { memAccess(reinterpret_cast<uintptr_t>(a), N, true, PC); }                                                \
    EXPORT void __tsan_read_write##N(void *a) { memAccess(reinterpret_cast<uintptr_t>(a), N, true, PC); }                                                     \
    EXPORT void __tsan_unaligned_read_write##N(void *a) { memAccess(reinterpret_cast<uintptr_t>(a), N, true, PC); }                                           \
    EXPORT void __tsan_volatile_read##N(void *a) { memAccess(reinterpret_cast<uintptr_t>(a), N, false, PC); }                                                 \
    EXPORT void __tsan_volatile_write##N(void *a) { memAccess(reinterpret_cast<uintptr_t>(a), N, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *)
{
    step();
    if (g_alloc.stack != -1 && (g_steps & 15) == 0)
        paintStack();
}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
EXPORT void __tsan_vptr_update(void **a, void *v)
{
    if (*a != v)
        memAccess(reinterpret_cast<uintptr_t>(a), 8, true, PC);
}
EXPORT void __tsan_vptr_read(void **a) { memAccess(reinterpret_cast<uintptr_t>(a), 8, false, PC); }
EXPORT void __tsan_read_range(void *a, unsigned long n) { memAccess(reinterpret_cast<uintptr_t>(a), n, false, PC); }
EXPORT void __tsan_write_range(void *a, unsigned long n) { memAccess(reinterpret_cast<uintptr_t>(a), n, true, PC); }
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n)
{
    memAccess(reinterpret_cast<uintptr_t>(s), n, false, PC);
    memAccess(reinterpret_cast<uintptr_t>(d), n, true, PC);
    return memcpy(d, s, n);
}
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n)
{
    memAccess(reinterpret_cast<uintptr_t>(s), n, false, PC);
    memAccess(reinterpret_cast<uintptr_t>(d), n, true, PC);
    return memmove(d, s, n);
}
EXPORT void *__tsan_memset(void *d, int v, size_t n)
{
    memAccess(reinterpret_cast<uintptr_t>(d), n, true, PC);
    return memset(d, v, n);
}
static const volatile void *g_spinOn = nullptr;
static uint64_t g_spinSwitches = 0;
static int g_spins = 0;
static inline void atomicOp(const volatile void *a, bool rel)
{
    step();
    if (!simulated())
        return;
    InSim s;
    if (a == g_spinOn && g_spinSwitches == g_sr.switches) {
        if (++g_spins > 500) {
            g_spins = 0;
            explicitYield(); // a spin lock
        }
    } else {
        g_spinOn = a;
        g_spinSwitches = g_sr.switches;
        g_spins = 0;
    }
    syncOp(const_cast<const void *>(a), 7);
    if (!g_syncVC->count(reinterpret_cast<uintptr_t>(a))) {
        // never released by instrumented code: perhaps by a library, so assume the strongest ordering
        for (int i = 0; i < g_n; ++i)
            if (i != t_id) {
                g_threads[t_id].vc.join(g_threads[i].vc);
            }
    }
    acquire(const_cast<const void *>(a));
    if (rel)
        releaseVC(const_cast<const void *>(a));
}
#define ATOMICS(B, T)                                                                                                                                          \
    EXPORT T __tsan_atomic##B##_load(const volatile T *a, int)                                                                                                 \
    {                                                                                                                                                          \
        atomicOp(a, false);                                                                                                                                    \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                                                           \
    }                                                                                                                                                          \
    EXPORT void __tsan_atomic##B##_store(volatile T *a, T v, int)                                                                                              \
    {                                                                                                                                                          \
        atomicOp(a, true);                                                                                                                                     \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                                                              \
    }                                                                                                                                                          \
    EXPORT T __tsan_atomic##B##_exchange(volatile T *a, T v, int)                                                                                              \
    {                                                                                                                                                          \
        atomicOp(a, true);                                                                                                                                     \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                                                    \
    }                                                                                                                                                          \
    EXPORT T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int)                                                                                             \
    {                                                                                                                                                          \
        atomicOp(a, true);                                                                                                                                     \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                                                                     \
    }                                                                                                                                                          \
    EXPORT T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int)                                                                                             \
    {                                                                                                                                                          \
        atomicOp(a, true);                                                                                                                                     \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                                                                     \
    }                                                                                                                                                          \
    EXPORT T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int)                                                                                             \
    {                                                                                                                                                          \
        atomicOp(a, true);                                                                                                                                     \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                                                                     \
    }                                                                                                                                                          \
    EXPORT T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int)                                                                                              \
    {                                                                                                                                                          \
        atomicOp(a, true);                                                                                                                                     \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                                                                      \
    }                                                                                                                                                          \
    EXPORT T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int)                                                                                             \
    {                                                                                                                                                          \
        atomicOp(a, true);                                                                                                                                     \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                                                                     \
    }                                                                                                                                                          \
    EXPORT T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int)                                                                                            \
    {                                                                                                                                                          \
        atomicOp(a, true);                                                                                                                                     \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                                                                    \
    }                                                                                                                                                          \
    EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int, int)                                                                  \
    {                                                                                                                                                          \
        atomicOp(a, true);                                                                                                                                     \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                \
    }                                                                                                                                                          \
    EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int, int)                                                                    \
    {                                                                                                                                                          \
        atomicOp(a, true);                                                                                                                                     \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                \
    }                                                                                                                                                          \
    EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int, int)                                                                        \
    {                                                                                                                                                          \
        atomicOp(a, true);                                                                                                                                     \
        __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                      \
        return e;                                                                                                                                              \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { step(); }
EXPORT void __tsan_atomic_signal_fence(int) {}

// Non-template parts of the standard containers: not instrumented, so tell the race detector what they write
namespace simstd {
using Ins = void (*)(bool, std::_Rb_tree_node_base *, std::_Rb_tree_node_base *, std::_Rb_tree_node_base &);
using Era = std::_Rb_tree_node_base *(*)(std::_Rb_tree_node_base *, std::_Rb_tree_node_base &);
static Ins r_ins;
static Era r_era;
}
EXPORT void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, std::_Rb_tree_node_base *x, std::_Rb_tree_node_base *p, std::_Rb_tree_node_base &h)
{
    if (simulated()) {
        memAccess(reinterpret_cast<uintptr_t>(&h) + 8, 24, true, PC);
        memAccess(reinterpret_cast<uintptr_t>(p) + 8, 24, true, PC);
    }
    next(simstd::r_ins, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_")(l, x, p, h);
}
EXPORT std::_Rb_tree_node_base *_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(std::_Rb_tree_node_base *z, std::_Rb_tree_node_base &h)
{
    if (simulated()) {
        memAccess(reinterpret_cast<uintptr_t>(&h) + 8, 24, true, PC);
        if (z->_M_parent)
            memAccess(reinterpret_cast<uintptr_t>(z->_M_parent) + 8, 24, true, PC);
    }
    return next(simstd::r_era, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_")(z, h);
}

// Calls of the executable's own code into non-instrumented library functions that write their object. The library
// calls these functions itself as well; those calls are not ours to judge.
extern "C" char __executable_start, etext;
static inline bool fromHere(uint64_t pc)
{
    return pc >= reinterpret_cast<uint64_t>(&__executable_start) && pc < reinterpret_cast<uint64_t>(&etext);
}
EXPORT void sim_libraryWrite(uintptr_t a, size_t n, uint64_t pc)
{
    if (simulated() && fromHere(pc))
        memAccess(a, n, true, pc);
}
static __int128 (*r_rehash)(long, long, long, long);
EXPORT __int128 _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(long a, long b, long c, long d)
{
    if (simulated() && fromHere(PC))
        memAccess(uintptr_t(a), 16, true, PC); // every insertion into a hash container goes through this
    return next(r_rehash, "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm")(a, b, c, d);
}
// C library functions with hidden static state
#define LIBSTATE(SYM)                                                                                                                                          \
    static long (*r_##SYM)(long, long, long, long, long, long);                                                                                                \
    static long s_##SYM;                                                                                                                                       \
    EXPORT long sim_##SYM(long a, long b, long c, long d, long e, long f) __asm__(#SYM);                                                                       \
    EXPORT long sim_##SYM(long a, long b, long c, long d, long e, long f)                                                                                      \
    {                                                                                                                                                          \
        if (simulated() && fromHere(PC))                                                                                                                       \
            memAccess(reinterpret_cast<uintptr_t>(&s_##SYM), 8, true, PC);                                                                                     \
        return next(r_##SYM, #SYM)(a, b, c, d, e, f);                                                                                                          \
    }
LIBSTATE(strtok)
LIBSTATE(localtime)
LIBSTATE(gmtime)
LIBSTATE(asctime)
LIBSTATE(ctime)
static long s_chdir;
LIBSTATE(umask)
LIBSTATE(setlocale)
LIBSTATE(tmpnam)
// the environment: one location
static long s_environ;
#define ENVWRITE(SYM)                                                                                                                                          \
    static long (*r_##SYM)(long, long, long, long, long, long);                                                                                                \
    EXPORT long sim_##SYM(long a, long b, long c, long d, long e, long f) __asm__(#SYM);                                                                       \
    EXPORT long sim_##SYM(long a, long b, long c, long d, long e, long f)                                                                                      \
    {                                                                                                                                                          \
        if (simulated())                                                                                                                                       \
            memAccess(reinterpret_cast<uintptr_t>(&s_environ), 8, true, PC);                                                                                   \
        return next(r_##SYM, #SYM)(a, b, c, d, e, f);                                                                                                          \
    }
ENVWRITE(setenv)
ENVWRITE(unsetenv)
ENVWRITE(putenv)

// ------------------------------------------------------------------------------------------------ environment
namespace {
sim::Rng g_envRng{1};
uint64_t g_clock = 1700000000ull * 1000000000ull;
bool g_env = false;
}
void sim::envConfigure(uint64_t seed)
{
    g_envRng.s = seed;
    g_clock += g_envRng.below(1ull << 56);
    g_env = true;
}
static uint64_t simNow()
{
    // simulated time: advances with every query, now and then by a lot
    g_clock += 1000 + g_envRng.below(1000);
    return g_clock + g_steps;
}
EXPORT uint32_t arc4random() noexcept { return static_cast<uint32_t>(g_envRng.next()); }
EXPORT uint32_t arc4random_uniform(uint32_t n) noexcept { return static_cast<uint32_t>(g_envRng.below(n)); }
EXPORT void arc4random_buf(void *p, size_t n) noexcept
{
    for (size_t i = 0; i < n; ++i)
        static_cast<unsigned char *>(p)[i] = static_cast<unsigned char>(g_envRng.next());
}
EXPORT int rand() noexcept { return static_cast<int>(g_envRng.next() & 0x7fffffff); }
EXPORT long random() noexcept { return static_cast<long>(g_envRng.next() & 0x7fffffff); }
EXPORT void srand(unsigned) noexcept {}
EXPORT ssize_t getrandom(void *p, size_t n, unsigned)
{
    arc4random_buf(p, n);
    return static_cast<ssize_t>(n);
}
EXPORT int clock_gettime(clockid_t, struct timespec *ts) noexcept
{
    uint64_t t = simNow();
    ts->tv_sec = static_cast<time_t>(t / 1000000000ull);
    ts->tv_nsec = static_cast<long>(t % 1000000000ull);
    return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *) noexcept
{
    uint64_t t = simNow();
    tv->tv_sec = static_cast<time_t>(t / 1000000000ull);
    tv->tv_usec = static_cast<long>(t % 1000000000ull / 1000);
    return 0;
}
EXPORT time_t time(time_t *o) noexcept
{
    auto t = static_cast<time_t>(simNow() / 1000000000ull);
    if (o)
        *o = t;
    return t;
}
EXPORT int usleep(useconds_t us)
{
    g_clock += us * 1000ull;
    if (simulated()) {
        InSim s;
        explicitYield();
    }
    return 0;
}
EXPORT int nanosleep(const struct timespec *ts, struct timespec *)
{
    g_clock += uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec);
    if (simulated()) {
        InSim s;
        explicitYield();
    }
    return 0;
}
EXPORT int sched_yield() noexcept
{
    if (simulated()) {
        InSim s;
        explicitYield();
    }
    return 0;
}
static char *(*r_getenv)(const char *);
EXPORT char *getenv(const char *n) noexcept
{
    if (simulated()) {
        {
            InSim s;
            yieldPoint(g_sc.pStatic);
        }
        memAccess(reinterpret_cast<uintptr_t>(&s_environ), 8, false, PC);
    }
    return next(r_getenv, "getenv")(n);
}

// ------------------------------------------------------------------------------------------------ file system
namespace {
char g_vroot[64] = "", g_rroot[256] = "";
size_t g_vlen = 0, g_rlen = 0;
std::vector<sim::Fault> *g_faults = nullptr;
std::vector<sim::FsOp> *g_ops = nullptr;
bool g_fsRecord = false;
int g_gateIn = -1, g_gateOut = -1;
char *g_fdPath[4096]; // virtual path of descriptors inside the scratch area
bool g_fdWrite[4096];

struct XPath {
    char buf[PATH_MAX];
    const char *p;
    bool scratch;
    explicit XPath(const char *in)
    {
        scratch = false;
        p = in;
        if (!in || !g_vlen)
            return;
        if (in[0] == '/') {
            if (strncmp(in, g_vroot, g_vlen) == 0 && (in[g_vlen] == '/' || in[g_vlen] == 0)) {
                snprintf(buf, sizeof buf, "%s%s", g_rroot, in + g_vlen);
                p = buf;
                scratch = true;
            }
        } else {
            // relative: the working directory is real, see whether it is inside the scratch area
            char cwd[PATH_MAX];
            if (::syscall(SYS_getcwd, cwd, sizeof cwd) > 0 && strncmp(cwd, g_rroot, g_rlen) == 0)
                scratch = true;
        }
    }
};

// the virtual path of something in the scratch area, for matching faults
std::string virtualPath(const char *orig)
{
    if (orig[0] == '/')
        return orig;
    char cwd[PATH_MAX];
    if (::syscall(SYS_getcwd, cwd, sizeof cwd) <= 0)
        return orig;
    std::string c = cwd;
    if (c.compare(0, g_rlen, g_rroot) == 0)
        c = std::string(g_vroot) + c.substr(g_rlen);
    if (orig[0] == '.' && orig[1] == '/')
        orig += 2;
    return c + "/" + orig;
}

bool matches(const sim::Fault &f, const char *op, const std::string &path)
{
    if (f.op != "any" && f.op != op) {
        bool group = f.op == "mutate" && (!strcmp(op, "create") || !strcmp(op, "write") || !strcmp(op, "close") || !strcmp(op, "rename") || !strcmp(op, "unlink") || !strcmp(op, "sync"));
        if (!group)
            return false;
    }
    if (f.path.empty())
        return true;
    if (f.path[0] == '*')
        return path.find(f.path.c_str() + 1) != std::string::npos;
    return path.size() >= f.path.size() && path.compare(path.size() - f.path.size(), std::string::npos, f.path) == 0;
}

void gate(const char *op, const std::string &path)
{
    // several simulated processes: the conductor decides who performs its next operation
    if (g_gateOut < 0)
        return;
    char m[512];
    int n = snprintf(m, sizeof m, "%s %s\n", op, path.c_str());
    (void)!::syscall(SYS_write, g_gateOut, m, n);
    char c = 0;
    if (::syscall(SYS_read, g_gateIn, &c, 1) != 1 || c == 'k')
        ::syscall(SYS_exit_group, 77);
}

// returns the fault to apply or -1
int consult(const char *op, const std::string &path)
{
    int hit = -1;
    if (g_faults)
        for (size_t i = 0; i < g_faults->size(); ++i) {
            auto &f = (*g_faults)[i];
            if (!matches(f, op, path))
                continue;
            int k = f.seen++;
            if (k >= f.nth && (f.times < 0 || k < f.nth + f.times) && hit < 0) {
                f.fired++;
                hit = int(i);
            }
        }
    return hit;
}

int errnoOf(const std::string &a)
{
    static const std::pair<const char *, int> t[] = {{"ENOENT", ENOENT}, {"EIO", EIO}, {"ENOSPC", ENOSPC}, {"EACCES", EACCES}, {"EINTR", EINTR}, {"EMFILE", EMFILE}, {"EROFS", EROFS}, {"EDQUOT", EDQUOT}, {"ENOTDIR", ENOTDIR}, {"EEXIST", EEXIST}, {"EXDEV", EXDEV}, {"ENAMETOOLONG", ENAMETOOLONG}, {"EISDIR", EISDIR}, {"EAGAIN", EAGAIN}, {"EPERM", EPERM}, {"EBUSY", EBUSY}, {"ETXTBSY", ETXTBSY}};
    for (auto &p : t)
        if (a == p.first)
            return p.second;
    return 0;
}

void record(const char *op, const std::string &path, long res, int err, int fault)
{
    if (g_fsRecord && g_ops)
        g_ops->push_back({op, path, res, err, fault});
    uint64_t h = 1469598103934665603ull;
    for (const char *s = op; *s; ++s)
        h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
    for (char c : path)
        h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
    mix(h ^ uint64_t(res < 0 ? err : 0));
}

// common path: returns false if the operation must not be performed (errno set)
struct Op {
    const char *op;
    std::string path;
    int f = -1;
    bool after = false;
    bool proceed = true;
    Op(const char *o, std::string p)
        : op(o)
        , path(std::move(p))
    {
        if (simulated_())
            yieldPoint(g_sc.pStatic);
        gate(op, path);
        f = consult(op, path);
        if (f < 0)
            return;
        const auto &a = (*g_faults)[f].act;
        if (a == "killbefore")
            ::syscall(SYS_exit_group, 77);
        if (a == "killafter") {
            after = true;
            return;
        }
        if (int e = errnoOf(a)) {
            errno = e;
            proceed = false;
            record(op, path, -1, e, f);
        }
    }
    static bool simulated_() { return g_sched && t_id >= 0; }
    long done(long r)
    {
        int e = errno;
        record(op, path, r, r < 0 ? e : 0, f);
        if (after)
            ::syscall(SYS_exit_group, 77);
        errno = e;
        return r;
    }
    const sim::Fault *fault() const { return f >= 0 ? &(*g_faults)[f] : nullptr; }
};

int doOpen(int dir, const char *path, int flags, mode_t mode)
{
    if (t_inSim)
        return int(::syscall(SYS_openat, dir, path, flags, mode));
    XPath x(path);
    if (dir != AT_FDCWD || !x.scratch)
        return int(::syscall(SYS_openat, dir, x.p, flags, mode));
    InSim s;
    const bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
    Op o(wr ? "create" : "open", virtualPath(path));
    if (!o.proceed)
        return -1;
    int fd = int(::syscall(SYS_openat, dir, x.p, flags, mode));
    if (fd >= 0 && fd < 4096) {
        int e = errno;
        ::free(g_fdPath[fd]);
        g_fdPath[fd] = strdup(o.path.c_str());
        g_fdWrite[fd] = wr;
        errno = e;
    }
    return int(o.done(fd));
}
bool tracked(int fd)
{
    return fd >= 0 && fd < 4096 && g_fdPath[fd] && !t_inSim;
}
} // namespace

void sim::fsConfigure(const std::string &v, const std::string &r, std::vector<Fault> faults, int gateIn, int gateOut)
{
    snprintf(g_vroot, sizeof g_vroot, "%s", v.c_str());
    snprintf(g_rroot, sizeof g_rroot, "%s", r.c_str());
    g_vlen = v.size();
    g_rlen = r.size();
    g_faults = new std::vector<Fault>(std::move(faults));
    g_ops = new std::vector<FsOp>();
    g_gateIn = gateIn;
    g_gateOut = gateOut;
}
void sim::fsRecord(bool on) { g_fsRecord = on; }
const std::vector<sim::FsOp> &sim::fsTrace()
{
    static std::vector<FsOp> empty;
    return g_ops ? *g_ops : empty;
}
const std::vector<sim::Fault> &sim::fsFaults()
{
    static std::vector<Fault> empty;
    return g_faults ? *g_faults : empty;
}
std::string sim::fsUnmap(const std::string &s)
{
    if (!g_rlen)
        return s;
    std::string out;
    size_t i = 0;
    for (;;) {
        size_t j = s.find(g_rroot, i);
        if (j == std::string::npos)
            break;
        out.append(s, i, j - i);
        out += g_vroot;
        i = j + g_rlen;
    }
    out.append(s, i, std::string::npos);
    return out;
}
bool sim::scratchFdsOpen(std::string &which)
{
    for (int i = 0; i < 4096; ++i)
        if (g_fdPath[i]) {
            which = g_fdPath[i];
            return true;
        }
    return false;
}

EXPORT int open(const char *p, int flags, ...)
{
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    return doOpen(AT_FDCWD, p, flags, mode);
}
EXPORT int open64(const char *p, int flags, ...)
{
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    return doOpen(AT_FDCWD, p, flags, mode);
}
EXPORT int openat(int d, const char *p, int flags, ...)
{
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    return doOpen(d, p, flags, mode);
}
EXPORT int openat64(int d, const char *p, int flags, ...)
{
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = va_arg(ap, mode_t);
        va_end(ap);
    }
    return doOpen(d, p, flags, mode);
}
EXPORT int creat(const char *p, mode_t m) { return doOpen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return doOpen(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE *(*r_fopen)(const char *, const char *);
static FILE *doFopen(const char *p, const char *mode)
{
    XPath x(p);
    if (t_inSim || !x.scratch)
        return next(r_fopen, "fopen")(x.p, mode);
    InSim s;
    const bool wr = strpbrk(mode, "wa+") != nullptr;
    Op o(wr ? "create" : "open", virtualPath(p));
    if (!o.proceed)
        return nullptr;
    FILE *f = next(r_fopen, "fopen")(x.p, mode);
    if (f) {
        int fd = fileno(f);
        if (fd >= 0 && fd < 4096) {
            ::free(g_fdPath[fd]);
            g_fdPath[fd] = strdup(o.path.c_str());
            g_fdWrite[fd] = wr;
        }
    }
    o.done(f ? 0 : -1);
    return f;
}
EXPORT FILE *fopen(const char *p, const char *m) { return doFopen(p, m); }
EXPORT FILE *fopen64(const char *p, const char *m) { return doFopen(p, m); }
static int (*r_fclose)(FILE *);
EXPORT int fclose(FILE *f)
{
    int fd = f ? fileno(f) : -1;
    if (!tracked(fd))
        return next(r_fclose, "fclose")(f);
    InSim s;
    Op o("close", g_fdPath[fd]);
    ::free(g_fdPath[fd]);
    g_fdPath[fd] = nullptr;
    int r = next(r_fclose, "fclose")(f);
    if (!o.proceed) {
        errno = errnoOf(o.fault()->act);
        return EOF;
    }
    return int(o.done(r));
}

static ssize_t doRead(int fd, void *b, size_t n, off_t off, bool at)
{
    auto real = [&](size_t m) { return at ? ::syscall(SYS_pread64, fd, b, m, off) : ::syscall(SYS_read, fd, b, m); };
    if (!tracked(fd))
        return real(n);
    InSim s;
    Op o("read", g_fdPath[fd]);
    if (!o.proceed)
        return -1;
    if (auto *f = o.fault(); f && f->act == "short" && n > 1)
        n = size_t(f->arg) < n && f->arg > 0 ? size_t(f->arg) : n / 2;
    if (auto *f = o.fault(); f && f->act == "eof")
        return o.done(0);
    return o.done(real(n));
}
static ssize_t doWrite(int fd, const void *b, size_t n, off_t off, bool at)
{
    auto real = [&](size_t m) { return at ? ::syscall(SYS_pwrite64, fd, b, m, off) : ::syscall(SYS_write, fd, b, m); };
    if (!tracked(fd))
        return real(n);
    InSim s;
    Op o("write", g_fdPath[fd]);
    if (!o.proceed)
        return -1;
    if (auto *f = o.fault()) {
        if (f->act == "short" && n > 1)
            n = size_t(f->arg) < n && f->arg > 0 ? size_t(f->arg) : n / 2;
        if (f->act == "torn") {
            real(n * unsigned(f->arg) / 256); // part of the bytes reach the file, then the process is gone
            ::syscall(SYS_exit_group, 77);
        }
        if (f->act == "partfull") {
            // the disk fills up in the middle of the write: some bytes fit, the following write fails
            n = n > 1 ? n / 2 : n;
        }
    }
    return o.done(real(n));
}
EXPORT ssize_t read(int fd, void *b, size_t n) { return doRead(fd, b, n, 0, false); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return doRead(fd, b, n, o, true); }
EXPORT ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return doRead(fd, b, n, o, true); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { return doWrite(fd, b, n, 0, false); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return doWrite(fd, b, n, o, true); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return doWrite(fd, b, n, o, true); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!tracked(fd))
        return ::syscall(SYS_writev, fd, v, c);
    // as one write of the concatenation
    size_t n = 0;
    for (int i = 0; i < c; ++i)
        n += v[i].iov_len;
    std::string all;
    {
        InSim s;
        all.reserve(n);
        for (int i = 0; i < c; ++i)
            all.append(static_cast<char *>(v[i].iov_base), v[i].iov_len);
    }
    return doWrite(fd, all.data(), n, 0, false);
}
EXPORT int close(int fd)
{
    if (!tracked(fd)) {
        if (t_inSim && fd >= 0 && fd < 4096 && g_fdPath[fd]) {
            ::free(g_fdPath[fd]);
            g_fdPath[fd] = nullptr;
        }
        return int(::syscall(SYS_close, fd));
    }
    InSim s;
    const bool wr = g_fdWrite[fd];
    std::string path = g_fdPath[fd];
    ::free(g_fdPath[fd]);
    g_fdPath[fd] = nullptr;
    Op o(wr ? "close" : "closer", path);
    int r = int(::syscall(SYS_close, fd));
    if (!o.proceed) {
        errno = errnoOf(o.fault()->act);
        return -1;
    }
    return int(o.done(r));
}
EXPORT int rename(const char *a, const char *b) noexcept
{
    XPath x(a), y(b);
    if (t_inSim || (!x.scratch && !y.scratch))
        return int(::syscall(SYS_rename, x.p, y.p));
    InSim s;
    Op o("rename", virtualPath(b));
    if (!o.proceed)
        return -1;
    return int(o.done(::syscall(SYS_rename, x.p, y.p)));
}
EXPORT int renameat(int d1, const char *a, int d2, const char *b) noexcept
{
    if (d1 == AT_FDCWD && d2 == AT_FDCWD)
        return rename(a, b);
    return int(::syscall(SYS_renameat, d1, a, d2, b));
}
EXPORT int link(const char *a, const char *b) noexcept
{
    XPath x(a), y(b);
    if (t_inSim || !y.scratch)
        return int(::syscall(SYS_link, x.p, y.p));
    InSim s;
    Op o("rename", virtualPath(b));
    if (!o.proceed)
        return -1;
    return int(o.done(::syscall(SYS_link, x.p, y.p)));
}
static int doUnlink(const char *a, bool rm)
{
    XPath x(a);
    auto real = [&] {
        int r = int(::syscall(SYS_unlink, x.p));
        if (r < 0 && rm && errno == EISDIR)
            r = int(::syscall(SYS_rmdir, x.p));
        return r;
    };
    if (t_inSim || !x.scratch)
        return real();
    InSim s;
    Op o("unlink", virtualPath(a));
    if (!o.proceed)
        return -1;
    return int(o.done(real()));
}
EXPORT int unlink(const char *a) noexcept { return doUnlink(a, false); }
EXPORT int remove(const char *a) noexcept { return doUnlink(a, true); }
EXPORT int unlinkat(int d, const char *a, int fl) noexcept
{
    if (d == AT_FDCWD && a[0] == '/')
        return doUnlink(a, fl & AT_REMOVEDIR);
    return int(::syscall(SYS_unlinkat, d, a, fl));
}
static int doSync(int fd, long nr)
{
    if (!tracked(fd))
        return int(::syscall(nr, fd));
    InSim s;
    Op o("sync", g_fdPath[fd]);
    if (!o.proceed)
        return -1;
    return int(o.done(::syscall(nr, fd)));
}
EXPORT int fsync(int fd) { return doSync(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return doSync(fd, SYS_fdatasync); }
static int doTrunc(int fd, off_t n)
{
    if (!tracked(fd))
        return int(::syscall(SYS_ftruncate, fd, n));
    InSim s;
    Op o("write", g_fdPath[fd]);
    if (!o.proceed)
        return -1;
    return int(o.done(::syscall(SYS_ftruncate, fd, n)));
}
EXPORT int ftruncate(int fd, off_t n) noexcept { return doTrunc(fd, n); }
EXPORT int ftruncate64(int fd, off64_t n) noexcept { return doTrunc(fd, n); }
EXPORT int truncate(const char *p, off_t n) noexcept
{
    XPath x(p);
    if (t_inSim || !x.scratch)
        return int(::syscall(SYS_truncate, x.p, n));
    InSim s;
    Op o("write", virtualPath(p));
    if (!o.proceed)
        return -1;
    return int(o.done(::syscall(SYS_truncate, x.p, n)));
}
static int doStat(const char *p, struct stat *st, int flags)
{
    XPath x(p);
    if (t_inSim || !x.scratch)
        return int(::syscall(SYS_newfstatat, AT_FDCWD, x.p, st, flags));
    InSim s;
    Op o("stat", virtualPath(p));
    if (!o.proceed)
        return -1;
    return int(o.done(::syscall(SYS_newfstatat, AT_FDCWD, x.p, st, flags)));
}
EXPORT int stat(const char *p, struct stat *st) noexcept { return doStat(p, st, 0); }
EXPORT int lstat(const char *p, struct stat *st) noexcept { return doStat(p, st, AT_SYMLINK_NOFOLLOW); }
EXPORT int stat64(const char *p, struct stat64 *st) noexcept { return doStat(p, reinterpret_cast<struct stat *>(st), 0); }
EXPORT int lstat64(const char *p, struct stat64 *st) noexcept { return doStat(p, reinterpret_cast<struct stat *>(st), AT_SYMLINK_NOFOLLOW); }
EXPORT int access(const char *p, int m) noexcept
{
    XPath x(p);
    return int(::syscall(SYS_access, x.p, m));
}
EXPORT int chmod(const char *p, mode_t m) noexcept
{
    XPath x(p);
    return int(::syscall(SYS_chmod, x.p, m));
}
EXPORT int mkdir(const char *p, mode_t m) noexcept
{
    XPath x(p);
    return int(::syscall(SYS_mkdir, x.p, m));
}
EXPORT int rmdir(const char *p) noexcept
{
    XPath x(p);
    return int(::syscall(SYS_rmdir, x.p));
}
EXPORT int chdir(const char *p) noexcept
{
    if (simulated() && fromHere(PC))
        memAccess(reinterpret_cast<uintptr_t>(&s_chdir), 8, true, PC);
    XPath x(p);
    return int(::syscall(SYS_chdir, x.p));
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n) noexcept
{
    XPath x(p);
    return ::syscall(SYS_readlink, x.p, b, n);
}
EXPORT char *getcwd(char *b, size_t n) noexcept
{
    char tmp[PATH_MAX];
    long r = ::syscall(SYS_getcwd, tmp, sizeof tmp);
    if (r < 0)
        return nullptr;
    std::string s = tmp;
    {
        InSim g;
        if (g_rlen && s.compare(0, g_rlen, g_rroot) == 0 && (s.size() == g_rlen || s[g_rlen] == '/'))
            s = std::string(g_vroot) + s.substr(g_rlen);
    }
    if (!b) {
        if (!n)
            n = s.size() + 1;
        b = static_cast<char *>(malloc(n));
    }
    if (s.size() + 1 > n) {
        errno = ERANGE;
        return nullptr;
    }
    memcpy(b, s.c_str(), s.size() + 1);
    return b;
}
static char *(*r_realpath)(const char *, char *);
EXPORT char *realpath(const char *p, char *out) noexcept
{
    XPath x(p);
    char tmp[PATH_MAX];
    if (!next(r_realpath, "realpath")(x.p, tmp))
        return nullptr;
    if (g_rlen && strncmp(tmp, g_rroot, g_rlen) == 0 && (tmp[g_rlen] == '/' || !tmp[g_rlen])) {
        char t2[PATH_MAX + 64];
        snprintf(t2, sizeof t2, "%s%s", g_vroot, tmp + g_rlen);
        snprintf(tmp, sizeof tmp, "%s", t2);
    }
    if (!out)
        return strdup(tmp);
    strcpy(out, tmp);
    return out;
}
static DIR *(*r_opendir)(const char *);
EXPORT DIR *opendir(const char *p)
{
    XPath x(p);
    return next(r_opendir, "opendir")(x.p);
}
static int (*r_statvfs)(const char *, void *);
EXPORT int statfs(const char *p, void *b) noexcept
{
    XPath x(p);
    return int(::syscall(SYS_statfs, x.p, b));
}
EXPORT int statfs64(const char *p, void *b) noexcept
{
    XPath x(p);
    return int(::syscall(SYS_statfs, x.p, b));
}
