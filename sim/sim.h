// Interface between the simulator core (scheduler, race detector, allocator, file system seam) and the host program.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

struct Rng {
    uint64_t s = 0;
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(uint32_t num, uint32_t den) { return den && below(den) < num; }
};

// ---- memory
enum AllocMode { Alloc_Sequential = 0, Alloc_Random = 1, Alloc_Sticky = 2, Alloc_NoReuse = 3 };
struct AllocConfig {
    int mode = Alloc_Sequential;
    uint64_t seed = 1;
    int fillNew = -1; // -1: leave as is, 0..255: byte, 256: random bytes
    int fillFreed = -1;
    int stack = -1; // what dead stack memory holds when a function is entered: as fillNew
};
void allocConfigure(const AllocConfig &);

// ---- file system
struct Fault {
    std::string op; // open, create, read, write, close, rename, unlink, stat, sync, any
    std::string path; // suffix of the virtual path, empty: any; "*x" : contains x
    int nth = 0; // first matching operation affected (0-based)
    int times = 1; // how many operations, -1: for ever
    std::string act; // ENOENT, EIO, ENOSPC, EACCES, EINTR, EMFILE, EROFS, EDQUOT, short, killbefore, killafter, torn
    int arg = 0; // bytes for short and torn
    // state
    int seen = 0, fired = 0;
};
struct FsOp {
    std::string op, path;
    long result;
    int err;
    int fault; // index of the fault that fired or -1
};
void fsConfigure(const std::string &virtualRoot, const std::string &realRoot, std::vector<Fault> faults, int gateIn, int gateOut);
void fsRecord(bool on);
const std::vector<FsOp> &fsTrace();
const std::vector<Fault> &fsFaults();
std::string fsUnmap(const std::string &s); // real paths -> virtual ones

// ---- scheduling
struct SchedConfig {
    uint64_t seed = 1;
    int strategy = 0; // 0: random, 1: priorities with change points, 2: replay
    uint32_t pStatic = 0; // preemption probability, per 65536, at accesses to static storage and synchronisation
    uint32_t pOther = 0; // same, at other accesses
    uint32_t nChange = 0; // strategy 1
    uint64_t horizon = 0; // strategy 1: expected number of yield points
    std::vector<std::pair<uint64_t, int>> replay; // strategy 2: (yield point, thread)
    bool races = true;
    uint64_t maxSteps = 0; // 0: no limit
};
struct Race {
    int kind; // 0: write/write 1: read/write
    int t1, t2;
    uint64_t pc1, pc2, addr;
    bool isStatic;
};
struct SchedResult {
    uint64_t yields = 0, switches = 0, steps = 0, hash = 0, staticAccesses = 0;
    std::vector<std::pair<uint64_t, int>> preemptions;
    std::vector<Race> races;
    bool deadlock = false;
};
void schedSetBudget(uint64_t maxSteps);
// runs the bodies, one thread each, under the simulated scheduler
void runThreads(const SchedConfig &, const std::vector<void (*)(int, void *)> &bodies, void *arg);
void noteEvent(uint64_t v); // mixes v into the event hash
const SchedResult &schedResult();

// ---- environment
void envConfigure(uint64_t seed);
extern void (*onAbnormalEnd)(const char *why); // called for deadlocks and exhausted budgets, must not return
int liveFds();
bool scratchFdsOpen(std::string &which);
}
