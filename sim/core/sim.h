// Deterministic simulator core: PRNG, plans, seams (heap, files, clock, random numbers,
// step clock, fibers), shared statistics.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <sstream>

// the private extension record header is not valid C++; the harness only needs the names
#define GRAPH_EXTENSIONS_PRIVATE_H
extern "C" {
#include "extensionSystem/graphFunctionTable.h"
typedef struct graphExtension graphExtension;
typedef graphExtension *graphExtensionP;
#include "graphLib.h"
#include "io/g6-read-iterator.h"
#include "io/g6-write-iterator.h"
#include "io/strOrFile.h"
#include "io/strbuf.h"
}
#undef MIN
#undef MAX

typedef uint64_t u64;
using std::string;
using std::vector;

// ---------------------------------------------------------------- PRNG
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (u64)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int num, int den) { return below(den) < num; }
    template <class T> const T &pick(const vector<T> &v) { return v[below((int)v.size())]; }
    // small numbers most of the time, occasionally large
    int geo(int mean, int cap) { int r = 1; while (r < cap && below(mean + 1) != 0) r++; return r; }
};

inline u64 mix(u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
inline u64 hashBytes(const void *p, size_t n, u64 h = 1469598103934665603ull) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }
inline u64 hashStr(const string &s) { return hashBytes(s.data(), s.size()); }
string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- plans
// A plan is a list of text lines: "<op> <int args / words> [| fault fault ...]"
struct Plan {
    string prop;
    u64 seed = 0;
    vector<string> L;
    void add(const string &s) { L.push_back(s); }
    string text() const;
    static bool parse(const string &t, Plan &p);
};
struct Op {
    string name;
    vector<string> a;
    vector<string> faults;
    int i(size_t k, int def = 0) const { return k < a.size() ? atoi(a[k].c_str()) : def; }
    string s(size_t k, const string &def = "") const { return k < a.size() ? a[k] : def; }
};
Op parseOp(const string &line);
Plan expandPlan(const Plan &p);   // batch operations spelled out

// ---------------------------------------------------------------- faults active for the current op
// kinds: a:n  allocation n fails once        A:n  allocations from n on fail
//        o:n  open n fails (errno arg)       O:n  opens from n on fail
//        r:n  device read n fails EIO once   R:n  reads from n on fail
//        e:n  device read n.. returns EOF    w:n  device write n fails ENOSPC once, W:n from n on
//        t:n:k device write n stores k bytes, then fails from there on
//        c:n  close n reports an error       k:n  seek n fails
//        mr:n device returns at most n bytes per read   b:n stdio buffer size n
void faultsArm(const vector<string> &f); // resets per-op counters and installs f
void faultsOff();
int faultsFired();                        // since arm
int allocFaultsFired();
int ioFaultsFired();
long eofAt();                             // device position at which an armed end of input struck, or -1
int allocCount();                         // library allocations since arm
int ioOpsCount(char kind);                // o r w c since arm

// ---------------------------------------------------------------- heap
void heapBegin(int garbage);   // start of a run: forget, set garbage byte
size_t heapLive();             // live library blocks
size_t heapLiveFor(int owner); // fibers: blocks allocated by owner
void heapGarbage(int g);
void *simMalloc(size_t n);     // hand a block to the library (it will free it)
string heapDescribeLive(int max);
void heapDropAll();            // end of a simulated process
bool heapIsLive(const void *p);
void simFree(void *p);         // free a block the library handed out
struct InLib { InLib(); ~InLib(); int saved; };   // allocations count as library allocations while alive
#define LIB(expr) ([&]() { InLib _il; return (expr); }())
#define LIBV(expr) do { InLib _il; (expr); } while (0)

// ---------------------------------------------------------------- files
void fsReset();
bool fsExists(const string &n);
string fsGet(const string &n);
void fsPut(const string &n, const string &c);
void fsRemove(const string &n);
vector<string> fsList();
int fsOpenHandles();
void fsCloseLeaked();
void stdioBegin();             // install simulated stdin/stdout/stderr
void stdioEnd();
void stdinSet(const string &c, bool seekable);
string stdoutGet();
string stderrGet();
void stdoutClear();
size_t stdinConsumed();

// ---------------------------------------------------------------- clock and randomness
void clockSet(long lowres, long hires);
void clockMode(int mode);      // 0 monotone, 1 stuck, 2 backwards, 3 jumping
void randMode(int mode, u64 seed, u64 until = ~0ull); // the first `until` numbers follow the mode, later ones are fair
u64 randCalls();
std::vector<unsigned> &simSeeds();
extern "C" { int sim_rand(void); extern unsigned simLastSeed; void __wrap_srand(unsigned); }
void fsHome();                 // working directory back to the root of the simulated file system
std::map<string, string> fsAll();
void fsRestore(const std::map<string, string> &m);

// ---------------------------------------------------------------- steps (simulated time)
extern volatile u64 simSteps;
void stepBudget(u64 n);        // abort the run as a hang if the current op uses more than n steps
void stepNoBudget();

// ---------------------------------------------------------------- shared statistics
struct Shared;
int probeId(const char *name);
void probeHit(int id, u64 n = 1);
#define PROBE(name) do { static int _pid = probeId(name); probeHit(_pid); } while (0)
#define PROBEN(name, n) do { static int _pid = probeId(name); probeHit(_pid, n); } while (0)
void stateSeen(u64 h);         // distinct-state measure
void setStat(const char *what);

// ---------------------------------------------------------------- run context
[[noreturn]] void simFail(const string &cls, const string &msg);
void obs(u64 x);
void obsStr(const string &s);
u64 obsHash();
void obsReset();
void opLabel(const string &s); // what is being executed (for reports)
#define CHECK(c, cls, ...) do { if (!(c)) simFail(cls, strf(__VA_ARGS__)); } while (0)

struct Scenario {
    const char *id;
    void (*gen)(Rng &, Plan &, int tier);
    void (*exec)(const Plan &);
    int flags;                 // 1: no in-process double run
};
extern vector<Scenario> &scenarios();
struct RegScenario { RegScenario(Scenario s) { scenarios().push_back(s); } };

// ---------------------------------------------------------------- fibers
struct Slice { int f; u64 n; };
// runs bodies as cooperative callers preempted at basic blocks; returns executed switch count
int fibersRun(vector<std::function<void()>> bodies, const vector<Slice> &schedule);
int fiberCurrent();            // -1 outside
u64 fiberObs(int f);           // transcript hash of a caller
void fiberObsReset();
void libStateReset();          // static variables of the code under test back to their initial values
void fiberYieldPoint();
