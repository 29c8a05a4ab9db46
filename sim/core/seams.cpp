#include "shared.h"
#include <cerrno>
#include <unistd.h>
#include <ucontext.h>
#include <unordered_map>
#include <sys/mman.h>

const char *fkNames[FK_N] = {"alloc_fail", "open_fail", "read_eio", "end_of_input", "write_enospc", "torn_write", "close_error", "seek_fail", "clock_jump", "rand_adversarial", "preemption", "short_read", "torn_file"};
Shared *SH;
Slot *SLOT;

string strf(const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }

// ------------------------------------------------------------------ faults
struct FaultSpec { char kind; long n, k; bool persist; };
struct FaultState {
    vector<FaultSpec> v;
    long cAlloc = 0, cOpen = 0, cRead = 0, cWrite = 0, cClose = 0, cSeek = 0;
    int fired = 0, firedAlloc = 0, firedIo = 0;
    int maxRead = 0, bufSize = 0;
    bool eof = false, tornDead = false; long eofPos = -1;
};
struct CallerCtx { FaultState fs; int inLib = 0; };
static CallerCtx mainCtx;
static CallerCtx *cur = &mainCtx;

void faultsOff() { cur->fs = FaultState(); }
void faultsArm(const vector<string> &f) {
    cur->fs = FaultState();
    for (auto &s : f) {
        if (s.size() < 3) continue;
        if (s.compare(0, 3, "mr:") == 0) { cur->fs.maxRead = std::max(1, atoi(s.c_str() + 3)); continue; }
        if (s.compare(0, 2, "b:") == 0) { cur->fs.bufSize = std::max(1, atoi(s.c_str() + 2)); continue; }
        FaultSpec x; x.kind = s[0]; x.persist = (s[0] >= 'A' && s[0] <= 'Z');
        if (x.persist) x.kind = s[0] - 'A' + 'a';
        char *e; x.n = strtol(s.c_str() + 2, &e, 10); x.k = (*e == ':') ? strtol(e + 1, 0, 10) : 0;
        if (x.n < 1) x.n = 1;
        cur->fs.v.push_back(x);
    }
}
int faultsFired() { return cur->fs.fired; }
int allocFaultsFired() { return cur->fs.firedAlloc; }
int ioFaultsFired() { return cur->fs.firedIo; }
long eofAt() { return cur->fs.eofPos; }
int allocCount() { return (int)cur->fs.cAlloc; }
int ioOpsCount(char k) { switch (k) { case 'o': return cur->fs.cOpen; case 'r': return cur->fs.cRead; case 'w': return cur->fs.cWrite; case 'c': return cur->fs.cClose; } return 0; }
static bool hit(char kind, long c, long *k = 0) {
    for (auto &x : cur->fs.v) if (x.kind == kind && (x.n == c || (x.persist && c > x.n))) { if (k) *k = x.k; cur->fs.fired++; if (kind == 'a') cur->fs.firedAlloc++; else cur->fs.firedIo++; return true; }
    return false;
}

// ------------------------------------------------------------------ heap
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); }
static const size_t MACHINE = (size_t)64 << 20; // no block of the simulated machine is larger
struct Blk { size_t n; int owner; u64 id; };
static std::unordered_map<void *, Blk> *live;
static int garbage = 0xA5;
static u64 blkId;
InLib::InLib() { saved = cur->inLib; cur->inLib = 1; }
InLib::~InLib() { cur->inLib = saved; }
void heapBegin(int g) { if (!live) live = new std::unordered_map<void *, Blk>(); live->clear(); garbage = g; blkId = 0; cur->inLib = 0; }
void heapGarbage(int g) { garbage = g; }
size_t heapLive() { return live ? live->size() : 0; }
size_t heapLiveFor(int o) { size_t n = 0; for (auto &b : *live) if (b.second.owner == o) n++; return n; }
bool heapIsLive(const void *p) { return live->count((void *)p) > 0; }
string heapDescribeLive(int max) {
    vector<std::pair<u64, size_t>> v; for (auto &b : *live) v.push_back({b.second.id, b.second.n});
    std::sort(v.begin(), v.end()); string s;
    for (size_t i = 0; i < v.size() && (int)i < max; i++) s += strf("#%llu(%zu bytes) ", (unsigned long long)v[i].first, v[i].second);
    return s;
}
static bool allocFails() {
    cur->fs.cAlloc++;
    SH->allocs.fetch_add(1, std::memory_order_relaxed);
    if (hit('a', cur->fs.cAlloc)) { faultCount(FK_ALLOC); errno = ENOMEM; return true; }
    return false;
}
static void *track(void *p, size_t n) { if (p) (*live)[p] = {n, fiberCurrent(), ++blkId}; return p; }
void *simMalloc(size_t n) { void *p = __real_malloc(n ? n : 1); return track(p, n); }
extern "C" {
void *__wrap_malloc(size_t n) {
    if (!cur->inLib) return __real_malloc(n);
    if (n > MACHINE) { errno = ENOMEM; return 0; }
    if (allocFails()) return 0;
    void *p = __real_malloc(n); if (p) memset(p, garbage, n);
    return track(p, n);
}
void *__wrap_calloc(size_t a, size_t b) {
    if (!cur->inLib) return __real_calloc(a, b);
    if ((double)a * (double)b > (double)MACHINE) { errno = ENOMEM; return 0; }
    if (allocFails()) return 0;
    return track(__real_calloc(a, b), a * b);
}
void __wrap_free(void *p) {
    if (p && live) live->erase(p);
    __real_free(p); // ASan reports double and wild frees
}
void *__wrap_realloc(void *p, size_t n) {
    if (!cur->inLib) return __real_realloc(p, n);
    if (!p) return __wrap_malloc(n);
    if (n > MACHINE) { errno = ENOMEM; return 0; }
    if (allocFails()) return 0;
    void *q = __real_malloc(n); // always moves
    if (!q) return 0;
    memset(q, garbage, n);
    auto it = live->find(p); size_t old = it != live->end() ? it->second.n : 0;
    memcpy(q, p, std::min(old, n));
    __wrap_free(p);
    return track(q, n);
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
}
void heapDropAll() { vector<void *> v; for (auto &b : *live) v.push_back(b.first); live->clear(); for (void *p : v) __real_free(p); }
void simFree(void *p) { __wrap_free(p); }

// ------------------------------------------------------------------ files
struct SFile { string data; };
struct Stream { string name; bool rd, wr; size_t pos; bool seekable; bool console; };
static std::map<string, SFile> files;
static std::set<FILE *> openSet;
static FILE *realIn, *realOut, *realErr;
static Stream *inStream;
void fsReset() { files.clear(); }
bool fsExists(const string &n) { return files.count(n) > 0; }
string fsGet(const string &n) { auto it = files.find(n); return it == files.end() ? "" : it->second.data; }
void fsPut(const string &n, const string &c) { files[n].data = c; }
void fsRemove(const string &n) { files.erase(n); }
vector<string> fsList() { vector<string> v; for (auto &f : files) v.push_back(f.first); return v; }
std::map<string, string> fsAll() { std::map<string, string> m; for (auto &f : files) if (f.first.compare(0, 5, "/dev/")) m[f.first] = f.second.data; return m; }
void fsRestore(const std::map<string, string> &m) { for (auto it = files.begin(); it != files.end();) if (it->first.compare(0, 5, "/dev/")) it = files.erase(it); else ++it; for (auto &x : m) files[x.first].data = x.second; }
int fsOpenHandles() { return (int)openSet.size(); }
extern "C" int __real_fclose(FILE *); extern "C" FILE *__real_fopen(const char *, const char *);
void fsCloseLeaked() { auto c = openSet; for (FILE *f : c) __real_fclose(f); openSet.clear(); }

static thread_local int inSeek = 0;
extern "C" int __real_fseek(FILE *, long, int);
extern "C" int __wrap_fseek(FILE *f, long o, int w) { inSeek++; int r = __real_fseek(f, o, w); inSeek--; return r; }
static ssize_t ckRead(void *c, char *buf, size_t n) {
    Stream *s = (Stream *)c; FaultState &F = cur->fs;
    if (!s->rd) { errno = EBADF; return -1; }
    if (inSeek) { const string &d = files[s->name].data; size_t k = s->pos >= d.size() ? 0 : std::min(n, d.size() - s->pos); if (k) memcpy(buf, d.data() + s->pos, k); s->pos += k; return (ssize_t)k; } // refilling inside fseek() delivers nothing to the caller
    F.cRead++;
    if (hit('r', F.cRead)) { faultCount(FK_READ); errno = EIO; return -1; }
    if (F.eof) return 0;
    if (hit('e', F.cRead)) { faultCount(FK_EOF); F.eof = true; F.eofPos = (long)s->pos; return 0; }
    const string &d = files[s->name].data;
    if (s->pos >= d.size()) return 0;
    size_t k = std::min(n, d.size() - s->pos);
    if (F.maxRead && k > (size_t)F.maxRead) { k = F.maxRead; faultCount(FK_SHORTREAD); }
    memcpy(buf, d.data() + s->pos, k); s->pos += k;
    return (ssize_t)k;
}
static ssize_t ckWrite(void *c, const char *buf, size_t n) {
    Stream *s = (Stream *)c; FaultState &F = cur->fs;
    if (!s->wr) { errno = EBADF; return 0; }
    if (s->console && s->name == "/dev/stderr") { files[s->name].data.append(buf, n); return n; } // stderr itself is not faulted
    F.cWrite++;
    long k = 0;
    if (F.tornDead) { errno = ENOSPC; F.fired++; return 0; }
    if (hit('t', F.cWrite, &k)) { faultCount(FK_TORN); F.tornDead = true; size_t m = std::min((size_t)k, n ? n - 1 : 0); files[s->name].data.append(buf, m); errno = ENOSPC; return 0; }
    if (hit('w', F.cWrite)) { faultCount(FK_WRITE); errno = ENOSPC; return 0; }
    string &d = files[s->name].data;
    if (s->console || s->pos >= d.size()) { d.append(buf, n); s->pos = d.size(); }
    else { d.replace(s->pos, std::min(n, d.size() - s->pos), buf, n); s->pos += n; }
    return (ssize_t)n;
}
static int ckSeek(void *c, off64_t *off, int wh) {
    Stream *s = (Stream *)c; FaultState &F = cur->fs;
    F.cSeek++;
    if (!s->seekable) { errno = ESPIPE; return -1; }
    if (hit('k', F.cSeek)) { faultCount(FK_SEEK); errno = EIO; return -1; }
    long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)s->pos : (long)files[s->name].data.size();
    long np = base + (long)*off; if (np < 0) { errno = EINVAL; return -1; }
    s->pos = np; *off = np; return 0;
}
static int ckClose(void *c) {
    Stream *s = (Stream *)c; FaultState &F = cur->fs;
    int r = 0;
    if (!s->console) { F.cClose++; if (s->wr && hit('c', F.cClose)) { faultCount(FK_CLOSE); errno = EIO; r = -1; } }
    delete s; return r;
}
static FILE *mk(Stream *s, const char *mode, int buf) {
    cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
    FILE *f = fopencookie(s, mode, io);
    if (f && buf) setvbuf(f, 0, _IOFBF, buf);
    return f;
}
static string cwd = "/sim";
static string normPath(const char *p) { string s = p; while (s.compare(0, 2, "./") == 0) s = s.substr(2); if (!s.empty() && s[0] != '/' && cwd.size() > 5 && cwd.compare(0, 5, "/sim/") == 0) s = cwd.substr(5) + "/" + s; return s; }
extern "C" {
FILE *__wrap_fopen(const char *name, const char *mode) {
    if (!cur->inLib) return __real_fopen(name, mode);
    FaultState &F = cur->fs; F.cOpen++;
    static const int errs[] = {ENOENT, EMFILE, EACCES, EIO, ENOMEM};
    long k = 0;
    if (hit('o', F.cOpen, &k)) { faultCount(FK_OPEN); errno = errs[(k < 0 ? 0 : k) % 5]; return 0; }
    string n = normPath(name);
    size_t sl = n.rfind('/');
    if (sl != string::npos && n.compare(0, 5, "/sim/") != 0) { // directories exist only when a "<dir>/." entry does
        if (!files.count(n.substr(0, sl) + "/.")) { errno = ENOENT; return 0; }
    }
    if (n.empty()) { errno = ENOENT; return 0; }
    bool rd = mode[0] == 'r', wr = mode[0] == 'w' || mode[0] == 'a', plus = strchr(mode, '+') != 0;
    if (rd && !files.count(n)) { errno = ENOENT; return 0; }
    if (mode[0] == 'w') files[n].data.clear(); else if (mode[0] == 'a') files[n];
    Stream *s = new Stream{n, rd || plus, wr || plus, mode[0] == 'a' ? files[n].data.size() : 0, true, false};
    FILE *f = mk(s, mode, F.bufSize);
    if (f) openSet.insert(f);
    return f;
}
int __wrap_fclose(FILE *f) {
    if (f && openSet.count(f)) openSet.erase(f);
    return __real_fclose(f);
}
char *__wrap_getcwd(char *b, size_t n) { if (cwd.size() + 1 > n) return 0; strcpy(b, cwd.c_str()); return b; }
int __wrap_chdir(const char *d) { string s = d; if (s == "/sim") { cwd = s; return 0; } if (s == "..") { cwd = "/sim"; return 0; } if (cwd == "/sim" && files.count(s + "/.")) { cwd = "/sim/" + s; return 0; } errno = ENOENT; return -1; }
}
void fsHome() { cwd = "/sim"; }
void stdioBegin() {
    if (!realIn) { realIn = stdin; realOut = stdout; realErr = stderr; }
    files["/dev/stdin"].data.clear(); files["/dev/stdout"].data.clear(); files["/dev/stderr"].data.clear();
    inStream = new Stream{"/dev/stdin", true, false, 0, false, true};
    stdin = mk(inStream, "r", 0);
    stdout = mk(new Stream{"/dev/stdout", false, true, 0, false, true}, "w", 0);
    stderr = mk(new Stream{"/dev/stderr", false, true, 0, false, true}, "w", 0);
    cwd = "/sim";
}
void stdioEnd() {
    if (!realIn || stdin == realIn) return;
    faultsOff();
    __real_fclose(stdin); __real_fclose(stdout); __real_fclose(stderr);
    stdin = realIn; stdout = realOut; stderr = realErr;
}
void stdinSet(const string &c, bool seekable) {
    __real_fclose(stdin);
    files["/dev/stdin"].data = c;
    inStream = new Stream{"/dev/stdin", true, false, 0, seekable, true};
    stdin = mk(inStream, "r", cur->fs.bufSize);
}
string stdoutGet() { return files["/dev/stdout"].data; }
string stderrGet() { return files["/dev/stderr"].data; }
void stdoutClear() { fflush(stdout); fflush(stderr); clearerr(stdout); files["/dev/stdout"].data.clear(); files["/dev/stderr"].data.clear(); }
size_t stdinConsumed() { return inStream ? inStream->pos : 0; }

// ------------------------------------------------------------------ clock, randomness
static long clkLow = 1000000000, clkHi = 1; static int clkMode; static u64 clkCalls;
void clockSet(long l, long h) { clkLow = l; clkHi = h; clkCalls = 0; }
void clockMode(int m) { clkMode = m; }
static Rng *rndR; static int rndMode; static u64 rndN, rndUntil = ~0ull; static unsigned rndSeeded;
void randMode(int mode, u64 seed, u64 until) { delete rndR; rndR = new Rng(seed); rndMode = mode; rndN = 0; rndSeeded = 0; rndUntil = until; }
u64 randCalls() { return rndN; }
extern "C" {
int sim_rand(void) {
    rndN++;
    if (!rndR) rndR = new Rng(1);
    int md = rndN > rndUntil ? 0 : rndMode;
    if (md) faultCount(FK_RAND);
    switch (md) {
    default: case 0: return (int)(rndR->next() & 0x7fffffff);
    case 1: return 0;
    case 2: return 0x7fffffff;
    case 3: return (int)((rndN * 7919) & 0x7fffffff);       // short arithmetic stream
    case 4: return (rndN & 1) ? 0 : 0x7fffffff;              // alternating extremes
    case 5: return (int)(rndR->next() % 3);                   // tiny values
    case 6: return 0x7fffffff - (int)(rndR->next() % 5);      // huge values
    case 7: return 32767 - (int)(rndR->next() & 0x7fff);      // RAND_MAX 32767 generator
    case 8: return (int)((rndR->next() & 0x7fff) << 16);      // only high bits vary
    }
}
int __wrap_rand(void) { return sim_rand(); }
unsigned simLastSeed; void __wrap_srand(unsigned s) { rndSeeded++; simLastSeed = s; simSeeds().push_back(s); delete rndR; rndR = new Rng(s ^ 0xABCDEFull); }
time_t __wrap_time(time_t *t) {
    clkCalls++;
    long r = clkLow;
    switch (clkMode) { case 1: break; case 2: clkLow -= 7; faultCount(FK_CLOCK); break; case 3: clkLow += (clkCalls % 3 == 0) ? -100000 : 250000; faultCount(FK_CLOCK); break; default: clkLow += 1; break; }
    SH->clockSimMs.fetch_add(1000, std::memory_order_relaxed);
    if (t) *t = r;
    return (time_t)r;
}
clock_t __wrap_clock(void) {
    clkCalls++;
    long r = clkHi;
    switch (clkMode) { case 1: break; case 2: clkHi -= 12345; faultCount(FK_CLOCK); break; case 3: clkHi = (clkCalls % 2) ? 0x7fffffffL : -5; faultCount(FK_CLOCK); break; default: clkHi += 1000; break; }
    return (clock_t)r;
}
}

// ------------------------------------------------------------------ step clock
volatile u64 simSteps;
static volatile u64 stepLimit = ~0ull, stepEvent = ~0ull; // stepEvent = min(limit, next preemption)
static volatile u64 preemptAt = ~0ull;
static void recompute() { stepEvent = stepLimit < preemptAt ? stepLimit : preemptAt; }
static void slowStep();
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; a++) *a = 1; }
void __sanitizer_cov_trace_pc_guard(uint32_t *) { u64 s = simSteps + 1; simSteps = s; if (__builtin_expect(s >= stepEvent, 0)) slowStep(); }
}
static u64 budgetStart;
void stepBudget(u64 n) { budgetStart = simSteps; stepLimit = simSteps + n; recompute(); }
void stepNoBudget() { stepLimit = ~0ull; recompute(); }

// ------------------------------------------------------------------ fibers
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" void __sanitizer_start_switch_fiber(void **, const void *, size_t);
extern "C" void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
#define ASANF 1
#endif
#endif
struct Fiber { ucontext_t uc; char *stk; std::function<void()> body; bool done = false; void *fake = 0; CallerCtx ctx; int errno_ = 0; };
static vector<Fiber *> fibers; static int curFiber = -1; static ucontext_t schedUc; static void *schedFake; static const void *schedBottom; static size_t schedSize;
static const size_t STK = 4 << 20;
int fiberCurrent() { return curFiber; }
static void toSched(bool dying) {
    Fiber *f = fibers[curFiber];
    f->errno_ = errno;
#ifdef ASANF
    __sanitizer_start_switch_fiber(dying ? 0 : &f->fake, schedBottom, schedSize);
#endif
    swapcontext(&f->uc, &schedUc);
#ifdef ASANF
    __sanitizer_finish_switch_fiber(f->fake, &schedBottom, &schedSize);
#endif
    errno = f->errno_;
}
static void fiberMain() {
#ifdef ASANF
    __sanitizer_finish_switch_fiber(0, &schedBottom, &schedSize);
#endif
    Fiber *f = fibers[curFiber];
    f->body();
    f->done = true;
    toSched(true);
}
static void toFiber(int i) {
    Fiber *f = fibers[i]; curFiber = i; cur = &f->ctx;
#ifdef ASANF
    __sanitizer_start_switch_fiber(&schedFake, f->stk, STK);
#endif
    swapcontext(&schedUc, &f->uc);
#ifdef ASANF
    __sanitizer_finish_switch_fiber(schedFake, 0, 0);
#endif
    curFiber = -1; cur = &mainCtx;
}
static void slowStep() {
    if (simSteps >= stepLimit) {
        u64 used = simSteps - budgetStart;
        stepLimit = ~0ull; preemptAt = ~0ull; recompute();
        simFail("hang", strf("no progress: the operation used %llu steps without finishing", (unsigned long long)used));
    }
    if (curFiber >= 0 && simSteps >= preemptAt) { preemptAt = ~0ull; recompute(); faultCount(FK_PREEMPT); toSched(false); }
}
int fibersRun(vector<std::function<void()>> bodies, const vector<Slice> &schedule) {
    fibers.clear();
    for (auto &b : bodies) {
        Fiber *f = new Fiber(); f->body = b;
        f->stk = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        getcontext(&f->uc); f->uc.uc_stack.ss_sp = f->stk; f->uc.uc_stack.ss_size = STK; f->uc.uc_link = 0;
        makecontext(&f->uc, fiberMain, 0);
        fibers.push_back(f);
    }
    int switches = 0; size_t si = 0; int rr = 0;
    while (true) {
        bool any = false; for (auto f : fibers) if (!f->done) any = true;
        if (!any) break;
        int i; u64 n;
        if (si < schedule.size()) { i = schedule[si].f % (int)fibers.size(); n = schedule[si].n; si++; if (fibers[i]->done) continue; }
        else { do { i = rr++ % (int)fibers.size(); } while (fibers[i]->done); n = ~0ull; }
        preemptAt = n == ~0ull ? n : simSteps + n; recompute();
        switches++;
        toFiber(i);
        preemptAt = ~0ull; recompute();
    }
    for (auto f : fibers) { munmap(f->stk, STK); delete f; }
    fibers.clear();
    return switches;
}

// ------------------------------------------------------------------ probes and states
int probeId(const char *name) {
    int n = SH->nProbes.load();
    for (int i = 0; i < n; i++) if (!strncmp(SH->probeName[i], name, 63)) return i;
    int id = SH->nProbes.fetch_add(1);
    if (id >= 511) return 511;
    strncpy(SH->probeName[id], name, 63);
    return id;
}
void probeHit(int id, u64 n) { SH->probe[id].fetch_add(n, std::memory_order_relaxed); }
void stateSeen(u64 h) {
    h = mix(h, 0x51ed27); u64 bit = h & ((1ull << 28) - 1);
    unsigned char m = 1 << (bit & 7);
    unsigned char old = SH->bloom[bit >> 3].fetch_or(m, std::memory_order_relaxed);
    if (!(old & m)) SH->distinct.fetch_add(1, std::memory_order_relaxed);
    SH->hashes.fetch_add(1, std::memory_order_relaxed);
}
vector<unsigned> &simSeeds() { static vector<unsigned> v; return v; }
