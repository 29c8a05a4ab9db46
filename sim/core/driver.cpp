#include <sys/personality.h>
// Simulation driver: seeds -> plans -> runs, worker processes, violation gate, minimiser, replay.
#include "shared.h"
#include "oracle.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>

vector<Scenario> &scenarios() { static vector<Scenario> v; return v; }

// ---------------------------------------------------------------- plans
string Plan::text() const {
    string s = "# simulation plan\nproperty " + prop + "\nseed " + strf("%llu", (unsigned long long)seed) + "\n";
    for (auto &l : L) s += l + "\n";
    return s;
}
bool Plan::parse(const string &t, Plan &p) {
    std::istringstream in(t); string l; p.L.clear();
    while (std::getline(in, l)) {
        if (l.empty() || l[0] == '#') continue;
        if (l.compare(0, 9, "property ") == 0) { p.prop = l.substr(9); continue; }
        if (l.compare(0, 5, "seed ") == 0) { p.seed = strtoull(l.c_str() + 5, 0, 10); continue; }
        p.L.push_back(l);
    }
    return !p.prop.empty();
}
Op parseOp(const string &line) {
    Op o; string main = line, f; size_t b = line.find(" | ");
    if (b != string::npos) { main = line.substr(0, b); f = line.substr(b + 3); }
    std::istringstream is(main); string w; is >> o.name; while (is >> w) o.a.push_back(w);
    std::istringstream fs(f); while (fs >> w) o.faults.push_back(w);
    return o;
}

// ---------------------------------------------------------------- run context
static u64 H;
static vector<u64> *trail;
void obsReset() { H = 0x1234567; }
static u64 HF[16]; // callers of P12 have a transcript each
void obs(u64 x) { int f = fiberCurrent(); u64 &h = f >= 0 && f < 16 ? HF[f] : H; h = mix(h, x); if (trail) trail->push_back(x); }
u64 fiberObs(int f) { return HF[f]; }
void fiberObsReset() { for (u64 &x : HF) x = 77; }
void obsStr(const string &s) { obs(hashStr(s)); }
u64 obsHash() { return H; }
static int forwardErr = -1;
void opLabel(const string &s) { strncpy(SLOT->label, s.c_str(), sizeof SLOT->label - 1); SLOT->label[sizeof SLOT->label - 1] = 0; SH->ops.fetch_add(1, std::memory_order_relaxed); }
void simFail(const string &cls, const string &msg) {
    strncpy(SLOT->cls, cls.c_str(), sizeof SLOT->cls - 1); SLOT->cls[sizeof SLOT->cls - 1] = 0;
    strncpy(SLOT->msg, msg.c_str(), sizeof SLOT->msg - 1); SLOT->msg[sizeof SLOT->msg - 1] = 0;
    SLOT->status = 1; SLOT->hash = H;
    _exit(65);
}

static const Scenario *sc;
// The library's and program's static variables live in the sections simdata/simbss (objcopy in the
// build); every run starts from their initial contents, so that a run is a function of its seed only.
extern "C" { extern char __start_simdata[] __attribute__((weak)), __stop_simdata[] __attribute__((weak)), __start_simbss[] __attribute__((weak)), __stop_simbss[] __attribute__((weak)); }
static string *dataImage, *bssImage;
__attribute__((no_sanitize("address"))) static void rawCopy(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; i++) ((volatile char *)d)[i] = ((const volatile char *)s)[i]; }
void libStateReset() {
    size_t nd = __stop_simdata - __start_simdata, nb = __stop_simbss - __start_simbss;
    if (!dataImage) { dataImage = new string(nd, 0); bssImage = new string(nb, 0); rawCopy(&(*dataImage)[0], __start_simdata, nd); rawCopy(&(*bssImage)[0], __start_simbss, nb); return; }
    rawCopy(__start_simdata, dataImage->data(), nd); rawCopy(__start_simbss, bssImage->data(), nb);
}
static void runOnce(const Plan &p, int garbageByte) {
    obsReset();
    SLOT->label[0] = 0; SLOT->cls[0] = 0; SLOT->msg[0] = 0; SLOT->status = 0;
    libStateReset();
    faultsOff(); heapBegin(garbageByte); fsReset(); stdioBegin(); clockSet(1700000000 + (long)(p.seed % 1000), 1000); clockMode(0); randMode(0, p.seed);
    stepBudget(3000000000ull);
    u64 s0 = simSteps;
    SLOT->phase = 1;
    sc->exec(p);
    SLOT->phase = 2;
    stepNoBudget();
    stdioEnd();
    faultsOff();
    SH->steps.fetch_add(simSteps - s0, std::memory_order_relaxed);
    SLOT->hash = H; SLOT->phase = 0;
}
static int garbageFor(u64 seed) { static const int g[] = {0xA5, 0x00, 0xFF, 0x01, 0x7F, 0x5A, 0xBE, 0x80}; return g[(seed / 3) % 8]; }
static Plan genPlan(u64 seed, int tier) { Plan p; p.prop = sc->id; p.seed = seed; Rng r(seed ^ hashStr(sc->id)); sc->gen(r, p, tier); return p; }

static void childSetup(int errFd) {
    int in = open("/dev/null", O_RDONLY); dup2(in, 0); close(in);
    int out = open("/dev/null", O_WRONLY); if (out >= 0) { dup2(out, 1); close(out); }
    if (errFd >= 0) dup2(errFd, 2);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Violation { u64 seed; string cls, msg, label; Plan plan; u64 hash; };

static string readFd(int fd) { string s; char b[8192]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0 && s.size() < 400000) s.append(b, n); return s; }
// class of an abnormal end, from the sanitizer report
static string classify(int st, const string &err) {
    size_t p = err.find("SUMMARY: AddressSanitizer: ");
    if (p != string::npos) {
        string l = err.substr(p + 27, err.find('\n', p) - p - 27); std::istringstream is(l); string kind; is >> kind;
        size_t in = l.find(" in "); string fn = in == string::npos ? "" : l.substr(in + 4);
        if (fn.find("/verif") != string::npos) fn = "";
        return "asan:" + kind + (fn.empty() ? "" : ":" + fn.substr(0, 60));
    }
    p = err.find("runtime error: ");
    if (p != string::npos) { size_t b = err.rfind('\n', p); b = b == string::npos ? 0 : b + 1; string w = err.substr(b, err.find('\n', p) - b); size_t sl = w.rfind('/', w.find("runtime error")); if (sl != string::npos) w = w.substr(sl + 1); 
        string f = w.substr(0, w.find(':')); size_t q = w.find("runtime error: "); string m = w.substr(q + 15, 40); for (auto &c : m) if (isdigit((unsigned char)c)) c = '#'; return "ubsan:" + f + ":" + m; }
    if (err.find("AddressSanitizer: ") != string::npos) { p = err.find("AddressSanitizer: "); string k = err.substr(p + 18, 40); k = k.substr(0, k.find(' ')); return "asan:" + k; }
    if (WIFSIGNALED(st)) return strf("signal:%d", WTERMSIG(st));
    return strf("exit:%d", WEXITSTATUS(st));
}
static bool isReal(const string &cls) { return cls.compare(0, 5, "exit:") != 0 && cls != "signal:9" && cls != "signal:14"; }

// run one plan in a forked child; returns true if it ended without a violation
static bool runPlanForked(const Plan &p, int garbage, string &cls, string &msg, string &label, u64 &hash, string *rawErr = 0) {
    int ef = memfd_create("err", 0);
    SLOT->status = 0; SLOT->cls[0] = SLOT->msg[0] = SLOT->label[0] = 0; SLOT->hash = 0;
    pid_t c = fork();
    if (c == 0) { childSetup(ef); alarm(120); runOnce(p, garbage); _exit(0); }
    int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
    hash = SLOT->hash; label = SLOT->label;
    bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (!ok) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 65) { cls = SLOT->cls; msg = SLOT->msg; }
        else { string e = readFd(ef); cls = classify(st, e); msg = e.substr(0, 3500); if (rawErr) *rawErr = e; }
    } else { cls = ""; msg = ""; }
    close(ef);
    return ok;
}

// ---------------------------------------------------------------- minimiser
static vector<string> splitWords(const string &s) { vector<string> v; std::istringstream is(s); string w; while (is >> w) v.push_back(w); return v; }
static string joinWords(const vector<string> &v) { string s; for (auto &w : v) { if (!s.empty()) s += ' '; s += w; } return s; }
static Plan minimise(Plan p, const string &cls, double budget) {
    double t0 = now(); int tries = 0;
    auto still = [&](const Plan &q) { if (now() - t0 > budget || tries > 3000) return false; tries++; string c, m, l; u64 h; return !runPlanForked(q, garbageFor(p.seed), c, m, l, h) && c == cls; };
    { Plan q = expandPlan(p); if (q.L.size() != p.L.size() && still(q)) p = q; }
    bool changed = true;
    while (changed && now() - t0 < budget) {
        changed = false;
        for (size_t chunk = std::max<size_t>(1, p.L.size() / 2); chunk >= 1; chunk /= 2) { // drop lines
            for (size_t i = 0; i < p.L.size();) {
                Plan q = p; size_t n = std::min(chunk, q.L.size() - i);
                q.L.erase(q.L.begin() + i, q.L.begin() + i + n);
                if (!q.L.empty() && still(q)) { p = q; changed = true; } else i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < p.L.size(); i++) { // drop words ("u-v" edges, faults, trailing args) chunkwise
            vector<string> w = splitWords(p.L[i]);
            for (size_t chunk = std::max<size_t>(1, w.size() / 2); chunk >= 1; chunk /= 2) {
                for (size_t k = 1; k < w.size();) {
                    size_t n = std::min(chunk, w.size() - k); bool removable = true;
                    for (size_t j = k; j < k + n; j++) { const string &x = w[j]; bool fa = false; for (size_t z = 1; z < j; z++) if (w[z] == "|") fa = true; if (!(x.find('-') != string::npos && x.find('-') > 0 && isdigit((unsigned char)x[0])) && !(fa && x.find(':') != string::npos)) removable = false; }
                    if (removable) {
                        vector<string> w2 = w; w2.erase(w2.begin() + k, w2.begin() + k + n);
                        if (w2.back() == "|") w2.pop_back();
                        Plan q = p; q.L[i] = joinWords(w2);
                        if (still(q)) { p = q; w = w2; changed = true; continue; }
                    }
                    k += chunk;
                }
                if (chunk == 1) break;
            }
        }
    }
    return p;
}

// ---------------------------------------------------------------- modes
static string arg(int c, char **v, const char *k, const char *d) { for (int i = 1; i + 1 < c; i++) if (!strcmp(v[i], k)) return v[i + 1]; return d; }
static string jesc(const string &s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c; } return o; }

static int worker(int w, int nw, u64 base, u64 nseeds, double deadline, int tier, int maxViol, const string &dir) {
    SLOT = &SH->slot[w];
    int nv = 0; u64 i = w;
    int ef = memfd_create("err", 0);
    while (i < nseeds && now() < deadline && SH->stop.load() < maxViol) {
        ftruncate(ef, 0); lseek(ef, 0, SEEK_SET);
        SLOT->status = 0; SLOT->phase = 0;
        SLOT->curSeed = i;
        pid_t c = fork();
        if (c == 0) {
            childSetup(ef);
            for (u64 k = i, cnt = 0; k < nseeds && cnt < 400; k += nw, cnt++) {
                if (now() > deadline) _exit(3);
                u64 seed = base * 1000003ull + k;
                alarm(300);
                Plan p = genPlan(seed, tier);
                SLOT->curSeed = k;
                runOnce(p, garbageFor(seed)); u64 h1 = SLOT->hash;
                SH->runs.fetch_add(1);
                stateSeen(h1);
                if (!(sc->flags & 1) && k % 16 == 3) { // same seed again, different uninitialised memory
                    runOnce(p, garbageFor(seed) ^ 0x3C);
                    SH->doubleRuns.fetch_add(1);
                    if (SLOT->hash != h1) simFail("nondeterminism", "the same seed and plan gave a different observable history when freshly allocated memory held other bytes");
                }
            }
            _exit(0);
        }
        int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { i += (u64)nw * 400; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) break;
        // a run ended abnormally
        u64 k = SLOT->curSeed; string label = SLOT->label; u64 seed = base * 1000003ull + k;
        string cls, msg;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 65) { cls = SLOT->cls; msg = SLOT->msg; }
        else { string e = readFd(ef); cls = classify(st, e); msg = e.substr(0, 3500); }
        FILE *f = fopen((dir + strf("/viol.%d.%d", w, nv)).c_str(), "w");
        if (f) { fprintf(f, "%llu\n%s\n%s\n%s", (unsigned long long)seed, cls.c_str(), label.c_str(), msg.c_str()); fclose(f); }
        nv++; SH->stop.fetch_add(1);
        SH->runs.fetch_add(1);
        i = k + nw;
    }
    return 0;
}

int main(int argc, char **argv) {
    // no address randomisation, where the sandbox permits it: wild accesses then do the same in every replay
    if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int p = personality(0xffffffff); if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
    signal(SIGPIPE, SIG_IGN);
    SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    SLOT = &SH->slot[63];
    string mode = argc > 1 ? argv[1] : "";
    auto find = [&](const string &id) { sc = 0; for (auto &s : scenarios()) if (id == s.id) sc = &s; if (!sc) { fprintf(stderr, "unknown property %s\n", id.c_str()); exit(2); } };
    int tier = arg(argc, argv, "--tier", "quick") == "thorough";
    // register every probe name before forking: names are claimed lazily and shared
    if (mode == "list") { for (auto &s : scenarios()) printf("%s\n", s.id); return 0; }
    if (mode == "gen") { find(arg(argc, argv, "--prop", "")); Plan p = genPlan(strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10), tier); fputs(p.text().c_str(), stdout); return 0; }
    if (mode == "one") { // run one seed in this process (debugging)
        find(arg(argc, argv, "--prop", "")); Plan p = genPlan(strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10), tier);
        string c, m, l; u64 h; bool ok = runPlanForked(p, garbageFor(p.seed), c, m, l, h);
        printf("%s %016llx %s at [%s]\n%s\n", ok ? "ok" : "VIOL", (unsigned long long)h, c.c_str(), l.c_str(), m.c_str()); return !ok;
    }
    if (mode == "replay") { // replay FILE: same plan, fresh process
        FILE *f = fopen(argv[2], "r"); if (!f) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
        string t; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
        Plan p; if (!Plan::parse(t, p)) return 2;
        find(p.prop);
        string c, m, l; u64 h; bool ok = runPlanForked(p, garbageFor(p.seed), c, m, l, h);
        printf("RESULT %s\nCLASS %s\nHASH %016llx\nAT %s\n%s\n", ok ? "held" : "violated", c.c_str(), (unsigned long long)h, l.c_str(), m.c_str());
        return ok ? 0 : isReal(c) ? 1 : 2;
    }
    if (mode == "oracle") { // reference answers on generated graphs, for cross-checking (xcheck.py)
        u64 a = strtoull(arg(argc, argv, "--from", "0").c_str(), 0, 10), b = strtoull(arg(argc, argv, "--to", "50").c_str(), 0, 10); int maxN = atoi(arg(argc, argv, "--n", "8").c_str());
        for (u64 k = a; k < b; k++) { Rng r(k * 7919 + 13); GenGraph g = genGraph(r, maxN); std::set<Edge> es; for (auto &x : g.e) if (x.first != x.second) es.insert(E2(x.first, x.second)); Edges e(es.begin(), es.end()); printf("%d %d%d%d%d%d", g.n, refPlanar(g.n, e), refOuterplanar(g.n, e), refHasK4(g.n, e), refHasK23(g.n, e), refHasK33(g.n, e)); for (auto &x : e) printf(" %d-%d", x.first, x.second); puts(""); }
        return 0;
    }
    if (mode == "determinism") { // print seed hashes, for diffing across processes and worker counts
        find(arg(argc, argv, "--prop", "")); u64 a = strtoull(arg(argc, argv, "--from", "0").c_str(), 0, 10), b = strtoull(arg(argc, argv, "--to", "50").c_str(), 0, 10), base = strtoull(arg(argc, argv, "--base", "1").c_str(), 0, 10);
        for (u64 k = a; k < b; k++) { u64 seed = base * 1000003ull + k; Plan p = genPlan(seed, tier); string c, m, l; u64 h; bool ok = runPlanForked(p, garbageFor(seed), c, m, l, h); printf("%llu %016llx %s\n", (unsigned long long)seed, (unsigned long long)h, ok ? "ok" : c.c_str()); }
        return 0;
    }
    if (mode != "check") { fprintf(stderr, "usage: simulate check|replay|one|gen|determinism|list ...\n"); return 2; }
    find(arg(argc, argv, "--prop", ""));
    u64 base = strtoull(arg(argc, argv, "--base", "1").c_str(), 0, 10), nseeds = strtoull(arg(argc, argv, "--seeds", "1000").c_str(), 0, 10);
    int nw = atoi(arg(argc, argv, "--workers", "8").c_str()); double cap = atof(arg(argc, argv, "--cap", "60").c_str());
    string dir = arg(argc, argv, "--dir", "."); int maxViol = atoi(arg(argc, argv, "--maxviol", "6").c_str());
    double minCap = atof(arg(argc, argv, "--mincap", "40").c_str());
    double t0 = now();
    vector<pid_t> ws;
    for (int w = 0; w < nw; w++) { pid_t c = fork(); if (c == 0) _exit(worker(w, nw, base, nseeds, t0 + cap, tier, maxViol, dir)); ws.push_back(c); }
    for (pid_t c : ws) { int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {} }
    double t1 = now();
    // collect violations, one per class, gate and minimise each
    std::map<string, Violation> byClass; int total = 0;
    for (int w = 0; w < nw; w++) for (int k = 0; k < 64; k++) {
        FILE *f = fopen((dir + strf("/viol.%d.%d", w, k)).c_str(), "r"); if (!f) break;
        string t; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
        std::istringstream is(t); string s1, cls, label, rest; std::getline(is, s1); std::getline(is, cls); std::getline(is, label); std::getline(is, rest, '\0');
        total++; Violation v; v.seed = strtoull(s1.c_str(), 0, 10); v.cls = cls; v.label = label; v.msg = rest;
        auto it = byClass.find(cls); if (it == byClass.end() || v.seed < it->second.seed) byClass[cls] = v;
    }
    string vj; int idx = 0; int bad = 0;
    for (auto &kv : byClass) {
        Violation v = kv.second; string gate = "ok";
        v.plan = genPlan(v.seed, tier);
        string c1, m1, l1, c2, m2, l2; u64 h1 = 0, h2 = 0;
        if (v.cls == "nondeterminism") { // two runs with different memory fill must differ again
            runPlanForked(v.plan, garbageFor(v.seed), c1, m1, l1, h1); runPlanForked(v.plan, garbageFor(v.seed) ^ 0x3C, c2, m2, l2, h2);
            if (h1 == h2) { gate = "not reproduced"; bad++; }
        } else {
            bool o1 = runPlanForked(v.plan, garbageFor(v.seed), c1, m1, l1, h1), o2 = runPlanForked(v.plan, garbageFor(v.seed), c2, m2, l2, h2);
            if (o1 || o2 || c1 != c2 || h1 != h2 || !isReal(c1)) { gate = strf("not reproduced: %s/%s %016llx/%016llx", c1.c_str(), c2.c_str(), (unsigned long long)h1, (unsigned long long)h2); bad++; }
            else { v.cls = c1; v.msg = m1; v.label = l1; v.plan = minimise(v.plan, v.cls, minCap / (double)byClass.size()); string c3, m3, l3; u64 h3; runPlanForked(v.plan, garbageFor(v.seed), c3, m3, l3, h3); v.msg = m3; v.label = l3; v.hash = h3; }
        }
        string path = dir + strf("/replay.%d.plan", idx);
        FILE *f = fopen(path.c_str(), "w");
        string com = "# class " + v.cls + "\n"; std::istringstream ms(v.msg); string l; int ln = 0; while (std::getline(ms, l) && ln++ < 25) com += "# " + l + "\n";
        fprintf(f, "%s# at: %s\n%s", com.c_str(), v.label.c_str(), v.plan.text().c_str()); fclose(f);
        if (idx) vj += ",";
        vj += strf("{\"class\":\"%s\",\"seed\":%llu,\"gate\":\"%s\",\"replay\":\"%s\",\"label\":\"%s\",\"lines\":%zu,", jesc(v.cls).c_str(), (unsigned long long)v.seed, jesc(gate).c_str(), jesc(path).c_str(), jesc(v.label).c_str(), v.plan.L.size()) + "\"msg\":\"" + jesc(v.msg.substr(0, 1500)) + "\"}";
        idx++;
    }
    // results
    string pj; int np = SH->nProbes.load(); std::map<string, u64> pr;
    for (int i = 0; i < np && i < 512; i++) pr[SH->probeName[i]] += SH->probe[i].load();
    for (auto &x : pr) { if (!pj.empty()) pj += ","; pj += "\"" + jesc(x.first) + "\":" + strf("%llu", (unsigned long long)x.second); }
    string fj; for (int i = 0; i < FK_N; i++) { if (i) fj += ","; fj += strf("\"%s\":%llu", fkNames[i], (unsigned long long)SH->fault[i].load()); }
    string sj; for (int k = 0; k < 3; k++) { Plan p = genPlan(base * 1000003ull + k * 7, tier); string t = p.text(); if (t.size() > 1500) t = t.substr(0, 1500) + "..."; if (k) sj += ","; sj += "\"" + jesc(t) + "\""; }
    printf("{\"runs\":%llu,\"ops\":%llu,\"steps\":%llu,\"double_runs\":%llu,\"distinct\":%llu,\"hashes\":%llu,\"allocs\":%llu,\"clock_ms\":%llu,\"faulted_ops\":%llu,\"wall\":%.2f,\"wall_total\":%.2f,\"violating_runs\":%d,\"unreproduced\":%d,\"faults\":{%s},\"probes\":{%s},\"violations\":[%s],\"samples\":[%s]}\n",
        (unsigned long long)SH->runs.load(), (unsigned long long)SH->ops.load(), (unsigned long long)SH->steps.load(), (unsigned long long)SH->doubleRuns.load(), (unsigned long long)SH->distinct.load(), (unsigned long long)SH->hashes.load(), (unsigned long long)SH->allocs.load(), (unsigned long long)SH->clockSimMs.load(), (unsigned long long)SH->faultedOps.load(), t1 - t0, now() - t0, total, bad, fj.c_str(), pj.c_str(), vj.c_str(), sj.c_str());
    return 0;
}
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=8:max_malloc_fill_size=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:exitcode=78"; }
