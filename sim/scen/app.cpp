// P14 (command line) and P15 (interactive menu): the whole program in one process on a simulated
// file system, console, clock and random source.  Oracle: the same work done through the library
// on a healthy system, plus the independent references.
#include "../core/docs.h"
#include "../core/shared.h"
extern "C" int planarity_main(int, char **);
typedef std::map<string, string> FS;

// ------------------------------------------------------------------ running the program
struct Out { int rc = 0; string out, err; int fired = 0, io = 0; long eof = -1; FS after; };
static int rndM; static u64 rndS;
static Out runProgram(const vector<string> &args, const string &in, bool seekable, const vector<string> &faults, u64 budget) {
    Out o; libStateReset(); fsHome(); randMode(rndM, rndS);
    vector<vector<char>> st; vector<char *> argv; for (auto &a : args) { st.push_back(vector<char>(a.begin(), a.end())); st.back().push_back(0); } for (auto &s : st) argv.push_back(s.data()); argv.push_back(0);
    faultsArm(faults); stdinSet(in, seekable); stdoutClear();
    stepBudget(budget);
    o.rc = LIB(planarity_main((int)args.size(), argv.data())) & 255;
    stepBudget(3000000000ull);
    fflush(stdout); fsCloseLeaked(); o.fired = faultsFired(); o.io = ioFaultsFired(); o.eof = eofAt(); faultsOff(); fflush(stdout); fflush(stderr);
    o.out = stdoutGet(); o.err = stderrGet(); o.after = fsAll(); fsHome(); heapDropAll(); libStateReset(); if (o.fired) SH->faultedOps.fetch_add(1);
    obs(o.rc); obsStr(o.out); obsStr(o.err); for (auto &f : o.after) { obsStr(f.first); obsStr(f.second); }
    return o;
}
static vector<char> cs(const string &s) { vector<char> v(s.begin(), s.end()); v.push_back(0); return v; }
static string clip(const string &s, size_t n = 400) { return s.size() <= n ? s : s.substr(0, n) + "..."; }

// ------------------------------------------------------------------ the same work through the library
enum { X_OK = 0, X_NONE = 1, X_ERR = 255 };
static int xRc(int r) { return r == OK ? X_OK : r == NONEMBEDDABLE ? X_NONE : X_ERR; }
static const char *algName(char c) { switch (c) { case 'p': return "PlanarEmbed"; case 'd': return "DrawPlanar"; case 'o': return "OuterplanarEmbed"; case '2': return "K23Search"; case '3': return "K33Search"; case '4': return "K4Search"; } return ""; }
static int flagsOf(char c) { switch (c) { case 'p': return EMBEDFLAGS_PLANAR; case 'd': return EMBEDFLAGS_DRAWPLANAR; case 'o': return EMBEDFLAGS_OUTERPLANAR; case '2': return EMBEDFLAGS_SEARCHFORK23; case '3': return EMBEDFLAGS_SEARCHFORK33; case '4': return EMBEDFLAGS_SEARCHFORK4; } return 0; }
static void attachFor(graphP g, char c) { if (c == 'd') attachExt(g, 'D'); else if (c == '2' || c == '3' || c == '4') attachExt(g, c); }
static string so(const string &n) { return n == "stdout" ? "@stdout" : n; } // where text for the console goes
static int wr(graphP g, const string &n, int mode) { auto b = cs(so(n)); return LIB(gp_Write(g, b.data(), mode)); }
// out/out2: 0 absent
static int apiSpecific(char c, const string &in, const string *out, const string *out2, const string &stdinText) {
    if (!flagsOf(c)) return NOTOK; graphP g = LIB(gp_New()); CHECK(g, "setup", "gp_New failed"); stdinSet(stdinText, true);
    auto b = cs(in); int r = LIB(gp_Read(g, b.data())); if (r != OK) { LIBV(gp_Free(&g)); return NOTOK; }
    attachFor(g, c); r = LIB(gp_Embed(g, flagsOf(c))); if (r != OK && r != NONEMBEDDABLE) { LIBV(gp_Free(&g)); return NOTOK; }
    LIBV(gp_SortVertices(g)); string o = out ? *out : in + "." + algName(c) + ".out.txt"; bool pdo = strchr("pdo", c); int w = OK;
    if (pdo ? r == OK : r == NONEMBEDDABLE) w = wr(g, o, WRITE_ADJLIST);
    if (out2) { string o2 = *out2;
        if ((c == 'p' || c == 'o') && r == NONEMBEDDABLE) { int x = wr(g, o2.empty() ? o : o2, WRITE_ADJLIST); if (x != OK) w = NOTOK; }
        else if (c == 'd' && r == OK) { auto q = cs(so(o2.empty() ? o + ".render.txt" : o2)); int x = LIB(gp_DrawPlanar_RenderToFile(g, q.data())); if (x != OK) w = NOTOK; } }
    LIBV(gp_Free(&g)); return w == OK ? r : NOTOK;
}
static int apiTransform(char f, const string &in, const string &out, const string &stdinText) {
    int mode = f == 'g' ? WRITE_G6 : f == 'a' ? WRITE_ADJLIST : f == 'm' ? WRITE_ADJMATRIX : -1; if (mode < 0) return NOTOK; graphP g = LIB(gp_New()); CHECK(g, "setup", "gp_New failed"); stdinSet(stdinText, true);
    auto b = cs(in); int r = LIB(gp_Read(g, b.data())); if (r == OK) r = wr(g, out, mode); else r = NOTOK; LIBV(gp_Free(&g)); return r;
}
struct Tally { int read = 0, ok = 0, none = 0, end = 0; vector<bool> each; };
static bool refAnswer(char c, int n, const Edges &e) { // true: embeddable / nothing found
    switch (c) { case 'p': case 'd': return refPlanar(n, e); case 'o': return refOuterplanar(n, e); case '2': return !refHasK23(n, e); case '3': return !refHasK33(n, e); default: return !refHasK4(n, e); }
}
static Tally tally(char c, const string &text) { Tally t; G6 g = decodeG6(text); t.end = g.end; for (auto &e : g.g) { bool a = refAnswer(c, g.n, e); t.each.push_back(a); t.read++; a ? t.ok++ : t.none++; } return t; }
static string asciiList(graphP g, string name) {
    size_t sl = name.rfind('/'); if (sl != string::npos) name = name.substr(sl + 1); string s = name + "\n";
    for (int e = gp_GetFirstEdge(g); e < gp_EdgeInUseIndexBound(g); e += 2) if (gp_EdgeInUse(g, e)) s += strf("%d %d\n", gp_GetNeighbor(g, e), gp_GetNeighbor(g, e + 1)); return s + "0 0\n";
}
static void reseed(unsigned seed) { randMode(rndM, rndS); __wrap_srand(seed); }
// a maximal planar graph (plus extra edges), processed and saved
static int apiRandom1(char c, int extra, int n, unsigned seed, const string *out, const string *out2, bool save, int *M) {
    if (!flagsOf(c)) return NOTOK; reseed(seed); graphP g = LIB(gp_New()); CHECK(g && LIB(gp_InitGraph(g, n)) == OK, "setup", "no graph"); attachFor(g, c);
    int w = OK; if (LIB(gp_CreateRandomGraphEx(g, 3 * n - 6 + extra)) != OK) { LIBV(gp_Free(&g)); return NOTOK; } *M = g->M; if (out2 && wr(g, *out2, WRITE_ADJLIST) != OK) w = NOTOK;
    string nm = extra ? "nonPlanarEdgeList.txt" : "maxPlanarEdgeList.txt", a = asciiList(g, nm); int r = LIB(gp_Embed(g, flagsOf(c))); LIBV(gp_SortVertices(g)); if (r != OK && r != NONEMBEDDABLE) { LIBV(gp_Free(&g)); return NOTOK; }
    if (out && wr(g, *out, WRITE_ADJLIST) != OK) w = NOTOK;
    if (save) { fsPut(nm, a); fsPut(nm + ".out.txt", asciiList(g, nm + ".out.txt")); }
    LIBV(gp_Free(&g)); return w == OK ? r : NOTOK;
}
struct RStat { int embedded = 0; vector<int> minors; string text; };
static RStat apiRandomMany(char c, int K, int n, unsigned seed, const bool *cfg, bool *wrOk) { // cfg: original, embeddable, obstructed, adjacency lists
    RStat s; reseed(seed); graphP g = LIB(gp_New()); CHECK(g && LIB(gp_InitGraph(g, n)) == OK, "setup", "no graph"); attachFor(g, c); int f = flagsOf(c);
    auto put = [&](const char *dir, int k, int mode, graphP h) { string nm = strf("%s/%d.txt", dir, k % 10); if (wr(h, nm, mode) != OK) *wrOk = false; };
    for (int k = 0; k < K; k++) {
        CHECK(LIB(gp_CreateRandomGraph(g)) == OK, "setup", "gp_CreateRandomGraph failed"); Snap sn = snapGraph(g, "random graph"); bool want = refAnswer(c, sn.n, sn.edges()); if (cfg[0]) put("random", k, WRITE_ADJLIST, g); graphP orig = strchr("234", c) ? LIB(gp_DupGraph(g)) : 0;
        int r = LIB(gp_Embed(g, f)); CHECK(r == (want ? OK : NONEMBEDDABLE), "verdict", "random graph %d: the answer is %d", k, r);
        if (r == OK) { s.embedded++; if (cfg[1]) put("embedded", k, WRITE_ADJMATRIX, orig ? orig : g); if (cfg[3]) put("adjlist", k, WRITE_ADJLIST, orig ? orig : g); } else if (cfg[2] && (c == 'p' || c == 'o')) put("obstructed", k, WRITE_ADJMATRIX, g);
        if (orig) LIBV(gp_Free(&orig)); LIBV(gp_ReinitializeGraph(g));
    }
    LIBV(gp_Free(&g)); return s;
}
static FS diff(const FS &a, const FS &b) { FS d; for (auto &x : a) { auto it = b.find(x.first); if (it == b.end() || it->second != x.second) d[x.first] = "1"; } for (auto &x : b) if (!a.count(x.first)) d[x.first] = "1"; return d; }
static string names(const FS &d) { string s; for (auto &x : d) s += (s.empty() ? "" : ", ") + clip(x.first, 60); return s; }

// ------------------------------------------------------------------ P14
struct Cli {
    DocWorld dw; string stdinDoc; bool stdinSeek = true; string typed;
    void checkOutputs(const Out &o, const FS &before, const FS &want, const std::set<string> &outs, bool mustMatch, const string &what) {
        for (auto &x : diff(before, o.after)) CHECK(outs.count(x.first), "stray-write", "%s changed the file %s, which it was not asked to write", what.c_str(), x.first.c_str());
        if (!mustMatch) return;
        for (auto &f : outs) { auto a = o.after.find(f), b = want.find(f); bool ha = a != o.after.end(), hb = b != want.end(); CHECK(ha == hb && (!ha || a->second == b->second), "output", "%s, but the file %s holds\n%s\nrather than\n%s", what.c_str(), f.c_str(), ha ? clip(a->second).c_str() : "(no file)", hb ? clip(b->second).c_str() : "(no file)"); }
    }
    // text the program could have read from its input: whole, or up to where the input ended
    string inputText(const string &in) { if (in == "stdin") return stdinDoc; return fsGet(in); }
    bool inputThere(const string &in) { return in == "stdin" || fsExists(in); }
    void cmd(const Op &op) {
        vector<string> args{"planarity"}; for (auto &a : op.a) args.push_back(a); int argc = (int)args.size(); if (argc < 2) return; string line; for (auto &a : args) line += " " + clip(a, 80);
        FS before = fsAll(); if (getenv("SIM_DUMP")) for (auto &f : before) dprintf(2, "== %s\n%s==\n", f.first.c_str(), f.second.c_str()); bool q = argc > 2 && args[2] == "-q"; string mode = args[1]; vector<string> A(args.begin() + (q ? 3 : 2), args.end()); // arguments after the mode
        if (mode[0] != '-') { A.assign(args.begin() + 1, args.end()); q = false; }
        if (mode == "-r" && A.size() >= 3) { int K = atoi(A[1].c_str()), N = atoi(A[2].c_str()); if (K < 0 || K > 40 || N < 0 || N > 80) return; } // larger ones only cost time
        if ((mode == "-rm" || mode == "-rn") && A.size() >= 1) { int N = atoi(A[0].c_str()); if (N < 0 || N > 300) return; }
        string feed = typed; bool usesStdin = false; for (size_t i = 1; i < args.size(); i++) if (args[i] == "stdin") usesStdin = true; if (usesStdin) feed = stdinDoc;
        Out o = runProgram(args, feed, usesStdin ? stdinSeek : true, op.faults, 600000000); FS after = o.after; string what = strf("%s (exit status %d%s)", line.c_str(), o.rc, o.fired ? ", a fault was injected" : ""); typed = "";
        stateSeen(mix(mix(hashStr(line), hashStr(o.out)), o.rc * 4 + (o.fired ? 1 : 0)));
        bool legacy = mode[0] != '-'; int errRc = legacy ? 254 : 255;
        CHECK(o.rc == 0 || o.rc == 1 || o.rc == errRc, "status", "%s: this exit status is not documented", what.c_str());
        bool plainCmd = mode == "-s" || mode == "-x" || mode == "-t" || mode == "-rm" || mode == "-rn";
        bool toConsole = false; for (auto &a : A) if (a == "stdout") toConsole = true;
        if (q && plainCmd && !toConsole) CHECK(o.out.empty() && o.err.empty(), "quiet", "%s printed in quiet mode: %s", what.c_str(), clip(o.out + o.err).c_str());
        if (o.fired) PROBE("faulted command"); else PROBE("healthy command");
        std::set<string> outs; auto evalAt = [&](const string &in, std::function<int()> f, int &rc, FS &want) { fsRestore(before); rc = f(); want = fsAll(); (void)in; };
        // one or two expectations: whole input, input ending early
        auto judge = [&](const string &in, std::function<int(const string &)> api, std::function<void(int, const string &)> extra) {
            int rc; FS want; evalAt(in, [&] { return api(stdinDoc); }, rc, want); rc = xRc(rc); if (legacy) rc = rc == X_ERR ? 254 : 0;
            string text; bool there; fsRestore(before); text = inputText(in); there = inputThere(in); (void)there;
            if (!o.fired && !(in == "stdin" && !stdinSeek)) { CHECK(o.rc == rc, "status", "%s: expected status %d; the console has %s", what.c_str(), rc, clip(o.out + o.err).c_str()); }
            bool good = o.rc != errRc;
            if (!good) { checkOutputs(o, before, want, outs, false, what); return; }
            bool match = o.rc == rc; for (auto &f : outs) { auto a = after.find(f), b = want.find(f); bool ha = a != after.end(), hb = b != want.end(); if (ha != hb || (ha && a->second != b->second)) match = false; }
            bool con = !toConsole || o.out.find(want.count("@stdout") ? want["@stdout"] : "") != string::npos;
            if (o.eof >= 0 && o.eof < (long)text.size() && (!match || !con)) { // the source ended early: what was there counts
                FS b2 = before; string cut = text.substr(0, o.eof); if (in == "stdin") {} else b2[in] = cut; fsRestore(b2); int rc2 = xRc(api(cut)); if (legacy) rc2 = rc2 == X_ERR ? 254 : 0; FS w2 = fsAll(); fsRestore(before);
                CHECK(o.rc == rc2, "status", "%s: the input ended at byte %ld, for which the status is %d", what.c_str(), o.eof, rc2); checkOutputs(o, before, w2, outs, true, what); PROBE("input ended early and was complete"); return;
            }
            CHECK(o.rc == rc, "status", "%s: expected status %d; the console has %s", what.c_str(), rc, clip(o.out + o.err).c_str());
            checkOutputs(o, before, want, outs, true, what);
            CHECK(con, "output", "%s, but the output did not appear on the console; it has\n%s\nrather than\n%s", what.c_str(), clip(o.out).c_str(), clip(want["@stdout"]).c_str());
            if (extra) extra(o.rc, text);
        };
        if (mode == "-s") {
            char c = A.size() && A[0].size() > 1 ? A[0][1] : 0; if (A.size() < 3) { CHECK(o.rc == 255, "status", "%s: arguments are missing", what.c_str()); checkOutputs(o, before, before, outs, false, what); }
            else { string in = A[1], out = A[2]; string *o2 = A.size() == 4 ? &A[3] : 0; if (A.size() > 4) o2 = 0; 
                if (in.size() > 128 || out.size() > 128 || A.size() > 4) { return done(after); }
                outs.insert(out); if (o2) outs.insert(o2->empty() ? (c == 'd' ? out + ".render.txt" : out) : *o2);
                judge(in, [&](const string &sd) { return apiSpecific(c, in, &out, o2, sd); }, [&](int rc, const string &text) {
                    Parsed P; if (strictAny(text, P)) { bool a = refAnswer(c, P.n, P.edges); CHECK(a == (rc == 0), "verdict", "%s: the graph %s", what.c_str(), a ? "is embeddable (or has no such subgraph)" : "is not embeddable (or has such a subgraph)"); PROBE("verdict checked against the reference"); }
                    if (!q && !o.io) { string want = strf("The graph \"%s\" ", in.c_str()); switch (c) { case 'p': case 'd': want += rc ? "is not planar." : "is planar."; break; case 'o': want += rc ? "is not outerplanar." : "is outerplanar."; break; default: want += rc ? "has a subgraph homeomorphic to " : "has no subgraph homeomorphic to "; want += c == '2' ? "K_{2,3}." : c == '3' ? "K_{3,3}." : "K_4."; }
                        CHECK(o.out.find(want) != string::npos, "message", "%s: the console says\n%s\nrather than %s", what.c_str(), clip(o.out).c_str(), want.c_str()); } });
                if (o.rc == 0) PROBE("-s status 0"); else if (o.rc == 1) PROBE("-s status 1"); else PROBE("-s error"); }
        } else if (mode == "-x") {
            char f = A.size() && A[0].size() > 1 && A[0][0] == '-' ? A[0][1] : 0; if (A.size() < 3) { CHECK(o.rc == 255, "status", "%s: arguments are missing", what.c_str()); checkOutputs(o, before, before, outs, false, what); }
            else { string in = A[1], out = A[2]; outs.insert(out);
                judge(in, [&](const string &sd) { return apiTransform(f, in, out, sd); }, [&](int rc, const string &text) { Parsed P, Q; if (out != "stdout" && strictAny(text, P) && !P.directed && P.n <= 1500) { const string &w = after[out]; bool ok = strictAny(w, Q); CHECK(ok && Q.n == P.n && Q.edges == P.edges, "output", "%s: the transformed graph is not the input graph:\n%s", what.c_str(), clip(w).c_str()); PROBE("transformation checked against the reference"); } });
                PROBE("-x"); }
        } else if (mode == "-t") {
            char c = A.size() && A[0].size() > 1 && A[0][0] == '-' ? A[0][1] : 0; if (A.size() < 3) { CHECK(o.rc == 255, "status", "%s: arguments are missing", what.c_str()); checkOutputs(o, before, before, outs, false, what); return done(after); }
            string in = A[1], out = A[2]; outs.insert(out); checkOutputs(o, before, before, outs, false, what);
            if (!flagsOf(c)) { CHECK(o.rc == 255, "status", "%s: unknown command", what.c_str()); return done(after); }
            bool there = before.count(in) > 0; string text = there ? before[in] : ""; Tally T = tally(c, text), E; bool haveE = o.eof >= 0 && o.eof < (long)text.size(); if (haveE) E = tally(c, text.substr(0, o.eof));
            CHECK(o.rc != 1, "status", "%s: status 1 is not documented for this mode", what.c_str());
            bool wrote = after.count(out) && (o.rc == 0 || !before.count(out) || after[out] != before[out]); const string &w = after[out]; 
            int nr, no, nn; char cc, res[16] = ""; size_t nl = w.find('\n'); bool lineOk = wrote && nl != string::npos && sscanf(w.c_str() + nl + 1, "-%c %d %d %d %15s", &cc, &nr, &no, &nn, res) == 5 && w.back() == '\n';
            auto right = [&](const Tally &t) { return t.end != 1 && nr == t.read && no == t.ok && nn == t.none && cc == c; };
            if (!o.fired && there && T.end == 0) { size_t sl = out.rfind('/'); bool dirOk = sl == string::npos || before.count(out.substr(0, sl) + "/."); CHECK(o.rc == (dirOk ? 0 : 255), "status", "%s: expected status %d; the console has %s", what.c_str(), dirOk ? 0 : 255, clip(o.out + o.err).c_str()); }
            if (!o.fired && (!there || T.end == 1)) CHECK(o.rc == 255, "status", "%s: the input is %s", what.c_str(), there ? "malformed" : "missing");
            if (o.rc == 0) {
                string base = in.substr(in.rfind('/') == string::npos ? 0 : in.rfind('/') + 1); string head = "FILENAME=\"" + base + "\" DURATION=\"";
                CHECK(lineOk && w.compare(0, head.size(), head) == 0 && string(res) == "SUCCESS", "output", "%s: the output file holds\n%s", what.c_str(), clip(w).c_str());
                CHECK((T.end == 2 && T.read <= nr) || right(T) || (haveE && right(E)), "tally", "%s: the tally is %d graphs, %d, %d; the stream has %d, %d, %d%s", what.c_str(), nr, no, nn, T.read, T.ok, T.none, haveE ? strf(" (or %d, %d, %d as it ended early)", E.read, E.ok, E.none).c_str() : ""); PROBE("tally checked");
                if (!q && !o.io) CHECK(o.out.find("Done testing all graphs") != string::npos, "message", "%s: the console says %s", what.c_str(), clip(o.out).c_str());
            } else if (lineOk && T.end != 2) {
                if (string(res) == "SUCCESS") CHECK(right(T) || (haveE && right(E)), "tally", "%s: the output claims success for %d graphs, %d, %d; the stream has %d, %d, %d%s", what.c_str(), nr, no, nn, T.read, T.ok, T.none, T.end ? " and then a malformed line" : "");
                else { int k = no + nn, a = 0; CHECK(k <= T.read && k <= nr, "tally", "%s: the output claims %d answers for %d graphs", what.c_str(), k, T.read); for (int i = 0; i < k; i++) a += T.each[i]; CHECK(a == no, "tally", "%s: the output claims %d of the first %d graphs are embeddable, %d are", what.c_str(), no, k, a); PROBE("tally of a failed run checked"); }
            }
        } else if (mode == "-r") {
            char c = A.size() && A[0].size() > 1 ? A[0][1] : 0; if (A.size() < 3) { CHECK(o.rc == 255, "status", "%s: arguments are missing", what.c_str()); checkOutputs(o, before, before, outs, false, what); return done(after); }
            int K = atoi(A[1].c_str()), N = atoi(A[2].c_str()); if (o.fired) for (int k = 0; k < 10; k++) outs.insert(strf("error/%d.txt", k));
            checkOutputs(o, before, before, outs, false, what); if (K < 1 || N < 1) { CHECK(o.rc == 255, "status", "%s: no number was typed", what.c_str()); return done(after); }
            if (!flagsOf(c)) { CHECK(o.rc == 255, "status", "%s: unknown command", what.c_str()); return done(after); }
            if (!o.fired) CHECK(o.rc == 0, "status", "%s: expected status 0; the console has %s", what.c_str(), clip(o.out + o.err).c_str());
            if (o.rc == 0) { bool cfg[4] = {0, 0, 0, 0}, w = true; RStat s = apiRandomMany(c, K, N, simLastSeed, cfg, &w);
                if (!q && !o.io) { auto num = [&](const char *pre) { size_t p = o.out.find(pre); return p == string::npos ? -1 : atoi(o.out.c_str() + p + strlen(pre)); }; int got = num(c == 'p' || c == 'o' ? "Num Embedded=" : c == 'd' ? "Num Graphs Embedded and Drawn=" : "Of the generated graphs, ");
                    CHECK(got == s.embedded, "tally", "%s: the console counts %d graphs, but %d of the %d are embeddable or have no such subgraph", what.c_str(), got, s.embedded, K);
                    if (c == 'p' || c == 'o') { int m = 0; for (char x = 'A'; x <= 'E'; x++) { int v = num(strf("Minor %c = ", x).c_str()); if (v > 0) m += v; } CHECK(m == K - got, "tally", "%s: %d obstruction minors are counted for %d graphs", what.c_str(), m, K - got); }
                    PROBE("random graph statistics checked"); } }
        } else if (mode == "-rm" || mode == "-rn") {
            int extra = mode == "-rn"; if (A.size() < 2) { CHECK(o.rc == 255, "status", "%s: arguments are missing", what.c_str()); checkOutputs(o, before, before, outs, false, what); return done(after); }
            int N = atoi(A[0].c_str()); string out = A[1]; string *o2 = A.size() == 3 ? &A[2] : 0; outs.insert(out); if (o2) outs.insert(*o2); size_t nb = feed.find_first_not_of(" \n"); bool save = !q && nb != string::npos && tolower(feed[nb]) == 'y'; string nm = extra ? "nonPlanarEdgeList.txt" : "maxPlanarEdgeList.txt"; if (save) { outs.insert(nm); outs.insert(nm + ".out.txt"); }
            if (N < 1) { checkOutputs(o, before, before, outs, false, what); return done(after); }
            if (o.rc == 255 && !simLastSeed) {} int M = 0; fsRestore(before); int r = xRc(apiRandom1('p', extra, N, simLastSeed, &out, o2, save, &M)); FS want = fsAll(); fsRestore(before);
            bool okRc = o.rc == r || (r == 1 && o.rc == 0); if (!o.fired) CHECK(okRc, "status", "%s: expected status %d; the console has %s", what.c_str(), r, clip(o.out + o.err).c_str());
            if (o.fired && save && o.eof >= 0) { outs.erase(nm); outs.erase(nm + ".out.txt"); FS a2 = o.after; a2.erase(nm); a2.erase(nm + ".out.txt"); Out o3 = o; o3.after = a2; FS b3 = before; b3.erase(nm); b3.erase(nm + ".out.txt"); checkOutputs(o3, b3, want, outs, o.rc != 255, what); return done(after); }
            if (o.fired && o.io && save) { bool any = after.count(nm) || after.count(nm + ".out.txt"); if (!any) { outs.erase(nm); outs.erase(nm + ".out.txt"); } } // a failing console is an unanswered question
            CHECK(o.rc == 255 || okRc, "status", "%s: the result is %d", what.c_str(), r); checkOutputs(o, before, want, outs, o.rc != 255, what);
            if (toConsole && o.rc != 255) CHECK(o.out.find(want["@stdout"]) != string::npos, "output", "%s: the output did not appear on the console", what.c_str());
            if (!q && !o.io && o.rc != 255) { CHECK(o.out.find(strf("Created random graph with %d edges", M)) != string::npos, "message", "%s: the console says %s", what.c_str(), clip(o.out).c_str()); CHECK(o.out.find(r ? "is not planar." : "is planar.") != string::npos, "message", "%s: the console says %s", what.c_str(), clip(o.out).c_str()); }
            if (save) PROBE("edge lists saved"); else PROBE("random maximal planar graph");
        } else if (mode == "-test") selfTest(o, before, A, what, q);
        else if (mode == "-h" || mode == "-help" || mode == "-i" || mode == "-info") { checkOutputs(o, before, before, outs, false, what); CHECK(o.rc == 0, "status", "%s: help fails", what.c_str()); PROBE("help"); }
        else if (mode[0] == '-') { if (mode.compare(0, 2, "-x") && mode.compare(0, 2, "-t")) { checkOutputs(o, before, before, outs, false, what); CHECK(o.rc == 255, "status", "%s: an unsupported command line succeeded", what.c_str()); } PROBE("unsupported command line"); }
        else { // legacy
            string in = A[0]; if (A.size() < 2) { CHECK(o.rc == 254 || o.rc == 255 || !inputThere(in), "status", "%s: without an output file", what.c_str()); checkOutputs(o, before, before, outs, false, what); return done(after); }
            string out = A[1]; string *o2 = A.size() >= 4 && A[2] == "-n" ? &A[3] : 0; outs.insert(out); if (o2) outs.insert(*o2);
            judge(in, [&](const string &sd) { return apiSpecific('p', in, &out, o2, sd); }, 0); PROBE("legacy command line");
        }
        done(after);
    }
    void done(const FS &after) { fsRestore(after); }
    // ---- self-test on the sample files
    static FS *samples() {
        static FS *s; if (s) return s; s = new FS; const char *used[] = {"maxPlanar5.txt", "maxPlanar5.txt.PlanarEmbed.out.txt", "maxPlanar5.txt.DrawPlanar.out.txt", "maxPlanar5.txt.DrawPlanar.out.txt.render.txt", "drawExample.txt", "drawExample.txt.DrawPlanar.out.txt", "drawExample.txt.DrawPlanar.out.txt.render.txt", "Petersen.txt", "Petersen.txt.PlanarEmbed.out.txt", "Petersen.txt.OuterplanarEmbed.out.txt", "Petersen.txt.K23Search.out.txt", "Petersen.txt.K33Search.out.txt", "Petersen.txt.K4Search.out.txt",
            "maxPlanar5.0-based.txt", "maxPlanar5.0-based.txt.PlanarEmbed.out.txt", "maxPlanar5.0-based.txt.DrawPlanar.out.txt", "maxPlanar5.0-based.txt.DrawPlanar.out.txt.render.txt", "drawExample.0-based.txt", "drawExample.0-based.txt.DrawPlanar.out.txt", "drawExample.0-based.txt.DrawPlanar.out.txt.render.txt", "Petersen.0-based.txt", "Petersen.0-based.txt.PlanarEmbed.out.txt", "Petersen.0-based.txt.OuterplanarEmbed.out.txt", "Petersen.0-based.txt.K23Search.out.txt", "Petersen.0-based.txt.K33Search.out.txt", "Petersen.0-based.txt.K4Search.out.txt",
            "nauty_example.g6", "nauty_example.g6.0-based.AdjList.out.txt", "nauty_example.g6.0-based.AdjMat.out.txt", "nauty_example.g6.0-based.AdjList.out.txt.0-based.G6.out.g6", "N5-all.g6", "N5-all.g6.0-based.AdjList.out.txt", "N5-all.g6.0-based.AdjMat.out.txt", "K10.g6", "K10.g6.0-based.AdjList.out.txt", "K10.g6.0-based.AdjMat.out.txt", "K10.g6.0-based.AdjList.out.txt.0-based.G6.out.g6"};
        for (auto n : used) { FILE *f = fopen((string("/repo/c/samples/") + n).c_str(), "rb"); CHECK(f, "setup", "cannot read the sample %s", n); string t; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) t.append(b, k); fclose(f); (*s)[n] = t; }
        return s;
    }
    // every comparison the self-test makes: input, how, exemplar
    static bool isExpectation(const string &n) { return n.find(".out.") != string::npos; }
    std::set<string> damaged; bool samplesThere = false;
    void selfTest(const Out &o, const FS &before, const vector<string> &A, const string &what, bool q) {
        std::set<string> none; checkOutputs(o, before, before, none, false, what); CHECK(o.rc != 1, "status", "%s: status 1 is not documented for this mode", what.c_str());
        string dir = A.size() ? A[0] : "samples"; bool there = before.count(dir + "/.") > 0;
        if (!there) { if (!o.fired) CHECK(o.rc == 0 && (q || o.out.find("WARNING") != string::npos), "status", "%s: no samples directory", what.c_str()); return; }
        if (!o.fired) CHECK((o.rc == 0) == damaged.empty(), "selftest", "%s with %s; the console has %s", what.c_str(), damaged.empty() ? "all samples intact" : strf("the exemplar %s altered", damaged.begin()->c_str()).c_str(), clip(o.out + o.err, 1500).c_str());
        if (!damaged.empty()) CHECK(o.rc != 0, "selftest", "%s although the exemplar %s is altered", what.c_str(), damaged.begin()->c_str());
        if (damaged.empty()) PROBE("self-test on intact samples"); else PROBE("self-test on altered samples");
    }
    void exec(const Op &op) {
        const string &c = op.name;
        if (c == "cmd") cmd(op);
        else if (c == "stdin") { const Doc *d = dw.get(op.s(0)); if (d) { stdinDoc = d->text; stdinSeek = op.i(1, 1); } }
        else if (c == "type") { typed = ""; for (auto &a : op.a) typed += a + "\n"; }
        else if (c == "clock") { clockMode(abs(op.i(0)) % 4); }
        else if (c == "rand") { rndM = abs(op.i(0)) % 9; rndS = op.i(1); if (rndM) { rndM = 0; } }
        else if (c == "samples") { fsPut("samples/.", ""); for (auto &f : *samples()) fsPut("samples/" + f.first, f.second); damaged.clear(); samplesThere = true; }
        else if (c == "damage") { // alter one exemplar so that it no longer equals the true output
            if (!samplesThere) return; vector<string> ex; for (auto &f : *samples()) if (isExpectation(f.first)) ex.push_back(f.first); string n = ex[(size_t)abs(op.i(0)) % ex.size()]; if (n.find(".AdjList.out.txt") != string::npos && (n[0] == 'K' || n[0] == 'n') && n.find(".G6.") == string::npos) {}
            string t = fsGet("samples/" + n); if (t.empty()) return; size_t k = (size_t)abs(op.i(1)) % t.size();
            switch (abs(op.i(2)) % 4) { case 0: { size_t j = k; while (j < t.size() && !isdigit((unsigned char)t[j])) j++; if (j == t.size()) return; t[j] = t[j] == '7' ? '8' : '7'; break; } case 1: { size_t j = t.find_last_not_of("\r\n"); t.resize(j); break; } case 2: t += "x"; break; default: fsRemove("samples/" + n); damaged.insert(n); return; }
            if (t == fsGet("samples/" + n)) return; fsPut("samples/" + n, t); damaged.insert(n);
        }
        else if (c == "crlf") { if (!samplesThere) return; vector<string> ex; for (auto &f : *samples()) if (isExpectation(f.first) && f.first.find(".AdjList.out.txt") == string::npos) ex.push_back(f.first); string n = "samples/" + ex[(size_t)abs(op.i(0)) % ex.size()], t = fsGet(n), u; for (char ch : t) { if (ch == '\r') continue; if (ch == '\n') u += '\r'; u += ch; } if (fsExists(n)) fsPut(n, u); }
        else if (c == "read" || c == "build" || c == "draw" || c == "write" || c == "iter" || c == "witer") return;
        else dw.exec(op);
    }
};
static void x14(const Plan &p) { rndM = 0; rndS = p.seed; simLastSeed = 0; Cli c; for (auto &l : p.L) { opLabel(clip(l, 400)); c.exec(parseOp(l)); } opLabel("end"); }
string appFaults(Rng &r, int rate, int scale) {
    string f; if (r.chance(1, 4)) f += strf(" mr:%d", r.chance(1, 2) ? r.range(1, 4) : r.range(1, 64)); if (r.chance(1, 4)) f += strf(" b:%d", r.chance(1, 2) ? r.range(1, 8) : r.range(8, 256));
    if (r.chance(rate, 1000)) { int k = r.below(14), n = r.chance(1, 2) ? r.range(1, 5) : r.range(1, scale); bool per = r.chance(1, 3);
        if (k < 5) f += strf(" %c:%d", per ? 'A' : 'a', r.chance(1, 3) ? r.range(1, 12) : r.chance(1, 2) ? r.range(1, 40) : r.range(1, 3 * scale)); else if (k == 5) f += strf(" %c:%d:%d", per ? 'O' : 'o', r.range(1, 3), r.below(5));
        else if (k == 6) f += strf(" %c:%d", per ? 'R' : 'r', n); else if (k == 7) f += strf(" e:%d", n); else if (k == 8) f += strf(" k:%d", r.range(1, 3)); else if (k < 11) f += strf(" %c:%d", per ? 'W' : 'w', n); else if (k == 11) f += strf(" t:%d:%d", n, r.below(60)); else f += strf(" c:%d", r.range(1, 3)); }
    return f.empty() ? "" : " |" + f;
}
static void genFiles(Rng &r, Plan &p, int k, int maxN, vector<string> &nm, vector<int> &fm) {
    for (int i = 0; i < k; i++) {
        string n = strf("f%d%s", i, r.chance(1, 4) ? "" : r.chance(1, 2) ? ".txt" : ".g6"); int fmt = r.below(4); if (r.chance(1, 2)) fmt = r.chance(1, 2) ? 2 : 0;
        if (fmt == 2 && r.chance(2, 3)) { int N = r.chance(1, 10) ? r.range(1, 3) : r.range(3, maxN), K = r.range(0, 6); p.add(strf("sdoc %s %d %d", n.c_str(), r.below(2), N)); for (int q = 0; q < K; q++) { GenGraph g = genGraph(r, N); string s = "sline " + n; for (auto &x : g.e) if (x.first <= N && x.second <= N) s += strf(" %d-%d", x.first, x.second); p.add(s); if (r.chance(1, 50)) p.add(strf("sother %s 1", n.c_str())); } if (r.chance(1, 4)) p.add("strip " + n); }
        else p.add(strf("put %s %d %d %d ", n.c_str(), fmt, r.below(8), fmt == 0 && r.chance(1, 6)) + graphText(genGraph(r, maxN)));
        if (r.chance(1, 6)) switch (r.below(4)) { case 0: p.add(strf("cut %s %d", n.c_str(), r.below(100000))); break; case 1: p.add(strf("tok %s %d %d", n.c_str(), r.below(100000), r.below(12))); break; case 2: p.add(strf("flip %s %d %d", n.c_str(), r.below(100000), r.chance(1, 2) ? r.range(32, 126) : r.below(256))); break; default: p.add(strf("delb %s %d 1", n.c_str(), r.below(100000))); }
        nm.push_back(n); fm.push_back(fmt);
    }
}
static void gen14(Rng &r, Plan &p, int tier) {
    vector<string> nm; vector<int> fm; int maxN = r.chance(1, 12) ? 64 : 12; genFiles(r, p, r.range(1, 3), maxN, nm, fm); int rate = r.chance(1, 3) ? 0 : 700;
    if (r.chance(1, 6)) p.add("dir d"); if (r.chance(1, 4)) p.add(strf("clock %d", r.below(4)));
    if (r.chance(1, 15)) { p.add("samples"); if (r.chance(1, 2)) p.add(strf("damage %d %d %d", r.below(1000), r.below(100000), r.below(4))); if (r.chance(1, 3)) p.add(strf("crlf %d", r.below(1000))); p.add(string("cmd -test") + (r.chance(1, 2) ? " -q" : "") + (r.chance(1, 3) ? " samples" : "") + (r.chance(1, 2) ? appFaults(r, 1000, 300) : "")); }
    int k = r.range(1, tier ? 6 : 4);
    for (int i = 0; i < k; i++) {
        string q = r.chance(1, 2) ? " -q" : "", in = r.chance(1, 30) ? "missing.txt" : r.chance(1, 60) ? "nodir/x.txt" : nm[r.below((int)nm.size())], out = r.chance(1, 20) ? (r.chance(1, 2) ? "nodir/o" : "d/o") : r.chance(1, 14) ? "stdout" : r.chance(1, 40) ? in : strf("o%d.txt", r.below(3)), o2 = r.chance(1, 3) ? "" : r.chance(1, 20) ? "nodir/p" : r.chance(1, 10) ? "stdout" : strf("p%d.txt", r.below(3)), f = r.chance(rate, 1000) ? appFaults(r, 900, 60) : r.chance(1, 4) ? appFaults(r, 0, 1) : "";
        if (r.chance(1, 12)) { p.add(strf("stdin %s %d", in.c_str(), r.chance(2, 3))); in = "stdin"; }
        if (r.chance(1, 40)) { string l(r.range(60, 400), 'n'); (r.chance(1, 2) ? in : out) = l + ".txt"; }
        char C = "pdo234"[r.below(6)]; if (r.chance(1, 50)) C = "zP5-"[r.below(4)];
        string c; switch (r.below(20)) {
        default: c = "-s" + q + strf(" -%c ", C) + in + " " + out + (o2.empty() ? "" : " " + o2); break;
        case 8: case 9: case 10: case 11: { string g6; for (size_t z = 0; z < nm.size(); z++) if (fm[z] == 2) g6 = nm[z]; if (g6.size() && r.chance(7, 8) && in != "stdin") in = g6; c = "-t" + q + strf(" -%c ", C) + in + " " + (out == "stdout" ? "o1.txt" : out); break; }
        case 12: case 13: case 14: { char F = "gam"[r.below(3)]; if (r.chance(1, 40)) F = 'z'; c = "-x" + q + strf(" -%c ", F) + in + " " + out; break; }
        case 15: c = "-r" + q + strf(" -%c %d %d", C, r.chance(1, 30) ? 0 : r.range(1, 12), r.chance(1, 30) ? 0 : r.range(1, 25)); break;
        case 16: case 17: { c = string(r.chance(1, 2) ? "-rm" : "-rn") + q + strf(" %d ", r.chance(1, 30) ? 0 : r.range(1, r.chance(1, 8) ? 60 : 16)) + out + (o2.empty() ? "" : " " + o2); int a = r.below(5); if (a < 2) p.add(a ? "type y" : "type n"); break; }
        case 18: c = in + " " + out + (r.chance(1, 2) ? " -n " + (o2.empty() ? string("p.txt") : o2) : ""); if (r.chance(1, 20)) c = in; break;
        case 19: { static const char *odd[] = {"-h", "-help -menu", "-i", "-info", "-z", "-s", "-s -p", "-s -q -p f0", "-t -p", "-x -a", "-r -p", "-rm", "-rn 5", "-h -zz", "-rm -q 5", "-", "-s -q -p f0.txt", "-t -q -p x", "-x -q -g y", "-r -q -p 3"}; c = odd[r.below(20)]; break; }
        }
        p.add("cmd " + c + f);
    }
}
static RegScenario r14({"P14", gen14, x14, 0});

// ------------------------------------------------------------------ P15
// One interactive session: the steps are typed into the menu, then "run" executes the program on them.
struct Step { char kind; char c = 0; string a, b, con; int K = 0, N = 0; bool ans = false; size_t from = 0, to = 0; bool cfg[4] = {0, 0, 0, 0}; };
static string unhex(const string &h) { string s; for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return s; }
struct Menu {
    DocWorld dw; string script; vector<Step> st; char mode = 'r'; bool cfg[4] = {0, 0, 0, 0}; bool raw = false, quit = false; int prompts = 0;
    void key() { script += "c\n"; }
    void setMode(char m, const bool *c4) { // r, then the mode, and for random graphs four answers
        script += strf("r\n%c\n", m); mode = strchr("rsmn", m) ? m : 's'; prompts++; Step s; s.kind = 'c'; if (mode == 'r') for (int i = 0; i < 4; i++) { cfg[i] = c4[i]; script += c4[i] ? "y\n" : "n\n"; } s.to = script.size(); st.push_back(s);
    }
    Step begin(char kind) { prompts++; Step s; s.kind = kind; s.from = script.size(); return s; }
    void end(Step &s, bool newline) { s.to = script.size(); if (newline) script += "\n"; for (int i = 0; i < 4; i++) s.cfg[i] = cfg[i]; st.push_back(s); key(); }
    static string norm(const string &n) { return n.find('.') == string::npos ? n + ".txt" : n; }
    void exec(const Op &op) {
        const string &k = op.name; char c = op.s(0, "p")[0]; if (k != "run" && quit) return;
        if (k == "clock") clockMode(abs(op.i(0)) % 4);
        else if (k == "cfg") { bool f[4]; for (int i = 0; i < 4; i++) f[i] = op.i(i + 1) & 1; setMode(c, f); }
        else if (k == "spec") { if (!flagsOf(c) || op.s(1).empty()) return; if (mode != 's') setMode('s', cfg); Step s = begin('s'); s.c = c; s.a = norm(op.s(1)); script += strf("%c\n%s", c, op.s(1).c_str()); end(s, true); }
        else if (k == "rand") { int K = op.i(1), N = op.i(2); if (!flagsOf(c) || K < 1 || K > 40 || N < 1 || N > 80) return; if (mode != 'r') setMode('r', cfg); Step s = begin('r'); s.c = c; s.K = K; s.N = N; script += strf("%c\n%d\n%d", c, K, N); end(s, true); }
        else if (k == "rm" || k == "rn") { int N = op.i(1); if (!flagsOf(c) || N < 3 || N > 200) return; char m = k[1]; if (mode != m) setMode(m, cfg); Step s = begin(m); s.c = c; s.N = N; s.ans = op.s(2) == "y"; script += strf("%c\n%d\n%c", c, N, s.ans ? 'y' : 'n'); end(s, true); }
        else if (k == "xform" || k == "tall") { // in out format
            Step s = begin(k[0]); s.a = op.s(0); s.b = op.s(1) == "-" ? "" : op.s(1); s.c = op.s(2, "g")[0]; if (s.a.empty() || s.a.compare(0, 5, "stdin") == 0 || !strchr(k[0] == 'x' ? "gam" : "pdo234", s.c) || !s.c) { prompts--; return; }
            script += strf("%c\n", k[0]); for (int i = 0; i < (op.i(3) & 3); i++) script += "\n"; if (op.i(3) & 4) script += "stdin\n"; script += s.a + "\n" + s.b + "\n"; if (op.i(3) & 8) script += "z\n"; script += strf("%c", op.i(3) & 16 ? toupper(s.c) : s.c); end(s, true); }
        else if (k == "help") { Step s = begin('h'); script += "h"; end(s, true); }
        else if (k == "bad") { if (strchr("pdo234xthrqPDOXTHRQ", c)) return; Step s = begin('b'); script += string(1, c); end(s, true); }
        else if (k == "quit") { script += op.i(0) ? "Q\n" : "q\n"; quit = true; prompts++; }
        else if (k == "raw") { string t = unhex(op.s(0)); for (auto &x : t) if (x == '0' || x == '-') x = '1'; int run = 0; string u; for (char x : t) { if (isdigit((unsigned char)x)) { if (++run > 2) continue; } else run = 0; u += x; } script += u + "\n"; raw = true; }
        else if (k == "run") run(op);
        else if (k == "read" || k == "build" || k == "draw" || k == "write" || k == "iter" || k == "witer") return;
        else dw.exec(op);
    }
    // the effect of one step on the file system, through the library; con: what the console must contain
    void apply(Step &s, size_t &seed, std::set<string> &wild) {
        auto nextSeed = [&] { CHECK(seed < simSeeds.size(), "skipped", "the random graphs of a step of the session were not generated"); return simSeeds[seed++]; }; s.con = "";
        if (s.kind == 's') { bool pdo = strchr("pdo", s.c) != 0; string e; bool lng = false; { int i = (int)s.a.size() - (s.a.size() > 4 && false ? 4 : 0); lng = i > 132; } if (lng) { s.con = "!Filename is too long"; return; }
            int r = xRc(apiSpecific(s.c, s.a, 0, pdo ? &e : 0, "")); if (r == X_ERR) { s.con = "!"; return; } s.con = strf("The graph \"%s\" ", s.a.c_str()); bool n = r == X_NONE; switch (s.c) { case 'p': case 'd': s.con += n ? "is not planar." : "is planar."; break; case 'o': s.con += n ? "is not outerplanar." : "is outerplanar."; break; default: s.con += n ? "has a subgraph homeomorphic to " : "has no subgraph homeomorphic to "; s.con += s.c == '2' ? "K_{2,3}." : s.c == '3' ? "K_{3,3}." : "K_4."; } PROBE("menu: specific graph"); }
        else if (s.kind == 'r') { bool w = true; RStat t = apiRandomMany(s.c, s.K, s.N, nextSeed(), s.cfg, &w); s.con = (s.c == 'p' || s.c == 'o' ? "Num Embedded=" : s.c == 'd' ? "Num Graphs Embedded and Drawn=" : "Of the generated graphs, ") + strf("%d", t.embedded); PROBE("menu: random graphs"); }
        else if (s.kind == 'm' || s.kind == 'n') { int M = 0; int r = xRc(apiRandom1(s.c, s.kind == 'n', s.N, nextSeed(), 0, 0, s.ans, &M)); CHECK(r != X_ERR, "setup", "the library cannot do a step"); s.con = strf("Created random graph with %d edges", M); PROBE("menu: one random graph"); }
        else if (s.kind == 'x') { string o = s.b.empty() ? "conout" : s.b; int r = apiTransform(s.c, s.a, o, ""); if (r != OK) s.con = "!"; else if (s.b.empty()) s.con = "Output:\n" + fsGet(o) + "\n"; if (s.b.empty() && fsExists(o)) fsRemove(o); PROBE("menu: transformation"); }
        else if (s.kind == 't') { bool there = fsExists(s.a); Tally t = tally(s.c, there ? fsGet(s.a) : ""); string base = s.a.substr(s.a.rfind('/') == string::npos ? 0 : s.a.rfind('/') + 1);
            if (!there) { s.con = "!"; return; } if (t.end) { s.con = t.end == 1 ? "!" : ""; if (s.b.size()) wild.insert(s.b); return; }
            string line = strf("-%c %d %d %d SUCCESS\n", s.c, t.read, t.ok, t.none), head = "FILENAME=\"" + base + "\" DURATION=\""; if (s.b.empty()) s.con = line; else if (s.b.find('/') == string::npos) { fsPut(s.b, head + "\"\n" + line); wild.erase(s.b); } PROBE("menu: all graphs of a file"); }
        else if (s.kind == 'h') s.con = "-test"; else if (s.kind == 'b') s.con = "Invalid menu choice";
    }
    vector<unsigned> simSeeds;
    static string mask(const string &t) { if (t.compare(0, 10, "FILENAME=\"")) return t; size_t a = t.find("DURATION=\""); if (a == string::npos) return t; a += 10; size_t b = t.find('"', a); return b == string::npos ? t : t.substr(0, a) + t.substr(b); }
    static int differ(const FS &x, const FS &y, const std::set<string> &wild, string &first) { int n = 0; for (auto &f : diff(x, y)) { if (wild.count(f.first)) continue; auto a = x.find(f.first), b = y.find(f.first); if (a != x.end() && b != y.end() && mask(a->second) == mask(b->second)) continue; if (!n++) first = f.first; } return n; }
    void run(const Op &op) { // run CUT SEEKABLE : CUT < 0 whole script
        string text = script; long cut = op.i(0, -1); bool b = op.i(2) != 0; vector<Step> steps = st; bool wasQuit = quit; int np = prompts; bool wasRaw = raw; script = ""; st.clear(); quit = raw = false; mode = 'r'; for (bool &f : cfg) f = false; prompts = 0;
        bool whole = cut < 0 || text.empty(); if (!whole) { size_t k = (size_t)cut % (text.size() + 1); if (b && steps.size()) k = steps[(size_t)cut % steps.size()].to; text.resize(k); }
        FS before = fsAll(); ::simSeeds().clear(); size_t start = text.size();
        Out o = runProgram({"planarity"}, text, op.i(1, 1), op.faults, 1200000000); simSeeds = ::simSeeds(); FS after = o.after; string what = strf("a menu session of %zu steps%s%s", steps.size(), whole ? (wasQuit ? "" : ", ended by the end of the input") : strf(", with the input cut after %zu characters", start).c_str(), o.fired ? " and a fault" : "");
        stateSeen(mix(mix(hashStr(text), hashStr(o.out)), o.rc * 4 + (o.fired ? 1 : 0))); PROBE(whole ? "whole sessions" : "sessions cut by the end of the input");
        if (o.fired) PROBE("sessions with faults"); if (wasRaw) { PROBE("sessions of arbitrary text"); return; }
        if (o.fired) { // whatever failed, only the files the steps may write have changed
            std::set<string> ok; for (auto &s : steps) outsOf(s, ok); bool anyRandom = false; for (auto &s : steps) if (s.kind == 'r') anyRandom = true; if (o.io || o.eof >= 0) return; // a failing console read changes what is typed
            for (auto &f : diff(before, after)) CHECK(ok.count(f.first) || (anyRandom && f.first.compare(0, 6, "error/") == 0), "stray-write", "%s changed the file %s", what.c_str(), f.first.c_str()); return; }
        // the steps whose input is complete take effect, in order
        fsRestore(before); size_t seed = 0, done = 0; std::set<string> wild; for (; done < steps.size() && steps[done].to <= text.size(); done++) { opLabel(strf("step %zu of the session", done)); if (steps[done].to == text.size() && strchr("mn", steps[done].kind) && !steps[done].ans) {} apply(steps[done], seed, wild); }
        FS want = fsAll(); fsRestore(after); string first; int nd = differ(want, after, wild, first);
        bool between = done == steps.size() || text.size() <= steps[done].from; opLabel("end of the session");
        if (between) CHECK(nd == 0, "effect", "%s: the file %s holds\n%s\nrather than\n%s\nthe script was\n%s", what.c_str(), first.c_str(), after.count(first) ? clip(after[first]).c_str() : "(no file)", want.count(first) ? clip(want[first]).c_str() : "(no file)", clip(text, 600).c_str());
        else if (steps[done].kind != 'r') CHECK(nd <= 2, "effect", "%s: %d files differ from the effect of the first %zu steps, such as %s", what.c_str(), nd, done, first.c_str());
        // the console: one segment for each choice made
        vector<string> seg; { size_t p = 0; const string m = "Enter Choice: "; while (true) { size_t q = o.out.find(m, p); seg.push_back(o.out.substr(p, q == string::npos ? string::npos : q - p)); if (q == string::npos) break; p = q + m.size(); } }
        CHECK(seg.size() >= done + 1, "menu", "%s: the menu was shown %zu times for %zu choices", what.c_str(), seg.size() - 1, done);
        for (size_t i = 0; i < done; i++) { const Step &s = steps[i]; const string &g = seg[i + 1]; if (s.con.empty()) continue; if (s.con[0] == '!') { CHECK(g.find("Output:\n") == string::npos && g.find("planar.") == string::npos && g.find("homeomorphic to K_{") == g.find("homeomorphic to K_{2,3}\n"), "message", "%s: step %zu failed, but the console says\n%s", what.c_str(), i, clip(g).c_str()); continue; }
            CHECK(g.find(s.con) != string::npos, "message", "%s: after step %zu (%c) the console says\n%s\nwithout\n%s", what.c_str(), i, s.kind, clip(g, 900).c_str(), clip(s.con).c_str()); }
        if (whole) { CHECK(o.rc == 0, "status", "%s ended with status %d", what.c_str(), o.rc); CHECK((int)seg.size() - 1 == np + (wasQuit ? 0 : 1), "menu", "%s: the menu was shown %zu times for %d choices\n%s", what.c_str(), seg.size() - 1, np, clip(text, 600).c_str()); }
    }
    static void outsOf(const Step &s, std::set<string> &o) {
        if (s.kind == 's') { string n = s.a + "." + algName(s.c) + ".out.txt"; o.insert(n); o.insert(n + ".render.txt"); }
        else if (s.kind == 'x' || s.kind == 't') o.insert(s.b); else if (s.kind == 'm' || s.kind == 'n') { string n = s.kind == 'n' ? "nonPlanarEdgeList.txt" : "maxPlanarEdgeList.txt"; o.insert(n); o.insert(n + ".out.txt"); }
        else if (s.kind == 'r') for (const char *d : {"random", "embedded", "obstructed", "adjlist"}) for (int k = 0; k < 10; k++) o.insert(strf("%s/%d.txt", d, k));
    }
};
static void x15(const Plan &p) { rndM = 0; rndS = p.seed; simLastSeed = 0; Menu m; for (auto &l : p.L) { opLabel(clip(l, 400)); m.exec(parseOp(l)); } opLabel("end"); }
static void gen15(Rng &r, Plan &p, int tier) {
    vector<string> nm; vector<int> fm; genFiles(r, p, r.range(1, 3), 12, nm, fm); if (r.chance(1, 4)) p.add(strf("clock %d", r.below(4)));
    for (const char *d : {"random", "embedded", "obstructed", "adjlist"}) if (r.chance(2, 3)) p.add(string("dir ") + d);
    int sessions = r.chance(1, 4) ? 2 : 1;
    while (sessions--) {
        int k = r.range(1, tier ? 8 : 5); bool rawS = r.chance(1, 8);
        for (int i = 0; i < k; i++) {
            string in = r.chance(1, 25) ? "missing" : nm[r.below((int)nm.size())]; char C = "pdo234"[r.below(6)]; if (r.chance(1, 40)) { in = string(r.chance(1, 2) ? r.range(120, 140) : r.range(100, 400), 'n'); }
            string out = r.chance(1, 3) ? "-" : r.chance(1, 20) ? "nodir/o" : strf("o%d.txt", r.below(3));
            switch (r.below(16)) {
            case 0: case 1: case 2: case 3: case 4: p.add(strf("spec %c %s", C, in.c_str())); break;
            case 5: case 6: p.add(strf("rand %c %d %d", C, r.range(1, 12), r.range(1, 20))); break;
            case 7: p.add(strf("rm %c %d %c", C, r.range(3, 20), r.chance(1, 2) ? 'y' : 'n')); break; case 8: p.add(strf("rn %c %d %c", C, r.range(5, 20), r.chance(1, 2) ? 'y' : 'n')); break;
            case 9: case 10: p.add(strf("xform %s %s %c %d", in.c_str(), out.c_str(), "gam"[r.below(3)], r.chance(1, 2) ? 0 : r.below(32))); break;
            case 11: case 12: { for (size_t z = 0; z < nm.size(); z++) if (fm[z] == 2 && r.chance(3, 4)) in = nm[z]; p.add(strf("tall %s %s %c %d", in.c_str(), out == "-" ? "-" : out == "nodir/o" ? "nodir/o" : strf("t%d.txt", r.below(2)).c_str(), C, r.chance(1, 2) ? 0 : r.below(32))); break; }
            case 13: p.add("help"); break; case 14: p.add(strf("bad %c", "zY5#"[r.below(4)])); break;
            case 15: p.add(strf("cfg %c %d %d %d %d", "rsmnz"[r.chance(1, 2) ? 0 : r.below(5)], r.below(2), r.below(2), r.below(2), r.below(2))); break;
            }
            if (rawS && r.chance(1, 2)) { string h; int L = r.range(1, 12); for (int z = 0; z < L; z++) h += strf("%02x", r.chance(1, 3) ? (int)"pdo234xthrqsmnyg\n\n "[r.below(19)] : r.chance(1, 2) ? 10 : r.below(256)); p.add("raw " + h); }
        }
        if (r.chance(5, 6)) p.add(strf("quit %d", r.below(2)));
        p.add(strf("run %d %d %d", r.chance(1, 2) ? -1 : r.below(1000000), r.chance(2, 3), r.below(2)) + (r.chance(1, 4) ? appFaults(r, 900, 60) : r.chance(1, 6) ? appFaults(r, 0, 1) : ""));
    }
}
static RegScenario r15({"P15", gen15, x15, 0});
