// A world of up to four graph objects driven by plan lines, with an executable model of each.
#pragma once
#include "oracle.h"

extern "C" {
extern int K23SEARCH_ID, K33SEARCH_ID, K4SEARCH_ID, DRAWPLANAR_ID;
int gp_LeastAncestor(graphP); int gp_RestoreVertex(graphP);
int gp_AttachDrawPlanar(graphP); int gp_DetachDrawPlanar(graphP);
int gp_AttachK23Search(graphP); int gp_DetachK23Search(graphP);
int gp_AttachK33Search(graphP); int gp_DetachK33Search(graphP);
int gp_AttachK4Search(graphP); int gp_DetachK4Search(graphP);
int gp_DrawPlanar_RenderToFile(graphP, char *);
int gp_DrawPlanar_RenderToString(graphP, char **);
}

struct ME { int u, v, dir; };               // dir: 0 none, 1 u->v, 2 v->u
struct Model {
    int n = 0, M = 0;
    vector<ME> E;
    vector<vector<int>> L;                  // per vertex: edge ids in adjacency order
    int other(int e, int v) const { return E[e].u == v ? E[e].v : E[e].u; }
    int dirAt(int e, int v) const { return E[e].dir == 0 ? 0 : (E[e].dir == 1) == (E[e].u == v) ? 1 : 2; }
    void reset(int n_) { n = n_; M = 0; E.clear(); L.assign(n + 1, {}); }
    bool has(int u, int v) const { for (int e : L[u]) if (other(e, u) == v) return true; return false; }
    Edges edges() const { Edges r; for (int v = 1; v <= n; v++) for (int e : L[v]) if (E[e].u == v) r.push_back(E2(E[e].u, E[e].v)); std::sort(r.begin(), r.end()); return r; }
    bool directed() const { for (int v = 1; v <= n; v++) for (int e : L[v]) if (E[e].dir) return true; return false; }
    Snap snap() const;
};
enum Phase { NOGRAPH, EMPTYG, RAW, DFSED, EMB, OPAQUE, BROKEN };
struct Undo { char kind; int arc; Model before; };
struct Slot4 {
    graphP g = 0;
    Phase ph = NOGRAPH;
    Model m;
    int cap = 0;                            // arc capacity promised so far
    std::set<char> ext;                     // D 3 4 2
    vector<Undo> undo;
    // DFSED / EMB
    Snap s; vector<int> index, parent, edgeType; bool sorted = false;
    int flags = 0, res = 0; bool drawn = false; Edges input; Model inputModel; graphP orig = 0;
    u64 seenHash = 0;
    int origin = 0;                         // 1: the object was built by copy, read, ...
};
struct World {
    Slot4 S[4];
    bool io = true;
    u64 maxRatioSteps = 0;
    void exec(const Op &op);                // one op (validity decided here; inapplicable ops are skipped)
    void finish();                          // frees everything, checks leaks
    // helpers
    void verify(int s, const string &what);
    void verifyOthers(int except);
    void quickQueries(int s);
    void wipe(int s);
    bool usable(int s) { return S[s].g && S[s].ph >= RAW && S[s].ph <= OPAQUE; }
    void setModelFromSnap(int s, const Snap &sn);
};
void runWorld(const Plan &p);
bool swarmOp(const Op &op);                 // batches of independent graphs (swarm.cpp)
int kindFor(Rng &r, char flag);             // a graph family for genGraph suited to an algorithm, or -1
// large structured graphs (work.cpp) and the answers that hold for a whole family (-2: unknown)
GenGraph family(int f, int n, Rng &r); int familyAnswer(int f, char a); enum { numFamilies = 27 };
graphP buildTwin(const Snap &lists, int cap);  // fresh graph with exactly these ordered adjacency lists
int attachExt(graphP g, char x);
int detachExt(graphP g, char x);
bool hasExt(graphP g, char x);
char extFor(int flags);
int embFlag(const string &name);
string writeStr(graphP g, int mode, int *ret = 0);   // without faults
Snap snapAny(graphP g, const char *what);
string adjListText(const Snap &s, bool zero);
string matrixText(const Snap &s, bool zero);
string g6Text(const Snap &s, bool header);
void drawingOf(graphP g, const Snap &s, Drawing &d, const char *what);
extern double stepFactor;                   // allowed steps per n+m in embedding calls; 0 disables
