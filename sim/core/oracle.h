// Independent oracles: simple graph model, planarity and homeomorph references, witness and embedding
// checkers, and a bounded, self-checking snapshot of a library graph.
#pragma once
#include "sim.h"
typedef std::pair<int, int> Edge;
typedef vector<Edge> Edges;
inline Edge E2(int u, int v) { return u < v ? Edge(u, v) : Edge(v, u); }

struct Ref { // simple undirected graph, vertices 1..n
    int n = 0; vector<vector<int>> adj;
    explicit Ref(int n_ = 0) : n(n_), adj(n_ + 1) {}
    Ref(int n_, const Edges &e) : n(n_), adj(n_ + 1) { for (auto &x : e) { adj[x.first].push_back(x.second); adj[x.second].push_back(x.first); } }
};
bool refPlanar(int n, const Edges &e);          // left-right planarity test
bool refOuterplanar(int n, const Edges &e);
bool refHasK4(int n, const Edges &e);
bool refHasK23(int n, const Edges &e);
bool refHasK33(int n, const Edges &e);
int refComponents(int n, const Edges &e);
enum { SUB_NONE = 0, SUB_K5 = 1, SUB_K33 = 2, SUB_K4 = 4, SUB_K23 = 8 };
int subdivisionKind(int n, const Edges &e, string *why = 0); // which of the four targets e is homeomorphic to

// ---- snapshot of a library graph
struct Snap {
    int n = 0, m = 0;
    vector<vector<int>> nb, arc, dir; // per vertex 1..n in list order
    Edges edges() const;              // each edge once, E2 form, sorted
    u64 hash() const;
    string text() const;
};
// walks the adjacency lists through the public macros with bounds and consistency checks; fails the run on a corrupt structure
Snap snapGraph(graphP g, const char *what);
bool sameRotation(const Snap &a, const Snap &b, string *why);      // same ordered neighbour lists and directions
void checkEmbedding(const Snap &s, bool outer, const char *what);  // Euler's formula per component; one face with all vertices if outer
vector<int> labelMap(graphP g, const char *what);                   // vertex index fields as a permutation 1..n
Edges mapEdges(const Edges &e, const vector<int> &map);
bool subsetOf(const Edges &a, const Edges &b);

// ---- drawings (visibility representations)
struct Drawing { int n = 0; vector<int> vpos, vs, ve; struct ED { int e, u, v, pos, s, t; }; vector<ED> ed; };
bool parseDrawing(const string &written, int n, Drawing &d, string *why);
void checkDrawing(const Drawing &d, const Snap &s, const char *what);
string expectedRendering(const Drawing &d, int n, int m, bool zeroBased);

// ---- graph generation for plans: text "n u-v u-v ..."
struct GenGraph { int n; Edges e; string kind; };
GenGraph genGraph(Rng &r, int maxN, int kindHint = -1);
string graphText(const GenGraph &g);
GenGraph parseGraphText(const Op &op, size_t from); // args from..: n u-v ...
void shuffleGraph(Rng &r, GenGraph &g);
template <class T> void shuffleVec(Rng &r, vector<T> &v) { for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]); }
