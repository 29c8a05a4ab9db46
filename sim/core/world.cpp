#include "world.h"
#include "shared.h"

double stepFactor = 0;
static int vtx(int a, int n) { return n <= 0 ? 1 : 1 + (int)(((long)a % n + n) % n); }
static int wrapIdx(int a, int n) { return n <= 0 ? 0 : (int)(((long)a % n + n) % n); }

// ---------------------------------------------------------------- small helpers
Snap Model::snap() const {
    Snap s; s.n = n; s.m = M; s.nb.resize(n + 1); s.arc.resize(n + 1); s.dir.resize(n + 1);
    for (int v = 1; v <= n; v++) for (int e : L[v]) { s.nb[v].push_back(other(e, v)); s.dir[v].push_back(dirAt(e, v)); s.arc[v].push_back(0); }
    return s;
}
char extFor(int f) { switch (f) { case EMBEDFLAGS_DRAWPLANAR: return 'D'; case EMBEDFLAGS_SEARCHFORK23: return '2'; case EMBEDFLAGS_SEARCHFORK33: return '3'; case EMBEDFLAGS_SEARCHFORK4: return '4'; } return 0; }
int embFlag(const string &s) {
    if (s == "P") return EMBEDFLAGS_PLANAR; if (s == "O") return EMBEDFLAGS_OUTERPLANAR; if (s == "D") return EMBEDFLAGS_DRAWPLANAR;
    if (s == "2") return EMBEDFLAGS_SEARCHFORK23; if (s == "3") return EMBEDFLAGS_SEARCHFORK33; if (s == "4") return EMBEDFLAGS_SEARCHFORK4; return EMBEDFLAGS_PLANAR;
}
static const char *flagName(int f) { switch (f) { case EMBEDFLAGS_PLANAR: return "planarity"; case EMBEDFLAGS_OUTERPLANAR: return "outerplanarity"; case EMBEDFLAGS_DRAWPLANAR: return "planar drawing"; case EMBEDFLAGS_SEARCHFORK23: return "K2,3 search"; case EMBEDFLAGS_SEARCHFORK33: return "K3,3 search"; case EMBEDFLAGS_SEARCHFORK4: return "K4 search"; } return "?"; }
int attachExt(graphP g, char x) { switch (x) { case 'D': return LIB(gp_AttachDrawPlanar(g)); case '2': return LIB(gp_AttachK23Search(g)); case '3': return LIB(gp_AttachK33Search(g)); default: return LIB(gp_AttachK4Search(g)); } }
int detachExt(graphP g, char x) { switch (x) { case 'D': return LIB(gp_DetachDrawPlanar(g)); case '2': return LIB(gp_DetachK23Search(g)); case '3': return LIB(gp_DetachK33Search(g)); default: return LIB(gp_DetachK4Search(g)); } }
bool hasExt(graphP g, char x) { int id = x == 'D' ? DRAWPLANAR_ID : x == '2' ? K23SEARCH_ID : x == '3' ? K33SEARCH_ID : K4SEARCH_ID; return gp_FindExtension(g, id, 0) == TRUE; }
string writeStr(graphP g, int mode, int *ret) {
    char *out = 0; int r = LIB(gp_WriteToString(g, &out, mode)); string s = out ? out : ""; if (out) simFree(out); if (ret) *ret = r; else CHECK(r == OK, "write", "writing the graph to a string failed without any fault"); return s;
}
graphP buildTwin(const Snap &s, int cap) {
    graphP g = LIB(gp_New()); int m = 0; for (int v = 1; v <= s.n; v++) m += (int)s.nb[v].size(); m /= 2;
    int need = std::max(6 * s.n, std::max(cap, 2 * m)); if (need & 1) need++;
    CHECK(LIB(gp_EnsureArcCapacity(g, need)) == OK && LIB(gp_InitGraph(g, s.n)) == OK, "twin", "a fresh graph could not be set up");
    for (int v = 1; v <= s.n; v++) for (size_t i = 0; i < s.nb[v].size(); i++) if (v < s.nb[v][i]) {
        int w = s.nb[v][i]; CHECK(LIB(gp_AddEdge(g, v, 1, w, 1)) == OK, "twin", "an edge could not be added to a fresh graph");
        if (s.dir[v][i]) { int e = gp_GetNeighborEdgeRecord(g, v, w); gp_SetDirection(g, e, (s.dir[v][i] == 1 ? EDGEFLAG_DIRECTION_OUTONLY : EDGEFLAG_DIRECTION_INONLY)); }
    }
    for (int v = 1; v <= s.n; v++) { std::map<int, int> pos; for (int e = gp_GetFirstArc(g, v); gp_IsArc(e); e = gp_GetNextArc(g, e)) pos[gp_GetNeighbor(g, e)] = e; for (int w : s.nb[v]) { int a = pos[w]; gp_MoveArcToLast(g, v, a); } }
    return g;
}
static bool simpleSnap(const Snap &s) { for (int v = 1; v <= s.n; v++) { std::set<int> x(s.nb[v].begin(), s.nb[v].end()); if (x.size() != s.nb[v].size() || x.count(v)) return false; } return true; }

// ---------------------------------------------------------------- expected texts
string adjListText(const Snap &s, bool zero) {
    string t = strf("N=%d\n", s.n); int o = zero ? 1 : 0;
    for (int v = 1; v <= s.n; v++) { t += strf("%d:", v - o); for (int i = (int)s.nb[v].size() - 1; i >= 0; i--) if (s.dir[v][i] != 2) t += strf(" %d", s.nb[v][i] - o); t += zero ? " -1\n" : " 0\n"; }
    return t;
}
string matrixText(const Snap &s, bool) {
    string t = strf("%d\n", s.n);
    for (int v = 1; v <= s.n; v++) { string r; for (int k = 1; k <= s.n; k++) r += k <= v ? ' ' : '0'; for (int w : s.nb[v]) if (w > v) r[w - 1] = '1'; t += r + "\n"; }
    return t;
}
string g6Text(const Snap &s, bool header) {
    string t = header ? ">>graph6<<" : ""; long n = s.n;
    if (n <= 62) t += (char)(n + 63); else if (n <= 258047) { t += (char)126; for (int k = 12; k >= 0; k -= 6) t += (char)(63 + ((n >> k) & 63)); } else { t += (char)126; t += (char)126; for (int k = 30; k >= 0; k -= 6) t += (char)(63 + ((n >> k) & 63)); }
    vector<vector<char>> a(n + 1, vector<char>(n + 1, 0)); for (int v = 1; v <= n; v++) for (int w : s.nb[v]) a[v][w] = 1;
    int acc = 0, k = 0; for (int j = 2; j <= n; j++) for (int i = 1; i < j; i++) { acc = acc * 2 + a[i][j]; if (++k == 6) { t += (char)(63 + acc); acc = k = 0; } }
    if (k) t += (char)(63 + (acc << (6 - k)));
    return t + "\n";
}
void drawingOf(graphP g, const Snap &s, Drawing &d, const char *what) {
    string why, t = writeStr(g, WRITE_ADJLIST);
    CHECK(parseDrawing(t, s.n, d, &why), "drawing", "%s: the written drawing is unreadable: %s", what, why.c_str());
    bool zero = g->internalFlags & 8 ? true : false; (void)zero;
    // rows come per arc, in arc order; both arcs of an edge carry the same data
    std::map<int, std::pair<int, int>> ends; for (int v = 1; v <= s.n; v++) for (size_t i = 0; i < s.arc[v].size(); i++) ends[s.arc[v][i]] = {v, s.nb[v][i]};
    CHECK(d.ed.size() == ends.size(), "drawing", "%s: %zu edge rows for %zu arcs", what, d.ed.size(), ends.size());
    vector<Drawing::ED> out; size_t k = 0;
    for (auto &kv : ends) {
        Drawing::ED x = d.ed[k++]; x.u = kv.second.first; x.v = kv.second.second;
        if (!(kv.first & 1)) out.push_back(x);
        else CHECK(!out.empty() && out.back().pos == x.pos && out.back().s == x.s && out.back().t == x.t, "drawing", "%s: the two arcs of edge %d-%d have different drawing data", what, x.u, x.v);
    }
    d.ed = out;
}

// ---------------------------------------------------------------- verification of one slot
Snap snapAny(graphP g, const char *what) { return snapGraph(g, what); }
void World::setModelFromSnap(int si, const Snap &sn) {
    Slot4 &S0 = S[si]; Model &m = S0.m; m.reset(sn.n); std::map<int, int> id;
    for (int v = 1; v <= sn.n; v++) for (size_t i = 0; i < sn.arc[v].size(); i++) { int key = sn.arc[v][i] & ~1; auto it = id.find(key); int e; if (it == id.end()) { e = (int)m.E.size(); id[key] = e; int w = sn.nb[v][i]; int d = sn.dir[v][i]; m.E.push_back({v, w, d == 3 ? 3 : d}); m.M++; } else e = it->second; m.L[v].push_back(e); }
}
static u64 vecHash(const vector<int> &v, u64 h) { for (int x : v) h = mix(h, x); return h; }
static vector<int> readIndex(graphP g) { vector<int> x(g->N + 1); for (int v = 1; v <= g->N; v++) x[v] = gp_GetVertexIndex(g, v); return x; }
static vector<int> readParent(graphP g) { vector<int> x(g->N + 1); for (int v = 1; v <= g->N; v++) x[v] = gp_GetVertexParent(g, v); return x; }

void World::verify(int si, const string &what) {
    Slot4 &s = S[si]; if (!s.g) return;
    string w = strf("graph %d after ", si) + what; const char *wc = w.c_str();
    for (char x : {'D', '2', '3', '4'}) CHECK(hasExt(s.g, x) == (s.ext.count(x) > 0), "extension", "%s: extension %c is %s", wc, x, s.ext.count(x) ? "lost" : "still found");
    if (s.ph == EMPTYG) { CHECK(s.g->N == 0 && s.g->M == 0, "state", "%s: an uninitialised graph has order %d and size %d", wc, s.g->N, s.g->M); return; }
    if (s.ph < RAW || s.ph >= OPAQUE) return;
    Snap sn = snapGraph(s.g, wc); string why;
    if (s.ph == RAW) {
        Snap ms = s.m.snap();
        CHECK(sameRotation(sn, ms, &why), "model", "%s: differs from the model: %s", wc, why.c_str());
    } else {
        CHECK(sameRotation(sn, s.s, &why), "changed", "%s: the graph changed: %s", wc, why.c_str());
        CHECK(readIndex(s.g) == s.index, "changed", "%s: the vertex index fields changed", wc);
        CHECK(readParent(s.g) == s.parent, "changed", "%s: the DFS parents changed", wc);
    }
    CHECK(gp_GetArcCapacity(s.g) >= s.cap, "capacity", "%s: the arc capacity is %d, at least %d was promised", wc, gp_GetArcCapacity(s.g), s.cap);
    u64 h = sn.hash(); obs(h); stateSeen(mix(h, s.ph * 64 + s.ext.size()));
}
void World::verifyOthers(int except) { for (int i = 0; i < 4; i++) if (i != except && S[i].g) verify(i, "an operation on another graph"); }
void World::quickQueries(int si) {
    Slot4 &s = S[si]; if (s.ph != RAW) return; Model &m = s.m; graphP g = s.g;
    int lim = std::min(m.n, 10);
    for (int k = 0; k < lim; k++) {
        int v = m.n <= 10 ? k + 1 : 1 + (int)(mix(obsHash(), k) % (u64)m.n);
        int in = 0, out = 0; for (int e : m.L[v]) { int d = m.dirAt(e, v); if (d != 1) in++; if (d != 2) out++; }
        CHECK(gp_GetVertexDegree(g, v) == (int)m.L[v].size(), "query", "degree of %d is %d, not %zu", v, gp_GetVertexDegree(g, v), m.L[v].size());
        CHECK(gp_GetVertexInDegree(g, v) == in, "query", "in-degree of %d is %d, not %d", v, gp_GetVertexInDegree(g, v), in);
        CHECK(gp_GetVertexOutDegree(g, v) == out, "query", "out-degree of %d is %d, not %d", v, gp_GetVertexOutDegree(g, v), out);
        for (int q = 0; q < lim; q++) {
            int w = m.n <= 10 ? q + 1 : 1 + (int)(mix(obsHash(), k * 31 + q) % (u64)m.n);
            bool any = false, nbr = false; for (int e : m.L[v]) if (m.other(e, v) == w) { any = true; if (m.dirAt(e, v) != 2) nbr = true; }
            CHECK((gp_IsNeighbor(g, v, w) != 0) == nbr, "query", "adjacency of %d to %d reported as %d", v, w, gp_IsNeighbor(g, v, w));
            int e = gp_GetNeighborEdgeRecord(g, v, w);
            CHECK(gp_IsArc(e) == any || (gp_IsArc(e) && any), "query", "edge record for %d in the list of %d: %d", w, v, e);
            if (any) CHECK(gp_GetNeighbor(g, e) == w && gp_GetNeighbor(g, gp_GetTwinArc(g, e)) == v, "query", "the edge record returned for %d-%d joins other vertices", v, w);
        }
    }
}
void World::wipe(int si) { Slot4 &s = S[si]; if (s.orig) LIBV(gp_Free(&s.orig)); if (s.g) { LIBV(gp_Free(&s.g)); CHECK(!s.g, "free", "gp_Free left the pointer set"); } s = Slot4(); }

// ---------------------------------------------------------------- embedding
static int expectRef(int f, int n, const Edges &e) { // OK or NONEMBEDDABLE according to the references
    switch (f) {
    case EMBEDFLAGS_PLANAR: case EMBEDFLAGS_DRAWPLANAR: return refPlanar(n, e) ? OK : NONEMBEDDABLE;
    case EMBEDFLAGS_OUTERPLANAR: return refOuterplanar(n, e) ? OK : NONEMBEDDABLE;
    case EMBEDFLAGS_SEARCHFORK23: return refHasK23(n, e) ? NONEMBEDDABLE : OK;
    case EMBEDFLAGS_SEARCHFORK33: return refHasK33(n, e) ? NONEMBEDDABLE : OK;
    default: return refHasK4(n, e) ? NONEMBEDDABLE : OK;
    }
}
static int wantedKind(int f) { switch (f) { case EMBEDFLAGS_PLANAR: case EMBEDFLAGS_DRAWPLANAR: return SUB_K5 | SUB_K33; case EMBEDFLAGS_OUTERPLANAR: return SUB_K4 | SUB_K23; case EMBEDFLAGS_SEARCHFORK23: return SUB_K23; case EMBEDFLAGS_SEARCHFORK33: return SUB_K33; default: return SUB_K4; } }
static void checkDfs(graphP g, const Snap &sn, const vector<int> &index, const vector<int> &parent, bool sorted, const char *what) {
    // in terms of DFIs: dfi(v) = index[v] if unsorted, v if sorted
    int n = sn.n; vector<int> par(n + 1, 0); vector<vector<int>> adj(n + 1);
    auto dfi = [&](int v) { return sorted ? v : index[v]; };
    for (int v = 1; v <= n; v++) {
        int p = parent[v]; CHECK(p >= 0 && p <= n, "dfs", "%s: vertex %d has the DFS parent %d", what, v, p);
        if (p) { CHECK(dfi(p) < dfi(v), "dfs", "%s: parent %d of %d does not precede it", what, p, v); bool adjv = std::find(sn.nb[v].begin(), sn.nb[v].end(), p) != sn.nb[v].end(); CHECK(adjv, "dfs", "%s: the DFS parent %d of %d is not a neighbour", what, p, v); }
        par[dfi(v)] = p ? dfi(p) : 0;
        for (int w : sn.nb[v]) adj[dfi(v)].push_back(dfi(w));
    }
    vector<int> last(n + 1); for (int d = n; d >= 1; d--) { if (last[d] < d) last[d] = d; if (par[d]) last[par[d]] = std::max(last[par[d]], last[d]); }
    for (int d = 1; d <= n; d++) if (par[d]) CHECK(d <= last[par[d]], "dfs", "%s: bad numbering", what);
    // preorder: children of a node occupy consecutive disjoint ranges
    vector<int> size(n + 1, 1); for (int d = n; d >= 1; d--) if (par[d]) size[par[d]] += size[d];
    for (int d = 1; d <= n; d++) CHECK(last[d] == d + size[d] - 1, "dfs", "%s: the numbers below DFI %d are not consecutive, so the numbering is not a depth-first preorder", what, d);
    for (int d = 1; d <= n; d++) for (int e : adj[d]) { int a = std::min(d, e), b = std::max(d, e); CHECK(b <= last[a], "dfs", "%s: edge %d-%d (as DFIs) joins two unrelated vertices", what, a, b); }
    int roots = 0; for (int d = 1; d <= n; d++) if (!par[d]) roots++;
    CHECK(roots == refComponents(n, sn.edges()), "dfs", "%s: %d DFS roots", what, roots);
    for (int v = 1; v <= n; v++) for (size_t i = 0; i < sn.nb[v].size(); i++) {
        int w = sn.nb[v][i], t = gp_GetEdgeType(g, sn.arc[v][i]), want;
        if (parent[w] == v) want = EDGE_TYPE_CHILD; else if (parent[v] == w) want = EDGE_TYPE_PARENT; else want = dfi(v) < dfi(w) ? EDGE_TYPE_FORWARD : EDGE_TYPE_BACK;
        CHECK(t == want, "dfs", "%s: arc %d->%d has type %d, expected %d", what, v, w, t, want);
    }
}
static void opEmbed(World &W, int si, int flags, bool twin, const Op &op) {
    Slot4 &s = W.S[si]; int n = s.m.n; string what = strf("%s on graph %d", flagName(flags), si); const char *wc = what.c_str();
    Edges in = s.m.edges(); bool dirEd = s.m.directed(); Snap before = s.m.snap();
    if (s.orig) LIBV(gp_Free(&s.orig));
    s.orig = LIB(gp_DupGraph(s.g)); CHECK(s.orig, "dup", "%s: duplicating the input failed without any fault", wc);
    s.inputModel = s.m; s.input = in;
    int want = expectRef(flags, n, in);
    faultsArm(op.faults); u64 s0 = simSteps;
    int r = LIB(gp_Embed(s.g, flags));
    u64 used = simSteps - s0; int fired = faultsFired(); faultsOff();
    obs(r); PROBEN("embed calls", 1);
    if (stepFactor > 0 && !fired) {
        double lim = stepFactor * (n + (double)in.size()) + 6000;
        CHECK((double)used <= lim, "work", "%s took %llu steps for n=%d m=%zu, limit %.0f", wc, (unsigned long long)used, n, in.size(), lim);
        double ratio = used / (double)(n + in.size() + 20); if (ratio * 100 > (double)W.maxRatioSteps) W.maxRatioSteps = (u64)(ratio * 100);
    }
    if (fired && r == NOTOK) { s.ph = BROKEN; PROBE("embed failed by fault"); return; }
    if (fired && r != want && r == NOTOK) { s.ph = BROKEN; return; }
    CHECK(r == want, "answer", "%s answered %s, the reference says %s; n=%d m=%zu%s", wc, r == OK ? "OK" : r == NONEMBEDDABLE ? "NONEMBEDDABLE" : "NOTOK", want == OK ? "OK" : "NONEMBEDDABLE", n, in.size(), fired ? " (an allocation failed inside)" : "");
    s.flags = flags; s.res = r; s.drawn = false; s.sorted = true;
    bool search = flags == EMBEDFLAGS_SEARCHFORK23 || flags == EMBEDFLAGS_SEARCHFORK33 || flags == EMBEDFLAGS_SEARCHFORK4;
    if ((search && r == OK) || (flags == EMBEDFLAGS_DRAWPLANAR && r != OK)) { s.ph = OPAQUE; // no witness is promised in these cases
        if (search) PROBE("search: none found"); else PROBE("drawing of a nonplanar graph refused"); }
    else {
        Snap sn = snapGraph(s.g, wc); vector<int> lab = labelMap(s.g, wc); Edges me = mapEdges(sn.edges(), lab);
        CHECK((int)me.size() == s.g->M, "count", "%s: the graph reports %d edges but its lists hold %zu", wc, s.g->M, me.size());
        if (r == OK) {
            CHECK(me == in, "edges", "%s: the embedding does not hold exactly the input edges (%zu of %zu)", wc, me.size(), in.size());
            checkEmbedding(sn, flags == EMBEDFLAGS_OUTERPLANAR, wc);
            if (!dirEd) for (int v = 1; v <= n; v++) for (int d : sn.dir[v]) CHECK(d == 0, "edges", "%s: an edge became directed", wc);
            PROBE(flags == EMBEDFLAGS_OUTERPLANAR ? "outerplanar embedding certified" : "planar embedding certified");
        } else {
            CHECK(subsetOf(me, in), "witness", "%s: the obstruction is not a subgraph of the input", wc);
            string why; int kind = subdivisionKind(n, me, &why);
            CHECK(kind & wantedKind(flags), "witness", "%s: the result is not a homeomorph of the target: %s (kind %d)", wc, why.c_str(), kind);
            PROBE(kind == SUB_K5 ? "K5 witness" : kind == SUB_K33 ? "K3,3 witness" : kind == SUB_K4 ? "K4 witness" : "K2,3 witness");
        }
        s.s = sn; s.index = lab; s.parent = readParent(s.g); s.ph = EMB;
        if (flags == EMBEDFLAGS_DRAWPLANAR && r == OK) {
            s.drawn = true; Drawing d; drawingOf(s.g, sn, d, wc); checkDrawing(d, sn, wc); PROBE("drawing certified");
        }
    }
    if (!dirEd) { int ri = LIB(gp_TestEmbedResultIntegrity(s.g, s.orig, r)); CHECK(ri == r, "integrity", "%s: the library's own integrity check answers %d for the certified result %d", wc, ri, r); }
    if (twin) {
        graphP t = buildTwin(before, 0); if (extFor(flags)) CHECK(attachExt(t, extFor(flags)) == OK, "twin", "attaching to a fresh graph failed");
        int rt = LIB(gp_Embed(t, flags)); CHECK(rt == r, "history", "%s: a fresh graph with the same adjacency lists gives %d, this one %d", wc, rt, r);
        if (s.ph == EMB) {
            Snap a = snapGraph(s.g, wc), b = snapGraph(t, "fresh graph"); string why;
            // the K3,3 and K4 searches restore reduced paths in edge-record order, which no one promises to keep: compare edges only
            if (flags == EMBEDFLAGS_SEARCHFORK33 || flags == EMBEDFLAGS_SEARCHFORK4) CHECK(a.edges() == b.edges(), "history", "%s: the result has other edges than that of a fresh graph", wc);
            else CHECK(sameRotation(a, b, &why), "history", "%s: the result differs from that of a fresh graph: %s", wc, why.c_str());
            CHECK(readIndex(t) == readIndex(s.g), "history", "%s: vertex numbering differs from that of a fresh graph", wc);
            if (s.drawn) { Drawing da, db; drawingOf(s.g, a, da, wc); drawingOf(t, b, db, "fresh graph"); CHECK(da.vpos == db.vpos && da.vs == db.vs && da.ve == db.ve, "history", "%s: the drawing differs from that of a fresh graph", wc); }
        }
        LIBV(gp_Free(&t)); PROBE("history independence compared");
    }
}

// ---------------------------------------------------------------- one op
#define SKIP do { return; } while (0)
void World::exec(const Op &op) {
    const string &c = op.name; int si = wrapIdx(op.i(0), 4); Slot4 &s = S[si];
    string label = c; for (size_t k = 0; k < op.a.size() && k < 6; k++) label += " " + op.a[k]; if (!op.faults.empty()) { label += " |"; for (auto &f : op.faults) label += " " + f; }
    opLabel(label);
    bool hasF = !op.faults.empty(); int fired = 0;
    auto arm = [&]() { faultsArm(op.faults); };
    auto off = [&]() { fired = faultsFired(); faultsOff(); };
    obsStr(c);
    if (c == "new") {
        if (s.ph != NOGRAPH) SKIP;
        arm(); graphP g = LIB(gp_New()); off();
        if (!g) { CHECK(fired, "refused", "gp_New failed without a fault"); g = LIB(gp_New()); CHECK(g, "retry", "gp_New failed again with memory available"); }
        s.g = g; s.ph = EMPTYG; s.cap = 0;
    } else if (c == "init") {
        if (s.ph != EMPTYG) SKIP; int n = std::max(1, op.i(1));
        arm(); int r = LIB(gp_InitGraph(s.g, n)); off();
        if (r != OK) {
            CHECK(fired, "refused", "gp_InitGraph(%d) failed without a fault", n);
            CHECK(s.g->N == 0 && s.g->M == 0, "failed-init", "a failed gp_InitGraph left order %d", s.g->N);
            for (char x : {'D', '2', '3', '4'}) CHECK(!hasExt(s.g, x), "failed-init", "a failed gp_InitGraph kept extension %c", x);
            auto ex = s.ext; s.ext.clear(); int cap = s.cap; s.cap = 0;
            for (char x : ex) { CHECK(attachExt(s.g, x) == OK, "retry", "attaching %c after a failed gp_InitGraph failed", x); s.ext.insert(x); }
            if (cap) { CHECK(LIB(gp_EnsureArcCapacity(s.g, cap)) == OK, "retry", "capacity request failed"); s.cap = cap; }
            r = LIB(gp_InitGraph(s.g, n)); CHECK(r == OK, "retry", "gp_InitGraph failed again with memory available"); PROBE("init retried after failed allocation");
        }
        s.ph = RAW; s.m.reset(n); s.undo.clear(); if (s.cap == 0) s.cap = 6 * n;
        CHECK(s.g->N == n, "state", "order %d after gp_InitGraph(%d)", s.g->N, n);
        CHECK(LIB(gp_InitGraph(s.g, n)) == NOTOK, "refused", "a second gp_InitGraph was accepted");
    } else if (c == "graph") { // convenience: (re)use the slot for a graph given by its edges
        GenGraph gg = parseGraphText(op, 1); vector<string> f = op.faults;
        if (s.ph != NOGRAPH && s.ph != EMPTYG && s.m.n == gg.n && s.g->N == gg.n) exec(parseOp(strf("reinit %d", si)));
        else { if (s.ph >= RAW) wipe(si); if (s.ph == NOGRAPH) exec(parseOp(strf("new %d", si))); long need = 2 * (long)gg.e.size(); if (need > 6L * gg.n && s.cap < need) exec(parseOp(strf("cap %d %ld", si, need))); exec(parseOp(strf("init %d %d", si, gg.n))); }
        Slot4 &t = S[si];
        for (auto &e : gg.e) { int u = vtx(e.first - 1, gg.n), v = vtx(e.second - 1, gg.n); if (u == v || t.m.has(u, v)) continue; if (t.m.M >= gp_GetArcCapacity(t.g) / 2) { if (LIB(gp_DynamicAddEdge(t.g, u, 0, v, 0)) != OK) continue; t.cap = gp_GetArcCapacity(t.g); } else { int r = LIB(gp_AddEdge(t.g, u, 0, v, 0)); CHECK(r == OK, "refused", "gp_AddEdge(%d,%d) returned %d with room for it", u, v, r); } t.m.L[u].insert(t.m.L[u].begin(), (int)t.m.E.size()); t.m.L[v].insert(t.m.L[v].begin(), (int)t.m.E.size()); t.m.E.push_back({u, v, 0}); t.m.M++; }
        verify(si, label); verifyOthers(si); return;
    } else if (c == "rnd") { // random generation into a fresh or reused object: rnd slot order kind edges mode seed until
        int n = std::max(1, op.i(1)), kind = op.i(2) & 1, want = op.i(3), mode = op.i(4), until = std::max(0, op.i(6)); u64 sd = strtoull(op.s(5, "1").c_str(), 0, 10);
        if (s.ph != NOGRAPH && s.ph != EMPTYG && s.ph != BROKEN && s.m.n == n && s.g->N == n) exec(parseOp(strf("reinit %d", si)));
        else { if (s.ph >= RAW) wipe(si); if (s.ph == NOGRAPH) exec(parseOp(strf("new %d", si))); exec(parseOp(strf("init %d %d", si, n))); }
        Slot4 &t = S[si]; if (t.ph != RAW) return;
        opLabel(label);
        auto generate = [&](graphP g) { randMode(mode, sd, until); if (fiberCurrent() < 0) stepBudget(40000000ull + 4000ull * until); int r = kind ? LIB(gp_CreateRandomGraphEx(g, want)) : LIB(gp_CreateRandomGraph(g)); randMode(0, sd); if (fiberCurrent() < 0) stepBudget(3000000000ull); return r; };
        arm(); int r = generate(t.g); off();
        int capE = gp_GetArcCapacity(t.g) / 2; long pairs = (long)n * (n - 1) / 2;
        if (r != OK) { CHECK(n - 1 > capE, "refused", "random generation of a graph of order %d failed (capacity %d edges)", n, capE); PROBE("generation refused for capacity"); wipe(si); verify(si, label); return; }
        Snap sn = snapGraph(t.g, label.c_str()); Edges e = sn.edges(); int m = (int)e.size();
        CHECK(simpleSnap(sn), "simple", "%s: the random graph has a loop or a repeated edge", label.c_str());
        CHECK(refComponents(n, e) == 1, "connected", "%s: the random graph is not connected", label.c_str());
        CHECK(t.g->M == m && m <= capE && m >= n - 1, "size", "%s: the random graph has %d edges (M says %d, capacity %d)", label.c_str(), m, t.g->M, capE);
        if (kind) {
            long target = std::max<long>(n - 1, std::min<long>(std::min<long>(want, capE), pairs));
            CHECK(m == target, "size", "%s: %d edges requested of a graph of order %d with room for %d: %d edges made, not %ld", label.c_str(), want, n, capE, m, target);
            if (m <= std::max(n - 1, 3 * n - 6)) { CHECK(refPlanar(n, e), "planar", "%s: the random graph with %d edges should be planar and is not", label.c_str(), m); PROBE(m == 3 * n - 6 ? "maximal planar random graph" : "planar random graph"); }
            else PROBE("random graph beyond maximal planar");
            if (m > 3 * n - 6 && m == capE) PROBE("random graph at capacity");
            if (m == pairs) PROBE("complete random graph");
        } else PROBE("plain random graph");
        for (int v = 1; v <= n; v++) { CHECK(gp_GetVertexParent(t.g, v) == NIL, "clean", "%s: vertex %d keeps parent %d", label.c_str(), v, gp_GetVertexParent(t.g, v));
            for (int a : sn.arc[v]) CHECK(gp_GetEdgeType(t.g, a) == 0 && !gp_GetEdgeVisited(t.g, a), "clean", "%s: an edge of vertex %d keeps working marks", label.c_str(), v); }
        for (auto &d : sn.dir) for (int x : d) CHECK(!x, "clean", "%s: the random graph has directed edges", label.c_str());
        // the same numbers give the same graph
        if (fiberCurrent() < 0) { graphP g2 = LIB(gp_New()); if (g2 && (t.cap <= 6 * n || LIB(gp_EnsureArcCapacity(g2, t.cap)) == OK) && LIB(gp_InitGraph(g2, n)) == OK && gp_GetArcCapacity(g2) == gp_GetArcCapacity(t.g)) { int r2 = generate(g2); CHECK(r2 == r, "repeat", "%s: the same random numbers gave %d after %d", label.c_str(), r2, r); Snap s2 = snapGraph(g2, "repeat"); string why; CHECK(sameRotation(sn, s2, &why), "repeat", "%s: the same random numbers gave another graph: %s", label.c_str(), why.c_str()); PROBE("generation repeated"); } LIBV(gp_Free(&g2)); opLabel(label); }
        t.ph = RAW; t.cap = std::max(t.cap, gp_GetArcCapacity(t.g)); setModelFromSnap(si, sn); t.origin = 1;
        verify(si, label); quickQueries(si); verifyOthers(si); return;
    } else if (c == "cap") {
        if (s.ph == NOGRAPH || s.ph == BROKEN || s.ph == OPAQUE) SKIP; int k = op.i(1);
        int before = s.ph == EMPTYG ? s.cap : gp_GetArcCapacity(s.g);
        arm(); int r = LIB(gp_EnsureArcCapacity(s.g, k)); off();
        bool blocked = s.ph != EMPTYG && (s.ext.count('D') || s.ext.count('3') || s.ext.count('4'));
        if (k <= 0 || (k & 1)) CHECK(r == NOTOK, "refused", "capacity request %d was accepted", k);
        else if (k <= before) CHECK(r == OK, "refused", "capacity request %d below the capacity %d was refused", k, before);
        else if (r != OK) { CHECK(fired || blocked, "refused", "capacity request %d was refused without a reason", k); PROBE(fired ? "capacity growth failed by fault" : "capacity growth refused by extension"); }
        else { if (s.ph != EMPTYG) CHECK(gp_GetArcCapacity(s.g) >= k, "capacity", "capacity is %d after a successful request for %d", gp_GetArcCapacity(s.g), k); s.cap = std::max(s.cap, k); PROBE("capacity grown"); }
        if (r != OK && fired && !blocked) { verify(si, label + " (failed)"); CHECK(LIB(gp_EnsureArcCapacity(s.g, k)) == OK, "retry", "capacity request %d failed again with memory available", k); s.cap = std::max(s.cap, k); }
    } else if (c == "add" || c == "dyn" || c == "ins") {
        if (s.ph != RAW || !s.undo.empty()) SKIP; Model &m = s.m; int n = m.n;
        int u = vtx(op.i(1), n), v = vtx(op.i(2), n); if (u == v || m.has(u, v)) SKIP;
        int capE = gp_GetArcCapacity(s.g) / 2; bool full = m.M >= capE; int r; int pu, pv; // insertion positions
        if (c == "ins") {
            Snap sn = snapGraph(s.g, "before insert"); int ku = op.i(3), ul = op.i(4) & 1, kv = op.i(5), vl = op.i(6) & 1;
            int du = (int)sn.arc[u].size(), dv = (int)sn.arc[v].size(); int eu = NIL, ev = NIL;
            if (ku >= 0 && du) { int i = ku % du; eu = sn.arc[u][i]; pu = ul ? i : i + 1; } else pu = ul ? du : 0;
            if (kv >= 0 && dv) { int i = kv % dv; ev = sn.arc[v][i]; pv = vl ? i : i + 1; } else pv = vl ? dv : 0;
            arm(); r = LIB(gp_InsertEdge(s.g, u, eu, ul, v, ev, vl)); off();
        } else {
            int ul = op.i(3) & 1, vl = op.i(4) & 1; pu = ul ? (int)m.L[u].size() : 0; pv = vl ? (int)m.L[v].size() : 0;
            arm(); r = c == "add" ? LIB(gp_AddEdge(s.g, u, ul, v, vl)) : LIB(gp_DynamicAddEdge(s.g, u, ul, v, vl)); off();
        }
        if (r == OK) {
            if (c != "dyn") CHECK(!full, "refused", "%s accepted edge %d beyond the capacity of %d", c.c_str(), m.M + 1, capE);
            m.L[u].insert(m.L[u].begin() + pu, (int)m.E.size()); m.L[v].insert(m.L[v].begin() + pv, (int)m.E.size()); m.E.push_back({u, v, 0}); m.M++; s.cap = std::max(s.cap, gp_GetArcCapacity(s.g));
            if (full) PROBE("edge added by growing");
        } else {
            bool blocked = s.ext.count('D') || s.ext.count('3') || s.ext.count('4');
            CHECK(full, "refused", "%s(%d,%d) returned %d although %d of %d edges are used", c.c_str(), u, v, r, m.M, capE);
            if (c != "dyn") CHECK(r == NONEMBEDDABLE, "refused", "%s at full capacity returned %d", c.c_str(), r);
            else CHECK(fired || blocked, "refused", "gp_DynamicAddEdge(%d,%d) returned %d at %d of %d possible edges", u, v, r, m.M, n * (n - 1) / 2);
            PROBE("edge refused");
            if (c == "dyn" && fired && !blocked) { verify(si, label + " (failed)"); Op o2 = op; o2.faults.clear(); exec(o2); return; }
        }
    } else if (c == "del") {
        if (s.ph != RAW || !s.undo.empty()) SKIP; Model &m = s.m; int v = vtx(op.i(1), m.n); if (m.L[v].empty()) SKIP;
        int k = wrapIdx(op.i(2), (int)m.L[v].size()), link = op.i(3) & 1; Snap sn = snapGraph(s.g, "before delete"); int e = sn.arc[v][k];
        int nx = link == 0 ? (k + 1 < (int)sn.arc[v].size() ? sn.arc[v][k + 1] : NIL) : (k > 0 ? sn.arc[v][k - 1] : NIL);
        arm(); int r = LIB(gp_DeleteEdge(s.g, e, link)); off();
        CHECK(r == nx, "query", "gp_DeleteEdge returned %d, the adjacent arc was %d", r, nx);
        int id = m.L[v][k], w = m.other(id, v); m.L[v].erase(m.L[v].begin() + k); m.L[w].erase(std::find(m.L[w].begin(), m.L[w].end(), id)); m.M--;
    } else if (c == "dir") {
        if (s.ph != RAW) SKIP; Model &m = s.m; int v = vtx(op.i(1), m.n); if (m.L[v].empty()) SKIP; int k = wrapIdx(op.i(2), (int)m.L[v].size()), d = wrapIdx(op.i(3), 3);
        Snap sn = snapGraph(s.g, "before direction"); int e = sn.arc[v][k], f = d == 0 ? 0 : d == 1 ? EDGEFLAG_DIRECTION_OUTONLY : EDGEFLAG_DIRECTION_INONLY;
        gp_SetDirection(s.g, e, f);
        int id = m.L[v][k]; m.E[id].dir = d == 0 ? 0 : (d == 1) == (m.E[id].u == v) ? 1 : 2;
    } else if (c == "hide") {
        if (s.ph != RAW) SKIP; Model &m = s.m; int v = vtx(op.i(1), m.n); if (m.L[v].empty()) SKIP; int k = wrapIdx(op.i(2), (int)m.L[v].size());
        Snap sn = snapGraph(s.g, "before hide"); s.undo.push_back({'H', sn.arc[v][k], m});
        LIBV(gp_HideEdge(s.g, sn.arc[v][k]));
        int id = m.L[v][k], w = m.other(id, v); m.L[v].erase(m.L[v].begin() + k); m.L[w].erase(std::find(m.L[w].begin(), m.L[w].end(), id));
    } else if (c == "hidev") {
        if (s.ph != RAW || (int)s.undo.size() >= s.m.n) SKIP; Model &m = s.m; int v = vtx(op.i(1), m.n);
        Undo u{'V', 0, m}; for (auto &x : s.undo) if (x.kind == 'V' && x.arc == v) SKIP; u.arc = v; s.undo.push_back(u);
        int r = LIB(gp_HideVertex(s.g, v)); CHECK(r == OK, "refused", "gp_HideVertex(%d) returned %d", v, r);
        for (int id : m.L[v]) { int w = m.other(id, v); m.L[w].erase(std::find(m.L[w].begin(), m.L[w].end(), id)); } m.L[v].clear(); PROBE("vertex hidden");
    } else if (c == "contract" || c == "ident") {
        if (s.ph != RAW || (int)s.undo.size() >= s.m.n) SKIP; Model &m = s.m; int u = vtx(op.i(1), m.n), v; int k = 0, eb = -1; // eb: model edge before which v's edges go
        Snap sn = snapGraph(s.g, "before identification"); Model before = m; int r;
        bool viaEdge = c == "contract";
        if (viaEdge) { if (m.L[u].empty()) SKIP; k = wrapIdx(op.i(2), (int)m.L[u].size()); v = m.other(m.L[u][k], u); }
        else { v = vtx(op.i(2), m.n); if (u == v) SKIP; for (size_t i = 0; i < m.L[u].size(); i++) if (m.other(m.L[u][i], u) == v) { viaEdge = true; k = (int)i; } }
        int ebArc = NIL;
        if (c == "ident") { int q = op.i(3, -1); if (q >= 0 && !m.L[u].empty()) { int i = q % (int)m.L[u].size(); ebArc = sn.arc[u][i]; eb = m.L[u][i]; } }
        if (viaEdge) eb = k + 1 < (int)m.L[u].size() ? m.L[u][k + 1] : -1;
        r = c == "contract" ? LIB(gp_ContractEdge(s.g, sn.arc[u][k])) : LIB(gp_IdentifyVertices(s.g, u, v, ebArc));
        CHECK(r == OK, "refused", "%s of %d into %d returned %d", c.c_str(), v, u, r);
        s.undo.push_back({'V', -v, before});
        auto rm = [&](int id) { for (int x : {m.E[id].u, m.E[id].v}) { auto it = std::find(m.L[x].begin(), m.L[x].end(), id); if (it != m.L[x].end()) m.L[x].erase(it); } };
        if (viaEdge) rm(m.L[u][k]);
        vector<int> dup; for (int id : m.L[v]) { int w = m.other(id, v); if (m.has(u, w)) dup.push_back(id); } for (int id : dup) rm(id);
        vector<int> mv = m.L[v]; m.L[v].clear(); for (int id : mv) { if (m.E[id].u == v) m.E[id].u = u; else m.E[id].v = u; }
        size_t at = m.L[u].size(); if (eb >= 0) { auto it = std::find(m.L[u].begin(), m.L[u].end(), eb); if (it != m.L[u].end()) at = it - m.L[u].begin(); }
        m.L[u].insert(m.L[u].begin() + at, mv.begin(), mv.end()); PROBE(c == "contract" ? "edge contracted" : "vertices identified");
    } else if (c == "undo") {
        if (s.ph != RAW || s.undo.empty()) SKIP; Undo u = s.undo.back(); s.undo.pop_back();
        if (u.kind == 'H') LIBV(gp_RestoreEdge(s.g, u.arc)); else { int r = LIB(gp_RestoreVertex(s.g)); CHECK(r == OK, "undo", "gp_RestoreVertex returned %d", r); }
        vector<ME> cur = s.m.E; s.m = u.before; for (size_t i = 0; i < s.m.E.size(); i++) if (i < cur.size()) { // directions set meanwhile persist
            int d = cur[i].dir; // orientation is kept per arc: u/v roles of an edge never swap
            s.m.E[i].dir = d; }
        PROBE("undo step");
    } else if (c == "undoall") {
        if (s.ph != RAW || s.undo.empty()) SKIP; bool okAll = true; for (auto &u : s.undo) if (u.kind == 'H') okAll = false;
        if (okAll) { vector<ME> cur = s.m.E; Model b = s.undo[0].before; int r = LIB(gp_RestoreVertices(s.g)); CHECK(r == OK, "undo", "gp_RestoreVertices returned %d", r); s.m = b; for (size_t i = 0; i < b.E.size(); i++) s.m.E[i].dir = cur[i].dir; s.undo.clear(); PROBE("undo of everything"); }
        else { while (!S[si].undo.empty()) exec(parseOp(strf("undo %d", si))); return; }
    } else if (c == "bad") { // refused operations change nothing
        if (s.ph != RAW) SKIP; int n = s.m.n; int r = NOTOK, k = wrapIdx(op.i(1), 15), u = vtx(op.i(2), n); int eMax = gp_EdgeInUseIndexBound(s.g);
        switch (k) {
        case 0: r = LIB(gp_AddEdge(s.g, 0, 0, u, 0)); break; case 1: r = LIB(gp_AddEdge(s.g, u, 0, -1, 0)); break; case 2: r = LIB(gp_AddEdge(s.g, 2 * n + 1, 0, u, 0)); break;
        case 3: r = LIB(gp_DynamicAddEdge(s.g, u, 0, 2 * n + 1 + op.i(3) % 5, 0)); break; case 4: r = LIB(gp_DynamicAddEdge(s.g, -2, 0, u, 0)); break;
        case 5: r = LIB(gp_InsertEdge(s.g, 0, NIL, 0, u, NIL, 0)); break; case 6: r = LIB(gp_InsertEdge(s.g, u, eMax, 0, 1, NIL, 0)); break; case 7: r = LIB(gp_InsertEdge(s.g, u, 1, 0, 1, NIL, 0)); break;
        case 8: r = LIB(gp_InsertEdge(s.g, u, NIL, 2, 1, NIL, 0)); break; case 9: r = LIB(gp_InsertEdge(s.g, u, NIL, 0, 1, NIL, -1)); break; case 10: r = LIB(gp_InsertEdge(s.g, u, NIL, 0, 2 * n + 1, NIL, 0)); break;
        case 11: r = LIB(gp_EnsureArcCapacity(s.g, -2)); break; case 12: r = LIB(gp_EnsureArcCapacity(s.g, gp_GetArcCapacity(s.g) + 1 + (gp_GetArcCapacity(s.g) & 1))); break;
        case 13: r = LIB(gp_HideVertex(s.g, NIL)); break; case 14: r = LIB(gp_ContractEdge(s.g, NIL)); break;
        }
        CHECK(r == NOTOK, "refused", "call with a bad argument (case %d) returned %d", k, r);
        CHECK(LIB(gp_AddEdge(0, 1, 0, 2, 0)) == NOTOK && LIB(gp_DynamicAddEdge(0, 1, 0, 2, 0)) == NOTOK && LIB(gp_InsertEdge(0, 1, 0, 0, 2, 0, 0)) == NOTOK && LIB(gp_EnsureArcCapacity(0, 2)) == NOTOK && LIB(gp_InitGraph(0, 2)) == NOTOK, "refused", "a call without a graph was accepted");
        CHECK(gp_GetVertexDegree(0, 1) == 0 && gp_GetVertexInDegree(0, 1) == 0 && gp_GetVertexOutDegree(s.g, NIL) == 0 && gp_GetNeighborEdgeRecord(s.g, NIL, 1) == NIL, "refused", "a query with a bad argument gave an answer");
    } else if (c == "reinit") {
        if (s.ph == NOGRAPH || s.ph == EMPTYG || s.g->N == 0) SKIP;
        LIBV(gp_ReinitializeGraph(s.g)); int n = s.g->N; s.m.reset(n); s.undo.clear(); s.ph = RAW; s.drawn = false; s.sorted = false; s.flags = 0; if (s.orig) LIBV(gp_Free(&s.orig));
        PROBE("reinitialised");
    } else if (c == "free") {
        if (s.ph == NOGRAPH) SKIP; wipe(si);
    } else if (c == "attach") {
        if (s.ph == NOGRAPH || s.ph == BROKEN) SKIP; char x = op.s(1, "D")[0]; bool had = s.ext.count(x);
        arm(); int r = attachExt(s.g, x); off();
        if (r != OK) {
            CHECK(fired, "refused", "attaching %c failed without a fault", x);
            verify(si, label + " (failed)");
            r = attachExt(s.g, x); CHECK(r == OK, "retry", "attaching %c failed again with memory available", x); PROBE("attach retried after failed allocation");
        }
        s.ext.insert(x); if (had) PROBE("attached twice");
    } else if (c == "detach") {
        if (s.ph == NOGRAPH) SKIP; char x = op.s(1, "D")[0]; bool had = s.ext.count(x);
        int r = detachExt(s.g, x); if (had) { CHECK(r == OK, "refused", "detaching %c returned %d", x, r); PROBE("detached"); }
        s.ext.erase(x); if (x == 'D') s.drawn = false;
    } else if (c == "embed") {
        int f = embFlag(op.s(1)); char x = extFor(f);
        if (s.ph != RAW || !s.undo.empty() || (x && !s.ext.count(x))) SKIP;
        if (!simpleSnap(s.m.snap())) SKIP;
        if (f == EMBEDFLAGS_DRAWPLANAR && sp_GetCurrentSize(s.g->edgeHoles) > 0) SKIP; // documented refusal, see op "holes"
        opEmbed(*this, si, f, op.i(2) & 1, op);
        if (s.ph == BROKEN) { verifyOthers(si); // the object can be reset and used again
            exec(parseOp(strf("reinit %d", si))); Slot4 &t = S[si]; Model im = t.inputModel; Snap is = im.snap();
            for (int v = 1; v <= is.n; v++) for (size_t i = 0; i < is.nb[v].size(); i++) if (v < is.nb[v][i]) { int w = is.nb[v][i]; CHECK(LIB(gp_AddEdge(t.g, v, 1, w, 1)) == OK, "retry", "re-entering the graph after a failed run was refused"); t.m.L[v].push_back((int)t.m.E.size()); t.m.L[w].push_back((int)t.m.E.size()); t.m.E.push_back({v, w, 0}); t.m.M++; }
            Op o2 = op; o2.faults.clear(); exec(o2); PROBE("rerun after failed embedding"); return; }
    } else if (c == "holes") { // DRAWPLANAR on an edge store with holes: success must still be a valid drawing
        if (s.ph != RAW || !s.undo.empty() || !s.ext.count('D') || sp_GetCurrentSize(s.g->edgeHoles) == 0 || s.m.directed()) SKIP;
        graphP d = LIB(gp_DupGraph(s.g)); CHECK(d, "dup", "duplicate failed"); int r = LIB(gp_Embed(d, EMBEDFLAGS_DRAWPLANAR));
        if (r == OK) { Snap sn = snapGraph(d, "drawing with holes"); Drawing dr; drawingOf(d, sn, dr, "drawing with holes"); checkDrawing(dr, sn, "drawing with holes"); }
        LIBV(gp_Free(&d));
    } else if (c == "integ") { // integrity check with faults
        if (s.ph != EMB || !s.orig || s.inputModel.directed()) SKIP;
        if (char x = extFor(s.flags)) { if (!s.ext.count(x) || (x == 'D' && !s.drawn)) SKIP; } // detached since
        arm(); int r = LIB(gp_TestEmbedResultIntegrity(s.g, s.orig, s.res)); off();
        if (r != s.res) { CHECK(fired && r == NOTOK, "integrity", "the integrity check answers %d for the certified result %d%s", r, s.res, s.sorted ? "" : " in original vertex order"); PROBE("integrity check failed by fault"); }
    } else if (c == "dfs" || c == "sort" || c == "lowpt" || c == "least") {
        bool raw = s.ph == RAW; if (!(raw && s.undo.empty()) && s.ph != DFSED && !(s.ph == EMB && c == "sort")) SKIP;
        if (raw) { for (auto &u : s.m.L) (void)u; }
        Snap pre = raw ? s.m.snap() : s.s; vector<int> ix0 = s.index, par0 = s.parent; bool wasSorted = raw ? false : s.sorted;
        arm(); int r = c == "dfs" ? LIB(gp_CreateDFSTree(s.g)) : c == "sort" ? LIB(gp_SortVertices(s.g)) : c == "lowpt" ? LIB(gp_LowpointAndLeastAncestor(s.g)) : LIB(gp_LeastAncestor(s.g)); off();
        CHECK(r == OK, "refused", "%s returned %d%s", c.c_str(), r, fired ? " after a fault" : "");
        Snap sn = snapGraph(s.g, c.c_str()); vector<int> ix = readIndex(s.g), par = readParent(s.g);
        bool nowSorted = c == "dfs" ? wasSorted : c == "sort" ? !wasSorted : true;
        labelMap(s.g, c.c_str());
        if (raw) { ix0.assign(sn.n + 1, 0); par0.assign(sn.n + 1, 0); if (nowSorted) for (int v = 1; v <= sn.n; v++) { ix0[ix[v]] = v; } else ix0 = ix; if (!nowSorted) par0 = par; else for (int v = 1; v <= sn.n; v++) par0[ix[v]] = par[v] ? ix[par[v]] : 0; }
        // expected effect: relabelling by the index fields exactly when the order changed
        if (nowSorted != wasSorted) {
            Snap ex; ex.n = sn.n; ex.m = pre.m; ex.nb.resize(sn.n + 1); ex.arc.resize(sn.n + 1); ex.dir.resize(sn.n + 1); vector<int> eix(sn.n + 1, 0), epar(sn.n + 1, 0);
            for (int v = 1; v <= sn.n; v++) { int p = ix0[v]; eix[p] = v; epar[p] = par0[v] ? ix0[par0[v]] : 0; for (size_t i = 0; i < pre.nb[v].size(); i++) { ex.nb[p].push_back(ix0[pre.nb[v][i]]); ex.dir[p].push_back(pre.dir[v][i]); } }
            string why; CHECK(sameRotation(sn, ex, &why), "sort", "%s: reordering the vertices is inconsistent: %s", c.c_str(), why.c_str());
            CHECK(ix == eix, "sort", "%s: index fields after reordering are wrong", c.c_str()); CHECK(par == epar, "sort", "%s: DFS parents after reordering are wrong", c.c_str());
            PROBE(nowSorted ? "sorted by DFI" : "sorted back");
        } else { string why; CHECK(sameRotation(sn, pre, &why), "sort", "%s changed the adjacency lists: %s", c.c_str(), why.c_str()); if (!raw) CHECK(ix == ix0 && par == par0, "sort", "%s changed the numbering", c.c_str()); }
        if (s.ph != EMB) { checkDfs(s.g, sn, ix, par, nowSorted, c.c_str()); PROBE("dfs checked"); }
        if (c == "lowpt" || c == "least") {
            int n = sn.n; vector<int> la(n + 1), lp(n + 1);
            for (int v = n; v >= 1; v--) { la[v] = v; for (int w : sn.nb[v]) if (w < v && w != par[v]) la[v] = std::min(la[v], w); lp[v] = la[v]; for (int w : sn.nb[v]) if (par[w] == v) lp[v] = std::min(lp[v], lp[w]); }
            for (int v = 1; v <= n; v++) { CHECK(gp_GetVertexLeastAncestor(s.g, v) == la[v], "lowpoint", "%s: least ancestor of %d is %d, not %d", c.c_str(), v, gp_GetVertexLeastAncestor(s.g, v), la[v]); if (c == "lowpt") CHECK(gp_GetVertexLowpoint(s.g, v) == lp[v], "lowpoint", "lowpoint of %d is %d, not %d", v, gp_GetVertexLowpoint(s.g, v), lp[v]); }
            PROBE(c == "lowpt" ? "lowpoints checked" : "least ancestors checked");
        }
        s.s = sn; s.index = ix; s.parent = par; s.sorted = nowSorted; if (raw) s.ph = DFSED;
        if (s.drawn) { Drawing d; drawingOf(s.g, sn, d, "reordered drawing"); checkDrawing(d, sn, "reordered drawing"); PROBE("reordered drawing certified"); }
    } else if (c == "dup") {
        int ti = wrapIdx(op.i(1), 4); if (ti == si || !usable(si)) SKIP; if (S[ti].ph != NOGRAPH) wipe(ti);
        arm(); graphP d = LIB(gp_DupGraph(s.g)); off();
        if (!d) { CHECK(fired, "refused", "gp_DupGraph failed without a fault"); verify(si, label + " (failed)"); d = LIB(gp_DupGraph(s.g)); CHECK(d, "retry", "gp_DupGraph failed again with memory available"); PROBE("dup retried after failed allocation"); }
        graphP keep = d; Slot4 &t = S[ti]; t = s; t.g = keep; t.orig = 0; t.origin = 1; t.seenHash = 0;
        CHECK(d->N == s.g->N && d->M == s.g->M && d->embedFlags == s.g->embedFlags, "copy", "the duplicate has other order, size or flags"); PROBE("duplicated");
        verify(ti, label); if (t.ph == OPAQUE) { graphP a = t.g; CHECK(a->N == s.g->N, "copy", "order"); }
        if (t.drawn) { Drawing a, b; drawingOf(s.g, s.s, a, "drawing"); Snap sn = snapGraph(t.g, "duplicate"); drawingOf(t.g, sn, b, "duplicated drawing"); CHECK(a.vpos == b.vpos && a.vs == b.vs && a.ve == b.ve, "copy", "the duplicated drawing differs"); checkDrawing(b, sn, "duplicated drawing"); PROBE("duplicated drawing certified"); }
    } else if (c == "copy") {
        int ti = wrapIdx(op.i(1), 4); if (ti == si || !usable(si)) SKIP; Slot4 &t = S[ti]; if (!t.g || t.ph == NOGRAPH) SKIP;
        if (t.ph == EMPTYG || t.g->N != s.g->N) { CHECK(LIB(gp_CopyGraph(t.g, s.g)) == NOTOK, "refused", "copying between graphs of different order was accepted"); verify(ti, label); SKIP; }
        bool grow = gp_GetArcCapacity(t.g) < gp_GetArcCapacity(s.g), blocked = grow && (t.ext.count('D') || t.ext.count('3') || t.ext.count('4'));
        arm(); int r = LIB(gp_CopyGraph(t.g, s.g)); off();
        if (r != OK) {
            CHECK(fired || blocked, "refused", "gp_CopyGraph failed without a reason");
            if (blocked) { verify(ti, label + " (refused)"); PROBE("copy refused by destination"); verifyOthers(-1); return; }
            verify(si, label + " (failed)"); int cap = t.cap;
            r = LIB(gp_CopyGraph(t.g, s.g)); CHECK(r == OK, "retry", "gp_CopyGraph failed again with memory available"); t.cap = cap; PROBE("copy retried after failed allocation");
        }
        CHECK(r == OK, "refused", "gp_CopyGraph returned %d", r);
        graphP keep = t.g; int cap = std::max(t.cap, s.cap); if (t.orig) LIBV(gp_Free(&t.orig)); t = s; t.g = keep; t.cap = cap; t.orig = 0; t.origin = 1; PROBE(grow ? "copied with growth" : "copied");
        verify(ti, label);
        if (t.drawn) { Drawing b; Snap sn = snapGraph(t.g, "copy"); drawingOf(t.g, sn, b, "copied drawing"); checkDrawing(b, sn, "copied drawing"); PROBE("copied drawing certified"); }
    } else if (c == "copyadj") {
        int ti = wrapIdx(op.i(1), 4); if (ti == si || !(s.ph == RAW || s.ph == DFSED || s.ph == EMB) || !s.undo.empty()) SKIP; Slot4 &t = S[ti]; if (t.ph != RAW || !t.undo.empty()) SKIP;
        if (t.g->N != s.g->N) { CHECK(LIB(gp_CopyAdjacencyLists(t.g, s.g)) == NOTOK, "refused", "copying lists between graphs of different order was accepted"); verify(ti, label); SKIP; }
        bool grow = gp_GetArcCapacity(t.g) < gp_GetArcCapacity(s.g), blocked = grow && (t.ext.count('D') || t.ext.count('3') || t.ext.count('4'));
        arm(); int r = LIB(gp_CopyAdjacencyLists(t.g, s.g)); off();
        if (r != OK) { CHECK(fired || blocked, "refused", "gp_CopyAdjacencyLists failed without a reason"); verify(ti, label + " (failed)"); if (blocked) SKIP; r = LIB(gp_CopyAdjacencyLists(t.g, s.g)); CHECK(r == OK, "retry", "gp_CopyAdjacencyLists failed again with memory available"); }
        Snap src = s.ph == RAW ? s.m.snap() : s.s; Snap dst = snapGraph(t.g, "list copy"); string why; CHECK(sameRotation(src, dst, &why), "copy", "copied adjacency lists differ: %s", why.c_str());
        setModelFromSnap(ti, dst); t.m.M = dst.m; t.cap = std::max(t.cap, s.cap); t.origin = 1; PROBE("adjacency lists copied");
    } else if (c == "wrs") { // write to a string, in each format
        if (!(s.ph == RAW || s.ph == DFSED || s.ph == EMB) || !s.undo.empty()) SKIP; int mode = op.i(1) % 3; mode = mode == 0 ? WRITE_ADJLIST : mode == 1 ? WRITE_ADJMATRIX : WRITE_G6;
        Snap sn = s.ph == RAW ? s.m.snap() : s.s; bool directed = false; for (int v = 1; v <= sn.n; v++) for (int d : sn.dir[v]) if (d) directed = true;
        char *out = 0; arm(); int r = LIB(gp_WriteToString(s.g, &out, mode)); off(); string got = out ? out : ""; if (out) simFree(out);
        bool refusable = directed && mode != WRITE_ADJLIST;
        if (r != OK) { CHECK(fired || refusable, "refused", "gp_WriteToString failed without a reason"); if (refusable) { verify(si, label); return; } verify(si, label + " (failed)"); out = 0; r = LIB(gp_WriteToString(s.g, &out, mode)); got = out ? out : ""; if (out) simFree(out); CHECK(r == OK, "retry", "gp_WriteToString failed again with memory available"); PROBE("write retried after failed allocation"); }
        bool zero = (s.g->internalFlags & FLAGS_ZEROBASEDIO) != 0;
        if (!refusable) {
            string exp = mode == WRITE_ADJLIST ? adjListText(sn, zero) : mode == WRITE_ADJMATRIX ? matrixText(sn, zero) : g6Text(sn, true);
            string alt = exp; if (mode == WRITE_G6) { alt = g6Text(sn, false); for (string *x : {&exp, &alt, &got}) while (!x->empty() && x->back() == '\n') x->pop_back(); } // the last line break is optional
            string head = got.substr(0, exp.size());
            bool okText = head == exp || (mode == WRITE_G6 && got == alt);
            CHECK(okText, "written", "the text written to a string is not the graph: got '%.300s' expected '%.300s'", got.c_str(), exp.c_str());
            if (!s.ext.count('D')) CHECK(got.size() == exp.size() || got == alt, "written", "extra text was written: '%.300s'", got.c_str() + std::min(got.size(), exp.size()));
            if (s.drawn && mode == WRITE_ADJLIST) { Drawing d; drawingOf(s.g, sn, d, "written drawing"); checkDrawing(d, sn, "written drawing"); }
        }
        obsStr(got); PROBE("written to string");
    } else if (c == "rds") { // read a graph text produced by the reference writer: rds t fmt n u-v ...
        int fmt = op.i(1) % 3; GenGraph gg = parseGraphText(op, 2); if (s.ph != NOGRAPH) { std::set<char> ex; if (s.ph == EMPTYG) ex = s.ext; if (s.ph != EMPTYG) wipe(si); }
        if (S[si].ph == NOGRAPH) exec(parseOp(strf("new %d", si))); Slot4 &t = S[si]; if (t.cap) SKIP;
        Model m; m.reset(gg.n); for (auto &e : gg.e) { int u = vtx(e.first - 1, gg.n), v = vtx(e.second - 1, gg.n); if (u == v || m.has(u, v)) continue; m.L[u].insert(m.L[u].begin(), (int)m.E.size()); m.L[v].insert(m.L[v].begin(), (int)m.E.size()); m.E.push_back({u, v, 0}); m.M++; }
        Snap sn = m.snap(); string text = fmt == 0 ? adjListText(sn, op.i(1) >= 3) : fmt == 1 ? matrixText(sn, false) : g6Text(sn, op.i(1) >= 3);
        auto rd = [&](bool f) { char *p = (char *)simMalloc(text.size() + 1); memcpy(p, text.c_str(), text.size() + 1); if (f) arm(); int r = LIB(gp_ReadFromString(t.g, p)); if (f) off(); return r; };
        auto ex = t.ext; int r = rd(true);
        if (r != OK) {
            CHECK(fired, "refused", "reading a well-formed string failed without a fault (%d)", r); wipe(si); PROBE("string read failed by fault");
            exec(parseOp(strf("new %d", si))); Slot4 &t2 = S[si]; for (char x : ex) { CHECK(attachExt(t2.g, x) == OK, "retry", "attach"); t2.ext.insert(x); }
            r = rd(false); CHECK(r == OK, "retry", "reading failed again on a fresh graph with memory available");
        }
        Slot4 &q = S[si]; q.ph = RAW; q.cap = gp_GetArcCapacity(q.g); q.origin = 1; Snap got = snapGraph(q.g, "read graph"); string why;
        if (fmt == 0) CHECK(sameRotation(got, sn, &why), "read", "the graph read differs: %s", why.c_str());
        CHECK(got.n == sn.n && got.m == sn.m && got.edges() == sn.edges(), "read", "the graph read has other edges");
        setModelFromSnap(si, got); PROBE("read from string");
    } else if (c == "render") {
        if (s.ph != EMB || !s.drawn) SKIP;
        char *out = 0; arm(); int r = LIB(gp_DrawPlanar_RenderToString(s.g, &out)); off(); string got = out ? out : ""; if (out) simFree(out);
        if (r != OK) { CHECK(fired, "refused", "rendering failed without a fault"); verify(si, label + " (failed)"); out = 0; r = LIB(gp_DrawPlanar_RenderToString(s.g, &out)); got = out ? out : ""; if (out) simFree(out); CHECK(r == OK, "retry", "rendering failed again with memory available"); }
        bool zero = (s.g->internalFlags & FLAGS_ZEROBASEDIO) != 0; Drawing d; drawingOf(s.g, s.s, d, "rendered drawing");
        string exp = expectedRendering(d, s.s.n, s.s.m, zero); CHECK(got == exp, "rendering", "the rendered text does not show the drawing:\n%s\nexpected:\n%s", got.substr(0, 1200).c_str(), exp.substr(0, 1200).c_str());
        obsStr(got); PROBE("rendering compared");
    } else if (c == "savedraw") { // write a drawing, read it back into another graph
        int ti = wrapIdx(op.i(1), 4); if (ti == si || s.ph != EMB || !s.drawn || (s.g->internalFlags & FLAGS_ZEROBASEDIO)) SKIP;
        string text = writeStr(s.g, WRITE_ADJLIST); if (S[ti].ph != NOGRAPH) wipe(ti); exec(parseOp(strf("new %d", ti))); exec(parseOp(strf("attach %d D", ti))); Slot4 &t = S[ti];
        char *p = (char *)simMalloc(text.size() + 1); memcpy(p, text.c_str(), text.size() + 1); arm(); int r = LIB(gp_ReadFromString(t.g, p)); off();
        if (r != OK) { CHECK(fired, "refused", "reading back a written drawing failed"); wipe(ti); verify(si, label); return; }
        Snap sn = snapGraph(t.g, "drawing read back"); string why; if (s.inputModel.directed()) CHECK(sn.edges() == s.s.edges(), "read", "the graph of a drawing read back has other edges"); // in-arcs are placed by the reader
        else CHECK(sameRotation(sn, s.s, &why), "read", "the graph of a drawing read back differs: %s", why.c_str());
        Drawing a, b; drawingOf(s.g, s.s, a, "drawing"); drawingOf(t.g, sn, b, "drawing read back"); CHECK(a.vpos == b.vpos && a.vs == b.vs && a.ve == b.ve, "drawing", "vertex positions of a drawing read back differ"); checkDrawing(b, sn, "drawing read back");
        char *o1 = 0, *o2 = 0; int r1 = LIB(gp_DrawPlanar_RenderToString(s.g, &o1)), r2 = LIB(gp_DrawPlanar_RenderToString(t.g, &o2)); string x1 = o1 ? o1 : "", x2 = o2 ? o2 : ""; if (o1) simFree(o1); if (o2) simFree(o2); CHECK(r1 == OK && r2 == OK && x1 == x2, "rendering", "a drawing read back renders differently:\n%s\nvs\n%s", x2.substr(0, 900).c_str(), x1.substr(0, 900).c_str());
        t.ph = RAW; t.cap = gp_GetArcCapacity(t.g); setModelFromSnap(ti, sn); t.origin = 1; PROBE("drawing read back");
        verify(ti, label);
    } else return;
    if (hasF && fired) { SH->faultedOps.fetch_add(1, std::memory_order_relaxed); }
    verify(si, label); quickQueries(si); verifyOthers(si);
}
void World::finish() {
    opLabel("end of history");
    for (int i = 0; i < 4; i++) if (S[i].g) { verify(i, "the history"); }
    for (int i = 0; i < 4; i++) wipe(i);
    int me = fiberCurrent();
    if (me >= 0) { CHECK(heapLiveFor(me) == 0, "leak", "%zu blocks of caller %d are still allocated after all its graphs were freed", heapLiveFor(me), me); return; }
    CHECK(heapLive() == 0, "leak", "%zu blocks are still allocated after every graph was freed: %s", heapLive(), heapDescribeLive(6).c_str());
    CHECK(fsOpenHandles() == 0, "leak", "%d files are still open", fsOpenHandles());
}
void runWorld(const Plan &p) { World w; for (auto &l : p.L) { Op op = parseOp(l); if (!swarmOp(op)) w.exec(op); } w.finish(); }
