#include "oracle.h"

// ------------------------------------------------------------------ left-right planarity test
namespace {
struct LR {
    const Ref &g; int n;
    struct IV { int low = -1, high = -1; bool empty() const { return low < 0 && high < 0; } };
    struct CP { IV L, R; };
    vector<int> height, pe; vector<int> lowpt, lowpt2, nest, ref, lowptEdge, eu, ev, bottom; vector<vector<int>> out; std::vector<CP> S;
    std::map<Edge, int> oriented;
    explicit LR(const Ref &g_) : g(g_), n(g_.n), height(n + 1, -1), pe(n + 1, -1), out(n + 1) {}
    int newE(int u, int v) { eu.push_back(u); ev.push_back(v); lowpt.push_back(0); lowpt2.push_back(0); nest.push_back(0); ref.push_back(-1); lowptEdge.push_back(-1); bottom.push_back(0); return (int)eu.size() - 1; }
    void dfs1(int v) {
        int e = pe[v];
        for (int w : g.adj[v]) {
            if (!oriented.insert({E2(v, w), 1}).second) continue;
            int x = newE(v, w); out[v].push_back(x); lowpt[x] = lowpt2[x] = height[v];
            if (height[w] < 0) { pe[w] = x; height[w] = height[v] + 1; dfs1(w); } else lowpt[x] = height[w];
            nest[x] = 2 * lowpt[x] + (lowpt2[x] < height[v] ? 1 : 0);
            if (e >= 0) {
                if (lowpt[x] < lowpt[e]) { lowpt2[e] = std::min(lowpt[e], lowpt2[x]); lowpt[e] = lowpt[x]; }
                else if (lowpt[x] > lowpt[e]) lowpt2[e] = std::min(lowpt2[e], lowpt[x]);
                else lowpt2[e] = std::min(lowpt2[e], lowpt2[x]);
            }
        }
    }
    bool confl(const IV &I, int b) { return !I.empty() && lowpt[I.high] > lowpt[b]; }
    int lowest(const CP &p) { if (p.L.empty()) return lowpt[p.R.low]; if (p.R.empty()) return lowpt[p.L.low]; return std::min(lowpt[p.L.low], lowpt[p.R.low]); }
    bool addC(int ei, int e) {
        CP P;
        while (true) {
            CP Q = S.back(); S.pop_back();
            if (!Q.L.empty()) std::swap(Q.L, Q.R);
            if (!Q.L.empty()) return false;
            if (lowpt[Q.R.low] > lowpt[e]) { if (P.R.empty()) P.R = Q.R; else ref[P.R.low] = Q.R.high; P.R.low = Q.R.low; }
            else ref[Q.R.low] = lowptEdge[e];
            if ((int)S.size() <= bottom[ei]) break;
        }
        while (!S.empty() && (confl(S.back().L, ei) || confl(S.back().R, ei))) {
            CP Q = S.back(); S.pop_back();
            if (confl(Q.R, ei)) std::swap(Q.L, Q.R);
            if (confl(Q.R, ei)) return false;
            if (P.R.low >= 0) ref[P.R.low] = Q.R.high;
            if (Q.R.low >= 0) P.R.low = Q.R.low;
            if (P.L.empty()) P.L = Q.L; else ref[P.L.low] = Q.L.high;
            P.L.low = Q.L.low;
        }
        if (!(P.L.empty() && P.R.empty())) S.push_back(P);
        return true;
    }
    void removeBack(int e) {
        int u = eu[e];
        while (!S.empty() && lowest(S.back()) == height[u]) S.pop_back();
        if (!S.empty()) {
            CP P = S.back(); S.pop_back();
            while (P.L.high >= 0 && ev[P.L.high] == u) P.L.high = ref[P.L.high];
            if (P.L.high < 0 && P.L.low >= 0) { ref[P.L.low] = P.R.low; P.L.low = -1; }
            while (P.R.high >= 0 && ev[P.R.high] == u) P.R.high = ref[P.R.high];
            if (P.R.high < 0 && P.R.low >= 0) { ref[P.R.low] = P.L.low; P.R.low = -1; }
            S.push_back(P);
        }
        if (lowpt[e] < height[u] && !S.empty()) { int hl = S.back().L.high, hr = S.back().R.high; if (hl >= 0 && (hr < 0 || lowpt[hl] > lowpt[hr])) ref[e] = hl; else ref[e] = hr; }
    }
    bool dfs2(int v) {
        int e = pe[v]; bool first = true;
        for (int ei : out[v]) {
            bottom[ei] = (int)S.size();
            int w = ev[ei];
            if (pe[w] == ei) { if (!dfs2(w)) return false; }
            else { lowptEdge[ei] = ei; CP p; p.R.low = p.R.high = ei; S.push_back(p); }
            if (lowpt[ei] < height[v]) { if (first) { if (e >= 0) lowptEdge[e] = lowptEdge[ei]; } else if (!addC(ei, e)) return false; }
            first = false;
        }
        if (e >= 0) removeBack(e);
        return true;
    }
    bool run() {
        vector<int> roots;
        for (int v = 1; v <= n; v++) if (height[v] < 0) { height[v] = 0; roots.push_back(v); dfs1(v); }
        for (int v = 1; v <= n; v++) std::stable_sort(out[v].begin(), out[v].end(), [&](int a, int b) { return nest[a] < nest[b]; });
        for (int v : roots) { S.clear(); if (!dfs2(v)) return false; }
        return true;
    }
};
}
bool refPlanar(int n, const Edges &e) { if (n > 2 && (int)e.size() > 3 * n - 6) return false; Ref g(n, e); LR lr(g); return lr.run(); }
bool refOuterplanar(int n, const Edges &e) { if (n >= 2 && (int)e.size() > 2 * n - 3) return false; Edges x = e; for (int v = 1; v <= n; v++) x.push_back({v, n + 1}); return refPlanar(n + 1, x); }
int refComponents(int n, const Edges &e) { vector<int> p(n + 1); for (int i = 0; i <= n; i++) p[i] = i; std::function<int(int)> f = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }; int c = n; for (auto &x : e) { int a = f(x.first), b = f(x.second); if (a != b) { p[a] = b; c--; } } return c; }
bool refHasK4(int n, const Edges &e) { // no K4 homeomorph iff reducible by removing vertices of degree <= 2
    vector<std::set<int>> a(n + 1); for (auto &x : e) { a[x.first].insert(x.second); a[x.second].insert(x.first); }
    vector<int> q; vector<char> gone(n + 1, 0); for (int v = 1; v <= n; v++) if (a[v].size() <= 2) q.push_back(v);
    int left = n;
    while (!q.empty()) { int v = q.back(); q.pop_back(); if (gone[v] || a[v].size() > 2) continue; gone[v] = 1; left--; vector<int> nb(a[v].begin(), a[v].end()); for (int w : nb) a[w].erase(v); if (nb.size() == 2) { a[nb[0]].insert(nb[1]); a[nb[1]].insert(nb[0]); } for (int w : nb) if (a[w].size() <= 2) q.push_back(w); }
    return left > 0;
}
// biconnected blocks as edge lists
static vector<Edges> blocks(int n, const Edges &e) {
    Ref g(n, e); vector<Edges> out; vector<int> num(n + 1, 0), low(n + 1, 0); int cnt = 0; vector<Edge> st;
    std::function<void(int, int)> dfs = [&](int v, int par) {
        num[v] = low[v] = ++cnt;
        for (int w : g.adj[v]) {
            if (!num[w]) { st.push_back({v, w}); dfs(w, v); low[v] = std::min(low[v], low[w]); if (low[w] >= num[v]) { Edges b; while (true) { Edge x = st.back(); st.pop_back(); b.push_back(E2(x.first, x.second)); if (x == Edge(v, w)) break; } out.push_back(b); } }
            else if (w != par && num[w] < num[v]) { st.push_back({v, w}); low[v] = std::min(low[v], num[w]); }
        }
    };
    for (int v = 1; v <= n; v++) if (!num[v]) dfs(v, 0);
    return out;
}
static int compact(const Edges &e, Edges &out) { std::map<int, int> id; out.clear(); for (auto &x : e) { for (int v : {x.first, x.second}) if (!id.count(v)) { int k = (int)id.size() + 1; id[v] = k; } out.push_back(E2(id[x.first], id[x.second])); } return (int)id.size(); }
bool refHasK23(int n, const Edges &e) { for (auto &b : blocks(n, e)) { Edges c; int k = compact(b, c); if (k == 4 && c.size() == 6) continue; if (!refOuterplanar(k, c)) return true; } return false; }
static bool k33rec(int n, Edges e) { // e biconnected
    if (n < 6 || refPlanar(n, e)) return false;
    Ref g(n, e);
    for (int u = 1; u <= n; u++) { // separation pair {u, v}: v is a cut vertex of G-u
        vector<int> num(n + 1, 0), low(n + 1, 0); int cnt = 0, cut = 0;
        std::function<void(int, int)> dfs = [&](int v, int par) {
            num[v] = low[v] = ++cnt; int ch = 0;
            for (int w : g.adj[v]) { if (w == u || w == par) continue; if (!num[w]) { ch++; dfs(w, v); low[v] = std::min(low[v], low[w]); if (par && low[w] >= num[v]) cut = v; } else low[v] = std::min(low[v], num[w]); }
            if (!par && ch > 1) cut = v;
        };
        dfs(u == 1 ? 2 : 1, 0);
        if (!cut) continue;
        // split at {u, cut}
        vector<int> comp(n + 1, 0); int c = 0;
        for (int s = 1; s <= n; s++) if (s != u && s != cut && !comp[s]) { c++; vector<int> q{s}; comp[s] = c; while (!q.empty()) { int x = q.back(); q.pop_back(); for (int w : g.adj[x]) if (w != u && w != cut && !comp[w]) { comp[w] = c; q.push_back(w); } } }
        for (int k = 1; k <= c; k++) { std::set<Edge> sub; for (auto &x : e) if ((comp[x.first] == k || x.first == u || x.first == cut) && (comp[x.second] == k || x.second == u || x.second == cut)) sub.insert(x); sub.insert(E2(u, cut)); Edges s(sub.begin(), sub.end()), cc; int kn = compact(s, cc); if (k33rec(kn, cc)) return true; }
        return false;
    }
    return true; // 3-connected, nonplanar, more than 5 vertices
}
bool refHasK33(int n, const Edges &e) { if (refPlanar(n, e)) return false; for (auto &b : blocks(n, e)) { Edges c; int k = compact(b, c); if (k33rec(k, c)) return true; } return false; }

int subdivisionKind(int n, const Edges &e, string *why) {
    Ref g(n, e); vector<int> br; auto bad = [&](const string &s) { if (why) *why = s; return (int)SUB_NONE; };
    { std::set<Edge> u(e.begin(), e.end()); if (u.size() != e.size()) return bad("repeated edge"); }
    for (int v = 1; v <= n; v++) { int d = (int)g.adj[v].size(); if (d == 1) return bad(strf("vertex %d has degree 1", v)); if (d > 2) br.push_back(v); }
    // trace paths from branch vertices through degree-2 vertices
    std::map<Edge, vector<int>> path; size_t used = 0;
    for (int b : br) for (int w : g.adj[b]) {
        int prev = b, cur = w, len = 1; while (g.adj[cur].size() == 2) { int nx = g.adj[cur][0] == prev ? g.adj[cur][1] : g.adj[cur][0]; prev = cur; cur = nx; len++; if (len > n + 1) return bad("path does not end"); }
        if (cur == b) return bad("loop at a branch vertex");
        if (b < cur) { path[{b, cur}].push_back(len); used += len; }
    }
    if (used != e.size()) return bad("edges outside the branch paths");
    size_t np = 0; for (auto &p : path) np += p.second.size();
    auto deg = [&](int v) { return (int)g.adj[v].size(); };
    if (br.size() == 5 && np == 10 && path.size() == 10) { for (int v : br) if (deg(v) != 4) return bad("K5 branch degree"); return SUB_K5; }
    if (br.size() == 4 && np == 6 && path.size() == 6) { for (int v : br) if (deg(v) != 3) return bad("K4 branch degree"); return SUB_K4; }
    if (br.size() == 6 && np == 9 && path.size() == 9) { // bipartite 3+3, complete
        std::set<int> side; for (auto &p : path) { if (p.first.first == br[0]) side.insert(p.first.second); if (p.first.second == br[0]) side.insert(p.first.first); }
        if (side.size() != 3) return bad("K33 branch degree");
        for (auto &p : path) if (side.count(p.first.first) == side.count(p.first.second)) return bad("K33 not bipartite");
        return SUB_K33;
    }
    if (br.size() == 2 && path.size() == 1 && np == 3) { int shortp = 0; for (int l : path.begin()->second) if (l < 2) shortp++; if (shortp) return bad("K23 path without interior vertex"); return SUB_K23; }
    return bad(strf("%zu branch vertices and %zu paths", br.size(), np));
}

// ------------------------------------------------------------------ snapshots
Edges Snap::edges() const { Edges e; for (int v = 1; v <= n; v++) for (int w : nb[v]) if (v < w) e.push_back({v, w}); std::sort(e.begin(), e.end()); return e; }
u64 Snap::hash() const { u64 h = mix(n, m); for (int v = 1; v <= n; v++) { h = mix(h, 77); for (size_t i = 0; i < nb[v].size(); i++) h = mix(h, nb[v][i] * 8 + dir[v][i]); } return h; }
string Snap::text() const { string s = strf("n=%d m=%d:", n, m); for (int v = 1; v <= n && s.size() < 1500; v++) { s += strf(" %d[", v); for (size_t i = 0; i < nb[v].size(); i++) s += strf("%s%d%s", i ? " " : "", nb[v][i], dir[v][i] == 1 ? ">" : dir[v][i] == 2 ? "<" : ""); s += "]"; } return s; }
Snap snapGraph(graphP g, const char *what) {
    Snap s; s.n = g->N; s.m = g->M; s.nb.resize(s.n + 1); s.arc.resize(s.n + 1); s.dir.resize(s.n + 1);
    CHECK(s.m >= 0 && s.m <= g->arcCapacity / 2, "corrupt", "%s: edge count %d outside the capacity %d", what, s.m, g->arcCapacity / 2);
    int bound = gp_EdgeIndexBound(g); long total = 0;
    for (int v = 1; v <= s.n; v++) {
        int e = gp_GetFirstArc(g, v), prev = NIL;
        while (gp_IsArc(e)) {
            CHECK(e >= gp_GetFirstEdge(g) && e < bound, "corrupt", "%s: adjacency list of %d holds arc %d outside the edge store (2..%d)", what, v, e, bound - 1);
            CHECK(gp_GetPrevArc(g, e) == prev, "corrupt", "%s: in the list of %d the back link of arc %d is %d, not %d", what, v, e, gp_GetPrevArc(g, e), prev);
            int w = gp_GetNeighbor(g, e), t = gp_GetTwinArc(g, e);
            CHECK(gp_GetNeighbor(g, t) == v, "corrupt", "%s: arc %d in the list of %d has a twin pointing to %d", what, e, v, gp_GetNeighbor(g, t));
            CHECK(w >= 1 && w <= s.n, "corrupt", "%s: vertex %d has the neighbour %d outside 1..%d", what, v, w, s.n);
            s.nb[v].push_back(w); s.arc[v].push_back(e);
            int d = gp_GetDirection(g, e); s.dir[v].push_back(d == EDGEFLAG_DIRECTION_OUTONLY ? 1 : d == EDGEFLAG_DIRECTION_INONLY ? 2 : d ? 3 : 0);
            CHECK(++total <= bound, "corrupt", "%s: adjacency lists are cyclic near vertex %d", what, v);
            prev = e; e = gp_GetNextArc(g, e);
        }
        CHECK(gp_GetLastArc(g, v) == prev, "corrupt", "%s: last arc of %d is %d, not %d", what, v, gp_GetLastArc(g, v), prev);
    }
    std::set<int> seen; for (int v = 1; v <= s.n; v++) for (int a : s.arc[v]) CHECK(seen.insert(a).second, "corrupt", "%s: arc %d is in two lists", what, a);
    for (int a : seen) CHECK(seen.count(a ^ 1), "corrupt", "%s: arc %d is listed but its twin is not", what, a);
    return s;
}
bool sameRotation(const Snap &a, const Snap &b, string *why) {
    if (a.n != b.n) { *why = strf("orders %d and %d", a.n, b.n); return false; }
    if (a.m != b.m) { *why = strf("edge counts %d and %d", a.m, b.m); return false; }
    for (int v = 1; v <= a.n; v++) if (a.nb[v] != b.nb[v] || a.dir[v] != b.dir[v]) { *why = strf("neighbour lists of %d differ: ", v) + a.text() + " / " + b.text(); return false; }
    return true;
}
void checkEmbedding(const Snap &s, bool outer, const char *what) {
    std::map<int, std::pair<int, int>> where; for (int v = 1; v <= s.n; v++) for (size_t i = 0; i < s.arc[v].size(); i++) where[s.arc[v][i]] = {v, (int)i};
    vector<int> comp(s.n + 1, 0); int c = 0;
    for (int v = 1; v <= s.n; v++) if (!comp[v]) { c++; vector<int> q{v}; comp[v] = c; while (!q.empty()) { int x = q.back(); q.pop_back(); for (int w : s.nb[x]) if (!comp[w]) { comp[w] = c; q.push_back(w); } } }
    vector<int> nv(c + 1, 0), ne(c + 1, 0), nf(c + 1, 0); vector<char> allOnOne(c + 1, 0);
    for (int v = 1; v <= s.n; v++) { nv[comp[v]]++; ne[comp[v]] += (int)s.nb[v].size(); }
    std::set<int> used;
    for (auto &kv : where) {
        if (used.count(kv.first)) continue;
        int a = kv.first; std::set<int> vs; int cc = comp[kv.second.first];
        do { used.insert(a); int t = a ^ 1; auto p = where[t]; vs.insert(p.first); const vector<int> &L = s.arc[p.first]; a = L[(p.second + 1) % L.size()]; CHECK(a == kv.first || !used.count(a), "embedding", "%s: face walk does not close", what); } while (a != kv.first);
        nf[cc]++; if ((int)vs.size() == nv[cc]) allOnOne[cc] = 1;
    }
    for (int k = 1; k <= c; k++) {
        int m = ne[k] / 2; if (m == 0) continue;
        CHECK(nv[k] - m + nf[k] == 2, "embedding", "%s: a component with %d vertices and %d edges has %d faces; not a planar rotation system: %s", what, nv[k], m, nf[k], s.text().c_str());
        if (outer) CHECK(allOnOne[k], "embedding", "%s: no face meets every vertex of a component; not outerplanar: %s", what, s.text().c_str());
    }
}
vector<int> labelMap(graphP g, const char *what) {
    vector<int> m(g->N + 1, 0), seen(g->N + 1, 0);
    for (int v = 1; v <= g->N; v++) { int x = gp_GetVertexIndex(g, v); CHECK(x >= 1 && x <= g->N && !seen[x], "labels", "%s: vertex index fields are not a permutation (vertex %d has %d)", what, v, x); seen[x] = 1; m[v] = x; }
    return m;
}
Edges mapEdges(const Edges &e, const vector<int> &m) { Edges o; for (auto &x : e) o.push_back(E2(m[x.first], m[x.second])); std::sort(o.begin(), o.end()); return o; }
bool subsetOf(const Edges &a, const Edges &b) { std::set<Edge> s(b.begin(), b.end()); std::set<Edge> seen; for (auto &x : a) if (!s.count(E2(x.first, x.second)) || !seen.insert(x).second) return false; return true; }

// ------------------------------------------------------------------ drawings
bool parseDrawing(const string &t, int n, Drawing &d, string *why) {
    size_t a = t.find("<DrawPlanar>"), b = t.find("</DrawPlanar>");
    if (a == string::npos || b == string::npos) { *why = "no drawing section"; return false; }
    std::istringstream is(t.substr(a + 12, b - a - 12)); string l; d = Drawing(); d.n = n; int zero = t.find(" 0-based") != string::npos || false; (void)zero;
    d.vpos.assign(n + 1, -1); d.vs.assign(n + 1, -1); d.ve.assign(n + 1, -1);
    vector<std::array<int, 4>> rows; while (std::getline(is, l)) { int i, p, s, e; if (sscanf(l.c_str(), "%d: %d %d %d", &i, &p, &s, &e) == 4) rows.push_back({i, p, s, e}); else if (l.find_first_not_of(" \t\r") != string::npos) { *why = "unreadable drawing line: " + l; return false; } }
    if ((int)rows.size() < n) { *why = "missing vertex lines"; return false; }
    int base = n ? rows[0][0] : 1;
    for (int k = 0; k < n; k++) { int v = rows[k][0] - base + 1; if (v != k + 1) { *why = "vertex lines out of order"; return false; } d.vpos[v] = rows[k][1]; d.vs[v] = rows[k][2]; d.ve[v] = rows[k][3]; }
    for (size_t k = n; k < rows.size(); k++) { Drawing::ED x; x.e = rows[k][0]; x.pos = rows[k][1]; x.s = rows[k][2]; x.t = rows[k][3]; x.u = x.v = 0; d.ed.push_back(x); }
    return true;
}
void checkDrawing(const Drawing &d, const Snap &s, const char *what) {
    int n = s.n, m = s.m; std::set<int> vp, ep;
    for (int v = 1; v <= n; v++) {
        CHECK(d.vpos[v] >= 0 && d.vpos[v] < n, "drawing", "%s: vertex %d has the vertical position %d outside 0..%d", what, v, d.vpos[v], n - 1);
        CHECK(vp.insert(d.vpos[v]).second, "drawing", "%s: two vertices share the vertical position %d", what, d.vpos[v]);
        CHECK(d.vs[v] >= 0 && d.vs[v] <= d.ve[v] && d.ve[v] < std::max(1, m), "drawing", "%s: vertex %d has the extent %d..%d (m=%d)", what, v, d.vs[v], d.ve[v], m);
    }
    CHECK((int)d.ed.size() == m, "drawing", "%s: %zu edges drawn, %d in the graph", what, d.ed.size(), m);
    std::set<Edge> have;
    for (auto &e : d.ed) {
        CHECK(e.pos >= 0 && e.pos < m, "drawing", "%s: edge %d-%d has the horizontal position %d outside 0..%d", what, e.u, e.v, e.pos, m - 1);
        CHECK(ep.insert(e.pos).second, "drawing", "%s: two edges share the horizontal position %d", what, e.pos);
        int lo = std::min(d.vpos[e.u], d.vpos[e.v]), hi = std::max(d.vpos[e.u], d.vpos[e.v]);
        CHECK(e.s == lo && e.t == hi, "drawing", "%s: edge %d-%d spans %d..%d, its endpoints are at %d and %d", what, e.u, e.v, e.s, e.t, lo, hi);
        for (int v : {e.u, e.v}) CHECK(d.vs[v] <= e.pos && e.pos <= d.ve[v], "drawing", "%s: edge %d-%d at %d does not touch vertex %d with extent %d..%d", what, e.u, e.v, e.pos, v, d.vs[v], d.ve[v]);
        for (int v = 1; v <= n; v++) if (v != e.u && v != e.v && d.vpos[v] > e.s && d.vpos[v] < e.t) CHECK(!(d.vs[v] <= e.pos && e.pos <= d.ve[v]), "drawing", "%s: edge %d-%d at %d crosses vertex %d (level %d, extent %d..%d)", what, e.u, e.v, e.pos, v, d.vpos[v], d.vs[v], d.ve[v]);
        have.insert(E2(e.u, e.v));
    }
    Edges all = s.edges(); CHECK(have.size() == all.size() && std::equal(all.begin(), all.end(), have.begin()), "drawing", "%s: the drawn edges are not the graph's edges", what);
}

// ------------------------------------------------------------------ generation
void shuffleGraph(Rng &r, GenGraph &g) { vector<int> p(g.n + 1); for (int i = 0; i <= g.n; i++) p[i] = i; for (int i = g.n; i > 1; i--) std::swap(p[i], p[1 + r.below(i)]); for (auto &e : g.e) { e = {p[e.first], p[e.second]}; if (r.chance(1, 2)) std::swap(e.first, e.second); } shuffleVec(r, g.e); }
static void addE(GenGraph &g, std::set<Edge> &s, int u, int v) { if (u != v && s.insert(E2(u, v)).second) g.e.push_back(E2(u, v)); }
static GenGraph triang(Rng &r, int n) { // random planar triangulation by vertex insertion in faces
    GenGraph g{n, {}, "triang"}; std::set<Edge> s; if (n >= 2) addE(g, s, 1, 2); if (n >= 3) { addE(g, s, 1, 3); addE(g, s, 2, 3); }
    vector<std::array<int, 3>> f; if (n >= 3) { f.push_back({1, 2, 3}); f.push_back({1, 2, 3}); }
    for (int v = 4; v <= n; v++) { int k = r.below((int)f.size()); auto t = f[k]; for (int j = 0; j < 3; j++) addE(g, s, v, t[j]); f[k] = {t[0], t[1], v}; f.push_back({t[0], t[2], v}); f.push_back({t[1], t[2], v}); }
    return g;
}
static GenGraph outerp(Rng &r, int n) { // random maximal outerplanar graph
    GenGraph g{n, {}, "outer"}; std::set<Edge> s; if (n >= 2) addE(g, s, 1, 2); vector<Edge> b{{1, 2}};
    for (int v = 3; v <= n; v++) { int k = r.below((int)b.size()); Edge e = b[k]; addE(g, s, v, e.first); addE(g, s, v, e.second); b[k] = {e.first, v}; b.push_back({e.second, v}); }
    return g;
}
static void dropSome(Rng &r, GenGraph &g, int k) { while (k-- > 0 && !g.e.empty()) { int i = r.below((int)g.e.size()); g.e.erase(g.e.begin() + i); } }
static void addSome(Rng &r, GenGraph &g, int k) { std::set<Edge> s; for (auto &e : g.e) s.insert(E2(e.first, e.second)); while (k-- > 0 && g.n > 1) addE(g, s, 1 + r.below(g.n), 1 + r.below(g.n)); }
static GenGraph complete(int a, int b) { GenGraph g{b ? a + b : a, {}, "complete"}; for (int i = 1; i <= g.n; i++) for (int j = i + 1; j <= g.n; j++) if (!b || (i <= a && j > a)) g.e.push_back({i, j}); return g; }
static void subdivide(Rng &r, GenGraph &g, int maxN, int times) { while (times-- > 0 && g.n < maxN && !g.e.empty()) { int i = r.below((int)g.e.size()); Edge e = g.e[i]; g.n++; g.e[i] = {e.first, g.n}; g.e.push_back({e.second, g.n}); } }
static void glue(Rng &r, GenGraph &g, GenGraph h, int shared) { // identify `shared` vertices of h with vertices of g
    shared = std::min(shared, std::min(g.n, h.n)); vector<int> m(h.n + 1, 0); vector<int> gv, hv; for (int i = 1; i <= g.n; i++) gv.push_back(i); for (int i = 1; i <= h.n; i++) hv.push_back(i); shuffleVec(r, gv); shuffleVec(r, hv);
    if (shared == 2 && !g.e.empty() && !h.e.empty() && r.chance(2, 3)) { Edge a = g.e[r.below((int)g.e.size())], b = h.e[r.below((int)h.e.size())]; m[b.first] = a.first; m[b.second] = a.second; }
    else for (int i = 0; i < shared; i++) m[hv[i]] = gv[i];
    for (int i = 1; i <= h.n; i++) if (!m[i]) m[i] = ++g.n;
    std::set<Edge> s; for (auto &e : g.e) s.insert(E2(e.first, e.second)); for (auto &e : h.e) addE(g, s, m[e.first], m[e.second]);
}
// graphs that once reached rare parts of the algorithms (distilled from searches of ours), kept with their exact
// labels and edge order and varied a little: flag, order and edges as letters
static const char *corpus[] = {
#include "corpus.inc"
};
static GenGraph fromCorpus(Rng &r, int maxN, char f) {
    static std::map<char, vector<int>> by; static const int N = sizeof corpus / sizeof *corpus;
    if (by.empty()) for (int i = 0; i < N; i++) by[corpus[i][0]].push_back(i);
    vector<int> &v = by[f]; const char *c = corpus[!v.empty() && r.chance(7, 8) ? v[r.below((int)v.size())] : r.below(N)];
    GenGraph g{c[1] - 'A' + 1, {}, "corpus"}; for (const char *q = c + 2; q[0] && q[1]; q += 2) g.e.push_back({q[0] - 'A' + 1, q[1] - 'A' + 1});
    for (int k = r.chance(1, 4) ? 0 : 1 + r.below(3); k > 0 && !g.e.empty(); k--) switch (r.below(8)) {
        case 0: addSome(r, g, 1); break;
        case 1: dropSome(r, g, 1); break;
        case 2: subdivide(r, g, std::max(maxN, g.n), 1); break;
        case 3: { int a = 1 + r.below(g.n), b = 1 + r.below(g.n); for (auto &e : g.e) for (int *x : {&e.first, &e.second}) *x = *x == a ? b : *x == b ? a : *x; break; }
        case 4: std::swap(g.e[r.below((int)g.e.size())], g.e[r.below((int)g.e.size())]); break;
        case 5: { int i = r.below((int)g.e.size()); Edge e = g.e[i]; g.e.erase(g.e.begin() + i); g.e.insert(g.e.begin() + r.below((int)g.e.size() + 1), e); break; }
        case 6: { Edge &e = g.e[r.below((int)g.e.size())]; int w = 1 + r.below(g.n); if (w != e.first) e.second = w; break; }
        default: if (g.n + 4 < maxN) { const char *d = corpus[r.below(N)]; if (r.chance(1, 2) || d[1] - 'A' + 1 + g.n > maxN) glue(r, g, r.chance(1, 2) ? complete(5, 0) : complete(4, 0), 2); else { GenGraph h{d[1] - 'A' + 1, {}, ""}; for (const char *q = d + 2; q[0] && q[1]; q += 2) h.e.push_back({q[0] - 'A' + 1, q[1] - 'A' + 1}); glue(r, g, h, r.below(3)); } }
    }
    std::set<Edge> s; Edges o; for (auto &e : g.e) if (e.first != e.second && s.insert(E2(e.first, e.second)).second) o.push_back(e); g.e = o;
    if (r.chance(1, 8)) shuffleVec(r, g.e);
    return g;
}
GenGraph genGraph(Rng &r, int maxN, int hint) {
    if (hint >= 30 && hint < 36) return fromCorpus(r, maxN, "POD234"[hint - 30]);
    if (hint < 0 && maxN >= 12 && r.chance(1, 12)) return fromCorpus(r, maxN, 0);
    GenGraph g; int n = 1 + r.below(maxN); if (r.chance(1, 2)) n = std::min(maxN, std::max(n, maxN / 2));
    int k = hint >= 0 ? hint : r.below(27);
    switch (k) {
    case 0: { g = GenGraph{n, {}, "gnm"}; long mx = (long)n * (n - 1) / 2; addSome(r, g, (int)std::min(mx, (long)r.below(3 * n + 2))); break; }
    case 1: { g = GenGraph{n, {}, "gnm2"}; addSome(r, g, n + r.below(n / 2 + 2)); break; }
    case 2: g = triang(r, n); break;
    case 3: g = triang(r, n); dropSome(r, g, r.below((int)g.e.size() / 3 + 2)); break;
    case 4: g = triang(r, n); dropSome(r, g, r.below(4)); addSome(r, g, 1 + r.below(3)); g.kind = "nearplanar"; break;
    case 5: g = outerp(r, n); dropSome(r, g, r.below(n / 2 + 1)); break;
    case 6: g = outerp(r, n); dropSome(r, g, r.below(3)); addSome(r, g, 1 + r.below(2)); g.kind = "nearouter"; break;
    case 7: g = complete(5, 0); subdivide(r, g, maxN, r.below(maxN)); g.kind = "subK5"; break;
    case 8: g = complete(3, 3); subdivide(r, g, maxN, r.below(maxN)); g.kind = "subK33"; break;
    case 9: g = complete(4, 0); subdivide(r, g, maxN, r.below(maxN)); g.kind = "subK4"; break;
    case 10: g = complete(2, 3); subdivide(r, g, maxN, r.below(maxN)); g.kind = "subK23"; break;
    case 11: { g = complete(5, 0); while (g.n + 4 < maxN && !r.chance(1, 3)) { glue(r, g, r.chance(3, 4) ? complete(5, 0) : triang(r, 3 + r.below(3)), r.below(3)); } g.kind = "K5sum"; if (r.chance(1, 3)) dropSome(r, g, 1); break; }
    case 12: { g = r.chance(1, 2) ? complete(4, 0) : complete(3, 0); while (g.n + 4 < maxN && !r.chance(1, 4)) { int q = r.below(5); glue(r, g, q == 0 ? complete(4, 0) : q == 1 ? outerp(r, 2 + r.below(5)) : q == 2 ? complete(2, 0) : q == 3 ? complete(2, 3) : triang(r, 3 + r.below(3)), r.chance(3, 4) ? 1 : r.below(3)); } g.kind = "blocks"; break; }
    case 13: { g = GenGraph{n, {}, "tree"}; for (int v = 2; v <= n; v++) g.e.push_back({1 + r.below(v - 1), v}); if (r.chance(1, 2)) dropSome(r, g, r.below(3)); if (r.chance(1, 2)) addSome(r, g, r.below(4)); break; }
    case 14: { g = GenGraph{0, {}, "union"}; while (g.n < n) { int q = 1 + r.below(std::max(1, n - g.n)); GenGraph h = genGraph(r, q, r.below(11)); if (g.n + h.n > maxN) break; for (auto &e : h.e) g.e.push_back({e.first + g.n, e.second + g.n}); g.n += h.n; } if (g.n < 1) g.n = 1; g.kind = "union"; break; }
    case 15: { int w = 2 + r.below(4), h = std::max(2, std::min(maxN / w, n / w + 1)); g = GenGraph{w * h, {}, "grid"}; for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { if (j + 1 < w) g.e.push_back({i * w + j + 1, i * w + j + 2}); if (i + 1 < h) g.e.push_back({i * w + j + 1, (i + 1) * w + j + 1}); } if (r.chance(1, 2)) addSome(r, g, 1); break; }
    case 16: { int h = std::max(3, n / 2); g = GenGraph{2 * h, {}, "mobius"}; for (int i = 1; i <= 2 * h; i++) g.e.push_back({i, i % (2 * h) + 1}); for (int i = 1; i <= h; i++) g.e.push_back({i, i + h}); if (r.chance(1, 3)) dropSome(r, g, 1 + r.below(2)); break; }
    case 17: { int a = 1 + r.below(std::min(6, maxN)), b = r.chance(1, 2) ? 0 : 1 + r.below(4); g = complete(a, b); if (r.chance(1, 2)) dropSome(r, g, r.below(3)); break; }
    case 18: { int w = std::max(3, n - 1); g = GenGraph{w + 1, {}, "wheel"}; for (int i = 1; i <= w; i++) { g.e.push_back({i, i % w + 1}); g.e.push_back({i, w + 1}); } if (r.chance(1, 2)) dropSome(r, g, r.below(4)); if (r.chance(1, 3)) addSome(r, g, 1); break; }
    case 20: case 21: { // K3,3-free 2-sums of K5s and planar parts, glued edges often dropped and edges subdivided; then perhaps an edge or two that makes a K3,3 late
        g = r.chance(2, 3) ? complete(5, 0) : triang(r, 4 + r.below(3)); int parts = 1 + r.below(4);
        while (parts-- > 0 && g.n + 3 < maxN) { vector<Edge> old = g.e; Edge a = g.e[r.below((int)g.e.size())]; GenGraph h = r.chance(2, 3) ? complete(5, 0) : triang(r, 4 + r.below(3)); if (g.n + h.n - 2 > maxN) break; Edge b = h.e[r.below((int)h.e.size())]; vector<int> m(h.n + 1, 0); m[b.first] = a.first; m[b.second] = a.second; for (int i = 1; i <= h.n; i++) if (!m[i]) m[i] = ++g.n; std::set<Edge> s; for (auto &e : g.e) s.insert(E2(e.first, e.second)); for (auto &e : h.e) addE(g, s, m[e.first], m[e.second]); if (r.chance(1, 2)) for (size_t i = 0; i < g.e.size(); i++) if (E2(g.e[i].first, g.e[i].second) == E2(a.first, a.second)) { g.e.erase(g.e.begin() + i); break; } }
        if (r.chance(1, 2)) subdivide(r, g, maxN, 1 + r.below(4)); if (k == 21) addSome(r, g, 1 + r.below(2)); g.kind = "K5sums"; break; }
    case 22: { g = complete(2, 0); while (g.n < n) { Edge e = g.e[r.below((int)g.e.size())]; g.n++; g.e.push_back({e.first, g.n}); g.e.push_back({e.second, g.n}); } dropSome(r, g, r.below(n / 3 + 2)); if (r.chance(1, 2)) addSome(r, g, 1 + r.below(2)); if (r.chance(1, 3)) subdivide(r, g, maxN, 1 + r.below(3)); g.kind = "2tree"; break; }
    case 23: { g = genGraph(r, maxN, 12); addSome(r, g, 1 + r.below(2)); g.kind = "nearblocks"; break; }
    case 24: case 25: { // a nonplanar (or nearly so) base, some of whose edges are 2-sums with K5 or another small piece
        int q = r.below(6); g = q == 0 ? complete(3, 3) : q == 1 ? genGraph(r, std::max(6, maxN / 3), 16) : q == 2 ? genGraph(r, std::max(6, maxN / 2), 4) : q == 3 ? complete(5, 0) : q == 4 ? genGraph(r, std::max(6, maxN / 2), 1) : genGraph(r, std::max(5, maxN / 2), 3);
        if (r.chance(1, 3)) subdivide(r, g, maxN, 1 + r.below(3)); int parts = 1 + r.below(5);
        while (parts-- > 0 && g.n + 2 < maxN && !g.e.empty()) { int i = r.below((int)g.e.size()); Edge a = g.e[i]; GenGraph h = r.chance(2, 3) ? complete(5, 0) : r.chance(1, 2) ? complete(4, 0) : triang(r, 4 + r.below(3)); if (g.n + h.n - 2 > maxN) break; vector<int> m(h.n + 1, 0); m[1] = a.first; m[2] = a.second; for (int j = 3; j <= h.n; j++) m[j] = ++g.n; if (r.chance(2, 3)) g.e.erase(g.e.begin() + i); std::set<Edge> s; for (auto &e : g.e) s.insert(E2(e.first, e.second)); for (auto &e : h.e) if (!(e.first == 1 && e.second == 2)) addE(g, s, m[e.first], m[e.second]); }
        if (r.chance(1, 3)) subdivide(r, g, maxN, 1 + r.below(3)); if (r.chance(1, 5)) dropSome(r, g, 1); g.kind = "2sums"; break; }
    default: { // two planar parts glued at up to 3 vertices: many bicomps and cut pairs
        g = triang(r, 3 + r.below(std::max(1, maxN / 2))); dropSome(r, g, r.below(3)); glue(r, g, r.chance(1, 2) ? triang(r, 3 + r.below(std::max(1, maxN / 3))) : complete(5, 0), r.below(4)); if (r.chance(1, 2)) addSome(r, g, r.below(2)); g.kind = "glued"; break; }
    }
    if (g.n > 1 && r.chance(1, 3)) { int ex = r.below(3); g.n += ex; } // isolated vertices
    shuffleGraph(r, g);
    return g;
}
string graphText(const GenGraph &g) { string s = strf("%d", g.n); for (auto &e : g.e) s += strf(" %d-%d", e.first, e.second); return s; }
GenGraph parseGraphText(const Op &op, size_t from) { GenGraph g; g.n = std::max(1, op.i(from, 1)); for (size_t k = from + 1; k < op.a.size(); k++) { int u, v; if (sscanf(op.a[k].c_str(), "%d-%d", &u, &v) == 2) g.e.push_back({u, v}); } return g; }
string expectedRendering(const Drawing &d, int n, int m, bool zero) {
    int w = m + 1; string s((size_t)w * 2 * n, ' '); for (int r = 0; r < 2 * n; r++) s[(size_t)r * w + m] = '\n';
    auto put = [&](int r, int c, char ch) { size_t i = (size_t)r * w + c; if (i < s.size()) s[i] = ch; };
    for (int v = 1; v <= n; v++) {
        int a = d.vs[v], b = d.ve[v], r = 2 * d.vpos[v]; for (int c = a; c <= b; c++) put(r, c, '-');
        string l = strf("%d", v - (zero ? 1 : 0)); int width = b - a + 1, mid = (a + b) / 2;
        if (width >= (int)l.size()) { if (mid + (int)l.size() - 1 > b) mid = b - (int)l.size() + 1; for (size_t k = 0; k < l.size(); k++) put(r, mid + (int)k, l[k]); }
        else { put(r, mid, l.size() == 2 ? l[0] : '*'); put(r + 1, mid, l.back()); }
    }
    for (auto &e : d.ed) for (int r = e.s; r < e.t; r++) { if (r > e.s) put(2 * r, e.pos, '|'); put(2 * r + 1, e.pos, '|'); }
    return s;
}
