// P08 (reads), P09 (writes), P10 (G6 streams): simulated devices, damaged sources, failing sinks.
#include "../core/docs.h"
#include "../core/shared.h"
extern "C" int _ReadGraphFromG6FilePath(graphP, char *);
extern "C" int freeG6ReadIterator(G6ReadIterator **);
extern "C" int freeG6WriteIterator(G6WriteIterator **);

// ---------------------------------------------------------------- documents
static bool rdInt(const string &t, size_t &p, long &x) { size_t q = p; bool neg = q < t.size() && t[q] == '-'; if (neg) q++; size_t d = q; x = 0; while (q < t.size() && isdigit((unsigned char)t[q]) && q - d < 9) { x = x * 10 + (t[q] - '0'); q++; } if (q == d || (q < t.size() && isdigit((unsigned char)t[q]))) return false; if (neg) x = -x; p = q; return true; }
static bool ws(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
static void skip(const string &t, size_t &p) { while (p < t.size() && ws(t[p])) p++; }
static bool strictAdj(const string &t, Parsed &r) {
    size_t p = 2; long x; if (t.compare(0, 2, "N=") || !rdInt(t, p, x) || x < 1 || x > 20000) return false; r.n = (int)x; r.lists.assign(r.n + 1, {}); int zero = -1;
    for (int v = 1; v <= r.n; v++) {
        size_t q = p; skip(t, p); if (q == p || !rdInt(t, p, x)) return false; if (v == 1) zero = x == 0; if (x != v - (zero == 1)) return false; if (p >= t.size() || t[p++] != ':') return false;
        std::set<int> seen;
        while (true) { q = p; skip(t, p); if (q == p || !rdInt(t, p, x)) return false; if (x == (zero ? -1 : 0)) break; int w = (int)x + (zero ? 1 : 0); if (w < 1 || w > r.n || w == v || !seen.insert(w).second) return false; r.lists[v].push_back(w); }
    }
    size_t q = p; skip(t, p); if (p != t.size()) return false; (void)q;
    std::set<Edge> all; for (int v = 1; v <= r.n; v++) for (int w : r.lists[v]) { bool back = std::find(r.lists[w].begin(), r.lists[w].end(), v) != r.lists[w].end(); if (!back) { r.directed = true; r.arcsOnly.push_back({v, w}); } all.insert(E2(v, w)); }
    r.edges.assign(all.begin(), all.end()); r.ordered = !r.directed; return true;
}
static bool strictMat(const string &t, Parsed &r) {
    size_t p = 0; long x; if (t.empty() || !isdigit((unsigned char)t[0]) || !rdInt(t, p, x) || x < 1 || x > 2000) return false; r.n = (int)x; if (r.n > 1 && (p >= t.size() || !ws(t[p]))) return false;
    for (int v = 1; v <= r.n; v++) for (int w = v + 1; w <= r.n; w++) { skip(t, p); if (p >= t.size() || (t[p] != '0' && t[p] != '1')) return false; if (t[p++] == '1') r.edges.push_back({v, w}); }
    skip(t, p); return p == t.size();
}
G6 decodeG6(const string &t) {
    G6 r; size_t p = 0; if (t.empty()) { r.end = 1; return r; }
    if (t.compare(0, 10, ">>graph6<<") == 0) p = 10; else if (t[0] == '>') { r.end = 1; return r; }
    if (p >= t.size()) { r.end = 1; return r; }
    bool first = true;
    while (p < t.size()) {
        size_t e = t.find('\n', p); string l = t.substr(p, e == string::npos ? string::npos : e - p); p = e == string::npos ? t.size() : e + 1;
        if (l.find('\0') != string::npos) { r.end = 2; return r; } // not text
        if (l.find('\r') != string::npos) { if (l.find('\r') == l.size() - 1) l.pop_back(); else { r.end = 2; return r; } }
        if (l.empty()) { r.end = first ? 1 : 2; return r; }
        size_t q; long n; for (unsigned char c : l) if (c < 63 || c > 126) { r.end = 1; return r; }
        if (l[0] != 126) { n = (unsigned char)l[0] - 63; q = 1; }
        else { if (l.size() < 4 || l[1] == 126) { r.end = l.size() < 4 ? 1 : 2; return r; } n = ((long)(l[1] - 63) << 12) | ((l[2] - 63) << 6) | (l[3] - 63); q = 4; if (n < 63) { r.end = 2; return r; } }
        if (n < 1) { r.end = 1; return r; } if (n > 5000) { r.end = 2; return r; } // decides nothing about huge orders
        if (first) r.n = (int)n; else if (n != r.n) { r.end = 1; return r; }
        long bits = n * (n - 1) / 2, ch = (bits + 5) / 6; if ((long)(l.size() - q) != ch) { r.end = 1; return r; }
        Edges g; long k = 0; for (int j = 2; j <= n; j++) for (int i = 1; i < j; i++, k++) if (((l[q + k / 6] - 63) >> (5 - k % 6)) & 1) g.push_back({i, j});
        for (; k < ch * 6; k++) if (((l[q + k / 6] - 63) >> (5 - k % 6)) & 1) { r.end = 1; return r; }
        std::sort(g.begin(), g.end()); r.g.push_back(g); first = false;
    }
    return r;
}
static bool strictLeda(const string &t, Parsed &r) {
    std::istringstream is(t); string l; if (!std::getline(is, l) || l != "LEDA.GRAPH") return false; if (!std::getline(is, l) || !std::getline(is, l)) return false; long n, m; size_t p = 0;
    if (!std::getline(is, l) || !rdInt(l, p, n) || p != l.size() || n < 1 || n > 20000) return false; r.n = (int)n; for (int i = 0; i < n; i++) if (!std::getline(is, l) || l.compare(0, 2, "|{") || l.size() > 200) return false;
    p = 0; if (!std::getline(is, l) || !rdInt(l, p, m) || p != l.size() || m < 0) return false; std::set<Edge> s;
    for (int i = 0; i < m; i++) { int u, v, x; char b[8] = ""; if (!std::getline(is, l) || sscanf(l.c_str(), "%d %d %d %7s", &u, &v, &x, b) != 4 || strcmp(b, "|{}|") || u < 1 || v < 1 || u > n || v > n) return false; if (u != v) s.insert(E2(u, v)); }
    while (std::getline(is, l)) if (!l.empty()) return false; r.edges.assign(s.begin(), s.end()); return true;
}
bool strictAny(const string &t, Parsed &r) {
    if (t.compare(0, 2, "N=") == 0) return strictAdj(t, r); if (t.compare(0, 10, "LEDA.GRAPH") == 0) return strictLeda(t, r); if (!t.empty() && isdigit((unsigned char)t[0])) return strictMat(t, r);
    G6 g = decodeG6(t); if (g.g.empty()) return false; r.n = g.n; r.edges = g.g[0]; return true;
}
// builders: opt 1 zero-based / header / separated flags, 2 no final line break, 4 trailing white space, 8 CRLF (adjacency list and matrix)
static Doc buildDoc(int fmt, int opt, const GenGraph &gg, bool directed) {
    Doc d; d.fmt = fmt; d.n = gg.n; string &t = d.text; auto tok = [&](const string &s, char role, int v) { d.tok.push_back({t.size(), s.size(), role, v}); t += s; };
    Edges e; std::set<Edge> seen; for (auto &x : gg.e) if (x.first != x.second && x.first >= 1 && x.second >= 1 && x.first <= gg.n && x.second <= gg.n && seen.insert(E2(x.first, x.second)).second) e.push_back(x);
    const char *nl = (opt & 8) && (fmt == F_ADJ || fmt == F_MAT) ? "\r\n" : "\n";
    if (fmt == F_ADJ) {
        int z = opt & 1; vector<vector<int>> a(gg.n + 1); for (auto &x : e) { a[x.first].push_back(x.second); if (!directed || (x.first + 2 * x.second) % 3) a[x.second].push_back(x.first); }
        t = "N="; tok(strf("%d", gg.n), 'N', 0); t += nl;
        for (int v = 1; v <= gg.n; v++) { tok(strf("%d", v - z), 'v', v); t += ":"; for (int w : a[v]) { t += " "; tok(strf("%d", w - z), 'w', v); } t += " "; tok(z ? "-1" : "0", 't', v); d.lastSig = t.size(); t += nl; }
    } else if (fmt == F_MAT) {
        std::set<Edge> s; for (auto &x : e) s.insert(E2(x.first, x.second)); tok(strf("%d", gg.n), 'N', 0); d.lastSig = t.size(); t += nl;
        for (int v = 1; v <= gg.n; v++) { for (int w = 1; w <= gg.n; w++) { if (w <= v) { t += (opt & 1) ? "  " : " "; continue; } tok(s.count({v, w}) ? "1" : "0", 'f', v); d.lastSig = t.size(); if (opt & 1) t += " "; } t += nl; }
    } else if (fmt == F_G6) {
        Model m; m.reset(gg.n); for (auto &x : e) { m.L[x.first].push_back((int)m.E.size()); m.L[x.second].push_back((int)m.E.size()); m.E.push_back({x.first, x.second, 0}); }
        string g = g6Text(m.snap(), false); g.pop_back(); if (opt & 1) tok(">>graph6<<", 'h', 0); size_t o = gg.n <= 62 ? 1 : 4; tok(g.substr(0, o), 'o', 0); for (size_t k = o; k < g.size(); k++) tok(g.substr(k, 1), 'd', 0); d.lastSig = t.size(); t += "\n"; d.hdr = opt & 1; std::sort(e.begin(), e.end()); Edges q; for (auto &x : e) q.push_back(E2(x.first, x.second)); std::sort(q.begin(), q.end()); d.seq.push_back(q);
    } else {
        t = "LEDA.GRAPH\nvoid\nvoid\n"; tok(strf("%d", gg.n), 'N', 0); t += "\n"; for (int v = 1; v <= gg.n; v++) t += (opt & 1) ? "|{}|\n" : strf("|{v%d}|\n", v); tok(strf("%zu", e.size()), 'M', (int)e.size()); d.lastSig = d.ledaBad = t.size(); t += "\n";
        for (size_t k = 0; k < e.size(); k++) { d.ledaBad = t.size(); tok(strf("%d", e[k].first), 'e', 0); t += " "; tok(strf("%d", e[k].second), 'e', 0); t += " 0 |{}|"; d.lastSig = t.size(); t += "\n"; }
    }
    if (opt & 2) t = t.substr(0, d.lastSig); else if ((opt & 4) && (fmt == F_ADJ || fmt == F_MAT)) t += " \n\n";
    return d;
}
static void mutTok(Doc &d, int i, int kind) { // replace one token by something that cannot be right
    if (d.tok.empty()) return; Tok &k = d.tok[((i % (int)d.tok.size()) + (int)d.tok.size()) % (int)d.tok.size()]; string rep; bool bad = true; d.muts++;
    switch (k.role) {
    case 'N': rep = kind % 4 == 0 ? "x" : kind % 4 == 1 ? "-3" : kind % 4 == 2 ? "99999999999999" : strf("%d", d.n + 1 + kind % 3); if (kind % 4 == 3 && d.fmt == F_LEDA) bad = false; if (kind % 4 == 0 && d.fmt == F_MAT) bad = true; break;
    case 'v': rep = kind % 2 ? "x" : strf("%d", k.v + 1 + kind); break;
    case 'w': rep = kind % 4 == 0 ? "x" : kind % 4 == 1 ? strf("%d", d.n + 1 + kind) : kind % 4 == 2 ? "2147483647" : strf("%d", d.text.compare(2, 0, "") == 0 ? d.n + 5 : 0); break;
    case 't': rep = kind % 2 ? "?" : strf("%d", d.n + 3); break;
    case 'f': rep = kind % 2 ? "x" : "-"; break;
    case 'o': rep = string(1, (char)(kind % 2 ? 32 + kind % 25 : 62)); break;
    case 'd': rep = string(1, (char)(kind % 3 == 0 ? 127 : kind % 3 == 1 ? 33 + kind % 25 : 62)); break;
    case 'h': rep = ">>graph6<"; break;
    case 'M': rep = kind % 2 ? "x" : strf("%d", k.v + 1); break;
    default: rep = kind % 2 ? "x" : strf("%d", kind % 4 ? 0 : d.n + 1 + kind); break;
    }
    d.text.replace(k.off, k.len, rep); d.tok.clear(); if (d.muts == 1) d.verdict = bad ? BAD : GREY; else d.verdict = GREY;
}

// ---------------------------------------------------------------- the world
struct IoWorld {
    std::map<string, Doc> docs; graphP g[3] = {0, 0, 0}; bool drawn[3] = {0, 0, 0}; Snap snap[3]; bool zero[3] = {0, 0, 0}; bool hasD[3] = {0, 0, 0};
    void put(const string &n) { fsPut(n, docs[n].text); }
    void drop(int s) { if (g[s]) LIBV(gp_Free(&g[s])); g[s] = 0; drawn[s] = false; hasD[s] = false; }
    static void compare(const Snap &sn, const Parsed &p, const char *what) {
        CHECK(sn.n == p.n, "read", "%s: %d vertices instead of %d", what, sn.n, p.n); Edges e = sn.edges(); CHECK(e == p.edges && sn.m == (int)p.edges.size(), "read", "%s: the edges differ from the stored ones (%d instead of %zu): %s", what, sn.m, p.edges.size(), sn.text().c_str());
        std::set<Edge> arcs(p.arcsOnly.begin(), p.arcsOnly.end());
        for (int v = 1; v <= sn.n; v++) for (size_t i = 0; i < sn.nb[v].size(); i++) { int w = sn.nb[v][i], want = arcs.count({v, w}) ? 1 : arcs.count({w, v}) ? 2 : 0; CHECK(sn.dir[v][i] == want, "read", "%s: edge %d-%d has direction %d instead of %d", what, v, w, sn.dir[v][i], want); }
        if (p.ordered) for (int v = 1; v <= sn.n; v++) { vector<int> x(p.lists[v].rbegin(), p.lists[v].rend()); CHECK(x == sn.nb[v], "read", "%s: the neighbour order of %d is not the stored one: %s", what, v, sn.text().c_str()); }
    }
    int doRead(int s, char how, const string &name, const string &text, bool seekable) {
        if (how == 's') { char *p = (char *)simMalloc(text.size() + 1); memcpy(p, text.c_str(), text.size() + 1); return LIB(gp_ReadFromString(g[s], p)); }
        if (how == 'i') { stdinSet(text, seekable); return LIB(gp_Read(g[s], (char *)"stdin")); }
        if (how == 'g') { vector<char> b(name.begin(), name.end()); b.push_back(0); return LIB(_ReadGraphFromG6FilePath(g[s], b.data())); }
        vector<char> b(name.begin(), name.end()); b.push_back(0); return LIB(gp_Read(g[s], b.data()));
    }
    void fresh(int s, bool D) { drop(s); g[s] = LIB(gp_New()); CHECK(g[s], "setup", "gp_New failed"); if (D) { CHECK(attachExt(g[s], 'D') == OK, "setup", "attach failed"); hasD[s] = true; } }
    void opRead(const Op &op) { // read how name slot D seekable
        char how = op.s(0, "f")[0]; string name = op.s(1); int s = abs(op.i(2)) % 3; bool known = docs.count(name) > 0; string text = known ? docs[name].text : "";
        if (how == 's' && (!known || text.find('\0') != string::npos)) return; if (how == 'i' && !known) return;
        bool D = op.i(3) && !(known && docs[name].fmt == 9 && false); bool seekable = how != 'i' || op.i(4, 1);
        if (how == 'g' && known && docs[name].fmt != F_G6) return;
        if (op.i(5) && g[s]) { // into a used object: refused (or, for G6 of the same order, read), and still freeable
            if (how == 'g' || (!text.empty() && text.compare(0, 2, "N=") && !isdigit((unsigned char)text[0]) && text.compare(0, 10, "LEDA.GRAPH"))) return;
            stepBudget(40000000); int r = doRead(s, how, name, text, seekable); obs(r); CHECK(r != OK, "read", "reading into an initialised graph of order %d succeeded", g[s]->N); PROBE("read into a used object refused"); drop(s); return;
        }
        Parsed P; bool valid = known && (how == 'g' ? [&] { G6 q = decodeG6(text); if (q.g.empty()) return false; P.n = q.n; P.edges = q.g[0]; return true; }() : strictAny(text, P)); int verdict = !known ? BAD : valid ? VALID : docs[name].verdict == BAD ? BAD : GREY;
        if (how == 's' && text.compare(0, 10, "LEDA.GRAPH") == 0) verdict = BAD; // documented: not supported from strings
        bool drawing = known && docs[name].fmt == 9; Doc *dd = known ? &docs[name] : 0;
        if (drawing) { size_t b = dd->text.find("<DrawPlanar>"); bool inSec = b != string::npos; P = Parsed(); valid = strictAny(text.substr(0, inSec ? b : text.size()), P); verdict = dd->muts == 0 ? VALID : dd->verdict; }
        else if (D && verdict == VALID && !(text.find_last_not_of(" \n\r\t") == string::npos)) {}
        fresh(s, D || drawing);
        stepBudget(200000000); faultsArm(op.faults);
        int r = doRead(s, how, name, text, seekable); int fired = faultsFired(), io = ioFaultsFired(), al = allocFaultsFired(); long ep = eofAt(); faultsOff(); stepBudget(3000000000ull);
        if (fired) SH->faultedOps.fetch_add(1);
        obs(r); obs(fired); string what = strf("reading %s as %c gave %d", name.c_str(), how, r);
        stateSeen(mix(mix(hashStr(text), r * 8 + fired), how + ep));
        if (r == OK) {
            Snap sn = snapGraph(g[s], what.c_str()); obs(sn.hash());
            if (ep >= 0 && ep < (long)text.size()) { Parsed Q; bool q = strictAny(text.substr(0, ep), Q); bool full = verdict == VALID && sn.edges() == P.edges && sn.n == P.n; if (verdict == VALID && !full) { CHECK(q, "torn", "%s although the device ended after %ld of %zu bytes", what.c_str(), ep, text.size()); compare(sn, Q, what.c_str()); } }
            else {
                CHECK(verdict != BAD, "malformed", "%s although the source is %s", what.c_str(), known ? "malformed" : "missing");
                if (verdict == VALID) compare(sn, P, what.c_str());
                if (drawing && dd->muts == 0) { Drawing a, b; drawingOf(g[s], sn, a, what.c_str()); checkDrawing(a, sn, what.c_str()); }
                CHECK(io == 0 || ep >= 0, "swallowed", "%s although the device reported an error", what.c_str());
            }
            { Edges se = sn.edges(); std::sort(se.begin(), se.end()); for (size_t k = 0; k < se.size(); k++) CHECK(se[k].first != se[k].second && (!k || se[k] != se[k - 1]), "simple", "%s, with the loop or parallel edge %d-%d", what.c_str(), se[k].first, se[k].second); }
            snap[s] = sn; PROBE("reads succeeded"); if (fired) PROBE("reads succeeded despite a fault");
            if (verdict != BAD && how == 'f' && sn.n >= 1 && sn.m < 3 * sn.n && !fired && !drawing) { // the object is usable
                if (!snap[s].m || op.i(4)) { int e = LIB(gp_Embed(g[s], EMBEDFLAGS_PLANAR)); CHECK(e == (refPlanar(sn.n, sn.edges()) ? OK : NONEMBEDDABLE), "usable", "the graph read cannot be embedded correctly"); drop(s); }
            }
        } else {
            PROBE("reads failed");
            if (!fired) { CHECK(verdict != VALID || !seekable || ((D || drawing) && (int)P.edges.size() > 3 * P.n), "refused", "%s although the source is well-formed and no fault was injected:\n%.400s", what.c_str(), text.c_str()); }
            drop(s);
            if (fired && verdict == VALID && !ep) {}
            if (fired && verdict == VALID && seekable && !((D || drawing) && (int)P.edges.size() > 3 * P.n)) { fresh(s, D || drawing); int r2 = doRead(s, how, name, text, seekable); CHECK(r2 == OK, "retry", "reading again without faults gives %d", r2); Snap sn = snapGraph(g[s], "second reading"); compare(sn, P, "second reading"); snap[s] = sn; PROBE("read retried after a fault"); }
        }
        (void)al;
        CHECK(fsOpenHandles() == 0, "leak", "%s: %d files are still open", what.c_str(), fsOpenHandles());
        if (known && how != 's' && how != 'i') CHECK(fsGet(name) == text, "source", "%s: reading changed the file", what.c_str());
    }
    // ---------------- writes
    void opBuild(const Op &op) { // build slot zero D n edges
        int s = abs(op.i(0)) % 3; drop(s); GenGraph gg = parseGraphText(op, 3); g[s] = LIB(gp_New()); Edges e; std::set<Edge> seen; for (auto &x : gg.e) if (x.first >= 1 && x.second >= 1 && x.first <= gg.n && x.second <= gg.n && x.first != x.second && seen.insert(E2(x.first, x.second)).second) e.push_back(x);
        int cap = std::max(6 * gg.n, 2 * (int)e.size() + 2); CHECK(LIB(gp_EnsureArcCapacity(g[s], cap)) == OK && LIB(gp_InitGraph(g[s], gg.n)) == OK, "setup", "a graph could not be set up");
        if (op.i(2)) { CHECK(attachExt(g[s], 'D') == OK, "setup", "attach"); hasD[s] = true; }
        for (auto &x : e) { CHECK(LIB(gp_AddEdge(g[s], x.first, x.second & 1, x.second, x.first & 1)) == OK, "setup", "an edge was refused"); }
        if (op.i(1) & 2) for (auto &x : e) if ((x.first * 3 + x.second) % 4 == 0) { int a = gp_GetNeighborEdgeRecord(g[s], x.first, x.second); gp_SetDirection(g[s], a, EDGEFLAG_DIRECTION_OUTONLY); }
        if (op.i(1) & 4) for (size_t k = 0; k + 1 < e.size(); k += 3) { int a = gp_GetNeighborEdgeRecord(g[s], e[k].first, e[k].second); LIB(gp_DeleteEdge(g[s], a, 0)); } // holes in the edge store
        if (op.i(1) & 1) g[s]->internalFlags |= FLAGS_ZEROBASEDIO;
        zero[s] = op.i(1) & 1; snap[s] = snapGraph(g[s], "new graph");
    }
    void opDraw(const Op &op) { int s = abs(op.i(0)) % 3; if (!g[s] || drawn[s] || !hasD[s] || sp_GetCurrentSize(g[s]->edgeHoles) || snapDirected(snap[s])) return; int r = LIB(gp_Embed(g[s], EMBEDFLAGS_DRAWPLANAR)); if (r != OK) { drop(s); return; } if (op.i(1)) LIB(gp_SortVertices(g[s])); drawn[s] = true; snap[s] = snapGraph(g[s], "drawing"); }
    static bool snapDirected(const Snap &s) { for (int v = 1; v <= s.n; v++) for (int d : s.dir[v]) if (d) return true; return false; }
    string expected(int s, int mode, bool &refusable) {
        refusable = mode == WRITE_ADJMATRIX && snapDirected(snap[s]); string w = mode == WRITE_ADJLIST ? adjListText(snap[s], zero[s]) : mode == WRITE_ADJMATRIX ? matrixText(snap[s], false) : g6Text(snap[s], true);
        return w;
    }
    void opWrite(const Op &op) { // write how slot mode name
        char how = op.s(0, "f")[0]; int s = abs(op.i(1)) % 3; if (!g[s]) return; static const int modes[] = {WRITE_ADJLIST, WRITE_ADJMATRIX, WRITE_G6, WRITE_DEBUGINFO}; int mode = how == 'x' ? WRITE_G6 : modes[abs(op.i(2)) % (how == 'r' ? 1 : 4)]; string name = op.s(3, "out");
        bool render = how == 'r' || how == 'R'; if (render && !drawn[s]) return; if (how == 's' && mode == WRITE_DEBUGINFO) mode = WRITE_ADJLIST; bool refusable = false;
        string exp, what = strf("%s graph %d (%c, mode %d)", render ? "rendering" : "writing", s, how, mode);
        int rr = OK; bool debug = mode == WRITE_DEBUGINFO;
        if (!render && !debug) { exp = expected(s, mode, refusable); if (hasD[s] && drawn[s] && mode != WRITE_G6) { string full = writeStr(g[s], mode, &rr); CHECK(rr == OK && full.compare(0, exp.size(), exp) == 0, "written", "%s: the text written to a string is not the graph: %.200s", what.c_str(), full.c_str()); exp = full; } else if (hasD[s] && mode != WRITE_G6) { string full = writeStr(g[s], mode, &rr); if (refusable && rr != OK) {} else { CHECK(rr == OK && full.compare(0, exp.size(), exp) == 0, "written", "%s: the text written to a string is not the graph: %.200s", what.c_str(), full.c_str()); exp = full; } } }
        else if (render) { char *o = 0; int q = LIB(gp_DrawPlanar_RenderToString(g[s], &o)); CHECK(q == OK && o, "refused", "rendering to a string failed without a fault"); exp = o; simFree(o); Drawing d; drawingOf(g[s], snap[s], d, "drawing"); CHECK(exp == expectedRendering(d, snap[s].n, snap[s].m, zero[s]), "rendering", "the rendering does not show the drawing:\n%s", exp.c_str()); }
        else { vector<char> b{'d', 'b', 'g', 0}; int q = LIB(gp_Write(g[s], b.data(), mode)); CHECK(q == OK, "refused", "writing debug information failed without a fault"); exp = fsGet("dbg"); }
        string got; bool toOut = how == 'o', nullw = how == 'n'; vector<char> nb(name.begin(), name.end()); nb.push_back(0); if (toOut) strcpy((nb.resize(8), nb.data()), "stdout"); if (nullw) { nb.assign(12, 0); strcpy(nb.data(), "nullwrite"); }
        stdoutClear(); auto before = fsList();
        faultsArm(op.faults); int r; char *o = 0;
        if (how == 's') r = LIB(gp_WriteToString(g[s], &o, mode)); else if (how == 'R') r = LIB(gp_DrawPlanar_RenderToString(g[s], &o)); else if (how == 'r') r = LIB(gp_DrawPlanar_RenderToFile(g[s], nb.data())); else if (how == 'x') r = LIB(_WriteGraphToG6FilePath(g[s], nb.data())); else r = LIB(gp_Write(g[s], nb.data(), mode));
        int fired = faultsFired(), io = ioFaultsFired(); faultsOff(); if (fired) SH->faultedOps.fetch_add(1);
        bool toStr = how == 's' || how == 'R'; bool hadStr = o != 0; if (toStr) { got = o ? o : ""; if (o) simFree(o); } else if (toOut) got = stdoutGet(); else if (!nullw) got = fsGet(name);
        obs(r); obs(fired); obsStr(got); stateSeen(mix(mix(hashStr(got), r), how * 5 + fired));
        bool badDir = !toStr && !toOut && !nullw && name.find('/') != string::npos;
        if (r == OK) {
            CHECK(!badDir, "written", "%s to %s succeeded although it cannot be created", what.c_str(), name.c_str());
            CHECK(!refusable || nullw, "written", "%s succeeded although directed edges cannot be stored in it", what.c_str());
            string a = exp, b = got; if (mode == WRITE_G6 && !render) for (string *x : {&a, &b}) { while (!x->empty() && x->back() == '\n') x->pop_back(); if (x->compare(0, 10, ">>graph6<<") == 0) *x = x->substr(10); }
            if (!nullw) CHECK(a == b, "incomplete", "%s reported success but %s holds%s '%.250s' instead of '%.250s'", what.c_str(), toStr ? "the string" : "the device", fired ? " after a device or memory fault" : "", got.c_str(), exp.c_str());
            CHECK(io == 0 || toStr || nullw, "swallowed", "%s reported success although the device reported an error", what.c_str());
            PROBE("writes succeeded");
            if (!nullw && !render && !debug && op.i(4)) { // read it back
                fsPut("back", got); graphP h = LIB(gp_New()); if (hasD[s]) CHECK(LIB(gp_EnsureArcCapacity(h, 2 * snap[s].m + 2)) == OK, "setup", "capacity"); if (hasD[s]) CHECK(attachExt(h, 'D') == OK, "setup", "attach"); char b[] = "back"; int q; if (op.i(4) == 2) { char *t = (char *)simMalloc(got.size() + 1); memcpy(t, got.c_str(), got.size() + 1); q = LIB(gp_ReadFromString(h, t)); } else q = LIB(gp_Read(h, b)); CHECK(q == OK, "roundtrip", "%s: the output cannot be read back:\n%.300s", what.c_str(), got.c_str());
                Snap sn = snapGraph(h, "graph read back"); string why; CHECK(sn.n == snap[s].n && sn.edges() == snap[s].edges(), "roundtrip", "%s: the graph read back differs", what.c_str());
                if (mode == WRITE_ADJLIST && !snapDirected(snap[s])) CHECK(sameRotation(sn, snap[s], &why), "roundtrip", "%s: the neighbour order read back differs: %s", what.c_str(), why.c_str());
                if (mode == WRITE_ADJLIST) for (int v = 1; v <= sn.n; v++) { std::map<int, int> dm; for (size_t i = 0; i < sn.nb[v].size(); i++) dm[sn.nb[v][i]] = sn.dir[v][i]; for (size_t i = 0; i < snap[s].nb[v].size(); i++) CHECK(dm[snap[s].nb[v][i]] == snap[s].dir[v][i], "roundtrip", "%s: the direction of %d-%d read back differs", what.c_str(), v, snap[s].nb[v][i]); }
                if (mode == WRITE_ADJLIST) { string again = writeStr(h, mode); if (!snapDirected(snap[s])) { auto plain = [](const string &t) { return t.substr(0, t.find("<DrawPlanar>")); }; CHECK(plain(again) == plain(got), "roundtrip", "%s: writing the graph read back gives another text:\n%.300s", what.c_str(), again.c_str()); } }
                if (mode != WRITE_G6 && drawn[s]) { Drawing da, db; drawingOf(g[s], snap[s], da, "drawing"); drawingOf(h, sn, db, "drawing read back"); CHECK(da.vpos == db.vpos && da.vs == db.vs && da.ve == db.ve, "roundtrip", "%s: the vertex positions read back differ", what.c_str()); checkDrawing(db, sn, "drawing read back"); PROBE("drawing read back"); }
                LIBV(gp_Free(&h)); PROBE("written and read back");
            }
        } else {
            CHECK(fired || refusable || badDir, "refused", "%s failed (%d) although no fault was injected", what.c_str(), r);
            CHECK(!hadStr, "partial", "%s failed but returned a string", what.c_str()); PROBE("writes failed");
        }
        Snap now = snapGraph(g[s], what.c_str()); string why; CHECK(sameRotation(now, snap[s], &why), "changed", "%s changed the graph: %s", what.c_str(), why.c_str());
        CHECK(((g[s]->internalFlags & FLAGS_ZEROBASEDIO) != 0) == zero[s], "changed", "%s changed the input/output base of the graph", what.c_str());
        if (fired && !refusable && !badDir) { // the same write again, with the device repaired, gives the full output
            if (toStr) { o = 0; r = how == 's' ? LIB(gp_WriteToString(g[s], &o, mode)) : LIB(gp_DrawPlanar_RenderToString(g[s], &o)); got = o ? o : ""; if (o) simFree(o); } else if (how == 'r') { r = LIB(gp_DrawPlanar_RenderToFile(g[s], nb.data())); got = fsGet(name); } else { stdoutClear(); r = how == 'x' ? LIB(_WriteGraphToG6FilePath(g[s], nb.data())) : LIB(gp_Write(g[s], nb.data(), mode)); got = toOut ? stdoutGet() : nullw ? exp : fsGet(name); }
            string a = exp, b = got; if (mode == WRITE_G6 && !render) for (string *x : {&a, &b}) { while (!x->empty() && x->back() == '\n') x->pop_back(); if (x->compare(0, 10, ">>graph6<<") == 0) *x = x->substr(10); }
            CHECK(r == OK && a == b, "retry", "%s again without faults gives %d and '%.200s' instead of '%.200s'", what.c_str(), r, got.c_str(), exp.c_str()); PROBE("write retried after a fault");
        }
        CHECK(fsOpenHandles() == 0, "leak", "%s: %d files are still open", what.c_str(), fsOpenHandles());
        if (!toStr && !toOut && !nullw) { for (auto &f : fsList()) if (f != name && f != "back" && f != "dbg" && std::find(before.begin(), before.end(), f) == before.end()) CHECK(0, "stray", "%s created the file %s", what.c_str(), f.c_str()); }
    }
    // ---------------- G6 streams
    void opIter(const Op &op) { // iter how name stop mode preinit
        char how = op.s(0, "f")[0]; string name = op.s(1); int stop = op.i(2, -1), mode = op.i(3); bool known = docs.count(name) > 0; string text = known ? docs[name].text : "";
        if (how == 's' && (!known || text.find('\0') != string::npos)) return; string what = strf("iterating over %s as %c", name.c_str(), how);
        G6 d = decodeG6(text); if (!known) { d = G6(); d.end = 1; }
        graphP h = LIB(gp_New()); bool pre = op.i(4) && d.n > 0; int preN = 0; if (pre) { preN = op.i(4) == 2 ? d.n + 1 : d.n; CHECK(LIB(gp_InitGraph(h, preN)) == OK, "setup", "init"); if (preN > 2) LIB(gp_AddEdge(h, 1, 0, 2, 0)); if (op.i(4) == 2) { d.g.clear(); d.end = 1; } }
        G6ReadIterator *it = 0; stepBudget(400000000); faultsArm(op.faults);
        int r = LIB(allocateG6ReadIterator(&it, h)); size_t got = 0; int fin = -1; // fin 0 end, 1 error, 2 stopped
        vector<Edges> seq;
        if (r == OK) {
            if (how == 's') { char *p = (char *)simMalloc(text.size() + 1); memcpy(p, text.c_str(), text.size() + 1); r = LIB(beginG6ReadIterationFromG6String(it, p)); }
            else if (how == 'p') { FILE *f = ({ InLib l; fopen(name.c_str(), "r"); }); if (f) r = LIB(beginG6ReadIterationFromG6FilePointer(it, f)); else r = NOTOK; }
            else if (how == 'i') { stdinSet(text, false); r = LIB(beginG6ReadIterationFromG6FilePointer(it, stdin)); }
            else { vector<char> b(name.begin(), name.end()); if (mode & 4) b.push_back('\n'); b.push_back(0); r = LIB(beginG6ReadIterationFromG6FilePath(it, b.data())); }
        }
        if (r != OK) fin = 1;
        while (fin < 0) {
            if (stop >= 0 && (int)got >= stop) { fin = 2; break; }
            r = LIB(readGraphUsingG6ReadIterator(it)); if (r != OK) { fin = 1; break; }
            graphP c = 0; LIB(getPointerToGraphReadIn(it, &c)); if (!c) { fin = 0; break; }
            Snap sn = snapGraph(c, "iterated graph"); got++; int cnt = -1; LIB(getNumGraphsRead(it, &cnt)); CHECK(cnt == (int)got, "count", "%s: %d graphs are counted after %zu", what.c_str(), cnt, got);
            int ord = -1; LIB(getOrderOfGraphToRead(it, &ord)); CHECK(ord == sn.n, "count", "%s: the order is reported as %d, not %d", what.c_str(), ord, sn.n);
            seq.push_back(sn.edges()); CHECK(got < 5000, "endless", "%s yields graphs without end", what.c_str());
        }
        int fired = faultsFired(); long ep = eofAt(); int cnt = 0; if (it) LIB(getNumGraphsRead(it, &cnt));
        if (fin == 0 && it) { graphP c = h; int r2 = LIB(readGraphUsingG6ReadIterator(it)); (void)r2; int c2 = 0; LIB(getNumGraphsRead(it, &c2)); CHECK(c2 == cnt, "count", "%s: reading after the end changes the count from %d to %d", what.c_str(), cnt, c2); (void)c; }
        int re = OK; if (it && (mode & 1) == 0) re = LIB(endG6ReadIteration(it)); int rf = LIB(freeG6ReadIterator(&it)); CHECK(!it, "free", "the iterator pointer is still set after freeing it");
        fired = faultsFired(); faultsOff(); stepBudget(3000000000ull); if (fired) SH->faultedOps.fetch_add(1); (void)re; (void)rf;
        if (ep >= 0 && ep < (long)text.size()) { G6 q = decodeG6(text.substr(0, ep)); if (seq.size() == d.g.size() && fin == 0 && d.end == 0) {} else d = q; }
        obs(fin); obs(seq.size()); obs(fired); stateSeen(mix(mix(hashStr(text), fin * 64 + fired), seq.size() * 8 + how));
        for (size_t k = 0; k < seq.size(); k++) { if (k >= d.g.size()) { CHECK(d.end == 2, "sequence", "%s yields a graph number %zu, but only %zu are stored intact", what.c_str(), k + 1, d.g.size()); break; } CHECK(seq[k] == d.g[k], "sequence", "%s: graph %zu differs from the stored one", what.c_str(), k + 1); }
        if (fin == 2) PROBE("iteration stopped early");
        else if (d.end == 2) PROBE("unspecified damage survived");
        else if (fin == 0) { CHECK(d.end == 0, "shortened", "%s ends successfully after %zu graphs although line %zu is damaged", what.c_str(), seq.size(), d.g.size() + 1); CHECK(seq.size() == d.g.size(), "shortened", "%s ends successfully after %zu of %zu graphs%s", what.c_str(), seq.size(), d.g.size(), fired ? " (a fault was injected)" : ""); PROBE("iterations complete"); }
        else { CHECK(fired || d.end == 1, "refused", "%s fails at graph %zu of an intact stream without a fault", what.c_str(), seq.size() + 1); if (!fired) CHECK(seq.size() == d.g.size(), "sequence", "%s fails after %zu graphs, but the first damaged line is number %zu", what.c_str(), seq.size(), d.g.size() + 1); PROBE("iterations failed"); }
        LIBV(gp_Free(&h));
        CHECK(fsOpenHandles() == 0, "leak", "%s: %d files are still open", what.c_str(), fsOpenHandles());
        if (known && how != 's' && how != 'i') CHECK(fsGet(name) == text, "source", "%s: reading changed the file", what.c_str());
    }
    void opWIter(const Op &op) { // witer how doc outname mode
        char how = op.s(0, "f")[0]; string name = op.s(1), out = op.s(2, "wout"); int mode = op.i(3); if (!docs.count(name) || docs[name].muts || docs[name].fmt != F_G6) return; Doc &d = docs[name]; string what = strf("writing the stream %s as %c", name.c_str(), how);
        graphP h = LIB(gp_New()); int need = 6 * d.n; for (auto &e : d.seq) need = std::max(need, 2 * (int)e.size() + 2); CHECK(LIB(gp_EnsureArcCapacity(h, need)) == OK && LIB(gp_InitGraph(h, d.n)) == OK, "setup", "init");
        auto load = [&](const Edges &e, bool holes) { LIBV(gp_ReinitializeGraph(h)); Rng r(hashStr(name) + e.size()); Edges x = e; shuffleVec(r, x); if (holes && d.n > 3) for (int u = 1; u <= 3; u++) for (int v = u + 1; v <= 4; v++) if (!std::binary_search(e.begin(), e.end(), Edge(u, v)) && gp_GetArcCapacity(h) >= 2 * (h->M + (int)e.size() + 2)) LIB(gp_AddEdge(h, u, 0, v, 0)); Edges extra; for (int u = 1; u <= 3; u++) for (int v = u + 1; v <= 4; v++) if (d.n > 3 && gp_IsArc(gp_GetNeighborEdgeRecord(h, u, v))) extra.push_back({u, v});
            for (auto &q : x) CHECK(LIB(gp_AddEdge(h, q.first, 0, q.second, 0)) == OK, "setup", "an edge was refused"); for (auto &q : extra) { int a = gp_GetNeighborEdgeRecord(h, q.first, q.second); LIB(gp_DeleteEdge(h, a, 0)); } };
        string exp = ">>graph6<<"; { Model m; for (size_t k = 0; k < d.seq.size(); k++) { m.reset(d.n); for (auto &x : d.seq[k]) { m.L[x.first].push_back((int)m.E.size()); m.L[x.second].push_back((int)m.E.size()); m.E.push_back({x.first, x.second, 0}); } exp += g6Text(m.snap(), false); } }
        G6WriteIterator *it = 0; stepBudget(400000000); if (how == 'i') stdoutClear(); auto armed = op.faults; faultsArm(armed); string got; char *str = 0;
        int r = LIB(allocateG6WriteIterator(&it, h));
        if (r == OK) { if (how == 's') r = LIB(beginG6WriteIterationToG6String(it, &str)); else if (how == 'p') { FILE *f = ({ InLib l; fopen(out.c_str(), "w"); }); r = f ? LIB(beginG6WriteIterationToG6FilePointer(it, f)) : NOTOK; } else if (how == 'i') r = LIB(beginG6WriteIterationToG6FilePointer(it, stdout)); else { vector<char> b(out.begin(), out.end()); if (mode & 4) b.push_back('\n'); b.push_back(0); r = LIB(beginG6WriteIterationToG6FilePath(it, b.data())); } }
        size_t done = 0; bool all = r == OK; if (how == 'f' && (mode & 8)) {}
        for (size_t k = 0; all && k < d.seq.size(); k++) { load(d.seq[k], mode & 2); Snap b = snapGraph(h, "graph to write"); r = LIB(writeGraphUsingG6WriteIterator(it)); if (r != OK) { all = false; break; } done++; int c = -1; LIB(getNumGraphsWritten(it, &c)); CHECK(c == (int)done, "count", "%s: %d graphs are counted after %zu", what.c_str(), c, done); Snap a = snapGraph(h, "graph written"); string why; CHECK(sameRotation(a, b, &why), "changed", "%s changed the graph: %s", what.c_str(), why.c_str()); }
        if (how == 's' && it && it->g6Output && all) { char *t = LIB(sf_takeTheStr(it->g6Output)); got = t ? t : ""; if (t) simFree(t); }
        int re = it ? LIB(endG6WriteIteration(it)) : OK; if (it) { int rf = LIB(freeG6WriteIterator(&it)); if (rf != OK) re = NOTOK; CHECK(!it, "free", "the iterator pointer is still set after freeing it"); }
        int fired = faultsFired(), io = ioFaultsFired(); faultsOff(); stepBudget(3000000000ull); if (fired) SH->faultedOps.fetch_add(1);
        bool ok = all && re == OK; if (how == 'i') got = stdoutGet(); else if (how != 's') got = fsGet(out);
        obs(ok); obs(done); obs(fired); obsStr(got); stateSeen(mix(mix(hashStr(got), ok * 2 + fired), how));
        if (ok) { string a = exp, b = got; for (string *x : {&a, &b}) while (!x->empty() && x->back() == '\n') x->pop_back(); CHECK(a == b, "incomplete", "%s reported success but holds '%.200s' instead of '%.200s'", what.c_str(), got.c_str(), exp.c_str()); CHECK(!io || how == 's', "swallowed", "%s reported success although the device reported an error", what.c_str()); PROBE("streams written");
            Doc nd = d; nd.text = got; docs["w" + out] = nd; fsPut("w" + out, got); Op q = parseOp(strf("iter %c w%s -1 0 0", how == 's' ? 's' : 'f', out.c_str())); opIter(q); }
        else { CHECK(fired, "refused", "%s failed without a fault (%d of %zu graphs written)", what.c_str(), (int)done, d.seq.size()); PROBE("stream writes failed"); }
        LIBV(gp_Free(&h)); CHECK(fsOpenHandles() == 0, "leak", "%s: %d files are still open", what.c_str(), fsOpenHandles());
    }
    // an iterator that is used again: while it is active (refused, without an effect), and after an iteration ended early
    void opReIter(const Op &op) { // reiter docA stop docB how
        string a = op.s(0), b = op.s(2); if (!docs.count(a) || !docs.count(b)) return; G6 A = decodeG6(docs[a].text), B = decodeG6(docs[b].text); int how = abs(op.i(3)); size_t stop = abs(op.i(1)) % 6; if (A.end || B.end || A.n != B.n || stop > A.g.size() || docs[a].text.find('\0') != string::npos || docs[b].text.find('\0') != string::npos) return;
        string what = strf("iterating over %s and then %s", a.c_str(), b.c_str()); graphP h = LIB(gp_New()); G6ReadIterator *it = 0; CHECK(LIB(allocateG6ReadIterator(&it, h)) == OK, "setup", "allocation"); stepBudget(400000000);
        auto begin = [&](const string &nm) { const string &t = docs[nm].text; if (how & 1) { char *p = (char *)simMalloc(t.size() + 1); memcpy(p, t.c_str(), t.size() + 1); return LIB(beginG6ReadIterationFromG6String(it, p)); } if (how & 2) { FILE *f = ({ InLib l; fopen(nm.c_str(), "r"); }); CHECK(f, "setup", "open"); return LIB(beginG6ReadIterationFromG6FilePointer(it, f)); } vector<char> q(nm.begin(), nm.end()); q.push_back(0); return LIB(beginG6ReadIterationFromG6FilePath(it, q.data())); };
        auto next = [&](const Edges &e, size_t k) { CHECK(LIB(readGraphUsingG6ReadIterator(it)) == OK, "refused", "%s: graph %zu of an intact stream cannot be read", what.c_str(), k + 1); graphP c = 0; LIB(getPointerToGraphReadIn(it, &c)); CHECK(c, "shortened", "%s: ends at graph %zu", what.c_str(), k + 1); CHECK(snapGraph(c, what.c_str()).edges() == e, "sequence", "%s: graph %zu differs from the stored one", what.c_str(), k + 1); int cnt = -1; LIB(getNumGraphsRead(it, &cnt)); CHECK(cnt == (int)k + 1, "count", "%s: %d graphs are counted after %zu", what.c_str(), cnt, k + 1); };
        CHECK(begin(a) == OK, "refused", "%s: the iteration cannot begin", what.c_str());
        for (size_t k = 0; k < stop; k++) { if (k == stop / 2 && (how & 4)) { CHECK(begin(b) != OK, "misuse", "%s: a second iteration begins in an active one", what.c_str()); PROBE("second iteration refused"); } next(A.g[k], k); }
        LIB(endG6ReadIteration(it)); if (how & 8) { CHECK(LIB(readGraphUsingG6ReadIterator(it)) != OK, "misuse", "%s: a graph is read after the end of the iteration", what.c_str()); }
        CHECK(begin(b) == OK, "refused", "%s: the second iteration cannot begin", what.c_str()); for (size_t k = 0; k < B.g.size(); k++) next(B.g[k], k);
        { CHECK(LIB(readGraphUsingG6ReadIterator(it)) == OK, "refused", "%s: the end is not reached", what.c_str()); graphP c = 0; LIB(getPointerToGraphReadIn(it, &c)); CHECK(!c, "sequence", "%s: a graph follows the end", what.c_str()); }
        PROBE("iterators used again"); LIB(freeG6ReadIterator(&it)); LIBV(gp_Free(&h)); CHECK(fsOpenHandles() == 0, "leak", "%s: %d files are still open", what.c_str(), fsOpenHandles());
    }
    void opReWrite(const Op &op) { // rewiter doc how: the stream written twice with one iterator, the second time after an attempt to begin in between
        string a = op.s(0); int how = abs(op.i(1)); if (!docs.count(a) || docs[a].muts || docs[a].fmt != F_G6) return; Doc &d = docs[a]; if (d.seq.empty()) return; string what = "writing the stream " + a + " again", exp = ">>graph6<<";
        graphP h = LIB(gp_New()); int need = 6 * d.n; for (auto &e : d.seq) need = std::max(need, 2 * (int)e.size() + 2); CHECK(LIB(gp_EnsureArcCapacity(h, need)) == OK && LIB(gp_InitGraph(h, d.n)) == OK, "setup", "init"); stepBudget(400000000);
        G6WriteIterator *it = 0; CHECK(LIB(allocateG6WriteIterator(&it, h)) == OK, "setup", "allocation"); string text[2];
        for (int round = 0; round < 2; round++) { string file = strf("rw%d", round); char *str = 0;
            auto begin = [&]() { if (how & 1) { return LIB(beginG6WriteIterationToG6String(it, &str)); } if (how & 2) { FILE *f = ({ InLib l; fopen(file.c_str(), "w"); }); CHECK(f, "setup", "open"); return LIB(beginG6WriteIterationToG6FilePointer(it, f)); } vector<char> q(file.begin(), file.end()); q.push_back(0); return LIB(beginG6WriteIterationToG6FilePath(it, q.data())); };
            CHECK(begin() == OK, "refused", "%s: the iteration cannot begin (round %d)", what.c_str(), round); size_t k = 0;
            for (auto &e : d.seq) { if (k == 1 && (how & 4) && !(how & 2)) { char *keep = str; CHECK(begin() != OK, "misuse", "%s: a second iteration begins in an active one", what.c_str()); CHECK(str == keep, "misuse", "%s: the refused iteration changed the string", what.c_str()); } LIBV(gp_ReinitializeGraph(h)); for (auto &x : e) CHECK(LIB(gp_AddEdge(h, x.first, 0, x.second, 0)) == OK, "setup", "edge"); CHECK(LIB(writeGraphUsingG6WriteIterator(it)) == OK, "refused", "%s: graph %zu cannot be written", what.c_str(), k + 1); k++; int c = -1; LIB(getNumGraphsWritten(it, &c)); CHECK(c == (int)k, "count", "%s: %d graphs are counted after %zu", what.c_str(), c, k); }
            if (how & 1) { char *t = LIB(sf_takeTheStr(it->g6Output)); text[round] = t ? t : ""; if (t) simFree(t); } CHECK(LIB(endG6WriteIteration(it)) == OK, "refused", "%s: the iteration cannot be ended", what.c_str()); if (!(how & 1)) text[round] = fsGet(file);
        }
        CHECK(text[0] == text[1], "incomplete", "%s: the second text is '%.200s' instead of '%.200s'", what.c_str(), text[1].c_str(), text[0].c_str()); G6 q = decodeG6(text[1]); CHECK(!q.end && q.g.size() == d.seq.size(), "incomplete", "%s: the text holds %zu of %zu graphs: %.200s", what.c_str(), q.g.size(), d.seq.size(), text[1].c_str()); PROBE("write iterators used again");
        LIB(freeG6WriteIterator(&it)); LIBV(gp_Free(&h)); CHECK(fsOpenHandles() == 0, "leak", "%s: %d files are still open", what.c_str(), fsOpenHandles());
    }
    void opBad(const Op &op) { // bad what: missing sources, destinations, graphs and iterators are refused
        int k = abs(op.i(0)) % 22; graphP h = LIB(gp_New()); LIB(gp_InitGraph(h, 3)); LIB(gp_AddEdge(h, 1, 0, 3, 0)); graphP e = LIB(gp_New()); G6ReadIterator *ri = 0, *rn = 0; G6WriteIterator *wi = 0, *wn = 0; CHECK(LIB(allocateG6ReadIterator(&ri, e)) == OK && LIB(allocateG6WriteIterator(&wi, h)) == OK, "setup", "allocation");
        char empty[2] = "", none[] = "missing", out[] = "badout", *str = 0; int r = NOTOK, n = 0; graphP q = 0; FILE *f; auto dup = [](const char *t) { char *p = (char *)simMalloc(strlen(t) + 1); strcpy(p, t); return p; };
        switch (k) {
        case 0: case 1: r = LIB(gp_Read(e, empty)); break; case 2: r = LIB(gp_Read(e, none)); break; case 3: r = LIB(gp_ReadFromString(e, 0)); break; case 4: r = LIB(gp_ReadFromString(e, dup(""))); break;
        case 5: case 6: r = LIB(gp_Write(h, out, 9)); break; case 7: r = LIB(gp_WriteToString(h, 0, WRITE_ADJLIST)); break; case 8: r = LIB(gp_WriteToString(h, &str, 9)); CHECK(!str, "partial", "a refused write returned a string"); break;
        case 9: r = LIB(beginG6ReadIterationFromG6FilePath(ri, 0)); break; case 10: r = LIB(beginG6ReadIterationFromG6FilePath(ri, empty)); break; case 11: r = LIB(beginG6ReadIterationFromG6FilePointer(ri, 0)); break; case 12: r = LIB(beginG6ReadIterationFromG6String(ri, 0)); break;
        case 13: r = LIB(beginG6ReadIterationFromG6String(0, dup("A_"))); break; case 14: fsPut("g", "A_\n"); f = ({ InLib l; fopen("g", "r"); }); r = LIB(beginG6ReadIterationFromG6FilePointer(0, f)); break; case 15: r = LIB(readGraphUsingG6ReadIterator(ri)); break; case 16: r = LIB(readGraphUsingG6ReadIterator(0)); CHECK(LIB(getNumGraphsRead(0, &n)) != OK && LIB(getPointerToGraphReadIn(0, &q)) != OK && LIB(getOrderOfGraphToRead(0, &n)) != OK, "misuse", "a missing iterator has properties"); break;
        case 17: r = LIB(beginG6WriteIterationToG6FilePath(wi, empty)); break; case 18: r = LIB(beginG6WriteIterationToG6FilePointer(wi, 0)); break; case 19: r = LIB(beginG6WriteIterationToG6String(0, &str)); CHECK(!str, "partial", "a refused iteration returned a string"); break; case 20: r = LIB(writeGraphUsingG6WriteIterator(0)); CHECK(LIB(getNumGraphsWritten(0, &n)) != OK && LIB(getPointerToGraphToWrite(0, &q)) != OK && LIB(getOrderOfGraphToWrite(0, &n)) != OK, "misuse", "a missing iterator has properties"); break;
        default: r = LIB(allocateG6WriteIterator(&wn, e)); CHECK(!wn, "misuse", "an iterator for an uninitialised graph exists"); r = r == OK ? OK : LIB(allocateG6ReadIterator(&rn, 0)); CHECK(!rn, "misuse", "an iterator without a graph exists"); }
        CHECK(r != OK, "misuse", "call %d without a source, destination, graph or iterator succeeded", k); PROBE("missing arguments refused");
        Snap a = snapGraph(h, "graph"); CHECK(a.m == 1 && a.n == 3, "changed", "a refused call changed the graph"); LIB(freeG6ReadIterator(&ri)); LIB(freeG6WriteIterator(&wi)); LIBV(gp_Free(&h)); LIBV(gp_Free(&e)); CHECK(fsOpenHandles() == 0, "leak", "call %d: %d files are still open", k, fsOpenHandles());
    }
    void exec(const Op &op) {
        const string &c = op.name; string nm = op.s(0);
        if (c == "put") { docs[nm] = buildDoc(abs(op.i(1)) % 4, op.i(2), parseGraphText(op, 4), op.i(3)); put(nm); }
        else if (c == "sdoc") { GenGraph gg; gg.n = std::max(1, std::min(op.i(2, 1), 5000)); Doc d; d.fmt = F_G6; d.n = gg.n; d.stream = true; d.hdr = op.i(1) & 1; if (d.hdr) d.text = ">>graph6<<"; docs[nm] = d; put(nm); }
        else if (c == "sline" || c == "sother") { // another graph line (sother: of another order)
            if (!docs.count(nm)) return; Doc &d = docs[nm]; Op o2 = op; GenGraph gg; gg.n = d.n; for (size_t k = 1; k < op.a.size(); k++) { int u, v; if (sscanf(op.a[k].c_str(), "%d-%d", &u, &v) == 2) gg.e.push_back({u, v}); }
            if (c == "sother") { gg.n = std::max(1, d.n + op.i(1, 1)); if (gg.n == d.n) return; gg.e.clear(); }
            Doc x = buildDoc(F_G6, 0, gg, false); if (!d.text.empty() && d.text.back() != '\n' && d.seq.size()) d.text += '\n'; for (auto &t : x.tok) d.tok.push_back({t.off + d.text.size(), t.len, t.role, t.v}); d.text += x.text; if (c == "sother") d.muts++; else d.seq.push_back(x.seq[0]); put(nm); }
        else if (c == "strip") { if (!docs.count(nm)) return; Doc &d = docs[nm]; while (!d.text.empty() && d.text.back() == '\n') d.text.pop_back(); put(nm); }
        else if (c == "putdraw" || c == "putdrawm") { // a drawing written by the library
            Op b = parseOp("build 2 0 1"); for (size_t k = 1; k < op.a.size(); k++) b.a.push_back(op.a[k]); opBuild(b); opDraw(parseOp("draw 2 1")); if (!g[2] || !drawn[2]) return; Doc d; d.fmt = 9; d.text = writeStr(g[2], c == "putdraw" ? WRITE_ADJLIST : WRITE_ADJMATRIX); d.n = snap[2].n; d.lastSig = d.text.rfind("</DrawPlanar>") + 13; docs[nm] = d; put(nm); }
        else if (c == "cut") { if (!docs.count(nm)) return; Doc &d = docs[nm]; size_t k = d.text.empty() ? 0 : (size_t)abs(op.i(1)) % d.text.size(); bool sig = k < d.lastSig; string old = d.text; d.text.resize(k); d.muts++;
            if (d.muts == 1) { if (d.fmt == 9) { size_t b = old.find("<DrawPlanar>"); bool plain = k <= b; Parsed q; if (plain) { bool st = strictAny(d.text, q); d.verdict = st ? GREY : BAD; if (!st && k < b) { size_t lz = old.find_last_of("0123456789", b); if (k > lz) d.verdict = GREY; } } else d.verdict = k >= d.lastSig ? GREY : BAD; } else d.verdict = !sig ? GREY : d.fmt == F_LEDA ? (k <= d.ledaBad ? BAD : GREY) : BAD; } else d.verdict = GREY; put(nm); }
        else if (c == "flip") { if (!docs.count(nm)) return; Doc &d = docs[nm]; if (d.text.empty()) return; size_t k = (size_t)abs(op.i(1)) % d.text.size(); d.text[k] = (char)op.i(2); d.muts++; d.verdict = GREY; put(nm); }
        else if (c == "insb") { if (!docs.count(nm)) return; Doc &d = docs[nm]; size_t k = (size_t)abs(op.i(1)) % (d.text.size() + 1); d.text.insert(k, 1, (char)op.i(2)); d.muts++; d.verdict = GREY; put(nm); }
        else if (c == "delb") { if (!docs.count(nm)) return; Doc &d = docs[nm]; if (d.text.empty()) return; size_t k = (size_t)abs(op.i(1)) % d.text.size(); d.text.erase(k, std::max(1, op.i(2, 1))); d.muts++; d.verdict = GREY; put(nm); }
        else if (c == "tok") { if (!docs.count(nm) || docs[nm].fmt == 9) return; mutTok(docs[nm], op.i(1), abs(op.i(2))); put(nm); }
        else if (c == "dir") { fsPut(op.s(0) + "/.", ""); }
        else if (c == "read") opRead(op); else if (c == "build") opBuild(op); else if (c == "draw") opDraw(op); else if (c == "write") opWrite(op); else if (c == "iter") opIter(op); else if (c == "witer") opWIter(op); else if (c == "reiter") opReIter(op); else if (c == "rewiter") opReWrite(op); else if (c == "bad") opBad(op);
        for (int s = 0; s < 3; s++) if (g[s] && drawn[s]) {}
    }
    void finish() { opLabel("end of history"); for (int s = 0; s < 3; s++) drop(s); CHECK(heapLive() == 0, "leak", "%zu blocks are still allocated: %s", heapLive(), heapDescribeLive(6).c_str()); }
};
DocWorld::DocWorld() : w(new IoWorld) {}
DocWorld::~DocWorld() { delete (IoWorld *)w; }
void DocWorld::exec(const Op &op) { ((IoWorld *)w)->exec(op); for (int s = 0; s < 3; s++) ((IoWorld *)w)->drop(s); }
const Doc *DocWorld::get(const string &n) const { auto &d = ((IoWorld *)w)->docs; auto it = d.find(n); return it == d.end() ? 0 : &it->second; }
static void runIo(const Plan &p) { IoWorld w; for (auto &l : p.L) { opLabel(l); w.exec(parseOp(l)); } w.finish(); }

// ---------------------------------------------------------------- generators
static string devFaults(Rng &r, bool rd, bool wr, int rate) { // rate per mille
    string f; if (r.chance(1, 3)) f += strf(" mr:%d", r.chance(1, 2) ? r.range(1, 4) : r.range(1, 64)); if (r.chance(1, 3)) f += strf(" b:%d", r.chance(1, 2) ? r.range(1, 8) : r.range(8, 256));
    if (r.chance(rate, 1000)) { int k = r.below(rd && wr ? 8 : 6); int n = r.chance(1, 2) ? r.range(1, 4) : r.range(1, 40); bool per = r.chance(1, 3);
        if (k < 2) f += strf(" %c:%d", per ? 'A' : 'a', r.chance(1, 2) ? r.range(1, 6) : r.range(1, 25)); else if (k == 2) f += strf(" o:%d:%d", r.range(1, 2), r.below(5));
        else if (rd && k >= 3) { int q = r.below(4); f += q == 0 ? strf(" %c:%d", per ? 'R' : 'r', n) : q == 1 ? strf(" e:%d", n) : q == 2 ? strf(" k:%d", r.range(1, 3)) : strf(" r:%d", n); }
        else if (wr) { int q = r.below(4); f += q == 0 ? strf(" %c:%d", per ? 'W' : 'w', n) : q == 1 ? strf(" t:%d:%d", r.range(1, 3), r.below(60)) : q == 2 ? " c:1" : strf(" w:%d", r.range(1, 2)); } }
    return f.empty() ? "" : " |" + f;
}
// now and then a document of another scale: wide vertex numbers, long lines, orders with other encodings
static bool scaleGraph(Rng &r, GenGraph &g, int &fmt) {
    int q = r.below(6000); if (q >= 45) return false;
    int n = q < 38 ? r.range(90, 320) : q < 43 ? r.range(990, 1100) : (fmt & 1) ? r.range(9990, 10050) : r.range(4090, 4200); if (n > 400 && fmt == F_MAT) fmt = F_ADJ; if (n > 5000 && fmt == F_G6) fmt = F_LEDA;
    g = GenGraph{n, {}, "scale"}; std::set<Edge> s; int m = r.range(1, n < 400 && r.chance(1, 2) ? 2 * n : 60);
    for (int i = 0; i < m; i++) { int u = r.chance(1, 3) ? n - r.below(5) : 1 + r.below(n), v = r.chance(1, 3) ? 1 + r.below(4) : 1 + r.below(n); if (u != v && s.insert(E2(u, v)).second) g.e.push_back({u, v}); }
    return true;
}
static void gen08(Rng &r, Plan &p, int tier) {
    int k = r.range(2, tier ? 8 : 5), maxN = r.chance(1, 10) ? 70 : 13; if (r.chance(1, 25)) p.add(strf("bad %d", r.below(17)));
    for (int i = 0; i < k; i++) {
        string nm = strf("f%d", i); GenGraph g = genGraph(r, maxN); int fmt = r.below(4); bool sc = scaleGraph(r, g, fmt);
        if (!sc && r.chance(1, 8)) { GenGraph q = genGraph(r, 9, r.chance(1, 2) ? 2 : 13); p.add((r.chance(1, 3) ? "putdrawm " : "putdraw ") + nm + " " + graphText(q)); fmt = 9; }
        else p.add(strf("put %s %d %d %d ", nm.c_str(), fmt, r.below(16), fmt == 0 && r.chance(1, 3)) + graphText(g));
        if (r.chance(1, 2)) switch (r.below(6)) { case 0: case 1: p.add(strf("cut %s %d", nm.c_str(), r.below(100000))); break; case 2: case 3: p.add(strf("tok %s %d %d", nm.c_str(), r.below(100000), r.below(12))); break;
            case 4: p.add(strf("flip %s %d %d", nm.c_str(), r.below(100000), r.chance(1, 3) ? "0123456789 -\n:=>NL~"[r.below(18)] : r.chance(1, 2) ? r.range(32, 126) : r.below(256))); break;
            default: { if (r.chance(1, 2)) p.add(strf("insb %s %d %d", nm.c_str(), r.below(100000), r.chance(1, 2) ? "0123456789 -\n:"[r.below(14)] : r.below(256))); else p.add(strf("delb %s %d %d", nm.c_str(), r.below(100000), r.range(1, 5))); } }
        if (r.chance(1, 8)) p.add(strf("flip %s %d %d", nm.c_str(), r.below(100000), r.below(256)));
        int reads = r.range(1, 3); for (int q = 0; q < reads; q++) p.add(strf("read %c %s %d %d %d %d", "fffsssigf"[r.below(9)], r.chance(1, 25) ? "missing" : r.chance(1, 60) ? "nodir/x" : nm.c_str(), r.below(3), r.chance(1, 5), !r.chance(1, 5), r.chance(1, 15)) + devFaults(r, true, false, 450));
    }
}
static void gen09(Rng &r, Plan &p, int tier) {
    int k = r.range(1, tier ? 6 : 4), maxN = r.chance(1, 10) ? 70 : 12; if (r.chance(1, 25)) p.add(strf("bad %d", r.range(5, 20))); if (r.chance(1, 6)) p.add("dir d");
    for (int i = 0; i < k; i++) {
        int s = r.below(2); bool draw = r.chance(1, 3); GenGraph g = draw ? genGraph(r, maxN, r.chance(1, 2) ? 2 : r.chance(1, 2) ? 13 : 15) : genGraph(r, maxN); int fmt = r.below(3), wide = !draw && scaleGraph(r, g, fmt); if (wide && g.n > 5000) wide = 2;
        p.add(strf("build %d %d %d ", s, draw ? (r.chance(1, 3) ? 1 : 0) : r.below(8), draw || r.chance(1, 6)) + graphText(g)); if (draw) p.add(strf("draw %d %d", s, r.below(2)));
        int w = r.range(1, 4); for (int q = 0; q < w; q++) p.add(strf("write %c %d %d %s %d", draw ? "fforsRrRsn"[r.below(10)] : "fffosxn"[r.chance(1, 12) ? r.range(5, 6) : r.below(5)], s, wide == 2 ? 0 : wide ? (r.chance(1, 10) ? 3 : g.n > 400 ? 2 * r.below(2) : r.below(3)) : r.chance(1, 10) ? 3 : r.below(3), r.chance(1, 25) ? "nodir/out" : r.chance(1, 2) ? "out" : "out2", r.below(3)) + devFaults(r, false, true, 550));
    }
}
static void gen10(Rng &r, Plan &p, int tier) {
    int k = r.range(1, tier ? 5 : 3);
    for (int i = 0; i < k; i++) {
        string nm = strf("s%d", i); int n = r.chance(1, 8) ? r.range(1, 2) : r.chance(1, 12) ? r.range(60, 70) : r.range(2, 12), K = r.chance(1, 10) ? 0 : r.range(1, tier ? 12 : 7); int fmt = F_G6; GenGraph sg; bool sc = scaleGraph(r, sg, fmt) && fmt == F_G6; if (sc) { n = sg.n; K = r.range(1, 2); } else if (r.chance(1, 150)) { n = r.range(1, 5); K = r.range(90, 300); }
        p.add(strf("sdoc %s %d %d", nm.c_str(), r.below(2), n));
        for (int q = 0; q < K; q++) { GenGraph g = sc ? sg : genGraph(r, n); if (sc) shuffleGraph(r, g); g.n = n; Edges e; for (auto &x : g.e) if (x.first <= n && x.second <= n) e.push_back(x); string s = "sline " + nm; for (auto &x : e) s += strf(" %d-%d", x.first, x.second); p.add(s); if (r.chance(1, 60)) p.add(strf("sother %s %d", nm.c_str(), r.chance(1, 2) ? 1 : -1)); }
        if (r.chance(1, 4)) p.add("strip " + nm);
        if (i && !sc && r.chance(1, 6)) p.add(strf("reiter s%d %d s%d %d", r.below(i + 1), r.below(6), r.below(i + 1), r.below(16)));
        if (K && !sc && r.chance(1, 8)) p.add(strf("reiter %s %d %s %d", nm.c_str(), r.below(6), nm.c_str(), r.below(16)));
        if (K && !sc && r.chance(1, 8)) p.add(strf("rewiter %s %d", nm.c_str(), r.below(8)));
        if (r.chance(1, 25)) p.add(strf("bad %d", r.below(22)));
        if (K && r.chance(1, 3)) p.add(strf("witer %c %s o%d %d", "fspi"[r.below(4)], nm.c_str(), r.below(2), r.below(8)) + devFaults(r, false, true, 500));
        if (r.chance(1, 2)) switch (r.below(6)) { case 0: p.add(strf("cut %s %d", nm.c_str(), r.below(100000))); break; case 1: p.add(strf("tok %s %d %d", nm.c_str(), r.below(100000), r.below(12))); break; case 2: case 3: p.add(strf("flip %s %d %d", nm.c_str(), r.below(100000), r.chance(1, 4) ? 255 : r.chance(1, 2) ? r.range(63, 126) : r.below(256))); break; case 4: p.add(strf("insb %s %d %d", nm.c_str(), r.below(100000), r.chance(1, 2) ? r.range(63, 126) : "\n\r 0>"[r.below(5)])); break; default: p.add(strf("delb %s %d %d", nm.c_str(), r.below(100000), r.range(1, 4))); }
        int it = r.range(1, 2); for (int q = 0; q < it; q++) p.add(strf("iter %c %s %d %d %d", "ffspi"[r.below(5)], r.chance(1, 30) ? "missing" : nm.c_str(), r.chance(1, 5) ? r.below(K + 2) : -1, r.below(8), r.chance(1, 6) ? r.range(1, 2) : 0) + devFaults(r, true, false, 450));
    }
}
static RegScenario r08({"P08", gen08, runIo, 0}), r09({"P09", gen09, runIo, 0}), r10({"P10", gen10, runIo, 0});
