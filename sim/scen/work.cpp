// P16: the step clock. Large structured graphs on reused objects; every call has a step budget linear in n+m.
#include "../core/world.h"
#include "../core/shared.h"

GenGraph family(int f, int n, Rng &r) {
    GenGraph g; g.n = n; auto add = [&](int u, int v) { if (u != v && u >= 1 && v >= 1 && u <= g.n && v <= g.n) g.e.push_back({u, v}); };
    n = std::max(n, 8); g.n = n;
    switch (f) {
    case 0: { int w = std::max(2, (int)(2 + r.below(30))); if (w * 2 > n) w = 2; int h = n / w; g.n = w * h; bool diag = r.chance(1, 2); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) { int v = i * w + j + 1; if (j + 1 < w) add(v, v + 1); if (i + 1 < h) add(v, v + w); if (diag && i + 1 < h && j + 1 < w) add(v, v + w + 1); } break; }
    case 1: { vector<std::array<int, 3>> fc; add(1, 2); add(2, 3); add(1, 3); fc.push_back({1, 2, 3}); fc.push_back({1, 2, 3}); for (int v = 4; v <= n; v++) { int k = r.below((int)fc.size()); auto t = fc[k]; add(v, t[0]); add(v, t[1]); add(v, t[2]); fc[k] = {v, t[0], t[1]}; fc.push_back({v, t[1], t[2]}); fc.push_back({v, t[0], t[2]}); } break; }
    case 2: { vector<std::pair<int, int>> b; add(1, 2); b.push_back({1, 2}); int mode = r.below(3); for (int v = 3; v <= n; v++) { int k = mode == 0 ? (int)b.size() - 1 : mode == 1 ? r.below((int)b.size()) : 0; auto t = b[k]; add(v, t.first); add(v, t.second); b[k] = {t.first, v}; b.push_back({v, t.second}); if (mode == 0 && r.chance(1, 9)) std::swap(b[b.size() - 1], b[b.size() - 2]); } break; }
    case 3: for (int i = 1; i < n; i++) { add(i, i == n - 1 ? 1 : i + 1); add(i, n); } break;
    case 4: for (int i = 1; i < n; i++) add(i, i + 1); if (r.chance(1, 2)) add(1, n); break;
    case 5: for (int i = 2; i <= n; i++) add(1, i); if (r.chance(1, 2)) for (int i = 2; i + 1 <= n; i += 2) add(i, i + 1); break;
    case 6: { int k = (n - 1) / 4; g.n = 4 * k + 1; int at = 1, top = 1; for (int q = 0; q < k; q++) { int v[5] = {at, top + 1, top + 2, top + 3, top + 4}; top += 4; for (int i = 0; i < 5; i++) for (int j = i + 1; j < 5; j++) add(v[i], v[j]); at = r.chance(1, 2) ? top : 1 + r.below(top); } break; }
    case 7: { int top = 2; add(1, 2); vector<std::pair<int, int>> pool{{1, 2}}; while (top + 3 <= n) { auto p = pool[r.chance(1, 2) ? (int)pool.size() - 1 : r.below((int)pool.size())]; int v[5] = {p.first, p.second, top + 1, top + 2, top + 3}; top += 3; for (int i = 0; i < 5; i++) for (int j = i + 1; j < 5; j++) if (i + j > 1) { add(v[i], v[j]); pool.push_back({v[i], v[j]}); } } g.n = top; break; }
    case 8: { int k = (n - 1) / 3; g.n = 3 * k + 1; int at = 1, top = 1; for (int q = 0; q < k; q++) { int v[4] = {at, top + 1, top + 2, top + 3}; top += 3; for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) add(v[i], v[j]); at = r.chance(1, 2) ? top : 1 + r.below(top); } break; }
    case 9: { add(1, 2); vector<std::pair<int, int>> p{{1, 2}}; for (int v = 3; v <= n; v++) { int k = r.chance(1, 2) ? r.below((int)p.size()) : (int)p.size() - 1; auto t = p[k]; add(v, t.first); add(v, t.second); p.push_back({v, t.first}); p.push_back({v, t.second}); } break; }
    case 10: { int k = n / 3; g.n = 3 * k; for (int q = 0; q < k; q++) { int a = 3 * q + 1; add(a, a + 1); add(a + 1, a + 2); add(a, a + 2); if (q + 1 < k) for (int i = 0; i < 3; i++) add(a + i, a + 3 + i); } break; }
    case 11: { int h = n / 2; g.n = 2 * h; for (int i = 1; i <= 2 * h; i++) add(i, i % (2 * h) + 1); for (int i = 1; i <= h; i++) if (r.chance(7, 8) || i < 4) add(i, i + h); break; }
    case 12: case 23: { int b = f == 12 ? 5 : 6; vector<std::pair<int, int>> be; for (int i = 1; i <= b; i++) for (int j = i + 1; j <= b; j++) if (f == 12 || (i <= 3) != (j <= 3)) be.push_back({i, j}); int top = b; for (size_t q = 0; q < be.size(); q++) { int len = (n - b) / (int)be.size(); int at = be[q].first; for (int k = 0; k < len && top < n; k++) { top++; add(at, top); at = top; } add(at, be[q].second); } g.n = top; break; }
    case 13: { std::set<Edge> s; int m = n * r.range(1, 6) / 2; for (int i = 0; i < m; i++) { int u = 1 + r.below(n), v = 1 + r.below(n); if (u != v && s.insert(E2(u, v)).second) add(u, v); } break; }
    case 14: { int mode = r.below(3); for (int v = 2; v <= n; v++) add(v, mode == 0 ? v / 2 : mode == 1 ? 1 + r.below(v - 1) : (v % 2 ? v - 2 < 1 ? 1 : v - 2 : v - 1)); break; }
    case 15: for (int i = 3; i <= n; i++) { add(1, i); add(2, i); } if (r.chance(1, 2)) add(1, 2); break;
    case 16: g = family(2, n, r); add(1 + r.below(g.n), 1 + r.below(g.n)); break;
    case 17: g = family(r.chance(1, 2) ? 0 : 1, n, r); add(1 + r.below(g.n), 1 + r.below(g.n)); add(1 + r.below(g.n), 1 + r.below(g.n)); break;
    case 18: { int k = r.range(1, 3); for (int i = 1; i < n; i++) add(i, i + 1); for (int i = 3; i <= n; i++) { if (k == 1) add(1, i); else if (k == 2) add(1 + (i / 3), i); else add(std::max(1, i - 2), i); } break; }
    case 19: { int k = r.range(2, 40); for (int i = 1; i < n; i++) add(i, i + 1); for (int i = k + 1; i <= n; i += r.range(1, k)) add(i - k, i); break; }
    case 20: { int at = 1; while (at < n) { int s = r.range(1, 12); for (int i = 1; i < s && at + i <= n; i++) { add(at + r.below(i), at + i); if (r.chance(1, 2)) add(at + r.below(i), at + i); } at += s; } break; }
    case 21: for (int i = 4; i <= n; i++) for (int j = 1; j <= 3; j++) add(j, i); break;
    case 22: { for (int i = 1; i <= n - 2; i++) { add(i, i % (n - 2) + 1); add(i, n - 1); add(i, n); } if (r.chance(1, 3)) add(n - 1, n); break; }
    case 24: { // a long cycle with nested blocks hanging off it, every block with chords to the root: many pertinent roots
        for (int i = 1; i < n; i++) add(std::max(1, i + 1 - r.range(1, 3)), i + 1); for (int i = 5; i <= n; i += r.range(2, 9)) add(1, i); break; }
    case 25: { // planar cubic-like: cycle with non-crossing chords inside and outside
        vector<int> st, st2; for (int i = 1; i <= n; i++) { add(i, i % n + 1); vector<int> &s = r.chance(1, 2) ? st : st2; if (!s.empty() && r.chance(1, 2)) { if (s.back() + 1 < i) add(s.back(), i); s.pop_back(); } else s.push_back(i); } break; }
    case 26: { int k = r.range(3, 30); // k long parallel paths between two hubs, rungs between neighbours
        int len = std::max(1, (n - 2) / k); g.n = 2 + k * len; for (int q = 0; q < k; q++) for (int i = 0; i < len; i++) { int v = 3 + q * len + i; if (i == 0) add(1, v); else add(v - 1, v); if (i == len - 1) add(v, 2); if (q + 1 < k && r.chance(1, 4)) add(v, v + len); } break; }
    }
    std::set<Edge> s; Edges out; for (auto &e : g.e) if (e.first != e.second && s.insert(E2(e.first, e.second)).second) out.push_back(e); g.e = out;
    return g;
}
const int NF = numFamilies;
// expected answers that hold for a whole family; -2 unknown
int familyAnswer(int f, char a) {
    bool planar = f <= 5 || f == 8 || f == 9 || f == 10 || f == 14 || f == 15 || f == 25;
    if (a == 'P' || a == 'D') { if (planar) return OK; if (f == 6 || f == 7 || f == 12 || f == 23 || f == 21) return NONEMBEDDABLE; return -2; }
    if (a == '3') { if (planar || f == 6 || f == 7 || f == 12) return OK; if (f == 23 || f == 21) return NONEMBEDDABLE; return -2; }
    if (a == '4') { if (f == 2 || f == 4 || f == 9 || f == 14 || f == 15 || f == 5) return OK; if (f == 6 || f == 7 || f == 8 || f == 12 || f == 23 || f == 3 || f == 10) return NONEMBEDDABLE; return -2; }
    if (a == '2') { if (f == 2 || f == 4 || f == 8 || f == 14 || f == 5) return OK; if (f == 6 || f == 7 || f == 15 || f == 21 || f == 23 || f == 10) return NONEMBEDDABLE; return -2; }
    if (a == 'O') { if (f == 2 || f == 4 || f == 5 || f == 14) return OK; if (f == 6 || f == 7 || f == 8 || f == 12 || f == 23 || f == 21 || f == 15 || f == 3 || f == 10) return NONEMBEDDABLE; return -2; }
    return -2;
}
struct Lim { double per, base; };
// about three times the largest number of steps per vertex-plus-edge seen over all families and sizes
static Lim limitFor(char a) {
    switch (a) {
    case 'P': return {160, 4000}; case 'O': return {140, 4000}; case 'D': return {180, 4000}; case '2': return {140, 4000}; case '3': return {310, 4000}; case '4': return {190, 4000};
    case 'i': return {6, 3000}; case 'c': return {10, 3000}; case 's': return {20, 2000}; case 'f': return {24, 2000}; case 't': return {1e9, 1e9};
    }
    return {1e9, 1e9};
}
static bool measureOnly = getenv("SIM_MEASURE") != 0;
struct Work {
    graphP g = 0; int n = 0, m = 0, fam = 0; std::set<char> ext; bool raw = false, broken = false; double cap = 0;
    void bound(char kind, u64 used, double size, const char *what) {
        Lim l = limitFor(kind); double lim = l.per * size + l.base;
        if (measureOnly) { double ra = (used - l.base) / size; FILE *f = fopen("/tmp/measure.txt", "a"); fprintf(f, "%c %d %.0f %.2f\n", kind, fam, size, ra); fclose(f); return; }
        CHECK((double)used <= lim, "work", "%s took %llu steps for a size of %.0f (family %d, n=%d m=%d); the linear budget is %.0f", what, (unsigned long long)used, size, fam, n, m, lim);
        PROBE("calls within the linear budget");
    }
};
static void exec(const Plan &p) {
    Work w;
    for (auto &line : p.L) {
        Op op = parseOp(line); opLabel(line); const string &c = op.name;
        u64 s0 = 0, used = 0; int fired = 0;
        auto start = [&]() { faultsArm(op.faults); s0 = simSteps; stepBudget(50000000ull + (u64)(w.n + w.m) * 4000); };
        auto stop = [&]() { used = simSteps - s0; fired = faultsFired(); faultsOff(); stepBudget(3000000000ull); if (fired) SH->faultedOps.fetch_add(1); };
        if (c == "g") { // g family size seed order
            Rng r(op.i(2) * 977 + op.i(0)); GenGraph gg = family(((op.i(0) % NF) + NF) % NF, std::max(8, std::min(op.i(1, 8), 6000)), r);
            if (op.i(3) & 1) shuffleGraph(r, gg); if (op.i(3) & 2) std::reverse(gg.e.begin(), gg.e.end());
            if (w.g && (w.g->N != gg.n || w.broken || (int)gg.e.size() * 2 > gp_GetArcCapacity(w.g))) { LIBV(gp_Free(&w.g)); w.ext.clear(); w.g = 0; }
            w.n = gg.n; w.m = (int)gg.e.size(); w.fam = op.i(0) % NF;
            if (w.g) { start(); LIBV(gp_ReinitializeGraph(w.g)); stop(); w.bound('i', used, w.n + gp_GetArcCapacity(w.g) / 2, "reinitialising"); PROBE("object reused"); }
            else {
                w.g = LIB(gp_New()); int cap = std::max(6 * w.n, 2 * w.m + 2); if (op.i(3) & 4) cap *= 2;
                start(); int r1 = LIB(gp_EnsureArcCapacity(w.g, cap)), r2 = r1 == OK ? LIB(gp_InitGraph(w.g, w.n)) : NOTOK; stop();
                if (r2 != OK) { CHECK(fired, "setup", "a graph of order %d could not be set up", w.n); LIBV(gp_Free(&w.g)); w.g = 0; continue; }
                w.bound('i', used, w.n + cap / 2, "initialising");
            }
            w.broken = false; w.raw = true;
            for (auto &e : gg.e) CHECK(LIB(gp_AddEdge(w.g, e.first, r.below(2), e.second, r.below(2))) == OK, "setup", "an edge was refused");
        } else if (!w.g) continue;
        else if (c == "dup") {
            start(); graphP d = LIB(gp_DupGraph(w.g)); stop();
            if (!d) { CHECK(fired, "dup", "duplicating failed without a fault"); continue; }
            if (!fired) w.bound('c', used, w.n + gp_GetArcCapacity(w.g) / 2, "duplicating");
            if (op.i(0)) { LIBV(gp_Free(&w.g)); w.g = d; } else LIBV(gp_Free(&d));
        } else if (c == "sort") { if (w.broken) continue; start(); int r = LIB(gp_SortVertices(w.g)); stop(); if (r == OK) w.bound('s', used, w.n + w.m, "sorting the vertices"); else if (!w.raw && !fired) CHECK(0, "sort", "sorting failed"); else if (fired) w.broken = true; w.raw = w.raw && r != OK; }
        else if (c == "dfs") { if (!w.raw) continue; start(); int r = LIB(gp_CreateDFSTree(w.g)); stop(); if (fired && r != OK) { w.broken = true; w.raw = false; continue; } CHECK(r == OK, "dfs", "depth-first search failed"); w.bound('f', used, w.n + w.m, "depth-first search");
            s0 = simSteps; r = LIB(gp_LowpointAndLeastAncestor(w.g)); used = simSteps - s0; CHECK(r == OK, "dfs", "lowpoint computation failed"); w.bound('f', used, w.n + w.m, "lowpoint computation"); w.raw = false; }
        else if (c == "emb") { // emb flag
            if (!w.raw || w.broken) continue; char a = op.s(0, "P")[0]; int f = embFlag(string(1, a)); char x = extFor(f);
            if (x && !w.ext.count(x)) { start(); int r = attachExt(w.g, x); stop(); if (r != OK) { CHECK(fired, "attach", "attaching failed"); continue; } w.ext.insert(x); }
            if (op.i(1)) for (char y : {'D', '2', '3', '4'}) if ((op.i(1) >> (y - '0' > 9 ? 0 : y - '1')) & 1 && !w.ext.count(y)) { if (attachExt(w.g, y) == OK) w.ext.insert(y); }
            graphP orig = op.i(2) ? LIB(gp_DupGraph(w.g)) : 0;
            start(); int r = LIB(gp_Embed(w.g, f)); stop(); obs(r); obs(w.m); obs(w.g->M);
            w.bound(a, used, w.n + w.m, strf("embedding call %c%s", a, fired ? " (with a failed allocation inside)" : "").c_str());
            stateSeen(mix(mix(mix(w.fam, w.n), w.m), a * 131 + r + fired * 7));
            w.raw = false;
            if (r == NOTOK) { CHECK(fired, "answer", "embedding call %c failed without a fault (family %d, n=%d, m=%d)", a, w.fam, w.n, w.m); w.broken = true; PROBE("call failed by fault"); if (orig) LIBV(gp_Free(&orig)); continue; }
            int want = familyAnswer(w.fam, a); if (want != -2) { CHECK(r == want, "answer", "embedding call %c answered %d, but the family's answer is %d (family %d, n=%d, m=%d)", a, r, want, w.fam, w.n, w.m); PROBE("known answers confirmed"); }
            if (r == OK && (a == 'P' || a == 'O' || a == 'D')) CHECK(w.g->M == w.m, "answer", "the embedding has %d edges instead of %d", w.g->M, w.m); if (r != OK) PROBE("obstruction isolated");
            if (orig) { int ri; s0 = simSteps; stepBudget(50000000ull + (u64)(w.n + w.m) * 4000); ri = LIB(gp_TestEmbedResultIntegrity(w.g, orig, r)); used = simSteps - s0; stepBudget(3000000000ull); CHECK(ri == r, "integrity", "the integrity check answers %d for the result %d of call %c (family %d, n=%d, m=%d)", ri, r, a, w.fam, w.n, w.m); LIBV(gp_Free(&orig)); }
        }
    }
    opLabel("end of history"); if (w.g) LIBV(gp_Free(&w.g));
    CHECK(heapLive() == 0, "leak", "%zu blocks are still allocated: %s", heapLive(), heapDescribeLive(5).c_str());
}
static void gen(Rng &r, Plan &p, int tier) {
    int big = tier ? 5000 : 1600; int eps = r.range(1, 4); int lastN = 0;
    for (int e = 0; e < eps; e++) {
        int n = r.chance(1, 3) ? r.range(8, 120) : r.chance(1, 2) ? r.range(100, big / 3) : r.range(big / 3, big);
        if (lastN && r.chance(1, 2)) n = lastN; lastN = n;
        auto flt = [&]() { return r.chance(1, 14) ? strf(" | %c:%d", r.chance(1, 2) ? 'a' : 'A', r.chance(1, 2) ? r.range(1, 8) : r.range(1, 400)) : string(); };
        p.add(strf("g %d %d %d %d", r.below(NF), n, r.below(100000), r.below(8)) + flt());
        if (r.chance(1, 6)) p.add(strf("dup %d", r.below(2)) + flt());
        if (r.chance(1, 10)) p.add("dfs" + flt());
        else p.add(strf("emb %c %d %d", "PPOD223344"[r.below(10)], r.chance(1, 4) ? r.below(16) : 0, r.chance(1, 3)) + flt());
        if (r.chance(1, 2)) p.add("sort");
    }
}
static RegScenario r16({"P16", gen, exec, 0});
