// Batches of independent graphs for the embedding properties: each graph is built, run through one algorithm
// and judged by its certificate (or, where no certificate exists, by the reference), without the cost of
// the full world model. "swarm SEED COUNT FLAG MAXN" stands for COUNT lines "one FLAG n u-v ...".
#include "world.h"
#include "shared.h"

static GenGraph swarmGraph(u64 seed, int k, char f, int maxN) { Rng r(mix(seed, k)); return genGraph(r, maxN, kindFor(r, f)); }
int kindFor(Rng &r, char f) { // graph families that take the algorithm for flag f deep into its own case analysis
    static const int k3[] = {20, 21, 24, 25, 25, 11}, k4[] = {22, 22, 12, 9, 23}, k2[] = {12, 23, 6, 5, 10, 22}, ko[] = {5, 6, 12, 23, 22, 13};
    if (r.chance(1, 3)) return -1;
    if (r.chance(1, 2)) { const char *fs = "POD234", *p = strchr(fs, f); if (p) return 30 + (int)(p - fs); }
    switch (f) { case '3': return k3[r.below(6)]; case '4': return k4[r.below(5)]; case '2': return k2[r.below(6)]; case 'O': return ko[r.below(6)]; default: return -1; }
}
static void oneGraph(char fc, const GenGraph &gg, int fam = -1) {
    int n = std::max(1, gg.n), flags = embFlag(string(1, fc)); std::set<Edge> es; Edges order;
    for (auto &e : gg.e) { int u = e.first, v = e.second; if (u < 1 || v < 1 || u > n || v > n || u == v || !es.insert(E2(u, v)).second) continue; order.push_back(e); }
    Edges in(es.begin(), es.end()); const char *wc = "one graph";
    graphP g = LIB(gp_New()); CHECK(g, "refused", "gp_New failed");
    if ((int)in.size() > 3 * n) CHECK(LIB(gp_EnsureArcCapacity(g, 2 * (int)in.size())) == OK, "refused", "gp_EnsureArcCapacity failed");
    CHECK(LIB(gp_InitGraph(g, n)) == OK, "refused", "gp_InitGraph failed");
    { InLib il; for (auto &e : order) CHECK(gp_AddEdge(g, e.first, 0, e.second, 0) == OK, "refused", "gp_AddEdge refused an edge with room for it"); }
    if (extFor(flags)) CHECK(attachExt(g, extFor(flags)) == OK, "refused", "attaching failed");
    int r = LIB(gp_Embed(g, flags)); obs(r);
    auto text = [&]() { GenGraph q; q.n = n; q.e = order; if (n > 60) return strf("family %d, n=%d m=%zu", fam, n, in.size()); return graphText(q); };
    CHECK(r == OK || r == NONEMBEDDABLE, "answer", "flag %c: gp_Embed answered %d for the graph %s", fc, r, text().c_str());
    bool search = fc >= '2' && fc <= '4'; PROBE("swarm graphs");
    if (search && r == OK) {
        if (fc == '3' && n > 400 && familyAnswer(fam, '3') != OK && !refPlanar(n, in)) { LIBV(gp_Free(&g)); return; } // too large for the reference
        bool has = fc == '2' ? refHasK23(n, in) : fc == '3' ? refHasK33(n, in) : refHasK4(n, in);
        CHECK(!has, "answer", "flag %c: the search found nothing, the reference says there is a homeomorph in %s", fc, text().c_str()); PROBE("swarm: none found, reference agrees");
    } else if (fc == 'D' && r != OK) { CHECK(!refPlanar(n, in), "answer", "the drawing of a planar graph was refused: %s", text().c_str()); }
    else {
        Snap sn = snapGraph(g, wc); vector<int> lab = labelMap(g, wc); Edges me = mapEdges(sn.edges(), lab); obs(sn.hash());
        CHECK((int)me.size() == g->M, "count", "the graph reports %d edges but its lists hold %zu; input %s", g->M, me.size(), text().c_str());
        if (r == OK) { CHECK(me == in, "edges", "the embedding does not hold exactly the input edges; input %s", text().c_str()); checkEmbedding(sn, fc == 'O', wc); PROBE("swarm: embedding certified");
            if (fc == 'D') { Drawing d; drawingOf(g, sn, d, wc); checkDrawing(d, sn, wc); PROBE("swarm: drawing certified"); }
        } else { CHECK(subsetOf(me, in), "witness", "the obstruction is not a subgraph of the input %s", text().c_str()); string why; int kind = subdivisionKind(n, me, &why); int want = fc == 'P' ? SUB_K5 | SUB_K33 : fc == 'O' ? SUB_K4 | SUB_K23 : fc == '2' ? SUB_K23 : fc == '3' ? SUB_K33 : SUB_K4;
            CHECK(kind & want, "witness", "flag %c: the result is not a homeomorph of the target: %s (kind %d); input %s", fc, why.c_str(), kind, text().c_str()); PROBE("swarm: obstruction certified"); }
        stateSeen(mix(sn.hash(), fc));
        if (fc == 'D' && r == OK && n < 260) { // the drawing also survives sorting, and its text shows it
            bool zero = in.size() & 1; if (zero) g->internalFlags |= FLAGS_ZEROBASEDIO; int k = 1 + (int)(order.size() % 3); for (int i = 0; i < k; i++) CHECK(LIB(gp_SortVertices(g)) == OK, "sort", "sorting the vertices of a drawing failed");
            Snap t = snapGraph(g, wc); if (k & 1) CHECK(t.edges() == in, "labels", "sorting does not restore the caller's labels; input %s", text().c_str());
            Drawing d; drawingOf(g, t, d, "the drawing after sorting"); checkDrawing(d, t, "the drawing after sorting"); char *rs = 0; CHECK(LIB(gp_DrawPlanar_RenderToString(g, &rs)) == OK && rs, "render", "rendering failed; input %s", text().c_str());
            string got = rs; simFree(rs); CHECK(got == expectedRendering(d, n, (int)in.size(), zero), "render", "the rendering does not show the drawing; input %s", text().c_str()); PROBE("swarm: rendering compared");
        } else if (n > 60) { CHECK(LIB(gp_SortVertices(g)) == OK, "sort", "sorting the vertices failed"); Snap t = snapGraph(g, wc); Edges te = t.edges(); CHECK(te == me, "labels", "sorting does not restore the caller's labels; input %s", text().c_str()); }
    }
    LIBV(gp_Free(&g));
}
bool swarmOp(const Op &op) {
    if (op.name == "one") { opLabel("one " + op.s(0)); oneGraph(op.s(0, "P")[0], parseGraphText(op, 1)); return true; }
    if (op.name == "big") { // big FLAG FAMILY SIZE SEED ORDER
        int f = ((op.i(1) % numFamilies) + numFamilies) % numFamilies, n = std::max(8, std::min(op.i(2, 100), 8000)); Rng r(op.i(3) * 977 + f); GenGraph gg = family(f, n, r); if (op.i(4) & 1) shuffleGraph(r, gg); if (op.i(4) & 2) std::reverse(gg.e.begin(), gg.e.end());
        char fc = op.s(0, "P")[0]; opLabel(strf("big %c family %d n=%d", fc, f, gg.n)); oneGraph(fc, gg, f); PROBE("large graphs certified"); return true; }
    if (op.name != "swarm") return false;
    u64 seed = strtoull(op.s(0, "1").c_str(), 0, 10); int count = op.i(1, 1), maxN = std::max(3, op.i(3, 12)); char f = op.s(2, "P")[0];
    for (int k = 0; k < count; k++) { opLabel(strf("swarm graph %d", k)); oneGraph(f, swarmGraph(seed, k, f, maxN)); }
    return true;
}
Plan expandPlan(const Plan &p) { // every batch spelled out, for the minimiser
    Plan q = p; q.L.clear();
    for (auto &l : p.L) { Op op = parseOp(l); if (op.name != "swarm") { q.L.push_back(l); continue; }
        u64 seed = strtoull(op.s(0, "1").c_str(), 0, 10); int count = op.i(1, 1), maxN = std::max(3, op.i(3, 12)); char f = op.s(2, "P")[0];
        for (int k = 0; k < count; k++) q.L.push_back(strf("one %c ", f) + graphText(swarmGraph(seed, k, f, maxN))); }
    return q;
}
