// P13: random generation for every random stream.  P12: interleaved callers on separate graphs.
#include "../core/world.h"
#include "../core/shared.h"

// ------------------------------------------------------------------ P13
static void g13(Rng &r, Plan &p, int tier) {
    int k = r.range(2, tier ? 14 : 9), lastN[4] = {0, 0, 0, 0};
    for (int i = 0; i < k; i++) {
        int s = r.chance(1, 2) ? 0 : r.below(4);
        int n = lastN[s] && r.chance(1, 2) ? lastN[s] : r.chance(1, 3) ? r.range(1, 7) : r.chance(1, 30) ? r.range(60, 400) : r.range(1, tier ? 60 : 30);
        if (n != lastN[s]) { if (r.chance(1, 4)) p.add(strf("free %d", s)); if (r.chance(1, 5)) p.add(strf("cap %d %d", s, 2 * r.range(1, 3 * n))); }
        if (r.chance(1, 6)) p.add(strf("attach %d %c", s, "D234"[r.below(4)]));
        lastN[s] = n;
        int kind = r.chance(2, 3), mode = r.below(9), until = mode == 0 ? 0 : r.chance(1, 3) ? r.range(1, 2 * n + 2) : r.range(0, 3000);
        int want; switch (r.below(8)) { case 0: want = 3 * n - 6; break; case 1: want = 3 * n; break; case 2: want = r.range(-2, n); break; case 3: want = r.range(n - 1, 3 * n); break; case 4: want = (int)std::min(2000000000L, (long)n * (n - 1) / 2); break; case 5: want = 3 * n - 6 + r.range(-2, 2); break; case 6: want = r.chance(1, 4) ? 2147483647 : r.range(3 * n, 4 * n + 9); break; default: want = r.range(0, 3 * n); }
        p.add(strf("rnd %d %d %d %d %d %llu %d", s, n, kind, want, mode, (unsigned long long)(r.next() % 1000000007), until));
        switch (r.below(10)) {
        case 0: case 1: case 2: { char f = "PPOD234"[r.below(7)]; if (f != 'P' && f != 'O') p.add(strf("attach %d %c", s, f)); if (n <= 40) p.add(strf("embed %d %c %d", s, f, r.below(2))); if (r.chance(1, 2)) p.add(strf("sort %d", s)); break; }
        case 3: p.add(strf("del %d %d %d 0", s, r.below(1000), r.below(50))); p.add(strf("add %d %d %d %d %d", s, r.below(1000), r.below(1000), r.below(2), r.below(2))); break;
        case 4: p.add(strf("dup %d %d", s, r.below(4))); break;
        case 5: p.add(strf("dfs %d", s)); if (r.chance(1, 2)) p.add(strf("sort %d", s)); break;
        case 6: p.add(strf("wrs %d %d", s, r.below(3))); break;
        default: break;
        }
    }
}
static void x13(const Plan &p) { stepFactor = 0; runWorld(p); }
static RegScenario r13({"P13", g13, x13, 0});

// ------------------------------------------------------------------ P12
// lines: "at CALLER op ..." in each caller's own order, "slice CALLER steps" the preemption schedule
void g12one(Rng &r, Plan &p, int tier);   // worlds.cpp: a short mixed history
static void g12(Rng &r, Plan &p, int tier) {
    int nc = r.chance(2, 3) ? 2 : r.range(2, tier ? 6 : 4);
    for (int c = 0; c < nc; c++) {
        Plan q; bool early = r.chance(3, 4);
        if (early) { // first use of extensions right at the start, where the schedule is fine-grained
            q.add("new 0"); for (int k = r.range(1, 3); k > 0; k--) q.add(strf("attach 0 %c", "D234"[r.below(4)])); q.add(strf("init 0 %d", r.range(4, 9)));
        }
        g12one(r, q, tier);
        for (auto &l : q.L) { p.add(strf("at %d ", c) + l);
            if (r.chance(1, 12)) p.add(strf("at %d file 0 %d", c, r.below(3)));
            if (r.chance(1, 20)) p.add(strf("at %d g6 0 %d", c, r.range(1, 4))); }
    }
    int ns = r.range(4, r.chance(1, 4) ? 400 : 80), fine = r.chance(3, 4) ? r.range(4, 60) : 0;
    for (int i = 0; i < ns; i++) {
        long n = i < fine ? r.range(1, 12) : r.chance(1, 3) ? r.range(1, 40) : r.chance(1, 2) ? r.range(1, 900) : r.range(1, 40000);
        p.add(strf("slice %d %ld", r.below(nc), n));
    }
}
static void extra(World &w, const Op &op) {
    int si = ((op.i(0) % 4) + 4) % 4; Slot4 &s = w.S[si]; if (s.ph != RAW || !s.undo.empty()) return; int me = fiberCurrent(); string nm = strf("caller%d.txt", me);
    bool zero = (s.g->internalFlags & FLAGS_ZEROBASEDIO) != 0;
    opLabel(strf("caller %d ", me) + op.name);
    Snap sn = snapGraph(s.g, "before writing"); obs(sn.hash());
    if (op.name == "file") {
        int mode = op.i(1) % 3; mode = mode == 0 ? WRITE_ADJLIST : mode == 1 ? WRITE_ADJMATRIX : WRITE_G6;
        if (mode != WRITE_ADJLIST && s.m.directed()) return; if (!s.ext.empty() && mode == WRITE_ADJLIST) { /* the drawing section may follow */ }
        int r = LIB(gp_Write(s.g, (char *)nm.c_str(), mode)); CHECK(r == OK, "write", "caller %d: writing its graph to a file gave %d", me, r);
        string got = fsGet(nm), want = mode == WRITE_ADJLIST ? adjListText(sn, zero) : mode == WRITE_ADJMATRIX ? matrixText(sn, zero) : g6Text(sn, true);
        bool same = got == want || got + "\n" == want || got == want + "\n" || (s.ext.count('D') && got.compare(0, want.size(), want) == 0);
        CHECK(same, "write", "caller %d: its file holds\n%s\nrather than\n%s", me, got.substr(0, 300).c_str(), want.substr(0, 300).c_str()); obsStr(got);
        graphP t = LIB(gp_New()); r = t ? LIB(gp_Read(t, (char *)nm.c_str())) : NOTOK; CHECK(r == OK, "read", "caller %d: reading its file back gave %d", me, r);
        Snap b = snapGraph(t, "read back"); CHECK(b.edges() == sn.edges(), "read", "caller %d: its graph read back has other edges", me); LIBV(gp_Free(&t)); PROBE("file written and read by a caller");
    } else if (op.name == "g6") {
        if (s.m.directed()) return; int k = std::max(1, op.i(1)); G6WriteIterator *wi = 0; G6ReadIterator *ri = 0;
        CHECK(LIB(allocateG6WriteIterator(&wi, s.g)) == OK && LIB(beginG6WriteIterationToG6FilePath(wi, (char *)nm.c_str())) == OK, "write", "caller %d: a G6 write iteration could not begin", me);
        for (int i = 0; i < k; i++) CHECK(LIB(writeGraphUsingG6WriteIterator(wi)) == OK, "write", "caller %d: G6 graph %d was not written", me, i);
        CHECK(LIB(endG6WriteIteration(wi)) == OK && LIB(freeG6WriteIterator(&wi)) == OK, "write", "caller %d: ending the G6 write iteration failed", me); obsStr(fsGet(nm));
        graphP t = LIB(gp_New()), h = 0; CHECK(t && LIB(allocateG6ReadIterator(&ri, t)) == OK && LIB(beginG6ReadIterationFromG6FilePath(ri, (char *)nm.c_str())) == OK, "read", "caller %d: a G6 read iteration could not begin", me);
        int got = 0; while (true) { CHECK(LIB(readGraphUsingG6ReadIterator(ri)) == OK, "read", "caller %d: G6 graph %d was not read", me, got); LIBV(getPointerToGraphReadIn(ri, &h)); if (!h) break; Snap b = snapGraph(h, "G6 graph"); CHECK(b.edges() == sn.edges(), "read", "caller %d: G6 graph %d has other edges", me, got); got++; }
        CHECK(got == k, "read", "caller %d: %d G6 graphs were read, %d written", me, got, k); LIBV(endG6ReadIteration(ri)); LIBV(freeG6ReadIterator(&ri)); LIBV(gp_Free(&t)); PROBE("G6 iterations by a caller");
    }
    fsRemove(nm);
    CHECK(sameRotation(snapGraph(s.g, "after writing"), sn, 0), "write", "caller %d: writing changed the graph", me);
}
static void x12(const Plan &p) {
    stepFactor = 0; vector<vector<Op>> prog; vector<Slice> sch;
    for (auto &l : p.L) {
        if (l.compare(0, 3, "at ") == 0) { int c = std::max(0, atoi(l.c_str() + 3)) % 8; size_t b = l.find(' ', 3); if (b == string::npos) continue; while ((int)prog.size() <= c) prog.push_back({}); prog[c].push_back(parseOp(l.substr(b + 1))); }
        else { Op o = parseOp(l); if (o.name == "slice") sch.push_back({std::max(0, o.i(0)), (u64)std::max(1, o.i(1))}); }
    }
    if (prog.empty()) return;
    auto body = [&](int c) { return [&prog, c]() { World w; for (auto &op : prog[c]) { if (op.name == "rnd") continue; if (op.name == "file" || op.name == "g6") extra(w, op); else w.exec(op); } w.finish(); }; };
    fiberObsReset();
    vector<std::function<void()>> bodies; for (size_t c = 0; c < prog.size(); c++) bodies.push_back(body((int)c));
    int sw = fibersRun(bodies, sch); PROBEN("preemptive switches", sw); if (prog.size() > 2) PROBE("more than two callers");
    CHECK(heapLive() == 0 && fsOpenHandles() == 0, "leak", "%zu blocks and %d files remain after all callers finished", heapLive(), fsOpenHandles());
    vector<u64> together; for (size_t c = 0; c < prog.size(); c++) { together.push_back(fiberObs((int)c)); obs(together[c]); }
    // every caller alone, from the same initial state of the library
    for (size_t c = 0; c < prog.size(); c++) {
        libStateReset(); fiberObsReset(); bodies.assign(prog.size(), []() {}); bodies[c] = body((int)c); opLabel(strf("caller %d alone", (int)c)); fibersRun(bodies, {});
        CHECK(fiberObs((int)c) == together[c], "interference", "caller %d obtains other results alone than interleaved with the others", (int)c);
    }
}
static RegScenario r12({"P12", g12, x12, 0});
