// Plan generators for the properties decided on the graph-object world (core/world.cpp).
#include "../core/world.h"

struct Mix { int maxN, episodes, fault; int edit, embed, copy, ext, dfs, io, reset; const char *flags; int twin; };
struct Gen {
    Rng &r; Plan &p; Mix x; int lastN[4] = {0, 0, 0, 0};
    Gen(Rng &r_, Plan &p_, Mix m) : r(r_), p(p_), x(m) {}
    string flt() {
        if (x.fault <= 0 || !r.chance(x.fault, 1000)) return "";
        int k = r.chance(1, 2) ? r.range(1, 5) : r.chance(2, 3) ? r.range(1, 20) : r.range(1, 90);
        return strf(" | %c:%d", r.chance(3, 4) ? 'a' : 'A', k);
    }
    void op(const string &s, bool f = true) { p.add(f ? s + flt() : s); }
    char flag() { return x.flags[r.below((int)strlen(x.flags))]; }
    static char ext(char f) { return f == 'P' || f == 'O' ? 0 : f; }
    void fresh(int s, int maxN = 0, char f = 'P') {
        GenGraph g = genGraph(r, maxN ? maxN : x.maxN, ::kindFor(r, f));
        if (lastN[s] >= g.n && r.chance(1, 2)) g.n = lastN[s]; // same order: the object is reinitialised and reused
        if (r.chance(1, 8)) op(strf("free %d", s), false);
        if (r.chance(1, 10)) op(strf("cap %d %d", s, 2 * r.range(1, 4 * g.n)));
        lastN[s] = g.n; p.add(strf("graph %d ", s) + graphText(g));
    }
    void edits(int s, int k) {
        for (int i = 0; i < k; i++) {
            int a = r.below(1000), b = r.below(1000), c = r.below(50);
            switch (r.below(20)) {
            case 0: case 1: case 2: op(strf("add %d %d %d %d %d", s, a, b, r.below(2), r.below(2))); break;
            case 3: case 4: case 5: op(strf("dyn %d %d %d %d %d", s, a, b, r.below(2), r.below(2))); break;
            case 6: case 7: case 8: op(strf("ins %d %d %d %d %d %d %d", s, a, b, r.range(-1, 6), r.below(2), r.range(-1, 6), r.below(2))); break;
            case 9: case 10: case 11: op(strf("del %d %d %d %d", s, a, c, r.below(2))); break;
            case 12: op(strf("dir %d %d %d %d", s, a, c, r.below(3))); break;
            case 13: op(strf("hide %d %d %d", s, a, c)); break;
            case 14: op(strf("bad %d %d %d %d", s, a, b, c)); break;
            case 15: op(strf("cap %d %d", s, r.chance(1, 6) ? r.range(-3, 9) : 2 * r.range(1, 6 * std::max(2, lastN[s])))); break;
            case 16: op(strf("undo %d", s)); break;
            default: { // a burst of stacked operations, undone in part or in full, and possibly a dense corner
                if (r.chance(1, 3)) { for (int q = r.range(2, 12); q > 0; q--) op(strf("dyn %d %d %d %d %d", s, a, r.below(1000), r.below(2), r.below(2))); break; }
                int d = r.range(1, 6); for (int q = 0; q < d; q++) switch (r.below(5)) {
                    case 0: case 1: op(strf("hide %d %d %d", s, r.below(1000), r.below(50))); break;
                    case 2: op(strf("hidev %d %d", s, r.below(1000))); break;
                    case 3: op(strf("contract %d %d %d", s, r.below(1000), r.below(50))); break;
                    default: op(strf("ident %d %d %d %d", s, r.below(1000), r.below(1000), r.range(-1, 6))); break;
                }
                if (r.chance(1, 4)) op(strf("dir %d %d %d %d", s, r.below(1000), r.below(50), r.below(3)));
                if (r.chance(3, 4)) op(strf("undoall %d", s)); else for (int q = r.below(d + 1); q > 0; q--) op(strf("undo %d", s));
                break; }
            }
        }
    }
    void afterEmbed(int s) {
        int k = r.below(4); for (int i = 0; i < k; i++) switch (r.below(9)) {
            case 0: case 1: op(strf("sort %d", s)); break;
            case 2: op(strf("integ %d", s)); break;
            case 3: op(strf("wrs %d %d", s, r.below(3))); break;
            case 4: op(strf("render %d", s)); break;
            case 5: op(strf("savedraw %d %d", s, r.below(4))); break;
            case 6: op(strf("dup %d %d", s, r.below(4))); break;
            case 7: op(strf("copy %d %d", s, r.below(4))); break;
            default: op(strf("%s %d %c", r.chance(1, 2) ? "attach" : "detach", s, "D234"[r.below(4)])); break;
        }
    }
    void embed(int s, char f = 0) {
        if (!f) f = flag(); if (ext(f)) op(strf("attach %d %c", s, ext(f)));
        op(strf("undoall %d", s));
        op(strf("embed %d %c %d", s, f, r.chance(x.twin, 100) ? 1 : 0)); afterEmbed(s);
    }
    void episode() {
        int s = r.chance(1, 2) ? 0 : r.below(4); int tot = x.edit + x.embed + x.copy + x.ext + x.dfs + x.io + x.reset, q = r.below(tot);
        if (!lastN[s]) { fresh(s); }
        if ((q -= x.edit) < 0) { if (r.chance(1, 6)) fresh(s, 8); edits(s, r.range(2, 14)); if (r.chance(1, 2)) op(strf("undoall %d", s)); return; }
        if ((q -= x.embed) < 0) { char f = flag(); if (r.chance(2, 3)) fresh(s, 0, f); else if (r.chance(1, 2)) { op(strf("undoall %d", s)); edits(s, r.range(1, 6)); } embed(s, f); if (r.chance(1, 4)) op(strf("reinit %d", s)); return; }
        if ((q -= x.copy) < 0) {
            int t = r.below(4); if (t == s) t = (s + 1) & 3;
            switch (r.below(5)) {
            case 0: case 1: op(strf("dup %d %d", s, t)); lastN[t] = lastN[s]; break;
            case 2: if (r.chance(1, 2)) { p.add(strf("graph %d %d", t, std::max(1, lastN[s]))); lastN[t] = lastN[s]; } op(strf("copy %d %d", s, t)); break;
            case 3: p.add(strf("graph %d %d", t, std::max(1, lastN[s]))); lastN[t] = lastN[s]; op(strf("copyadj %d %d", s, t)); break;
            default: op(strf("cap %d %d", t, 2 * r.range(1, 5 * std::max(2, lastN[s])))); op(strf("copy %d %d", s, t)); break;
            }
            if (r.chance(1, 3)) edits(r.chance(1, 2) ? s : t, r.range(1, 5));
            if (r.chance(1, 3)) embed(r.chance(1, 2) ? s : t);
            if (r.chance(1, 5)) op(strf("free %d", r.chance(1, 2) ? s : t), false);
            return; }
        if ((q -= x.ext) < 0) { for (int i = r.range(1, 4); i > 0; i--) op(strf("%s %d %c", r.chance(3, 5) ? "attach" : "detach", s, "D234"[r.below(4)])); if (r.chance(1, 4)) op(strf("cap %d %d", s, 2 * r.range(1, 8 * std::max(2, lastN[s])))); if (r.chance(1, 6)) { op(strf("free %d", s), false); op(strf("new %d", s)); op(strf("attach %d %c", s, "D234"[r.below(4)])); op(strf("init %d %d", s, lastN[s] = r.range(1, x.maxN))); } return; }
        if ((q -= x.dfs) < 0) { if (r.chance(1, 2)) fresh(s); op(strf("undoall %d", s)); for (int i = r.range(1, 5); i > 0; i--) switch (r.below(6)) { case 0: case 1: op(strf("dfs %d", s)); break; case 2: case 3: op(strf("sort %d", s)); break; case 4: op(strf("lowpt %d", s)); break; default: op(strf("least %d", s)); break; }
            if (r.chance(1, 4)) op(strf("dup %d %d", s, r.below(4))); if (r.chance(1, 5)) op(strf("wrs %d %d", s, r.below(3))); if (r.chance(1, 2)) op(strf("reinit %d", s)); return; }
        if ((q -= x.io) < 0) { int k = r.below(3); if (k == 0) op(strf("wrs %d %d", s, r.below(3))); else if (k == 1) { GenGraph g = genGraph(r, x.maxN); lastN[s] = g.n; op(strf("rds %d %d ", s, r.below(6)) + graphText(g)); if (r.chance(1, 2)) embed(s); } else op(strf("wrs %d %d", r.below(4), r.below(3))); return; }
        if (r.chance(1, 2)) op(strf("reinit %d", s)); else { op(strf("free %d", s), false); lastN[s] = 0; }
    }
    void swarm() { for (int i = r.range(1, 3); i > 0; i--) p.add(strf("swarm %llu %d %c %d", (unsigned long long)(r.next() >> 20), r.range(20, 150), flag(), r.chance(1, 6) ? x.maxN * 2 : x.maxN)); }
    void big() { for (int i = r.range(1, 3); i > 0; i--) p.add(strf("big %c %d %d %d %d", flag(), r.below(numFamilies), r.chance(1, 2) ? r.range(30, 130) : r.chance(4, 5) ? r.range(100, 260) : r.range(300, 2000), r.below(100000), r.below(4))); }
    void run() { int k = r.range(2, x.episodes); for (int i = 0; i < k; i++) episode(); }
};
static void go(Rng &r, Plan &p, Mix m, int tier) { if (tier) { m.maxN = m.maxN * 3 / 2; m.episodes = m.episodes * 3 / 2; } if (r.chance(1, 3)) m.maxN = std::max(4, m.maxN / 2); Gen(r, p, m).run(); }
//                                              maxN ep  flt edit emb copy ext dfs io rst flags     twin
static bool swarmRun(Rng &r, Plan &p, Mix m, int num) { if (r.chance(1, 60)) { Gen(r, p, m).big(); return true; } if (!r.chance(num, 12)) return false; Gen(r, p, m).swarm(); return true; }
static void g01(Rng &r, Plan &p, int t) { if (swarmRun(r, p, {18, 1, 0, 0, 0, 0, 0, 0, 0, 0, "PPOOD", 0}, 1)) return; go(r, p, {26, 12, 8, 4, 10, 2, 2, 1, 2, 1, "PPOOPOD", 50}, t); }
static void g02(Rng &r, Plan &p, int t) { if (swarmRun(r, p, {16, 1, 0, 0, 0, 0, 0, 0, 0, 0, "22333344", 0}, 2)) return; go(r, p, {r.chance(1, 4) ? 36 : 16, 12, 8, 3, 10, 2, 2, 1, 1, 1, "223344", 50}, t); }
static void g03(Rng &r, Plan &p, int t) { if (swarmRun(r, p, {18, 1, 0, 0, 0, 0, 0, 0, 0, 0, "D", 0}, 1)) return; go(r, p, {26, 10, 8, 2, 10, 2, 1, 1, 2, 1, "D", 30}, t); }
static void g04(Rng &r, Plan &p, int t) { go(r, p, {12, 12, 30, 14, 1, 1, 1, 0, 0, 1, "PO3", 0}, t); }
static void g05(Rng &r, Plan &p, int t) { go(r, p, {16, 12, 15, 4, 3, 14, 2, 1, 1, 1, "POD234", 20}, t); }
static void g06(Rng &r, Plan &p, int t) { go(r, p, {14, 14, 15, 3, 6, 3, 12, 1, 1, 1, "POD234", 90}, t); }
static void g07(Rng &r, Plan &p, int t) { go(r, p, {12, 9, 600, 2, 5, 4, 4, 2, 4, 1, "POD234", 0}, t); }
static void g11(Rng &r, Plan &p, int t) { go(r, p, {24, 12, 10, 3, 1, 2, 1, 14, 0, 1, "PO", 0}, t); }
static void run(const Plan &p) { stepFactor = 0; runWorld(p); }
static RegScenario r01({"P01", g01, run, 0}), r02({"P02", g02, run, 0}), r03({"P03", g03, run, 0}), r04({"P04", g04, run, 0}), r05({"P05", g05, run, 0}), r06({"P06", g06, run, 0}), r07({"P07", g07, run, 0}), r11({"P11", g11, run, 0});
void g12one(Rng &r, Plan &p, int t) { go(r, p, {12, 4, 30, 3, 6, 3, 6, 1, 2, 1, "POD234", 10}, t); }
