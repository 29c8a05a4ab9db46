// Stored documents (graphs in the four file formats), their damage, and strict reference parsers.
#pragma once
#include "world.h"
enum { VALID, BAD, GREY };
enum { F_ADJ, F_MAT, F_G6, F_LEDA };
struct Tok { size_t off, len; char role; int v; }; // N count, v vertex, w neighbour, t terminator, f flag, o g6 order, d g6 data, M leda count, e leda endpoint, h header
struct Doc { string text; vector<Tok> tok; int fmt = 0, n = 0; size_t lastSig = 0, ledaBad = 0; int muts = 0, verdict = VALID; bool stream = false, hdr = false; vector<Edges> seq; };
struct Parsed { int n = 0; vector<vector<int>> lists; bool directed = false; bool ordered = false; Edges edges; vector<Edge> arcsOnly; };
struct G6 { vector<Edges> g; int n = 0; int end = 0; }; // end: 0 clean, 1 bad line after g.size() graphs, 2 unspecified from there on
bool strictAny(const string &t, Parsed &r);
G6 decodeG6(const string &t);
struct DocWorld { void *w; DocWorld(); ~DocWorld(); void exec(const Op &op); const Doc *get(const string &name) const; };
