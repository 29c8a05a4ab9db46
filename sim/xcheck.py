#!/opt/veriftools/pyvenv/bin/python3
"""Cross-check the reference oracles against networkx (planarity) and brute-force minors.
usage: xcheck.py SIMULATE [count] [n]     (K5/K3,3-free etc. by exhaustive contraction; n <= 8)"""
import subprocess, sys, itertools, functools
import networkx as nx
sim, count, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 2000, int(sys.argv[3]) if len(sys.argv) > 3 else 8
def minor(n, edges, targets):
    """which targets are minors: contract edges exhaustively, test subgraph containment at each stage"""
    found = set(); seen = set()
    def contains(vs, es, t):
        tn, te = t
        if len(vs) < tn or len(es) < len(te): return False
        adj = {v: set() for v in vs}
        for u, v in es: adj[u].add(v); adj[v].add(u)
        tdeg = [sum(i in e for e in te) for i in range(tn)]
        def go(i, m):
            if i == tn: return True
            for v in vs:
                if v in m or len(adj[v]) < tdeg[i]: continue
                if all((m[a] in adj[v]) for a, b in te if b == i and a < i) and all((m[b] in adj[v]) for a, b in te if a == i and b < i):
                    if go(i + 1, m + [v]): return True
            return False
        return go(0, [])
    def rec(vs, es):
        key = (vs, es)
        if key in seen or len(found) == len(targets): return
        seen.add(key)
        for k, t in targets.items():
            if k not in found and contains(vs, es, t): found.add(k)
        m = min(t[0] for k, t in targets.items() if k not in found) if len(found) < len(targets) else 99
        if len(vs) <= m: return
        for u, v in es:
            ne = frozenset((min(a, b), max(a, b)) for a, b in (((u if x == v else x), (u if y == v else y)) for x, y in es) if a != b)
            rec(vs - {v}, ne)
    rec(frozenset(range(1, n + 1)), frozenset(edges))
    return found
T = {'K4': (4, list(itertools.combinations(range(4), 2))), 'K23': (5, [(a, b) for a in (0, 1) for b in (2, 3, 4)]), 'K33': (6, [(a, b) for a in range(3) for b in range(3, 6)])}
bad = 0; cnt = [0] * 5; total = 0
out = subprocess.run([sim, 'oracle', '--from', '0', '--to', str(count), '--n', str(n)], capture_output=True, text=True).stdout
for l in out.splitlines():
    f = l.split(); N = int(f[0]); ans = [c == '1' for c in f[1]]; E = [tuple(map(int, e.split('-'))) for e in f[2:]]
    G = nx.Graph(); G.add_nodes_from(range(1, N + 1)); G.add_edges_from(E)
    H = G.copy(); H.add_edges_from((0, v) for v in range(1, N + 1))
    mine = [nx.check_planarity(G)[0], nx.check_planarity(H)[0]]
    if n <= 8: mm = minor(N, E, T); mine += ['K4' in mm, 'K23' in mm, 'K33' in mm]
    total += 1
    for i, x in enumerate(mine): cnt[i] += x
    if mine != ans[:len(mine)]: bad += 1; print('DISAGREE', l, mine)
print('%d graphs, n <= %d, answers true %s, disagreements %d' % (total, n, cnt, bad)); sys.exit(bad != 0)
