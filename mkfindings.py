#!/usr/bin/env python3
"""Writes known-findings.txt from the fix commits in /repo (fixed: lines) and findings.in (recorded defects)."""
import subprocess, os, re
here = os.path.dirname(os.path.abspath(__file__))
PROP = [  # first match decides the property a repair belongs to
 (r'K33|K23|K4', 'P02'), (r'[Mm]enu|interactive session|typed by the user|question', 'P15'),
 (r'command.line|command arg|commands|SpecificGraph|TestAllGraphs|TransformGraph|testing all|mode|transformation self-tests|[Tt]extFile|announced|random graph searches', 'P14'),
 (r'DupContext|copying|CopyGraph|CopyExtensions|copied|copies', 'P05'),
 (r'attach', 'P06'), (r'SetDirection|_RestoreVertex|gp_RestoreVertex|theStack|InsertEdge|GetArcCapacity', 'P04'),
 (r'LeastAncestor', 'P11'), (r'render|drawing|RenderToFile', 'P03'), (r'integrity checks', 'P06'),
 (r'G6 (read|decod|single|readers)|iterator', 'P10'), (r'_Read|gp_Read', 'P08'), (r'_Write|gp_Write|G6 encoding|written', 'P09'),
 (r'[Rr]andom', 'P13'), (r'alloc', 'P07'),
]
over = {}
try:
    for l in open(os.path.join(here, 'findings.over')):
        k, v = l.split(); over[k] = v
except FileNotFoundError: pass
out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%H %s', '8a2f535..'], capture_output=True, text=True).stdout
L = ['# Repaired defects ("fixed:" lines suppress nothing) and recorded defects ("finding:" lines:',
     '# finding: property=<id> class=<violation class or *> match="<regex on the message>" <what fails>)']
for l in out.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    s = s[5:]; p = over.get(h[:7])
    if not p:
        for rx, q in PROP:
            if q and re.search(rx, s): p = q; break
    L.append('fixed: property=%s %s %s' % (p or 'P07', h[:12], s))
try: L += [l.rstrip('\n') for l in open(os.path.join(here, 'findings.in')) if l.strip()]
except FileNotFoundError: pass
open(os.path.join(here, 'known-findings.txt'), 'w').write('\n'.join(L) + '\n')
