#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = {
 'P01': 'deterministic simulation: seeded histories with allocation faults, Euler/subdivision certificates and a reference planarity test',
 'P02': 'deterministic simulation: seeded histories with allocation faults, witness check and reference homeomorph tests',
 'P03': 'deterministic simulation: seeded histories, independent visibility-representation checker over the recorded drawing',
 'P04': 'deterministic simulation: seeded edit histories against an executable ordered-adjacency model',
 'P05': 'deterministic simulation: seeded multi-object histories with copies, model per object',
 'P06': 'deterministic simulation: seeded attach/detach histories, twin runs without the extensions',
 'P07': 'deterministic simulation with allocation-failure injection inside every kind of call',
 'P08': 'deterministic simulation of the input device: torn, mutated, short, failing sources against a strict reference parser',
 'P09': 'deterministic simulation of the output device: refused, torn, unflushed, unclosed writes against reference texts',
 'P10': 'deterministic simulation of G6 streams: damaged and failing streams against a reference decoder',
 'P11': 'deterministic simulation: seeded histories, DFS/lowpoint definitions as oracle',
 'P12': 'deterministic simulation of concurrent callers: seeded preemption at basic blocks, solo runs as oracle',
 'P13': 'deterministic simulation of the random number source: seeded and adversarial streams, contract oracle',
 'P14': 'deterministic simulation of the whole program: simulated files, console, clock; reference verdicts and tallies',
 'P15': 'deterministic simulation of the interactive console: seeded scripts cut or failing anywhere, reference session model',
 'P16': 'deterministic simulation with a step clock: step budget per call linear in n+m over seeded histories',
}
NOTE = 'Seeded search over histories, schedules and faults on the real code; every violation is gated by two identical re-runs, minimised and replayed in a fresh process. Evidence, not proof; trusts the reference oracles in sim/core and the link-time seams.'
CLAIMED = open(os.path.join(here, 'claimed.txt')).read().split()
m = {'version': 1, 'setup_cmd': 'chmod +x check sim/build.sh && clang --version >/dev/null',
 'hooks': {'guard': 'none', 'enable': 'No hooks: /repo is compiled unmodified; all seams are link-time (--wrap, fopencookie, objcopy section renaming, sanitizer coverage callbacks).', 'source_commits': []},
 'checks': [{'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': 'env VERIF_TIER=thorough ./check ' + p, 'evidence_file': 'evidence/%s.json' % p, 'technique': TECH[p], 'level': 'exploration', 'level_note': NOTE} for p in props if p in CLAIMED],
 'not_applicable': [{'property': p, 'reason': 'no check has been built yet'} for p in props if p not in CLAIMED],
 'notes': 'Replay a violation with ./check replay FILE. known-findings.txt lists repaired and recorded defects.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
