#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
T_LL = 'bounded symbolic execution of the compiled LLVM IR with SMT (z3), counterexamples replayed natively'
NOTE = {
 'C01': 'Every answer of the cache is compared with an ideal LRU map for all keys and values along every operation sequence within the bound; bounded, not a proof for longer histories.',
 'C02': 'All byte strings up to the length bound, plus long PUSH layouts; bounded by code length.',
 'C03': 'Lock discipline and interference in the unlocked window decided symbolically; races are confirmed with two real threads under ThreadSanitizer before being reported. Assumes pthread locks.',
}
EV = {1: 'value', 2: 'stack', 3: 'gas', 4: 'read-only mode', 5: 'memory', 6: 'control flow', 7: 'host requests', 8: 'whole-program outcome'}
claimed = {k: (T_LL, NOTE[k]) for k in ('C01', 'C02', 'C03')}
for k in range(1, 9):
    claimed['E%02d' % k] = (T_LL, 'The %s of single instructions (and, for E08, of a catalogue of small programs) is compared with an independently written EVM definition for all symbolic inputs within the stated bounds; trusts that definition, clang and the stand-ins for absent libraries.' % EV[k])
NA = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
m = dict(version=1, setup_cmd='true',
         checks=[dict(property=p, quick_cmd='python3-vt check.py %s quick' % p, thorough_cmd='python3-vt check.py %s thorough' % p, technique=claimed[p][0], level='model_checking', level_note=claimed[p][1]) for p in props if p in claimed],
         not_applicable=[dict(property=p, reason=NA.get(p, NA_DEFAULT)) for p in props if p not in claimed])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
