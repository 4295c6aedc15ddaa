"""writes MANIFEST.json from the spec modules present and the reasons below"""
import json, os, sys, jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = {
 'C01': 'All 2^64 inputs and all 276 buckets; exception set of the statement proved exactly.',
 'C02': 'All ints, all doubles, strings of every length; the appended stream is a contract (C03 proves what becomes of it).',
}
NA = {
 'C27': 'Lifetime of shared meters under concurrent expiry is a property of interleavings of several threads over a hash map and raw pointers; '
        'it needs ownership/permission reasoning about threads that sequential contracts over LLVM IR cannot express (the current code is in fact racy: see DESIGN.md).',
 'C28': 'Termination of stop() is liveness over thread schedules (condition variables, asio event loops); pre/postcondition contracts are silent on it.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/vc/specs/%s.py' % (V, i.lower())):
        checks.append(dict(property=i, quick_cmd='python3-vt vc/check.py %s quick' % i, thorough_cmd='python3-vt vc/check.py %s thorough' % i,
                           technique='contract-based deductive verification: contracts on the real functions, VCs generated from the LLVM IR of /repo (own generator), '
                                     'discharged by z3/cvc5; failing obligations replayed on the real code',
                           level='proof', level_note=NOTE.get(i, 'Unbounded: every obligation of the functions listed in the evidence is discharged for all inputs; trusted contracts and '
                                                              'assumptions are listed there. A bounded native run of the real code accompanies the proof and is not counted as proved.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no contract within reach has been built for it; see DESIGN.md')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
