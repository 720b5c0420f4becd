"""Writes MANIFEST.json and checks/setup list from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ specification checked with TLC; '
WIRE = ('TLC checks the laws of the format on every concatenation of vocabulary tokens up to the bound and re-enacts every recorded call of the '
        'real library with the specification; beyond the enumerated bound the inputs are sampled (VERIF_SEED). Trusted: the specification, TLC, the drivers.')
DONE = {
    'W01': (T + 'bounded model replayed into the decoder + trace validation of recorded decodes', WIRE),
    'W02': (T + 'all short strings over tag alphabets replayed + trace validation of mutated and truncated streams under ASan/UBSan', WIRE),
    'W03': (T + 'trace validation of recorded encodes and round trips (values from the bounded model and sampled)', WIRE),
    'W04': (T + 'trace validation of decodes under every cut and sampled segmentations', WIRE),
    'W05': (T + 'trace validation of encodes through every kind of output', WIRE),
    'W06': (T + 'bounded model replayed + trace validation of retained unknown bytes', WIRE),
    'W07': (T + 'trace validation of nested messages around the limit', WIRE),
    'W08': (T + 'bounded model over enum tokens replayed + trace validation', WIRE),
    'W09': (T + 'bounded model over map entries replayed + trace validation', WIRE),
    'W10': (T + 'bounded model over oneof occurrence sequences replayed + trace validation', WIRE),
    'W11': (T + 'merge law checked on the bounded model + trace validation of recorded merges', WIRE),
}
NA = {}
LEVEL = {}
exec(open(os.path.join(V, 'lib', 'manifest_more.py')).read()) if os.path.exists(os.path.join(V, 'lib', 'manifest_more.py')) else None
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 checks/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 checks/run.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 checks/run.py %s --tier thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': DONE[p['id']][0], 'level': LEVEL.get(p['id'], 'model_checking'), 'level_note': DONE[p['id']][1]}
                for p in props if p['id'] in DONE],
     'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'no check yet')} for p in props if p['id'] not in DONE]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
