"""Writes MANIFEST.json: every property with a driver is claimed."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_CLAIMED = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8')]
man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'drivers', i.lower() + '.py')) and i not in NOT_CLAIMED:
        man['checks'].append({
            'property': i,
            'quick_cmd': 'VERIF_TIER=quick python3 run_check.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 run_check.py ' + i,
            'technique': 'TLA+ specification checked with TLC; TLC behaviours replayed in the code and recorded executions of the code validated against the specification',
            'level': 'model_checking',
            'level_note': 'Exhaustive for the specification within the small constants of its MC configuration; '
                          'the code is bound to it by replaying those behaviours and by trace validation of generated '
                          'executions, so the code itself is covered on the executions explored, not on all inputs.'})
    else:
        man['not_applicable'].append({'property': i, 'reason': NOT_CLAIMED.get(i, 'specification not built yet')})
man['notes'] = 'No hooks: the public API exposes the observed state.'
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)
print(len(man['checks']), 'checks', len(man['not_applicable']), 'not claimed')
