import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props  # noqa

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS + props.NOT_APPLICABLE:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        if p.get('state'):
            d['anchors']['state'] = p['state']
        if p.get('observe'):
            d['anchors']['observe_at'] = [p['observe']]
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py', 'checks': [], 'not_applicable': [
    {'property': p['id'], 'reason': p['reason']} for p in props.NOT_APPLICABLE],
    'notes': 'All checks are static: they parse the sources of /repo with the Python standard library and never import or run them.'}
for p in props.PROPS:
    man['checks'].append({
        'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'technique': p['tech'], 'level': 'other', 'level_note': p['note'], 'evidence_file': 'evidence/%s.json' % p['id']})
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
