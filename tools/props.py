#!/usr/bin/python3
"""Single source for properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None,
         level='exploration', note='', technique=None, na=None, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state or [], observe=observe or [], hook=hook, level=level, note=note,
                  technique=technique, na=na, claimed=claimed))

B = 'pyslet/pyslet/'
exec(open(os.path.join(ROOT, 'tools', 'props_data.py')).read())

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': [B + x for x in p['files']],
                            'mechanism': [{'name': n, 'where': B + w} for n, w in p['mech']],
                            'state': [{'name': n, 'meaning': m, 'where': B + w} for n, m, w in p['state']],
                            'observe_at': p['observe'], 'hook_needed': p['hook']}}) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
        elif not os.path.exists(os.path.join(ROOT, 'sim', 'scen', p['id'].lower() + '.py')):
            na.append({'property': p['id'], 'reason': 'check under construction: not claimed yet'})
        else:
            checks.append({'property': p['id'],
                           'quick_cmd': 'bin/check %s --tier quick' % p['id'],
                           'thorough_cmd': 'bin/check %s --tier thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['technique'] or 'deterministic simulation with fault injection: seeded search over schedules and faults',
                           'level': p['level'], 'level_note': p['note']})
    m = {'version': 1, 'setup_cmd': 'bin/setup',
         'hooks': {'guard': HOOK_GUARD, 'enable': HOOK_ENABLE, 'source_commits': HOOK_COMMITS},
         'checks': checks, 'not_applicable': na, 'notes': NOTES}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, sort_keys=False); f.write('\n')
main()
