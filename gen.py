#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the check modules."""
import glob
import importlib
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = ('static value-flow analysis (abstract interpretation of the syntax '
        'trees to value numbers, algebraic normal forms and random '
        'interpretation)')
NOTE = ('Every obligation is decided on terms derived from the current source '
        'for all inputs in the stated scope; trusts the models of '
        'numpy/scipy/numba in wsa/models.py and real-number arithmetic. '
        'Algebraic identities not settled by normal forms are decided by '
        'random interpretation (error probability negligible, counted in the '
        'evidence). What cannot be resolved is listed as undecided, never '
        'reported as a violation.')


def main():
    props, checks, na = [], [], []
    mods = [importlib.import_module('wsa.checks.' + os.path.basename(f)[:-3])
            for f in sorted(glob.glob(os.path.join(HERE,
                                                   'wsa/checks/c*.py')))]
    import wsa.notapplicable as N
    for p in [m.PROP for m in mods] + N.PROPS:
        props.append({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [
                {'name': a, 'where': b} for a, b in p['mechanism']]}})
        assert len(p['title']) <= 80, p['title']
        for f in p['files']:
            assert os.path.exists(os.path.join('/repo', f)), f
        if 'reason' in p:
            na.append({'property': p['id'], 'reason': p['reason']})
        else:
            checks.append({
                'property': p['id'],
                'quick_cmd': 'python3 -m wsa %s --tier quick' % p['id'],
                'thorough_cmd': 'python3 -m wsa %s --tier thorough' % p['id'],
                'technique': p.get('technique', TECH), 'level': 'other',
                'level_note': p.get('note', NOTE)})
    props.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q wsa',
                   'checks': checks, 'not_applicable': na,
                   'notes': 'Generated by gen.py from wsa/checks/*.py. All '
                   'checks parse /repo and never import or run it.'},
                  f, indent=1)
    print(len(checks), 'checks,', len(na), 'not applicable')


main()
