#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.props import PROPS, NOT_APPLICABLE, NOTES      # noqa: E402
from checks import registry                              # noqa: E402

LEVEL_NOTE = {
    'gvn': 'Sound up to the modelled language, library semantics and the reference description when canonical terms are identical; '
           'remaining term differences are confirmed or rejected by interpreting both terms in random models, so a difference that '
           'no sampled model shows would be missed. Constructs outside of the modelled language are reported as undecided, not as violations.',
    'rule': 'Decides the rule on every path, call site and write found in the current source; trusts the front end and the modelled '
            'library semantics. Constructs outside of the modelled language are reported as undecided, not as violations.',
}


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            q = {'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': ' '.join(p['why'].split()),
                 'anchors': {'files': p['files'], 'state': p.get('state', []),
                             'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                             'observe_at': p['observe'], 'hook_needed': None}}
            f.write(json.dumps(q) + '\n')
    checks = []
    na = list(NOT_APPLICABLE)
    for p in PROPS:
        c = registry.CHECKS.get(p['id'])
        if c is None:
            if not any(x['property'] == p['id'] for x in na):
                na.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': '/opt/venv/bin/python check.py %s quick' % p['id'],
            'thorough_cmd': '/opt/venv/bin/python check.py %s thorough' % p['id'],
            'technique': c.technique, 'level': 'other', 'level_note': LEVEL_NOTE[c.kind],
            'evidence_file': 'evidence/%s.json' % p['id']})
    m = {'version': 1, 'setup_cmd': 'test -x /opt/venv/bin/python && /opt/venv/bin/python -c "import Cython, numpy"',
         'checks': checks, 'not_applicable': na, 'notes': NOTES}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
