"""Writes MANIFEST.json from checks.py, so the two cannot drift apart."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks  # noqa
out = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && test -x /opt/venv/bin/python',
       'checks': [], 'not_applicable': checks.NOT_APPLICABLE, 'notes': checks.NOTES}
for p in sorted(checks.PROPS):
    info = checks.PROPS[p]
    out['checks'].append({
        'property': p, 'quick_cmd': 'python3-vt check.py %s quick' % p,
        'thorough_cmd': 'python3-vt check.py %s thorough' % p,
        'technique': info.get('technique', checks.TECHNIQUE), 'level': info['level'],
        'level_note': info.get('note', checks.NOTE)})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
    json.dump(out, fp, indent=1)
    fp.write('\n')
