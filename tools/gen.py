#!/opt/venv/bin/python
"""Write properties.jsonl and MANIFEST.json from tools/props.py and the checks' own descriptions."""
import importlib
import json
import os
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [TOP, os.path.join(TOP, 'tools')]
import props  # noqa

TECH = 'explicit-state exploration of the real code: exhaustive bounded enumeration'
EXTRA = dict(C08='stateless model checking of the real code: complete random-choice tree',
             C10='stateless model checking of the real code: complete random-choice tree',
             C14='stateless model checking of the real code: complete random-choice tree',
             C15='stateless model checking of the real code: complete random-choice tree',
             C16='stateless model checking of the real code: complete random-choice tree',
             C09='stateless model checking of the real code: every accept/reject history',
             C29='explicit-state exploration of all operation sequences up to a depth on the real code',
             C11='explicit-state exploration of all operation sequences up to a depth on the real code',
             C22='explicit-state exploration of all operation sequences up to a depth on the real code')
claimed = []
for pp in props.P:
    ID = pp['id']
    try:
        mod = importlib.import_module('mc.checks.' + ID.lower())
    except ModuleNotFoundError:
        print('no check for', ID)
        continue
    assert mod.TITLE == pp['title'], (ID, mod.TITLE, pp['title'])
    assert len(pp['title']) <= 80, ID
    note = 'Within the bounds (quick: {}; thorough: {}) every case is run on the real code and compared to an independent reference. Trusts: {}.'.format(
        mod.BOUNDS['quick'], mod.BOUNDS['thorough'], '; '.join(mod.ASSUMPTIONS))
    claimed.append(dict(
        property=ID, quick_cmd=f'bin/check {ID} --tier quick', thorough_cmd=f'bin/check {ID} --tier thorough',
        evidence_file=f'evidence/{ID}.json', technique=EXTRA.get(ID, TECH), level='model_checking', level_note=note))
with open(os.path.join(TOP, 'properties.jsonl'), 'w') as out:
    for pp in props.P:
        out.write(json.dumps(pp) + '\n')
man = dict(
    version=1,
    setup_cmd='/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'/verif\'); import mc.main"',
    checks=claimed,
    not_applicable=[dict(property=pp['id'], reason='no check yet') for pp in props.P if pp['id'] not in [cc['property'] for cc in claimed]],
    notes='kalepy is pure Python (numba): checks import it from /repo, so no hooks are needed. See DESIGN.md.')
with open(os.path.join(TOP, 'MANIFEST.json'), 'w') as out:
    json.dump(man, out, indent=1)
    out.write('\n')
