"""Regenerates properties.jsonl and MANIFEST.json from the check modules (checks/cNN.py)."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vp import engine  # noqa: E402,F401

props, checks = [], []
NA = []
for f in sorted(glob.glob(os.path.join(ROOT, 'checks', 'c[0-9]*.py'))):
    m = importlib.import_module('checks.' + os.path.basename(f)[:-3])
    meta = m.META
    props.append(dict(id=m.PROP, title=meta['title'], statement=meta['statement'],
                      quantifier=meta['quantifier'], why_tests_cant=meta['why_tests_cant'],
                      anchors=meta['anchors']))
    assert len(meta['title']) <= 80, (m.PROP, len(meta['title']))
    note = 'Generated-input search against an explicit oracle; quick %d cases, thorough %d.' % (
        sum(s.n for s in m.SUBS), sum(s.thorough for s in m.SUBS))
    checks.append(dict(
        property=m.PROP, quick_cmd='/opt/venv/bin/python run.py %s --tier quick' % m.PROP,
        thorough_cmd='/opt/venv/bin/python run.py %s --tier thorough' % m.PROP,
        evidence_file='evidence/%s.json' % m.PROP, technique=meta['technique'],
        level='exploration', level_note=note))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for p in props:
        fh.write(json.dumps(p) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python vp/build.py', checks=checks,
                   not_applicable=NA), fh, indent=1)
    fh.write('\n')
try:
    import jsonschema
    for p in props:
        jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(json.load(open(os.path.join(ROOT, 'MANIFEST.json'))),
                        json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid:', len(props), 'properties')
except ImportError:
    print('jsonschema missing')
