"""Regenerates DESIGN.md: design_intro.md + one section per check module + findings + planted bugs."""
import glob
import importlib
import json
import os
import sys
import textwrap

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vp import engine  # noqa: E402,F401

out = [open(os.path.join(ROOT, 'design_intro.md')).read().rstrip(), '', '## 2. Properties, and how each is decided', '']


def wrap(s, ind=''):
    return textwrap.fill(' '.join(s.split()), 110, initial_indent=ind, subsequent_indent=' ' * len(ind))


known = [json.loads(l) for l in open(os.path.join(ROOT, 'known_findings.jsonl'))]
for f in sorted(glob.glob(os.path.join(ROOT, 'checks', 'c[0-9]*.py'))):
    m = importlib.import_module('checks.' + os.path.basename(f)[:-3])
    meta = m.META
    out += ['### %s. %s' % (m.PROP, meta['title']), '',
            wrap('**Specified.** ' + meta['statement']), '',
            wrap('**Universe.** ' + meta['quantifier'].get('text', '')), '',
            wrap('**Decided by.** ' + meta['technique'] + '. Implementation: `checks/%s`, module docstring: %s' % (
                os.path.basename(f), (m.__doc__ or '').strip() or '-')), '',
            '**Generated searches** (quick / thorough cases; a case is non-trivial when ...):', '']
    for s in m.SUBS:
        if s.n or s.thorough:
            out.append('- `%s`: %d / %d; %s' % (s.name, s.n, s.thorough, s.rule or 'every case'))
    out += ['', wrap('**Beyond the tests.** ' + meta['why_tests_cant'])]
    if getattr(m, 'ASSUMPTIONS', None):
        out += ['', '**Bounds and assumptions.**', ''] + [wrap(a, '- ') for a in m.ASSUMPTIONS]
    kn = [k for k in known if k['property'] == m.PROP]
    fixed = [k for k in kn if k['status'] == 'fixed']
    if fixed:
        out += ['', '**Defects this check found, repaired in /repo.**', '']
        out += [wrap(k['what'].replace('fixed: property=%s ' % m.PROP, ''), '- ') for k in fixed]
    kk = [k for k in kn if k['status'] == 'known']
    if kk:
        out += ['', '**Known findings (not repaired).**', ''] + [
            wrap('`%s` %s: %s' % (k['sub'], json.dumps(k['case']), k['what']), '- ') for k in kk]
    out.append('')
out += [open(os.path.join(ROOT, 'design_end.md')).read().rstrip(), '']
rows = []
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    j = json.load(open(d))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), j['property'], j['what_it_breaks'],
                                               j['needs'], j.get('caught_by', j['property'])))
if rows:
    out += ['| planted bug | property | what it breaks | what it needs | caught by (quick) |', '|---|---|---|---|---|'] + rows
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
