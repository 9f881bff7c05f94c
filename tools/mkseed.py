#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes /verif/seeded/<id>/ from specifications (a development aid).

A specification sets: ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (Go test source), and optionally
PACKAGE (sub-package of the demonstration), FAKE (whether the fake server is copied), FLAGS."""
import os, shutil, subprocess, sys, json, tempfile
here = os.path.dirname(os.path.abspath(__file__))
def make(g):
    sid = g['ID']
    out = '/verif/seeded/' + sid
    w = tempfile.mkdtemp()
    r = w + '/repo'
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    for f, old, new in g['EDITS']:
        p = r + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            print(sid, 'edit matches', s.count(old), 'times in', f, repr(old)); shutil.rmtree(w); return False
        open(p, 'w').write(s.replace(old, new))
    d = subprocess.check_output(['git', '-C', r, 'diff']).decode()
    shutil.rmtree(w)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + '/patch.diff', 'w').write(d)
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    open(out + '/demo_test.go', 'w').write(g['DEMO'])
    shutil.copy(here + '/demo.sh', out + '/demo.sh')
    if g.get('FAKE', True):
        shutil.copy(here + '/fake_test.go', out + '/fake_test.go')
    if g.get('PACKAGE'):
        open(out + '/package', 'w').write(g['PACKAGE'])
    if g.get('FLAGS'):
        open(out + '/flags', 'w').write(g['FLAGS'])
    return True
for f in sys.argv[1:]:
    src = open(f).read()
    for part in src.split('\n#---\n'):
        g = {}
        exec(part, g)
        if 'ID' in g:
            print(g['ID'], make(g))
