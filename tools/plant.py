#!/usr/bin/env python3
"""plant.py spec.py : verify and store a planted bug"""
import sys, subprocess, json, os, pathlib, shutil
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for specfile in sys.argv[1:]:
    ns = {}
    exec(open(specfile).read(), ns)
    ID = pathlib.Path(specfile).stem
    R = pathlib.Path('/repo')
    assert not sh('git -C /repo status --porcelain').stdout, 'dirty'
    d = pathlib.Path('/verif/seeded')/ID
    if d.exists(): shutil.rmtree(d)
    d.mkdir(parents=True)
    (d/'demo.py').write_text(ns['DEMO'].lstrip('\n'))
    (d/'demo.sh').write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d/'demo.sh', 0o755)
    (d/'meta.json').write_text(json.dumps({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, indent=1)+'\n')
    r0 = sh(f'cd /repo && bash {d}/demo.sh')
    bad = ''
    try:
        for f, old, new in ns['EDITS']:
            p = R/f; s = p.read_text()
            assert s.count(old) == 1, (f, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        (d/'patch.diff').write_text(diff)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: bad += ' BUILD'+b.stderr[-300:]
        t = sh('bash /tmp/rt.sh'); 
        if 'missing []' not in t.stdout: bad += ' TESTS ' + t.stdout[-600:]
        r1 = sh(f'cd /repo && bash {d}/demo.sh')
        checks = sys.argv and [ns['PROP']] + ns.get('ALSO', [])
        res = []
        if not bad:
            for c in checks:
                k = sh(f'/verif/run.sh {c} --no-shrink', cwd='/verif')
                v = [l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
                res.append((c, k.returncode, (v or [''])[0][:150]))
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    # blame: changed lines must be original
    print('==', ID, 'demo clean', r0.returncode, 'patched', r1.returncode if not bad else '-', 'bad:', bad or 'none', 'checks', res if not bad else '')
    if r0.returncode: print(r0.stdout[-500:], r0.stderr[-800:])
    elif not bad and r1.returncode == 0: print('   demo not failing')
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip().split()[-1]
    for l in diff.splitlines():
        if l.startswith('-') and not l.startswith('---'):
            pass
    ok = r0.returncode == 0 and not bad and r1.returncode != 0
    if not ok: shutil.rmtree(d)
