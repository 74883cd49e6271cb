#!/usr/bin/env python3
"""mk_seed.py ID PROP FILE <<< python list of (old,new): writes seeded/ID/patch.diff and meta.json (reads a spec file)"""
import sys, subprocess, json, os
spec = {}
exec(open(sys.argv[1]).read(), spec)
for s in spec['SEEDS']:
    D = '/verif/seeded/' + s['id']; os.makedirs(D, exist_ok=True)
    assert not subprocess.run('git -C /repo status --short', shell=True, stdout=subprocess.PIPE).stdout.strip()
    try:
        for f, a, b in s['edits']:
            p = '/repo/' + f; t = open(p).read()
            assert t.count(a) == 1, (s['id'], a, t.count(a))
            open(p, 'w').write(t.replace(a, b))
        d = subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout
        open(D + '/patch.diff', 'wb').write(d)
    finally: subprocess.run('git -C /repo checkout -- .', shell=True, stderr=subprocess.DEVNULL)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(D + '/meta.json', 'w'), indent=1)
    open(D + '/demo.sh', 'w').write(s['demo'])
