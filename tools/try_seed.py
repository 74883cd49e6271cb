#!/usr/bin/env python3
"""try_seed.py ID [--nobuild]: apply seeded/ID/patch.diff to /repo, build, run tests, demo and the property's check, undo."""
import subprocess, sys, json, os
sid = sys.argv[1]; D = '/verif/seeded/' + sid
meta = json.load(open(D + '/meta.json')); pid = meta['property']
M = json.load(open('/verif/MANIFEST.json'))
cmd = [c['quick_cmd'] for c in M['checks'] if c['property'] == pid][0]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
assert not sh('git -C /repo status --short').stdout.strip(), 'repo dirty'
full = '--checkonly' not in sys.argv
res = {}
if full:
    sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % D, cwd='/repo'); res['demo_clean'] = r.returncode
    if r.returncode: print(r.stdout.decode()[-500:])
assert sh('git -C /repo apply %s/patch.diff' % D).returncode == 0, 'does not apply'
try:
    if full:
        b = sh('bash /opt/vp/build.sh'); res['build'] = b.returncode
        if b.returncode: print(b.stdout.decode()[-1500:])
        t = sh('bash /opt/vp/test.sh /tmp/seedout.json')
        o = json.load(open('/tmp/seedout.json')); base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss = base - set(o['passed']); res['missing'] = len(miss)
        if miss: print(sorted(miss)[:5])
        r = sh('bash %s/demo.sh' % D, cwd='/repo'); res['demo_bug'] = r.returncode
    r = sh(cmd, cwd='/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')); res['check'] = r.returncode
    print('\n'.join(l[:300] for l in r.stdout.decode().split('\n')[-6:]))
finally:
    sh('git -C /repo checkout -- .')
    if full: sh('bash /opt/vp/build.sh')
ok = (not full or (res['demo_clean'] == 0 and res['build'] == 0 and res['missing'] == 0 and res['demo_bug'] != 0))
print(sid, pid, res, 'VALID' if ok else 'INVALID', 'CAUGHT' if res['check'] == 1 else 'MISSED')
