"""append 'fixed:' lines for new fix: commits of /repo: rec_fix.py PROP [n]"""
import subprocess, sys
p = sys.argv[1]
txt = open('/verif/known_findings.txt').read()
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'f05a8e8..HEAD'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if h in txt or not s.startswith('fix:'): continue
    out.append('fixed: property=%s %s %s' % (p, h, s[4:].strip()))
open('/verif/known_findings.txt', 'a').write(''.join(x + '\n' for x in out))
print('\n'.join(out))
