#!/usr/bin/env python3
"""Writes the "fixed" entries of known_findings.jsonl from /repo's fix: commits (property by commit hash below);
"known" entries are kept as they are."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for l in '''
4d37e5c P08
fed9025 P09
e851dfe P09
eb36036 P09
ba226f7 P07
554aa3e P10
47958c8 P10
91b178a P10
15cba19 P10
eff3f67 P11
5daba7a P11
fb68e6b P11
cfe94ae P12
e9b87ba P12
c04e228 P12
399c496 P12
90c3998 P12
05971a9 P12
d8cfd68 P12
5a9b5c1 P13
5ebb39e P13
7718930 P13
6a384ba P13
aa69077 P14
16db5c3 P14
e761eb3 P14
1d125a4 P15
7cb8fdf P16
b95301d P16
f580957 P17
'''.split('\n') + open(os.path.join(V, 'tools', 'fixes.txt')).read().split('\n'):
    if l.strip():
        h, p = l.split()[:2]
        PROP[h] = p
kf = os.path.join(V, 'known_findings.jsonl')
old = [json.loads(l) for l in open(kf)] if os.path.exists(kf) else []
out = [e for e in old if e.get('kind') == 'known']
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    if h not in PROP:
        print('no property for', l)
        continue
    what = s[4:].strip()
    out.append(dict(kind='fixed', property=PROP[h], commit=h, what=what,
                    entry='fixed: property=%s %s %s' % (PROP[h], h, what)))
with open(kf, 'w') as f:
    for e in out:
        f.write(json.dumps(e) + '\n')
print(len(out), 'entries')
