#!/usr/bin/env python3
"""bug.py SPEC...: plant the bugs of SPEC files (bug(id, property, [(file, old, new)], demo, needs, what)),
confirm them (build, stable tests, demo both ways), run the property's check, and keep them in seeded/.
bug.py --recheck [ID...]: apply each kept patch and run its check again."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
PK = 'package/inference/'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def clean():
    sh('git -C /repo checkout -- .')
    assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'repo not clean'


def stable():
    sh('bash /opt/vp/test.sh /tmp/bugtest.json')
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    o = json.load(open('/tmp/bugtest.json'))
    return [x for x in b if x not in o['passed']]


def check(p, extra=''):
    r = sh('bash %s/run.sh %s %s' % (V, p, extra))
    lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or l.startswith('  [')]
    return r.returncode, lines, r.stdout[-600:] + r.stderr[-300:]


def demo(d):
    return sh('cd /repo && timeout 300 bash %s/demo.sh' % d)


def bug(id, prop, edits, demo_py, needs, what):
    if ONLY and id not in ONLY:
        return
    clean()
    d = '%s/seeded/%s' % (V, id)
    if os.path.exists(d + '/patch.diff') and not FORCE:
        return
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(demo_py.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nexec python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    r0 = demo(d)
    ok = r0.returncode == 0
    try:
        for f, old, new in edits:
            p = '%s/%s%s' % (R, '' if f.startswith('package') else PK, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        b = sh('bash /opt/vp/build.sh')
        miss = stable()
        r1 = demo(d)
        c, lines, tail = check(prop)
    finally:
        clean()
        sh('. /opt/vp/env.sh; cd /repo && python /opt/vp/buildext.py')
    good = ok and b.returncode == 0 and not miss and r1.returncode != 0
    print('%s %s: %s %s' % (id, prop, 'VALID' if good else 'INVALID', 'caught' if c == 1 else 'MISSED rc=%d' % c))
    if not good:
        print('   clean demo', r0.returncode, r0.stderr[-300:], 'build', b.returncode, b.stdout[-300:], 'missing', miss,
              'demo', r1.returncode)
    else:
        print('   demo:', (r1.stderr.strip().splitlines() or [r1.stdout])[-1][:150])
    for l in lines[:3]:
        print('   ', l[:200])
    if c == 2:
        print(tail)
    sys.stdout.flush()


if __name__ == '__main__':
    args = sys.argv[1:]
    FORCE = '--force' in args
    args = [a for a in args if a != '--force']
    if args and args[0] == '--recheck':
        ids = args[1:] or sorted(os.listdir(V + '/seeded'))
        for id in ids:
            clean()
            d = '%s/seeded/%s' % (V, id)
            m = json.load(open(d + '/meta.json'))
            r = sh('git -C /repo apply %s/patch.diff' % d)
            if r.returncode:
                print(id, 'does not apply', r.stderr[:200])
                continue
            c, lines, tail = check(m['property'])
            clean()
            print(id, m['property'], 'caught' if c == 1 else 'MISSED rc=%d' % c, (lines or [''])[0][:160])
            sys.stdout.flush()
        sh('. /opt/vp/env.sh; cd /repo && python /opt/vp/buildext.py')
    else:
        spec, ONLY = args[0], args[1:]
        exec(compile(open(spec).read(), spec, 'exec'))
