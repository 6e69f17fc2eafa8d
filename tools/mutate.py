#!/usr/bin/env python3
"""mutate.py FILE[:CHECK,CHECK..] ... [--n N] [--seed S] [--workers W] [--out F]: plants small random edits (operators, constants,
deleted statements) in copies of /repo, runs the checks against each in a private mount of the copy on /repo, and lists the ones no check
reports. For finding blind spots; nothing registered in MANIFEST.json uses it."""
import argparse, ast, copy, os, random, shutil, subprocess, sys, threading
PK = 'package/inference/'
DEFAULT = {
    'count/onoff.py': 'P08,P09', 'deriv/obsinfo.py': 'P07', 'grid/grid1d.py': 'P12,P13,P14', 'grid/hpd.py': 'P10,P11',
    'grid/hpdgrid.py': 'P10,P11,P21', 'integrate/adapt.py': 'P16', 'integrate/adapt_vec.py': 'P17', 'integrate/cub2d.py': 'P15',
    'utils/nrmin.py': 'P18,P04', 'utils/numutils.py': 'P19', 'utils/ioutils.py': 'P20', 'utils/rng.py': 'P20', 'utils/plot_bivar.py': 'P21',
    'pie/containers.py': 'P03,P04,P21,P02', 'gauss/vecba.py': 'P22', 'mc/pwlinear.py': 'P23', 'mc/population.py': 'P23',
    'pie/realparam.py': 'P02,P03,P04', 'pie/param.py': 'P02,P01', 'pie/signalmodel.py': 'P02,P01,P03', 'pie/predictor.py': 'P01,P06',
    'pie/gaussian.py': 'P06,P01', 'pie/inference_base.py': 'P01,P03,P04,P05,P02', 'pie/bayes.py': 'P01,P05,P04', 'pie/chisqr.py': 'P01,P04,P03',
    'pie/maxlike.py': 'P01,P04,P03', 'pie/autoname.py': 'P01,P02', 'pie/logger.py': 'P02,P03',
}


def sites(tree):
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'print'):
            for m in ast.walk(n):
                doc.add(m)
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}[type(op)]
                out += [(n, 'cmp', (k, a)) for a in alt]
        elif isinstance(n, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult}.get(type(n.op))
            if alt and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                out.append((n, 'bin', alt))
        elif isinstance(n, ast.BoolOp):
            out.append((n, 'bool', None))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((n, 'un', None))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            out.append((n, 'const', None))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return)) and n.__dict__.get('value') is not None and n.value not in doc:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id.startswith('__') for t in n.targets):
                continue
            out.append((n, 'del', None))
        elif isinstance(n, ast.If):
            out.append((n, 'noif', None))
    return out


def apply(tree, site):
    n, kind, arg = site
    line = n.lineno
    before = ast.unparse(n).split('\n')[0][:90]
    if kind == 'cmp':
        n.ops[arg[0]] = arg[1]()
    elif kind == 'bin':
        n.op = arg()
    elif kind == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'un':
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
        if isinstance(n.op, ast.Not):
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif kind == 'const':
        v = n.value
        n.value = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else (v * 1.3 if v else .3)
    elif kind == 'del':
        n.__class__ = ast.Pass
        n.__dict__ = dict(lineno=n.lineno, col_offset=n.col_offset)
    elif kind == 'noif':
        n.test = ast.Constant(False)
    after = ast.unparse(n).split('\n')[0][:90]
    return '%d %s: %s -> %s' % (line, kind, before, after)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files', nargs='+')
    ap.add_argument('--n', type=int, default=20)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--workers', type=int, default=2)
    ap.add_argument('--scale', default='1')
    ap.add_argument('--skip', default='')
    a = ap.parse_args()
    jobs = []
    for f in a.files:
        f, _, checks = f.partition(':')
        checks = (checks or DEFAULT[f]).split(',')
        src = open('/repo/' + PK + f).read()
        n = len(sites(ast.parse(src)))
        r = random.Random(a.seed * 1000003 + sum(map(ord, f)))
        ids = list(range(n))
        r.shuffle(ids)
        jobs += [(f, checks, src, i) for i in ids[:a.n]]
        print('# %s: %d sites' % (f, n))
    lock = threading.Lock()
    tally = dict(caught=0, survived=0, odd=0)

    def work(w):
        base = '/tmp/mut/%d-w%d' % (os.getpid(), w)
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        subprocess.check_call('cp -a /repo %s/repo && cp -a /verif %s/verif && find %s -name __pycache__ | xargs rm -rf' % (base, base, base), shell=True)
        while True:
            with lock:
                if not jobs:
                    break
                f, checks, src, i = jobs.pop(0)
            tree = ast.parse(src)
            desc = apply(tree, sites(tree)[i])
            p = '%s/repo/%s%s' % (base, PK, f)
            try:
                new = ast.unparse(ast.fix_missing_locations(tree))
            except Exception as e:
                continue
            open(p, 'w').write(new)
            res, how = 'SURVIVED', ''
            for c in checks:
                cmd = 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && timeout 900 bash run.sh %s --scale %s' % (base, base, c, a.scale)
                r = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmd], capture_output=True, text=True)
                if r.returncode == 1:
                    l = [x for x in r.stdout.splitlines() if x.startswith('  [')]
                    res, how = 'caught', c + ' ' + (l[0][:110] if l else '')
                    break
                if r.returncode != 0:
                    res, how = 'ODD rc=%d' % r.returncode, c + ' ' + (r.stdout + r.stderr)[-200:].replace('\n', ' ')
                    break
            open(p, 'w').write(src)
            with lock:
                tally['caught' if res == 'caught' else 'survived' if res == 'SURVIVED' else 'odd'] += 1
                print('%-9s %s %s   %s' % (res, f, desc, how))
                sys.stdout.flush()
        shutil.rmtree(base, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print('#', tally)


main()
