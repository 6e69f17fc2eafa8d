"""
Small property-based-testing harness over Hypothesis.

A check module (checks/<ID>.py) builds a list of `Sub` objects.  Each Sub has
a Hypothesis strategy producing a *plain JSON-able* case, and a body
`fn(case, ctx)` that drives the code in /repo with it and raises `Violation`
(via `ctx.check` and the comparison helpers) when the oracle disagrees.

Every Sub runs in its own child process (possibly in several shards with
distinct seeds), so that a crash in a compiled extension is contained and
attributed to the case that was running.  A failing case is shrunk by
Hypothesis and written as a replay file, which `--replay` re-executes without
Hypothesis.

Outcomes: exit 0 (held on all cases), exit 1 with a VIOLATION line, exit 2 for
an error of the machinery itself (cannot build, cannot generate, ...).
"""
import argparse, hashlib, io, json, math, os, signal, subprocess, sys, time
import traceback, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CASE_CPU_LIMIT = 120.     # CPU seconds a single case may burn (normal: << 1 s)
SHRINK_SECONDS = 40.
QUICK_SUB_CPU = 240.      # a Sub stops generating after this much CPU time
THOROUGH_SUB_CPU = 3000.


class Violation(AssertionError):
    pass


class CaseBudget(Violation):
    """A callback was called far more often than any terminating run needs."""


class Sub(object):
    def __init__(self, name, strategy, fn, quick=200, thorough=4000, shards=1,
                 tshards=8, rule=''):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.tshards = tshards
        self.rule = rule


class Ctx(object):
    """Per-case context: classification and comparison helpers."""

    def __init__(self):
        self.is_nontrivial = False
        self.events = []

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def event(self, label):
        self.events.append(str(label))

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    # -- coercions (a wrong type coming back from the code is a violation)
    def num(self, x, what='value', finite=True):
        import numpy as np
        try:
            a = np.asarray(x, dtype=float)
        except Exception:
            raise Violation('%s is not a number: %.200r' % (what, x))
        if a.size != 1:
            raise Violation('%s is not a scalar: %.200r' % (what, x))
        v = float(a.reshape(()))
        if finite and not math.isfinite(v):
            raise Violation('%s is not finite: %r' % (what, v))
        return v

    def arr(self, x, shape=None, what='array', finite=True):
        import numpy as np
        try:
            a = np.array(x, dtype=float)
        except Exception:
            raise Violation('%s is not a numeric array: %.200r' % (what, x))
        if shape is not None and a.shape != tuple(shape):
            raise Violation('%s has shape %s, expected %s' %
                            (what, a.shape, tuple(shape)))
        if finite and not np.all(np.isfinite(a)):
            raise Violation('%s has non-finite entries: %.300r' % (what, a))
        return a

    # -- comparisons
    def close(self, got, want, rtol=1e-9, atol=0., what='value'):
        g = self.num(got, what)
        w = float(want)
        tol = atol + rtol * abs(w)
        if not abs(g - w) <= tol:
            raise Violation('%s: got %.17g, expected %.17g (tol %.3g)' %
                            (what, g, w, tol))

    def allclose(self, got, want, rtol=1e-9, atol=0., what='array'):
        import numpy as np
        w = np.array(want, dtype=float)
        g = self.arr(got, w.shape, what)
        tol = atol + rtol * np.abs(w)
        bad = ~(np.abs(g - w) <= tol)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Violation('%s: entry %s got %.17g, expected %.17g' %
                            (what, list(map(int, i)), g[i], w[i]))

    def equal(self, got, want, what='value'):
        try:
            ok = bool(got == want)
        except Exception:
            ok = False
        if not ok:
            raise Violation('%s: got %.300r, expected %.300r' %
                            (what, got, want))

    def raises(self, excs, f, what='call'):
        try:
            r = f()
        except excs as e:
            return e
        except (Violation, MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            raise Violation('%s: expected %s, got %s: %.200s' %
                            (what, excs, type(e).__name__, e))
        raise Violation('%s: expected %s, but it returned %.200r' %
                        (what, excs, r))


class Counted(object):
    """Wrap a callback; fail deterministically if called more than `limit`
    times (how non-termination shows up)."""

    def __init__(self, f, limit=200000, what='callback'):
        self.f, self.n, self.limit, self.what = f, 0, limit, what

    def __call__(self, *a):
        self.n += 1
        if self.n > self.limit:
            raise CaseBudget('%s called more than %d times: does not '
                             'terminate' % (self.what, self.limit))
        return self.f(*a)


# ---------------------------------------------------------------- execution

def _jdump(case):
    return json.dumps(case, sort_keys=True)


def _short(e):
    s = '%s: %s' % (type(e).__name__, e)
    return s[:2000]


def run_case(sub, case):
    """Run one case outside Hypothesis -> None or failure message."""
    ctx = Ctx()
    try:
        sub.fn(case, ctx)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Violation as e:
        return ctx, _short(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%d' % (f.filename, f.lineno) for f in tb][-3:]
        return ctx, 'exception on an in-domain case: %s at %s' % (
            _short(e), ' < '.join(reversed(where)))
    return ctx, None


def child_main(check, subname, shard, seed, n, statefile, outfile, cpu_budget):
    import warnings
    warnings.simplefilter('ignore')
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    sub = [s for s in check.subs if s.name == subname][0]
    # The code under test prints; keep that off our stdout.
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')

    sfd = os.open(statefile, os.O_RDWR | os.O_CREAT)
    stats = dict(evaluations=0, skipped=0, nontrivial=0, samples=[],
                 events={}, trivial_samples=[])
    seen = set()
    best = {}                 # the last (= smallest so far) failing case
    t_fail = [None]

    def body(case):
        js = _jdump(case)
        if t_fail[0] is not None and time.time() - t_fail[0] > SHRINK_SECONDS:
            # Shrinking budget used: only the best-known failure still fails.
            if best and js == best['js']:
                raise best['exc']
            return
        if t_fail[0] is None and time.process_time() > cpu_budget:
            stats['skipped'] += 1
            return
        data = js.encode()
        os.pwrite(sfd, b'%012d' % len(data) + data, 0)
        ctx, msg = run_case(sub, case)
        if t_fail[0] is None:
            stats['evaluations'] += 1
            if ctx.is_nontrivial:
                h = zlib.crc32(data) ^ (zlib.adler32(data) << 32)
                if h not in seen:
                    seen.add(h)
                    if len(stats['samples']) < 3 or (
                            stats['nontrivial'] in (50, 150)):
                        if len(js) < 3000:
                            stats['samples'].append(case)
                    stats['nontrivial'] += 1
            for ev in set(ctx.events):
                stats['events'][ev] = stats['events'].get(ev, 0) + 1
        if msg is not None:
            if t_fail[0] is None:
                t_fail[0] = time.time()
            exc = Violation(msg)
            best.update(js=js, case=case, msg=msg, exc=exc)
            raise exc

    mix = zlib.crc32(('%s/%s/%d' % (check.id, subname, shard)).encode())
    test = settings(max_examples=n, database=None, deadline=None,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink),
                    report_multiple_bugs=False, print_blob=False)(
        given(sub.strategy)(body))
    test = hypothesis.seed((seed * 1000003 + mix) & 0xffffffff)(test)
    res = dict(status='ok')
    try:
        test()
    except BaseException as e:
        if best:
            res = dict(status='violation', case=best['case'], msg=best['msg'])
        else:
            res = dict(status='error', msg=''.join(
                traceback.format_exception(type(e), e, e.__traceback__))[-4000:])
    if best and res['status'] == 'ok':
        res = dict(status='violation', case=best['case'], msg=best['msg'])
    res['stats'] = stats
    with open(outfile, 'w') as f:
        json.dump(res, f)
    os._exit(0)


def _cpu(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            p = f.read().rsplit(')', 1)[1].split()
        return (int(p[11]) + int(p[12])) / float(os.sysconf('SC_CLK_TCK'))
    except Exception:
        return None


def _read_state(path):
    try:
        with open(path, 'rb') as f:
            n = int(f.read(12))
            return json.loads(f.read(n).decode())
    except Exception:
        return None


class Check(object):
    def __init__(self, id, subs, rule, assumptions=()):
        self.id = id
        self.subs = subs
        self.rule = rule
        self.assumptions = list(assumptions)


def write_replay(check, subname, case, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    js = _jdump(case)
    h = hashlib.sha1((subname + js).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s-%s.json' % (check.id, subname, h))
    with open(path, 'w') as f:
        json.dump(dict(property=check.id, sub=subname, case=case, message=msg,
                       how_to_replay='bash /verif/run.sh %s --replay %s' %
                       (check.id, path)), f, indent=1, sort_keys=True)
        f.write('\n')
    return path


def load_known(pid):
    """Entries of known_findings.jsonl with kind 'known' for this property."""
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    e = json.loads(line)
                    if e.get('kind') == 'known' and e.get('property') == pid:
                        out.append(e)
    return out


def main(check):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--sub', help='only this sub-check')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--child', nargs=6)
    a = ap.parse_args()

    if a.child:
        subname, shard, n, statefile, outfile, budget = a.child
        child_main(check, subname, int(shard), a.seed, int(n), statefile,
                   outfile, float(budget))
        return 0

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        sub = [s for s in check.subs if s.name == r['sub']][0]
        real = os.dup(1)
        dn = os.open(os.devnull, os.O_WRONLY)
        sys.stdout.flush()
        os.dup2(dn, 1)
        ctx, msg = run_case(sub, r['case'])
        sys.stdout.flush()
        os.dup2(real, 1)
        if msg:
            print(msg)
            print('VIOLATION property=%s replay=%s' % (check.id, a.replay))
            return 1
        print('replay: property held')
        return 0

    t0 = time.time()
    thorough = a.tier == 'thorough'
    import tempfile, shutil
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % check.id)
    try:
        return _drive(check, a, thorough, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _drive(check, a, thorough, scratch, t0):
    jobs = []
    for s in check.subs:
        if a.sub and s.name != a.sub:
            continue
        total = s.thorough if thorough else s.quick
        sh = s.tshards if thorough else s.shards
        for k in range(sh):
            n = max(1, int(math.ceil(total * a.scale / float(sh))))
            jobs.append((s, k, n))
    # Longest first is not known; keep declaration order.
    budget = THOROUGH_SUB_CPU if thorough else QUICK_SUB_CPU
    maxpar = max(2, min(8, os.cpu_count() or 2))
    pending = list(jobs)
    running = []
    results = []
    env = dict(os.environ)
    env['TMPDIR'] = scratch
    script = os.path.abspath(sys.argv[0])
    while pending or running:
        while pending and len(running) < maxpar:
            s, k, n = pending.pop(0)
            base = os.path.join(scratch, '%s.%d' % (s.name, k))
            cmd = [sys.executable, script, '--seed', str(a.seed), '--child',
                   s.name, str(k), str(n), base + '.state', base + '.out',
                   str(budget)]
            err = open(base + '.err', 'wb')
            cwd = base + '.cwd'
            os.makedirs(cwd)
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err,
                                 stdin=subprocess.DEVNULL, env=env, cwd=cwd)
            running.append(dict(p=p, s=s, k=k, n=n, base=base, state=None,
                                cpu0=0., poll=time.time()))
        time.sleep(0.05)
        for j in list(running):
            rc = j['p'].poll()
            if rc is None:
                # hang detection on CPU time, by identity of the current case
                if time.time() - j['poll'] > 2.:
                    j['poll'] = time.time()
                    try:
                        st = os.stat(j['base'] + '.state').st_mtime_ns
                    except OSError:
                        st = None
                    cpu = _cpu(j['p'].pid)
                    if st is None or cpu is None or st != j['state']:
                        j['state'] = st
                        j['cpu0'] = cpu or 0.
                    elif cpu - j['cpu0'] > CASE_CPU_LIMIT:
                        j['p'].kill()
                        j['p'].wait()
                        running.remove(j)
                        results.append((j, dict(
                            status='violation',
                            case=_read_state(j['base'] + '.state'),
                            msg='the case used more than %g s of CPU time: it '
                                'does not terminate' % CASE_CPU_LIMIT,
                            stats={})))
                continue
            running.remove(j)
            try:
                with open(j['base'] + '.out') as f:
                    r = json.load(f)
            except Exception:
                with open(j['base'] + '.err', 'rb') as f:
                    errtxt = f.read()[-3000:].decode('utf8', 'replace')
                case = _read_state(j['base'] + '.state')
                if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT,
                                      signal.SIGBUS, signal.SIGFPE,
                                      signal.SIGILL) and case is not None:
                    r = dict(status='violation', case=case, stats={},
                             msg='the process died with signal %d in this '
                                 'case: %s' % (-rc, errtxt[-500:]))
                elif rc > 0 and case is not None and (
                        'STOP' in errtxt or 'Fortran runtime error' in errtxt):
                    r = dict(status='violation', case=case, stats={},
                             msg='the code terminated the process: ' +
                             errtxt[-500:])
                else:
                    r = dict(status='error', stats={}, msg='child exit %s\n%s'
                             % (rc, errtxt))
            results.append((j, r))

    # ---- aggregate
    viol, errors = [], []
    ev = nt = skipped = 0
    per = {}
    samples = []
    for j, r in sorted(results, key=lambda x: (x[0]['s'].name, x[0]['k'])):
        st = r.get('stats') or {}
        ev += st.get('evaluations', 0)
        nt += st.get('nontrivial', 0)
        skipped += st.get('skipped', 0)
        d = per.setdefault(j['s'].name, dict(evaluations=0, nontrivial=0,
                                             events={}))
        d['evaluations'] += st.get('evaluations', 0)
        d['nontrivial'] += st.get('nontrivial', 0)
        for k, v in st.get('events', {}).items():
            d['events'][k] = d['events'].get(k, 0) + v
        if j['k'] == 0:
            for c in st.get('samples', [])[1:3] or st.get('samples', [])[:1]:
                samples.append(dict(sub=j['s'].name, case=c))
        if r['status'] == 'violation':
            viol.append((j['s'].name, r['case'], r['msg']))
        elif r['status'] == 'error':
            errors.append((j['s'].name, r['msg']))

    known = load_known(check.id)
    reported = []
    seen_known = set()
    for name, case, msg in viol:
        hit = None
        for e in known:
            if e.get('sub') == name and e.get('case') == case:
                hit = e
        if hit:
            seen_known.add(hit['id'])
        else:
            reported.append((name, case, msg))
    for e in known:
        print('KNOWN-FINDING: property=%s %s' % (check.id, e['what']))

    out = dict(
        property=check.id, tier='thorough' if thorough else 'quick',
        seed=a.seed, level='exploration',
        coverage=dict(evaluations=ev, distinct_nontrivial=nt, rule=check.rule,
                      samples=samples[:12], skipped_by_cpu_budget=skipped,
                      per_sub={k: dict(v, rule=[s.rule for s in check.subs
                                                if s.name == k][0])
                               for k, v in per.items()}),
        assumptions=check.assumptions, wall_s=round(time.time() - t0, 2),
        violations=len(reported))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', check.id + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')
    os.replace(p + '.tmp', p)

    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' %
          (check.id, out['tier'], a.seed, ev, nt, time.time() - t0))
    for name, d in sorted(per.items()):
        print('  %-28s cases=%d nontrivial=%d %s' %
              (name, d['evaluations'], d['nontrivial'],
               ' '.join('%s=%d' % kv for kv in sorted(d['events'].items()))))
    for name, msg in errors:
        print('ERROR in %s: %s' % (name, msg))
    for name, case, msg in reported:
        path = write_replay(check, name, case, msg)
        print('  [%s] %s' % (name, msg[:1500]))
        print('VIOLATION property=%s replay=%s' % (check.id, path))
    if reported:
        return 1
    if errors:
        return 2
    return 0
