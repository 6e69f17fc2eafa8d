"""P20: files: stores, backups, saved random-number states."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import boot, vh, gen
import contextlib, copy, gzip, io, math, pickle, shutil, tempfile
import numpy as np
from hypothesis import strategies as st


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vstore')
    try:
        yield d
    finally:
        shutil.rmtree(d)


NAMES = ['a', 'b', 'c1', 'data', 'x_y', 'fname', 'arr_0']
FILES = ['one', 'two', 'dir.x', 'npz', 'one%']


@st.composite
def array_value(draw):
    shape = draw(st.sampled_from([[], [0], [1], [3], [2, 2], [1, 3, 2], [40, 50]]))
    n = int(np.prod(shape)) if shape else 1
    return dict(kind='array', shape=shape, order=draw(st.sampled_from(['C', 'C', 'C', 'F', 'reversed', 'every other'])),
                dtype=draw(st.sampled_from(['float64', 'float64', 'int64', 'bool', 'complex128', 'float32', 'U3', 'S2', '>f8', 'int8', 'uint16', 'special'])),
                v=[draw(st.integers(-9, 9)) for _ in range(min(n, 7))])


SPECIAL = [np.nan, np.inf, -np.inf, -0., 5e-324, 1.7e308, .1, 1. / 3.]
OTHER = [(1, (2., 'x')), b'\x00\xff', True, 10 ** 30, 1 + 2j, {1, 2}, float('inf'), -0., np.float64(1.5), np.int64(3), [[1], [2, [3]]], frozenset('ab'), 'x' * 5000, '\n', '']


def make(v):
    if isinstance(v, dict) and v.get('kind') == 'array':
        if v['dtype'] == 'special':
            a = np.resize(np.array([SPECIAL[k % len(SPECIAL)] for k in v['v']], float), v['shape'])
        else:
            a = np.resize(np.array(v['v'], int), v['shape'])
            a = (a if v['dtype'] != 'uint16' else abs(a)).astype(v['dtype'])
        a = np.asarray(a)
        if v['dtype'] == '>f8':     # numpy pickles other byte orders as they are only if contiguous
            return a
        if v['order'] == 'F':
            a = np.asfortranarray(a) if a.ndim else a
        elif v['order'] == 'reversed' and a.ndim:
            a = a[::-1]
        elif v['order'] == 'every other' and a.ndim:
            a = np.repeat(a, 2, axis=0)[::2]
        return a
    if isinstance(v, dict) and v.get('kind') == 'other':
        return copy.deepcopy(OTHER[v['v']])
    return v


plain = st.one_of(st.none(), st.integers(0, 14).map(lambda k: dict(kind='other', v=k)), st.integers(-99, 99), gen.fl(-9., 9.), st.text(max_size=5), st.lists(st.integers(0, 9), max_size=4),
                  st.dictionaries(st.text(max_size=3), st.integers(0, 9), max_size=3))


@st.composite
def store_case(draw):
    cls = draw(st.sampled_from(['ArrayStore', 'AttrStore']))
    value = array_value() if cls == 'ArrayStore' else st.one_of(array_value(), plain, plain)
    ops = []
    # some histories start with a file of several attributes, opened again
    if draw(st.booleans()):
        ops = [dict(op='set', s=0, name=n, file='one', ext=False, v=draw(value)) for n in draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=5, unique=True))]
        ops += [dict(op=k, s=0, name='a', file='one', ext=draw(st.booleans())) for k in ('save', 'open')]
    for _ in range(draw(st.integers(2, 20))):
        k = draw(st.sampled_from(['new', 'open', 'reopen', 'reopen', 'set', 'set', 'change', 'change', 'get', 'read', 'read', 'read', 'missing', 'save', 'save', 'resave', 'contents', 'bad', 'private', 'alter', 'alter']))
        o = dict(op=k, s=draw(st.sampled_from([0, 0, 0, 0, 1, 2])), name=draw(st.sampled_from(NAMES)), file=draw(st.sampled_from(FILES)), ext=draw(st.booleans()))
        if k in ('set', 'private', 'change'):
            o['v'] = draw(value)
        elif k == 'new' and cls == 'AttrStore' and draw(st.booleans()):
            o['kw'] = dict((draw(st.sampled_from(['a', 'b', 'c1'])), draw(value)) for _ in range(2))
        elif k == 'bad':
            o['v'] = draw(plain)
        if k in ('read', 'reopen', 'change', 'alter'):
            o['k'] = draw(st.integers(0, 9))
        ops.append(o)
    return dict(cls=cls, ops=ops)


def same(a, b):
    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    return type(a) == type(b) and a == b and (not isinstance(a, float) or math.copysign(1., a) == math.copysign(1., b))


def t_store(c, ctx):
    from inference.utils import ioutils
    cls = getattr(ioutils, c['cls'])
    arr = c['cls'] == 'ArrayStore'
    ext = '.npz' if arr else '.pkl'
    kinds = set()
    with scratch() as d:
        pulled = set()
        files = {}                 # path -> contents, newest first (three versions)
        stores = [None] * 3        # (store, archive contents, new values, path)
        for o in c['ops']:
            k = o['op']
            path = os.path.join(d, o['file'] + ext)
            arg = path if o['ext'] else path[:-len(ext)]
            if k == 'new':
                pulled = set(x for x in pulled if x[0] != o['s'])
                kw = dict((n, make(v)) for n, v in o.get('kw', {}).items())
                stores[o['s']] = (cls(**kw), {}, dict(kw), None)
                continue
            if k == 'reopen':
                if not files:
                    continue
                path = sorted(files)[o['k'] % len(files)]
                arg = path if o['ext'] else path[:-len(ext)]
            if k in ('open', 'reopen'):
                if path in files:
                    pulled = set(x for x in pulled if x[0] != o['s'])
                    stores[o['s']] = (cls(arg), copy.deepcopy(files[path][0]), {}, path)
                    kinds.add('opened' + ('+ext' if o['ext'] else ''))
                else:
                    ctx.raises((IOError, OSError), lambda: cls(arg), 'opening a missing file')
                continue
            if stores[o['s']] is None:
                stores[o['s']] = (cls(), {}, {}, None)
            s, old, new, where = stores[o['s']]
            every = dict(old)
            every.update(new)
            if k == 'change' and every:      # replace one that is there (read before or not)
                o = dict(o, name=sorted(every)[o['k'] % len(every)])
                if (o['s'], o['name']) in pulled and o['name'] not in new:
                    kinds.add('read+replaced')
                elif o['name'] not in new:
                    kinds.add('replaced')
            if k in ('set', 'change'):
                v = make(o['v'])
                setattr(s, o['name'], v)
                new[o['name']] = v
                ctx.check(getattr(s, o['name']) is v, 'the value assigned is not the one returned')
            elif k == 'alter':      # the value is altered in place
                if every:
                    n = sorted(every)[o['k'] % len(every)]
                    v = getattr(s, n)
                    if isinstance(v, np.ndarray) and v.size and v.dtype.kind in 'fic' and v.flags.writeable:
                        v.flat[o['k'] % v.size] = o['k'] + 1
                        kinds.add('altered')
                    elif type(v) is list:
                        v.append(o['k'])
                        kinds.add('altered')
                    (new if n in new else old)[n] = copy.deepcopy(v) if n not in new else v
            elif k == 'private':
                setattr(s, '_note', make(o['v']))
                ctx.check('_note' not in s.contents(), 'private attributes are listed')
            elif k == 'bad':
                if arr:
                    ctx.raises(ValueError, lambda: setattr(s, o['name'], make(o['v'])), 'storing a value that is not an array')
                    if o['name'] not in every:
                        ctx.raises(AttributeError, lambda: getattr(s, o['name']), 'a refused value')
            elif k == 'read':       # one attribute that is there
                if every:
                    n = sorted(every)[o['k'] % len(every)]
                    v = getattr(s, n)
                    ctx.check(same(v, every[n]), '%s is %r, expected %r', n, v, every[n])
                    if n in old:
                        pulled.add((o['s'], n))
                        kinds.add('read %d' % min(2, len([x for x in pulled if x[0] == o['s']])))
            elif k in ('get', 'missing'):
                for n in (NAMES if k == 'get' else [o['name']]):
                    if n in every:
                        v = getattr(s, n)
                        ctx.check(same(v, every[n]), '%s is %r, expected %r', n, v, every[n])
                        ctx.check(getattr(s, n) is v, 'repeated access gives different objects')
                    else:
                        ctx.raises(AttributeError, lambda: getattr(s, n), 'attribute that was never stored')
            elif k == 'contents':
                got = s.contents()
                ctx.check(len(got) == len(every) and set(map(str, got)) == set(every), 'contents are %r, expected %r', got, sorted(every))
            elif k in ('save', 'resave'):
                if k == 'resave':
                    if where is None:
                        ctx.raises(ValueError, s.save, 'saving without a file name')
                        continue
                    path = where
                    s.save()
                    kinds.add('resaved')
                else:
                    s.save(arg)
                files[path] = [copy.deepcopy(every)] + files.get(path, [])[:2]
                kinds.add('saved%d' % len(files[path]))
            # all files hold what was saved last, their backups what was saved before
            for p, vers in files.items():
                for suffix, want in zip(['', '%', '%%'], vers):
                    if arr:
                        with np.load(p + suffix) as z:
                            got = dict((n, z[n]) for n in z.files)
                    else:
                        with open(p + suffix, 'rb') as f:
                            got = pickle.load(f)
                    ctx.check(set(got) == set(want) and all(same(got[n], want[n]) for n in got), '%s: file %s holds %r, expected %r', k, os.path.basename(p) + suffix, got, want)
        got = sorted(os.listdir(d))
        want = sorted(os.path.basename(p) + x for p, v in files.items() for x in ['', '%', '%%'][:len(v)])
        ctx.equal(got, want, 'files')
    for k in sorted(kinds):
        ctx.event(k)
    ctx.nontrivial(any(k.startswith(('saved', 'resaved')) for k in kinds))


@st.composite
def backup_case(draw):
    return dict(ops=[[draw(st.sampled_from(['open', 'open', 'open', 'bin', 'b', 'opener', 'gzip', 'mode', 'backup', 'other', 'fail'])), draw(st.text('abc', max_size=5))]
                     for _ in range(draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(9, 25))))], name=draw(st.sampled_from(['f', 'f.dat', 'f%', 'a b'])))


def t_backup(c, ctx):
    from inference.utils.ioutils import backup, safe_open
    with scratch() as d:
        path = os.path.join(d, c['name'])
        vers = []       # versions, newest first; None: no such file
        other = None

        def read(p):
            with open(p, 'rb') as f:
                b = f.read()
            return gzip.decompress(b) if b[:2] == b'\x1f\x8b' else b
        for k, (op, text) in enumerate(c['ops']):
            text = '%s%d' % (text, k)
            if op == 'other':
                with open(os.path.join(d, 'other'), 'w') as f:
                    f.write(text)
                other = text
                backup(os.path.join(d, 'missing'))
                continue

            def push(x):
                # what existed moves one level down, as far as there is something to move
                cur, b1, b2 = (vers + [None] * 3)[:3]
                if cur is not None:
                    if b1 is not None:
                        b2 = b1
                    b1 = cur
                vers[:] = [x, b1, b2]
            if op == 'backup':
                backup(path)
                if vers and vers[0] is not None:
                    push(None)
            elif op == 'fail':
                class Boom(Exception):
                    pass

                def opener(*a):
                    raise Boom()
                ctx.raises(Boom, lambda: safe_open(path, opener=opener), 'failing opener')
                if vers and vers[0] is not None:
                    push(None)
            else:
                if op in ('bin', 'b'):
                    f = safe_open(path, True if op == 'bin' else 'b')
                    f.write(text.encode())
                elif op == 'opener':
                    f = safe_open(path, opener=lambda name: open(name, 'w'))
                    f.write(text)
                elif op == 'gzip':
                    f = safe_open(path, False, gzip.open, 'wt')
                    f.write(text)
                elif op == 'mode':
                    f = safe_open(path, opener=io.open, mode='wb', buffering=0)
                    f.write(text.encode())
                else:
                    f = safe_open(path)
                    f.write(text)
                f.close()
                push(text)
            for suffix, want in zip(['', '%', '%%'], (vers + [None] * 3)[:3]):
                p = path + suffix
                ctx.equal(os.path.exists(p), want is not None, 'existence of %s after %s' % (os.path.basename(p), op))
                if want is not None:
                    ctx.equal(read(p).decode(), want, 'contents of %s after %s' % (os.path.basename(p), op))
        if other is not None:
            ctx.equal(read(os.path.join(d, 'other')).decode(), other, 'another file')
        n = sum(1 for v in vers if v is not None) + (other is not None)
        ctx.equal(len(os.listdir(d)), n, 'number of files')
    ctx.nontrivial(sum(1 for v in vers if v is not None) > 1)


@st.composite
def fail_case(draw):
    return dict(first=draw(st.integers(0, 99)), n=draw(st.integers(1, 3)), bad=draw(st.sampled_from(['lambda', 'raise'])))


class Raises(object):
    def __reduce__(self):
        raise RuntimeError('injected')


def t_fail(c, ctx):
    """A save that fails leaves the previous version retrievable."""
    from inference.utils.ioutils import AttrStore
    with scratch() as d:
        p = os.path.join(d, 'f')
        for k in range(c['n']):
            s = AttrStore(a=c['first'] + k, b=[1, 2])
            s.save(p)
        s = AttrStore(p, c=(lambda: 0) if c['bad'] == 'lambda' else Raises())
        try:
            s.save()
            ctx.check(False, 'an object that cannot be pickled was saved')
        except vh.Violation:
            raise
        except Exception:
            pass
        found = []
        for x in ('', '%', '%%'):
            try:
                with open(p + '.pkl' + x, 'rb') as f:
                    found.append(pickle.load(f))
            except Exception:
                pass
        ctx.check(dict(a=c['first'] + c['n'] - 1, b=[1, 2]) in found, 'the previous version was lost by a failed save')
        ctx.check(s.a == c['first'] + c['n'] - 1, 'the store lost its values')
    ctx.nontrivial()


@st.composite
def rng_case(draw):
    return dict(seed=draw(st.integers(0, 2 ** 31)), ops=[[draw(st.sampled_from(['draw', 'draw', 'normal', 'normal', 'save', 'save', 'restore', 'restore', 'restore1', 'restore2', 'seed'])),
                                                         draw(st.integers(1, 5))] for _ in range(draw(st.integers(2, 14)))],
                default=draw(st.booleans()), quiet=draw(st.booleans()), bad=draw(st.booleans()))


def t_rng(c, ctx):
    from inference.utils.rng import save_rng, restore_rng
    keep, cwd = np.random.get_state(), os.getcwd()

    def eq(a, b):
        return a[0] == b[0] and (a[1] == b[1]).all() and a[2] == b[2] and a[3] == b[3] and (not a[3] or a[4] == b[4])
    saved = []
    kinds = set()
    try:
        with scratch() as d:
            os.chdir(d)
            try:
                home = d if c['default'] else os.path.join(d, 'sub')
                os.makedirs(home, exist_ok=True)
                args = () if c['default'] else (os.path.join(home, 'state'),)
                path = '.numpy-rng-state' if c['default'] else args[0]
                np.random.seed(c['seed'])
                for op, n in c['ops']:
                    if op == 'draw':
                        np.random.random(n)
                    elif op == 'normal':
                        for _ in range(n):
                            np.random.normal()
                    elif op == 'seed':
                        np.random.seed(n)
                    elif op == 'save':
                        before = np.random.get_state()
                        save_rng(*args)
                        ctx.check(eq(before, np.random.get_state()), 'saving changed the state')
                        saved.insert(0, before)
                    else:
                        lev = int(op[7:] or 0)
                        if lev and len(saved) < lev + 1:
                            continue
                        a = ('%s.%d' % (path, lev),) if lev else args
                        before = np.random.get_state()
                        with contextlib.redirect_stdout(io.StringIO()) as out:
                            if c['quiet'] and saved:
                                restore_rng(*a, notify=False)
                            else:
                                restore_rng(*a)
                        if saved:
                            ctx.check(bool(out.getvalue()) != c['quiet'], 'notification %r', out.getvalue())
                            ctx.check(eq(np.random.get_state(), saved[lev]), 'the state restored is not the one saved')
                            kinds.add('restored')
                            if saved[lev][3]:
                                kinds.add('pending normal')
                        else:
                            ctx.check(eq(np.random.get_state(), before), 'restoring without a file changed the state')
                            ctx.check(os.path.exists(path), 'restoring without a file did not save the state')
                            saved.insert(0, before)
                    saved = saved[:3]
                    for x, s in zip(['', '.1', '.2'], saved):
                        ctx.check(os.path.exists(path + x), '%s is missing', os.path.basename(path) + x)
                    ctx.equal(len(os.listdir(home)), len(saved), 'number of files')
                for lev, s in enumerate(saved):
                    with contextlib.redirect_stdout(io.StringIO()):
                        restore_rng(path + ('.%d' % lev if lev else ''))
                    ctx.check(eq(np.random.get_state(), s), 'the state %d saves ago is not restored', lev)
                if saved and c['bad']:
                    with open(path, 'wb') as f:
                        pickle.dump(('XYZ', (1, 2)), f)
                    before = np.random.get_state()
                    with contextlib.redirect_stdout(io.StringIO()):
                        ctx.raises(ValueError, lambda: restore_rng(*args, notify=not c['quiet']), 'state of an unknown generator')
                    ctx.check(eq(before, np.random.get_state()), 'a refused state changed the generator')
            finally:
                os.chdir(cwd)
    finally:
        np.random.set_state(keep)
    for k in kinds:
        ctx.event(k)
    ctx.nontrivial('restored' in kinds)


@st.composite
def col_case(draw):
    nc = draw(st.integers(1, 4))
    types = [draw(st.sampled_from(['int', 'float', 'str', 'hex'])) for _ in range(nc)]
    val = {'int': st.one_of(st.integers(-10 ** 6, 10 ** 6), st.integers(-10 ** 18, 10 ** 18)), 'hex': st.integers(0, 10 ** 6),
           'float': st.one_of(gen.fl(-1e6, 1e6), gen.fl(-1e308, 1e308), gen.fl(-1e-300, 1e-300), st.just(np.inf)),
           'str': st.text(draw(st.sampled_from(['abcXYZ09_', 'ab0.-+e#,;:"\'%!()[]{}\\|/*\xe9'])), min_size=1, max_size=12)}
    rows = [[draw(val[t]) for t in types]
            for _ in range(draw(st.integers(1, 8)))] * draw(st.sampled_from([1, 1, 1, 25]))
    return dict(types=types, rows=rows, sep=draw(st.sampled_from([' ', '  ', '\t', ' \t '])), pad=draw(st.booleans()), arrays=draw(st.booleans()),
                extra=draw(st.booleans()), head=draw(st.integers(0, 2)),
                end=draw(st.sampled_from(['\n', '\n', '', '\r\n'])))


def t_cols(c, ctx):
    from inference.utils.ioutils import read_column_vectors
    lines = ['# header %d' % k for k in range(c['head'])]
    for r in c['rows']:
        w = [x if t == 'str' else '%x' % x if t == 'hex' else repr(x) for x, t in zip(r, c['types'])] + (['99'] if c['extra'] else [])
        lines.append((' ' if c['pad'] else '') + c['sep'].join(w) + (' ' if c['pad'] else ''))
    f = io.StringIO((c['end'] or '\n').join(lines) + c['end'], newline='')
    for _ in range(c['head']):
        f.readline()
    types = [dict(int=int, float=float, str=str, hex=lambda w: int(w, 16))[t] for t in c['types']]
    out = read_column_vectors(f, types) if c['arrays'] else read_column_vectors(f, types, False)
    ctx.equal(len(out), len(types), 'number of columns')
    for k, col in enumerate(out):
        ctx.equal(isinstance(col, np.ndarray), c['arrays'], 'arrays')
        ctx.check(list(col) == [r[k] for r in c['rows']], 'column %d is %r', k, col)
    ctx.nontrivial(len(types) > 1 and len(c['rows']) > 1)


check = vh.Check('P20', [
    vh.Sub('stores', store_case(), t_store, quick=1800, thorough=30000, shards=4, rule='something was saved'),
    vh.Sub('backup', backup_case(), t_backup, quick=600, thorough=10000, shards=2, rule='a backup exists'),
    vh.Sub('failing', fail_case(), t_fail, quick=60, thorough=300, rule='all'),
    vh.Sub('rng', rng_case(), t_rng, quick=600, thorough=10000, shards=2, rule='a state was restored'),
    vh.Sub('columns', col_case(), t_cols, quick=400, thorough=5000, shards=1, rule='several columns and rows'),
], rule='per sub-check; see per_sub.*.rule',
    assumptions=['all files are in scratch directories of the check', 'arrays of numeric, boolean and string types; attribute names other than "file" and "allow_pickle" (numpy.savez)'])

if __name__ == '__main__':
    sys.exit(vh.main(check))
