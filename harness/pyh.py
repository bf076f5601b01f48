"""pyh.py SEED LO HI REFLIB : runs the built Python extension on generated calls (argument kinds, shapes, options) and compares with the C library.
Case numbers go to stderr as @k; a failure is reported as FAIL k text."""
import sys, os, ctypes, random, warnings
import numpy as np
import qpSWIFT

seed, lo, hi, reflib = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
R = ctypes.CDLL(reflib)
D = ctypes.POINTER(ctypes.c_double)
R.ref.restype = ctypes.c_long
NAMES = ('c', 'h', 'P', 'G', 'A', 'b', 'opts')


class Bad(Exception):
    pass


def ptr(a): return a.ctypes.data_as(D) if a is not None else None


def problem(r):
    n, m = r.randint(1, 5), r.randint(1, 6)
    if r.random() < .01: n, m = r.choice([(n, 150), (140, 2), (140, 150)])     # blocks that numpy does not keep in its cache of small ones
    eq = r.random() < .55
    p = r.randint(1, min(2, n)) if eq else 0
    g = np.random.RandomState(r.randrange(1 << 30))
    M = g.randint(-3, 4, (n, n)).astype(float)
    P = M.T.dot(M) + (np.eye(n) if r.random() < .7 else 0)
    if r.random() < .3: P = P + np.triu(g.randint(-1, 2, (n, n)), 1) * 0
    G = g.randint(-3, 4, (m, n)).astype(float)
    x0 = g.randint(-2, 3, n).astype(float)
    h = G.dot(x0) + g.randint(0, 4, m) + (.5 if r.random() < .8 else -3)
    c = g.randint(-5, 6, n).astype(float)
    A = g.randint(-2, 3, (p, n)).astype(float)
    b = A.dot(x0)
    d = dict(c=c, h=h, P=P, G=G)
    if eq or r.random() < .08: d.update(A=A, b=b)
    return d


def dress(r, a):
    """the same numbers in another element type and memory layout"""
    k = r.random()
    if k < .25: a = a.astype(np.float32)
    elif k < .35: a = a.astype(np.longdouble)
    elif k < .42: a = a.astype(np.float16)
    elif k < .5: a = a.astype('>f8')
    k = r.random()
    if k < .25: a = np.asfortranarray(a)
    elif k < .45:
        big = np.full(tuple(2 * x + 1 for x in a.shape), 77, a.dtype)
        big[tuple(slice(1, 2 * x + 1, 2) for x in a.shape)] = a
        a = big[tuple(slice(1, 2 * x + 1, 2) for x in a.shape)]
    elif k < .6: a = a[::-1].copy()[::-1]
    elif k < .7: a.setflags(write=False)
    return a


def spoil(r, d, opts):
    """one improper argument -> (arguments, options, what)"""
    d = dict(d)
    k = r.choice(list(d))
    a = d[k]
    w = r.randrange(9)
    if w == 0: d[k] = np.array(1.5)
    elif w == 1: d[k] = a.reshape(a.shape + (1,)) if a.ndim == 1 else a.reshape(a.shape + (1,))
    elif w == 2: d[k] = a.ravel() if a.ndim == 2 else a.reshape(1, -1)
    elif w == 3: d[k] = a.astype(r.choice([np.int64, np.int32, bool, complex, object]))
    elif w == 4: d[k] = a.tolist()
    elif w == 5: d[k] = r.choice([None, 1.0, 'x', (1.0,), {}, 7])
    elif w == 6 and a.ndim == 2: d[k] = np.ones((a.shape[0] + r.choice([1, 2]), a.shape[1])) if r.random() < .5 else np.ones((a.shape[0], a.shape[1] + r.choice([1, 2])))
    elif w == 7 and a.ndim == 2 and a.shape[0] != a.shape[1]: d[k] = np.ascontiguousarray(a.T)
    elif a.ndim == 1: d[k] = np.ones(len(a) + r.choice([1, 2]))
    else: d[k] = np.ones((a.shape[0] + 1, a.shape[1] + 1))
    return d, opts, 'argument %s is %s' % (k, d[k].dtype.name + str(d[k].shape) if isinstance(d[k], np.ndarray) else repr(d[k]))


BADOPT = dict(MAXITER=[0, 200, -1, 201, 1.5, '5', None, 10 ** 30, -10 ** 30, 50.0], ABSTOL=[0.0, 1.0, -1e-3, 2.0, 1, 0, '1e-3', None, float('nan'), float('inf')],
              RELTOL=[0.0, 1.0, -1e-3, 2.0, 1, 0, '1e-3', None, float('nan'), float('inf')], SIGMA=[0.0, -1.0, 1, 'x', None, float('nan')], VERBOSE=[-1, 0.0, 1.0, 'x', None, 10 ** 30])
GOODOPT = dict(MAXITER=[1, 2, 3, 5, 50, 100, 199], ABSTOL=[1e-3, 1e-8, .5, .999999], RELTOL=[1e-3, 1e-8, .5, .999999], SIGMA=[1e-3, .5, 3.0, 100.0, 1e6], VERBOSE=[0, 0, 0, 1, 5], OUTPUT=[0, 1, 2, 3, 7])
BADOUT = [-1, 1.0, '2', None, 10 ** 30, 2.0]


def call(r, d, opts, more=None):
    a = dict(d)
    if opts is not None: a['opts'] = opts
    order = [k for k in NAMES if k in a]
    npos = r.randint(0, 4)
    pos = []
    for k in NAMES[:npos]:
        if k not in a: break
        pos.append(a[k])
    if npos == 4 and r.random() < .4:
        for k in NAMES[4:]:
            if k not in a: break
            pos.append(a[k])
    kw = [k for k in order if k not in NAMES[:len(pos)]]
    r.shuffle(kw)
    return qpSWIFT.run(*pos, **{k: a[k] for k in kw})


def same(x, y): return np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True)


def check(r, d, opts, res):
    o = opts or {}
    lvl = o.get('OUTPUT', 10)
    D_ = {k: np.ascontiguousarray(d[k], dtype=np.float64) for k in d}
    both = 'A' in d and 'b' in d
    n, m, p = len(d['c']), len(d['h']), len(d['b']) if both else 0
    x, y, z, s, st = np.empty(n), np.empty(p), np.empty(m), np.empty(m), np.empty(2)
    f = R.ref(ctypes.c_long(n), ctypes.c_long(m), ctypes.c_long(p), ptr(D_['P']), ptr(D_['A']) if both else None, ptr(D_['G']), ptr(D_['c']), ptr(D_['h']), ptr(D_['b']) if both else None,
              ctypes.c_long(o.get('MAXITER', 100)), ctypes.c_double(o.get('ABSTOL', 1e-6)), ctypes.c_double(o.get('RELTOL', 1e-6)), ctypes.c_double(o.get('SIGMA', 100.0)), ptr(x), ptr(y), ptr(z), ptr(s), ptr(st))
    if not isinstance(res, dict): raise Bad('the result is no dictionary')
    want = {'sol'} | ({'basicInfo'} if lvl in (1, 2) else set()) | ({'advInfo'} if lvl == 2 else set())
    if set(res) != want: raise Bad('the result has the keys %s at output level %s' % (sorted(res), lvl))

    def vec(a, b, nm):
        if not isinstance(a, np.ndarray) or a.shape != b.shape or a.dtype != np.float64: raise Bad('%s is not a vector of %d doubles' % (nm, len(b)))
        if not same(a, b): raise Bad('%s differs from what the solver computes: %s, %s' % (nm, a, b))
    vec(res['sol'], x, 'sol')
    if lvl in (1, 2):
        i = res['basicInfo']
        if set(i) != {'ExitFlag', 'Iterations', 'Setup_Time', 'Solve_Time'}: raise Bad('basicInfo has the keys %s' % sorted(i))
        if i['ExitFlag'] != f or i['Iterations'] != int(st[0]): raise Bad('ExitFlag %s, Iterations %s where the solver has %d, %d' % (i['ExitFlag'], i['Iterations'], f, st[0]))
        for t in ('Setup_Time', 'Solve_Time'):
            if not isinstance(i[t], float) or not 0 <= i[t] < 1000: raise Bad('%s is %s' % (t, i[t]))
    if lvl == 2:
        i = res['advInfo']
        if set(i) != {'fval', 'kktTime', 'ldlTime', 'z', 's'} | ({'y'} if both else set()): raise Bad('advInfo has the keys %s' % sorted(i))
        if not same(i['fval'], st[1]): raise Bad('fval is %r, the solver has %r' % (i['fval'], st[1]))
        vec(i['z'], z, 'z')
        vec(i['s'], s, 's')
        if both: vec(i['y'], y, 'y')


def one(k):
    r = random.Random(seed * 1000003 + k)
    d = problem(r)
    d = {a: dress(r, v) for a, v in d.items()}
    opts = None
    if r.random() < .6: opts = {o: r.choice(GOODOPT[o]) for o in GOODOPT if r.random() < .5}
    kind = r.random()
    what, mayraise = 'proper arguments', False
    if kind < .4:
        expect = 'raise'
        if r.random() < .6: d, opts, what = spoil(r, d, opts)
        else:
            o = r.choice(list(BADOPT))
            v = r.choice(BADOPT[o])
            opts = dict(opts or {}, **{o: v})
            what = 'option %s is %r' % (o, v)
    elif kind < .47:
        v = r.choice(BADOUT)
        opts = dict(opts or {}, OUTPUT=v)
        what = 'option OUTPUT is %r' % (v,)
        expect = r.choice(['warn', 'warn as error'])
    elif kind < .52 and 'A' in d:
        del d[r.choice('Ab')]
        what = 'only one of A and b'
        expect = 'result'
    elif kind < .55:
        miss = r.choice(['c', 'h', 'P', 'G', 'extra', 'opts'])
        expect = 'raise'
        what = 'missing or unknown argument %s' % miss
        if miss == 'extra': d['Q'] = d['P']
        elif miss == 'opts': opts = r.choice([[], 3, 'x'])
        else: del d[miss]
    else: expect = 'result'
    copies = {a: (v.copy() if isinstance(v, np.ndarray) else None) for a, v in d.items()}
    res = exc = None
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('error' if expect == 'warn as error' else 'always')
        try:
            if 'Q' in d: res = qpSWIFT.run(**dict({a: v for a, v in d.items()}, **({'opts': opts} if opts is not None else {})))
            else: res = call(r, d, opts)
        except SystemError as e:
            raise Bad('%s: %s' % (what, e))
        except Exception as e:
            exc = e
    for a, v in copies.items():
        if v is not None and v.dtype != object and not same(v, d[a]): raise Bad('%s: the array %s was modified' % (what, a))
    if expect in ('raise', 'warn as error'):
        if exc is None: raise Bad('%s: a result is returned instead of an exception' % what)
        return
    if exc is not None: raise Bad('%s: %s: %s' % (what, type(exc).__name__, exc))
    if expect == 'warn':
        if not any(issubclass(w.category, UserWarning) for w in ws): raise Bad('%s: no warning' % what)
        opts = {o: v for o, v in opts.items() if o != 'OUTPUT'}
    check(r, d, opts, res)


for k in range(lo, hi):
    sys.stderr.write('@%d\n' % k)
    sys.stderr.flush()
    try:
        one(k)
    except Bad as e:
        sys.stderr.write('FAIL %d %s\n' % (k, str(e).replace('\n', ' ')))
        sys.stderr.flush()
        os._exit(3)
sys.stderr.write('PASS\n')
sys.stderr.flush()
os._exit(0)
