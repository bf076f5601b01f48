"""The functions that work on a whole solver instance (src/Auxilary.c): residuals, objective, initialisation, KKT solves."""
from .common import *
from . import ldl
from .ldl import Pattern, perm, prefix, INV, LSOLVED, LTSOLVED, DSOLVED, PERMUTED, FACT

B = z3.BoolSort()
# (n,P,Lp,Li,Lx,D,b,x): x is the result of permute, forward, diagonal, backward, un-permute applied to b
SOLVED = fn('SOLVED', I, AI, AI, AI, AR, AR, AR, AR, B)
XPX = fn('XPX', AI, AI, AR, AR, I, I, R)     # XPX(jc,ir,pr,x,nnz,e) = sum_{k<e} x[k]*MV(jc,ir,pr,x,k,nnz)


def solved_def():
    n = z3.Int('n')
    P, Lp, Li = [z3.Const(s, AI) for s in ('P', 'Lp', 'Li')]
    Lx, D, b, x, d1, d2, d3, d4 = [z3.Const(s, AR) for s in ('Lx', 'D', 'b', 'x', 'd1', 'd2', 'd3', 'd4')]
    h = [PERMUTED(n, P, b, d1), LSOLVED(n, Lp, Li, Lx, d1, d2), DSOLVED(n, D, d2, d3), LTSOLVED(n, Lp, Li, Lx, d3, d4), PERMUTED(n, P, x, d4)]
    return z3.ForAll([n, P, Lp, Li, Lx, D, b, x, d1, d2, d3, d4], z3.Implies(z3.And(*h), SOLVED(n, P, Lp, Li, Lx, D, b, x)), patterns=[z3.MultiPattern(*h)])


# ------------------------------------------------------------------------------------------------ the shape of an instance
def kn(V, k): return V[k + '.kktmatrix.n']
def kpt(V, k): return Pattern(kn(V, k), V.a(k + '.kktmatrix.jc').raw(), V.a(k + '.kktmatrix.ir').raw(), V.a(k + '.P').raw())


def up(p): return p.rsplit('.', 1)[0]


def kkt_obj(fields, w=(), kpr=False, kw=()):
    N = lambda V, p: kn(V, up(p))
    NL = lambda V, p: V.a(up(p) + '.Lp')[kn(V, up(p))]
    allf = {'b': ('real', N), 'Y': ('real', N), 'D': ('real', N), 'Lp': ('int', lambda V, p: kn(V, up(p)) + 1), 'Parent': ('int', N), 'Pattern': ('int', N), 'Flag': ('int', N),
            'Lnz': ('int', N), 'Li': ('int', NL), 'Lx': ('real', NL), 'P': ('int', N), 'Pinv': ('int', N)}
    f = {'kktmatrix': smat()}
    if kpr: f['kktmatrix'].fields['pr'] = Arr('real', lambda V, p: V[p[:-3] + '.nnz'], True)
    for x in fields:
        f[x] = Arr(allf[x][0], allf[x][1], x in w)
    return Obj_('kkt', f, kw)


ANALYSIS = ['Lp', 'Parent', 'P', 'Pinv']
NUMERIC = ['Lnz', 'Li', 'Lx', 'D', 'Y', 'Pattern', 'Flag']


def kkt_matrix(V, k):
    return ccs(V, k + '.kktmatrix') + [('the KKT matrix is square', V[k + '.kktmatrix.m'] == kn(V, k))] + perm(V, k + '.P', kn(V, k))


def analysed(V, k):
    """what the symbolic phase stored"""
    pt, n = kpt(V, k), kn(V, k)
    j = z3.Int('j')
    return [('Pinv is the inverse permutation', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), V.a(k + '.Pinv')[j] == INV(V.a(k + '.P').raw(), j)), patterns=[V.a(k + '.Pinv')[j]])),
            ('Parent is the elimination tree', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), V.a(k + '.Parent')[j] == pt.PAR(j)), patterns=[V.a(k + '.Parent')[j]]))] + prefix(V, V.a(k + '.Lp'), pt, n)


def factored(V, k):
    """what the numeric phase stored, for the matrix as it is now"""
    n = kn(V, k)
    j, q = z3.Ints('j q')
    d = V.a(k + '.D')[j]
    lp, li = V.a(k + '.Lp'), V.a(k + '.Li')
    return [('no pivot is zero', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), d != 0), patterns=[d])),
            ('the factor is strictly lower triangular', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < lp[n]), z3.And(0 <= li[q], col(lp.raw(), q) < li[q], li[q] < n)), patterns=[li[q]])),
            ('the stored factor is that of the current matrix', fact(V, k))]


def fact(V, k):
    r = lambda f: V.a(k + '.' + f).raw()
    return FACT(kn(V, k), r('kktmatrix.jc'), r('kktmatrix.ir'), r('kktmatrix.pr'), r('P'), r('Lp'), r('Li'), r('Lx'), r('D'))


def solved(V, k, b, x):
    r = lambda f: V.a(k + '.' + f).raw()
    return SOLVED(kn(V, k), r('P'), r('Lp'), r('Li'), r('Lx'), r('D'), b, x)


def lp_ok(V, k):
    n = kn(V, k)
    return ccs_jc(V.a(k + '.Lp'), n, V.a(k + '.Lp')[n], 'L')


class ldlinitialsolve(Contract):
    name = 'ldlinitialsolve'
    params = ['mykkt', 'delta']
    lemmas = ['pattern', 'columns', 'counting']
    K = 'mykkt'
    NEW = {'Y': ('real', lambda V, k: kn(V, k)), 'D': ('real', lambda V, k: kn(V, k)), 'Lp': ('int', lambda V, k: kn(V, k) + 1), 'Parent': ('int', lambda V, k: kn(V, k)),
           'Pattern': ('int', lambda V, k: kn(V, k)), 'Flag': ('int', lambda V, k: kn(V, k)), 'Lnz': ('int', lambda V, k: kn(V, k)),
           'Li': ('int', lambda V, k: V.a(k + '.Lp')[kn(V, k)]), 'Lx': ('real', lambda V, k: V.a(k + '.Lp')[kn(V, k)]), 'Lti': ('int', lambda V, k: V.a(k + '.Lp')[kn(V, k)]), 'Ltp': ('int', lambda V, k: kn(V, k) + 1)}

    def shapes(self):
        return {'all': {'mykkt': kkt_obj(['b', 'P', 'Pinv'], ['b', 'Pinv'], kw=tuple(self.NEW)), 'delta': Arr('real', lambda V, p: kn(V, 'mykkt'), True)}}

    def requires(self, V): return kkt_matrix(V, 'mykkt')

    def allocs(self, V): return {'mykkt.' + f: (t, lambda V, l=l: l(V, 'mykkt')) for f, (t, l) in self.NEW.items()}

    def ensures(self, V):
        k = 'mykkt'
        return [('reports success', V.ret == 1)] + lp_ok(V, k) + analysed(V, k) + factored(V, k) + [
            ('the result solves the factored system', solved(V, k, V.old.a('mykkt.b').raw(), V.a('mykkt.b').raw()))]

    def axioms(self, num): return [solved_def()]

    def after_apply(self, ex, st, Vp, Vn):
        # ghost: the right-hand side handed over and the solution handed back
        st.ghost['rhs'] = Vp.a('mykkt.b').raw()
        st.ghost['sol'] = Vn.a('mykkt.b').raw()

    def ghosts(self, ex, st, V):
        pass


class _KSolve(Contract):
    """shared by the predictor and the corrector solve"""
    lemmas = ['columns']
    params = ['myQP']
    W = []

    def fields(self, case):
        n = lambda V, p: V['myQP.n']
        m = lambda V, p: V['myQP.m']
        pp = lambda V, p: V['myQP.p']
        f = {'kkt': kkt_obj(['b'] + ANALYSIS + NUMERIC, ['b'] + NUMERIC), 'delta': Arr('real', lambda V, p: kn(V, 'myQP.kkt'), True)}
        for x in ('s', 'z', 'ds', 'rz', 'lambda'): f[x] = Arr('real', m)
        f['rx'] = Arr('real', n)
        for x, l in (('delta_x', n), ('delta_y', pp), ('delta_z', m), ('delta_s', m)):
            f[x] = Arr('real', l, x in self.W)
        if case == 'eq': f['ry'] = Arr('real', pp)
        else:
            f['ry'], f['delta_y'] = Any(), Any()
        f['options'] = Obj_('settings', {})
        f['stats'] = Obj_('stats', {}, ('ldl_numeric',))
        return f

    def shapes(self):
        return {c: {'myQP': Obj_('QP', self.fields(c))} for c in ('eq', 'noeq')}

    def case_guard(self, V): return V['myQP.p'] == 0 if V.case == 'noeq' else None

    def dims(self, V):
        n, m, p = V['myQP.n'], V['myQP.m'], V['myQP.p']
        return [('dimensions', z3.And(n >= 0, m >= 1, p >= 0, kn(V, 'myQP.kkt') == n + m + p))]

    def rhs(self, V):
        """the right-hand side is [rx; ry; rz - ds/z]"""
        q = 'myQP.'
        n, m, p = V[q + 'n'], V[q + 'm'], V[q + 'p']
        b = V.a(q + 'kkt.b')
        out = [('right-hand side: stationarity block', bq(IV(0), n, lambda k: b[k] == V.a(q + 'rx')[k], lambda k: [b[k]]))]
        if V.case == 'eq':
            out.append(('right-hand side: equality block', bq(n, n + p, lambda k: b[k] == V.a(q + 'ry')[k - n], lambda k: [b[k]])))
        out.append(('right-hand side: inequality block rz - ds/z', bq(n + p, n + p + m, lambda k: b[k] == V.a(q + 'rz')[k - n - p] - V.num.div(V.a(q + 'ds')[k - n - p], V.a(q + 'z')[k - n - p]), lambda k: [b[k]])))
        return out

    def scaled(self, V):
        """the scaling block of the KKT matrix belongs to the current point"""
        q = 'myQP.'
        n, m, p = V[q + 'n'], V[q + 'm'], V[q + 'p']
        jc, pr = V.a(q + 'kkt.kktmatrix.jc'), V.a(q + 'kkt.kktmatrix.pr')
        i = z3.Int('i')
        return [('the scaling diagonal of the KKT matrix is -s/z', z3.ForAll([i], z3.Implies(z3.And(n + p <= i, i < n + p + m), pr[jc[i + 1] - 1] == -(V.num.div(V.a(q + 's')[i - n - p], V.a(q + 'z')[i - n - p]))), patterns=[jc[i + 1]]))]

    def positive(self, V):
        return [('s and z are positive', bq(IV(0), V['myQP.m'], lambda k: z3.And(V.a('myQP.s')[k] > 0, V.a('myQP.z')[k] > 0), lambda k: [V.a('myQP.s')[k], V.a('myQP.z')[k]]))]

    def l2(self, V, k): return V.a('myQP.lambda')[k] * V.a('myQP.lambda')[k]

    def lam(self, V):
        return [('lambda = sqrt(s*z)', bq(IV(0), V['myQP.m'], lambda k: V.a('myQP.lambda')[k] == V.num.sqrt(V.a('myQP.s')[k] * V.a('myQP.z')[k]), lambda k: [V.a('myQP.lambda')[k]]))]

    def dirs(self, which):
        n, m, p = (lambda V: V['myQP.n']), (lambda V: V['myQP.m']), (lambda V: V['myQP.p'])
        b = lambda V, k: V.a('myQP.kkt.b')[k]
        out = []
        if 'x' in which:
            out.append(Seg('myQP.delta_x', lambda V: IV(0), n, lambda V, k, v: v == b(V, k), 'delta_x is the first block of the solution'))
        if 'y' in which:
            out.append(Seg('myQP.delta_y', lambda V: IV(0), p, lambda V, k, v: v == b(V, n(V) + k), 'delta_y is the second block of the solution'))
        out.append(Seg('myQP.delta_z', lambda V: IV(0), m, lambda V, k, v: v == b(V, n(V) + p(V) + k), 'delta_z is the third block of the solution'))
        out.append(Seg('myQP.delta_s', lambda V: IV(0), m, lambda V, k, v: v == V.num.div(V.a('myQP.ds')[k] - V.a('myQP.s')[k] * V.a('myQP.delta_z')[k], V.a('myQP.z')[k]), 'delta_s = (ds - s*delta_z)/z'))
        return out

    def which(self, case): return 'z'

    def requires(self, V):
        k = 'myQP.kkt'
        return self.dims(V) + kkt_matrix(V, k) + lp_ok(V, k) + analysed(V, k) + self.positive(V) + self.scaled(V) + self.rhs(V) + self.lam(V) + self.more(V)

    def ensures(self, V):
        k = 'myQP.kkt'
        return factored(V, k) + [('the step solves the factored system', solved(V, k, V.old.a(k + '.b').raw(), V.a(k + '.b').raw()))] + seg_ensures(self.dirs(self.which(V.case)), V)

    def axioms(self, num): return [solved_def()]
    def bounds(self, ex):
        n, m, p = (lambda V: V['myQP.n']), (lambda V: V['myQP.m']), (lambda V: V['myQP.p'])
        return [('n', n), ('m', m), ('p', p), ('n+p', lambda V: n(V) + p(V)), ('n+p+m', lambda V: n(V) + p(V) + m(V))]

    def templates(self, ex, L, V0):
        n, p = (lambda V: V['myQP.n']), (lambda V: V['myQP.p'])
        return seg_templates(self.dirs(self.which(V0.case)), ex, L, View(ex, V0.st, V0.args, old=V0), offs=[('-n', lambda V: -n(V)), ('-n-p', lambda V: -n(V) - p(V))])


class kktsolve_1(_KSolve):
    name = 'kktsolve_1'
    W = ['delta_z', 'delta_s']

    def more(self, V):
        return [('the predictor step uses ds = -lambda^2', bq(IV(0), V['myQP.m'], lambda k: V.a('myQP.ds')[k] == -self.l2(V, k), lambda k: [V.a('myQP.ds')[k]]))]

    def ensures(self, V): return [('reports success', V.ret != 0)] + super().ensures(V)


class kktsolve_2(_KSolve):
    name = 'kktsolve_2'
    W = ['delta_x', 'delta_y', 'delta_z', 'delta_s']

    def which(self, case): return 'xyz' if case == 'eq' else 'xz'

    def more(self, V):
        q = 'myQP.'
        re = V['myQP.stats.resolve_kkt']
        sm = V['myQP.options.sigma'] * V['myQP.mu']
        ds = V.a('myQP.ds')
        out = [('unless the matrix is factored again, ' + l, z3.Implies(re == 0, f)) for l, f in factored(V, 'myQP.kkt')]
        corr = lambda k: ds[k] == -self.l2(V, k) - V.a(q + 'delta_s')[k] * V.a(q + 'delta_z')[k] + sm
        cent = lambda k: ds[k] == -self.l2(V, k) + sm
        dot = DOT(V.a(q + 's').raw(), V.a(q + 'z').raw(), V[q + 'm'])
        rho = ldl_rho(V)
        one = z3.RealVal(1)
        cl = z3.If(rho < 1, rho, one)
        return out + [
            ('the corrector step uses ds = -lambda^2 - delta_s*delta_z + sigma*mu, the centring step -lambda^2 + sigma*mu',
             z3.Or(bq(IV(0), V[q + 'm'], corr, lambda k: [ds[k]]), z3.And(V[q + 'options.sigma'] == V[q + 'sigma_d'], bq(IV(0), V[q + 'm'], cent, lambda k: [ds[k]])))),
            ("mu is s'z/m", V[q + 'mu'] == V.num.div(dot, V.num.of_int(V[q + 'm']))),
            ('the centring weight is the clipped cube of the predicted complementarity ratio', z3.Or(V[q + 'options.sigma'] == V[q + 'sigma_d'], V[q + 'options.sigma'] == cl * cl * cl))]


def ldl_rho(V):
    from .aux_kernels import RHO
    q = 'myQP.'
    r = lambda f: V.a(q + f).raw()
    return V.num.div(RHO(r('s'), r('delta_s'), r('z'), r('delta_z'), V[q + 'stats.alpha_p'], V[q + 'stats.alpha_d'], V[q + 'm']), DOT(r('s'), r('z'), V[q + 'm']))


# ------------------------------------------------------------------------------------------------ residuals and objective
def mat(V, p): return [V.a(p + '.' + f).raw() for f in ('jc', 'ir', 'pr')]


def px(V, p, x, r):
    """(matrix p times x)[r]"""
    return MV(*mat(V, p), V.a(x).raw(), r, V[p + '.nnz'])


def ptx(V, p, x, c):
    """(matrix p transposed times x)[c]"""
    jc, ir, pr = mat(V, p)
    ps = lambda e: PS(ir, pr, V.a(x).raw(), e)
    return ps(V.a(p + '.jc')[c + 1]) - ps(V.a(p + '.jc')[c])


def problem_dims(V):
    q = 'myQP.'
    n, m, p = V[q + 'n'], V[q + 'm'], V[q + 'p']
    out = [('dimensions', z3.And(n >= 1, m >= 1, V[q + 'P.n'] == n, V[q + 'P.m'] == n, V[q + 'G.n'] == n, V[q + 'G.m'] == m))] + ccs(V, q + 'P') + ccs(V, q + 'G')
    if V.case == 'eq': out += ccs(V, q + 'A') + [('dimensions of A', z3.And(p >= 1, V[q + 'A.n'] == n, V[q + 'A.m'] == p))]
    else: out += [('no equality constraints', p == 0)]
    return out


def residuals(V):
    """rx, ry, rz and their norms belong to the point (x,y,z,s)"""
    q = 'myQP.'
    n, m, p = V[q + 'n'], V[q + 'm'], V[q + 'p']
    eq = V.case == 'eq'
    rx = lambda k: V.a(q + 'rx')[k] == -px(V, q + 'P', q + 'x', k) - ptx(V, q + 'G', q + 'z', k) - V.a(q + 'c')[k] - (ptx(V, q + 'A', q + 'y', k) if eq else 0)
    rz = lambda k: V.a(q + 'rz')[k] == -px(V, q + 'G', q + 'x', k) - V.a(q + 's')[k] + V.a(q + 'h')[k]
    nrm = lambda f, l: V.num.sqrt(DOT(V.a(q + f).raw(), V.a(q + f).raw(), l))
    out = [("rx = -(Px + c + A'y + G'z)", bq(IV(0), n, rx, lambda k: [V.a(q + 'rx')[k]])),
           ('n_rx is its norm', V[q + 'stats.n_rx'] == nrm('rx', n))]
    if eq:
        out += [('ry = -(Ax - b)', bq(IV(0), p, lambda k: V.a(q + 'ry')[k] == -px(V, q + 'A', q + 'x', k) + V.a(q + 'b')[k], lambda k: [V.a(q + 'ry')[k]])),
                ('n_ry is its norm', V[q + 'stats.n_ry'] == nrm('ry', p))]
    return out + [('rz = -(Gx + s - h)', bq(IV(0), m, rz, lambda k: [V.a(q + 'rz')[k]])), ('n_rz is its norm', V[q + 'stats.n_rz'] == nrm('rz', m)),
                  ("n_mu = s'z/m", V[q + 'stats.n_mu'] == V.num.div(DOT(V.a(q + 's').raw(), V.a(q + 'z').raw(), m), V.num.of_int(m)))]


class computeresiduals(Contract):
    name = 'computeresiduals'
    params = ['myQP']

    def shapes(self):
        out = {}
        for c in ('eq', 'noeq'):
            n, m, p = [lambda V, q, d=d: V['myQP.' + d] for d in 'nmp']
            f = {'P': smat(), 'G': smat(), 'stats': Obj_('stats', {}, ('n_rx', 'n_ry', 'n_rz', 'n_mu'))}
            for x, l, w in (('x', n, 0), ('z', m, 0), ('s', m, 0), ('c', n, 0), ('h', m, 0), ('rx', n, 1), ('rz', m, 1)): f[x] = Arr('real', l, bool(w))
            if c == 'eq':
                f['A'] = smat()
                for x, w in (('y', 0), ('b', 0), ('ry', 1)): f[x] = Arr('real', p, bool(w))
            else:
                f['A'] = Any()
                for x in ('y', 'b', 'ry'): f[x] = Any()
            out[c] = {'myQP': Obj_('QP', f)}
        return out

    def case_guard(self, V): return V['myQP.p'] == 0 if V.case == 'noeq' else V['myQP.p'] >= 1
    def requires(self, V): return problem_dims(V)
    def ensures(self, V): return residuals(V) + ([('n_ry is left alone', V['myQP.stats.n_ry'] == V.old['myQP.stats.n_ry'])] if V.case == 'noeq' else [])
    def bounds(self, ex): return [(d, lambda V, d=d: V['myQP.' + d]) for d in 'nmp']

    def templates(self, ex, L, V0):
        q = 'myQP.'
        z = [Seg('myQP.rz', lambda V: IV(0), lambda V: V['myQP.m'], lambda V, k, v: v == -px(V, q + 'G', q + 'x', k) + (V.a(q + 'h')[k] - V.a(q + 's')[k]), 'rz'),
             Seg('myQP.rz', lambda V: IV(0), lambda V: V['myQP.m'], lambda V, k, v: v == -px(V, q + 'G', q + 'x', k), 'rz=-Gx')]
        out = seg_templates(z, ex, L, View(ex, V0.st, V0.args, old=V0)) + frame_templates(ex, L, V0, ['myQP.rz', 'myQP.rx', 'myQP.ry'])
        at = lambda x, sg: ('%s%s' % ('-' if sg < 0 else '', x), lambda V, k: sg * V.a(q + x)[k])
        hs = [at('h', 1), at('s', -1), ('h-s', lambda V, k: V.a(q + 'h')[k] - V.a(q + 's')[k])]
        for x, adds in (('rx', [at('c', -1), at('c', 1)]), ('rz', hs), ('ry', [at('b', 1)] if V0.case == 'eq' else [])):
            if adds: out += delta_templates(ex, L, V0, q + x, adds)
        return out


class obj_value(Contract):
    """0.5 x'Px + c'x"""
    name = 'obj_value'
    params = ['P', 'c', 'x', 'temp']
    lemmas = ['quadratic']

    def shapes(self):
        n = lambda V, p: V['P.n']
        return {'all': {'P': smat(), 'c': Arr('real', n), 'x': Arr('real', n), 'temp': Arr('real', n, True)}}

    def requires(self, V): return ccs(V, 'P') + [('P is square', V['P.m'] == V['P.n'])]

    def xpx(self, V): return XPX(*mat(V, 'P'), V.a('x').raw(), V['P.nnz'], V['P.n'])

    def ensures(self, V):
        return [("0.5 x'Px + c'x", V.ret == xval(V, 'P', 'c', 'x'))]

    def exit_lemmas(self, V):
        k = z3.Int('k')
        t, x, n = V.a('temp'), V.a('x'), V['P.n']
        xr = x.raw()
        h = lambda sg: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), t[k] == sg * px(V, 'P', 'x', k)), patterns=[t[k]])
        c = z3.And(DOT(t.raw(), xr, n) == -self.xpx(V), DOT(xr, t.raw(), n) == -self.xpx(V))
        out = [z3.Implies(z3.And(n >= 0, h(-1)), c)]
        cr = V.a('c').raw()
        return out + [z3.Implies(n >= 0, DOT(xr, cr, n) == DOT(cr, xr, n))]


def xval(V, P, c, x):
    n = V[P + '.n']
    xr = V.a(x).raw()
    return XPX(*mat(V, P), xr, V[P + '.nnz'], n) / 2 + DOT(V.a(c).raw(), xr, n)


def _quadratic():
    t, x, pr = [z3.Const(s, AR) for s in ('t!', 'x!', 'pr!')]
    jc, ir = z3.Const('jc!', AI), z3.Const('ir!', AI)
    nnz = z3.Int('nnz!')
    k = z3.Int('k!')
    mv = lambda k: MV(jc, ir, pr, x, k, nnz)
    dot = lambda a, b, e: DOT(a, b, e)
    q = lambda e: XPX(jc, ir, pr, x, nnz, e)
    d = lambda a, b: lambda j: dot(a, b, j + 1) == dot(a, b, j) + a[j] * b[j]
    z = [dot(t, x, IV(0)) == 0, dot(x, t, IV(0)) == 0, q(IV(0)) == 0]
    hy = lambda j: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < j), t[k] == -mv(k)), patterns=[t[k]])
    return [Lemma("(-Px)'x = -x'Px", lambda j: z3.Implies(hy(j), z3.And(dot(t, x, j) == -q(j), dot(x, t, j) == -q(j))),
                  lambda j: z + [d(t, x)(j), d(x, t)(j), q(j + 1) == q(j) + x[j] * mv(j)]),
            Lemma("x't = t'x", lambda j: dot(x, t, j) == dot(t, x, j), lambda j: z + [d(t, x)(j), d(x, t)(j)])]


def _lambda():
    l, s, z = [z3.Const(a, AR) for a in ('l!', 's!', 'z!')]
    k = z3.Int('k!')
    hy = lambda j: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < j), l[k] * l[k] == s[k] * z[k]), patterns=[l[k]])
    return [Lemma("lambda'lambda = s'z", lambda j: z3.Implies(hy(j), DOT(l, l, j) == DOT(s, z, j)),
                  lambda j: [DOT(l, l, IV(0)) == 0, DOT(s, z, IV(0)) == 0, DOT(l, l, j + 1) == DOT(l, l, j) + l[j] * l[j], DOT(s, z, j + 1) == DOT(s, z, j) + s[j] * z[j]])]


class kkt_initialize(Contract):
    """the starting point: solve with right-hand side [-c; b; h], then shift s and z into the positive orthant"""
    name = 'kkt_initialize'
    params = ['myQP']
    lemmas = ['columns']

    def shapes(self):
        out = {}
        n, m, p = [lambda V, q, d=d: V['myQP.' + d] for d in 'nmp']
        for c in ('eq', 'noeq'):
            f = {'G': smat(), 'kkt': kkt_obj(['b', 'P', 'Pinv'], ['b', 'Pinv'], kw=tuple(ldlinitialsolve.NEW)), 'delta': Arr('real', lambda V, q: kn(V, 'myQP.kkt'), True)}
            for x, l, w in (('x', n, 1), ('z', m, 1), ('s', m, 1), ('c', n, 0), ('h', m, 0)): f[x] = Arr('real', l, bool(w))
            if c == 'eq':
                f['y'], f['b'] = Arr('real', p, True), Arr('real', p)
            else:
                f['y'] = f['b'] = Any()
            out[c] = {'myQP': Obj_('QP', f)}
        return out

    def case_guard(self, V): return V['myQP.p'] == 0 if V.case == 'noeq' else V['myQP.p'] >= 1

    def requires(self, V):
        q = 'myQP.'
        n, m, p = [V[q + d] for d in 'nmp']
        return [('dimensions', z3.And(n >= 1, m >= 1, p >= 0, V[q + 'G.n'] == n, V[q + 'G.m'] == m, kn(V, q + 'kkt') == n + m + p))] + ccs(V, q + 'G') + kkt_matrix(V, q + 'kkt')

    def allocs(self, V): return {'myQP.kkt.' + f: (t, lambda V, l=l: l(V, 'myQP.kkt')) for f, (t, l) in ldlinitialsolve.NEW.items()}

    def segs(self, case):
        q = 'myQP.'
        n, m, p = [lambda V, d=d: V[q + d] for d in 'nmp']
        b = lambda V, k: V.a(q + 'kkt.b')[k]
        out = [Seg(q + 'x', lambda V: IV(0), n, lambda V, k, v: v == b(V, k), 'x is the first block of the solution')]
        if case == 'eq':
            out.append(Seg(q + 'y', lambda V: IV(0), p, lambda V, k, v: v == b(V, n(V) + k), 'y is the second block of the solution'))
        return out

    def rhs(self, case):
        q = 'myQP.'
        n, m, p = [lambda V, d=d: V[q + d] for d in 'nmp']
        out = [Seg(q + 'kkt.b', lambda V: IV(0), n, lambda V, k, v: v == -V.a(q + 'c')[k], 'right-hand side: -c')]
        if case == 'eq':
            out.append(Seg(q + 'kkt.b', n, lambda V: n(V) + p(V), lambda V, k, v: v == V.a(q + 'b')[k - n(V)], 'right-hand side: b'))
        out.append(Seg(q + 'kkt.b', lambda V: n(V) + p(V), lambda V: n(V) + p(V) + m(V), lambda V, k, v: v == V.a(q + 'h')[k - n(V) - p(V)], 'right-hand side: h'))
        return out

    def gap(self, V, k):
        """h - Gx"""
        return V.a('myQP.h')[k] - px(V, 'myQP.G', 'myQP.x', k)

    def ensures(self, V):
        q, k = 'myQP.', 'myQP.kkt'
        m = V[q + 'm']
        s, z = V.a(q + 's'), V.a(q + 'z')
        i = z3.Int('i')
        g = lambda i: self.gap(V, i)
        out = [('reports success', V.ret == 1)] + lp_ok(V, k) + analysed(V, k) + factored(V, k) + seg_ensures(self.segs(V.case), V) + [
            ('s is positive', bq(IV(0), m, lambda i: s[i] > 0, lambda i: [s[i]])), ('z is positive', bq(IV(0), m, lambda i: z[i] > 0, lambda i: [z[i]])),
            ('s is h - Gx up to a shift common to all components', bq(IV(0), m, lambda i: s[i] - g(i) == s[0] - g(IV(0)), lambda i: [s[i]])),
            ('z is Gx - h up to a shift common to all components', bq(IV(0), m, lambda i: z[i] + g(i) == z[0] + g(IV(0)), lambda i: [z[i]]))]
        if V.ex.curfn == self.name:
            rhs = V.st.ghost.get('rhs')
            if rhs is None: raise NoContractCase('the factored system is never solved')
            out.append(('the start solves the factored system', solved(V, k, rhs, V.a(k + '.b').raw())))
            for sg in self.rhs(V.case):
                i = z3.Int('k')
                out.append((sg.name, z3.ForAll([i], z3.Implies(z3.And(sg.lo(V) <= i, i < sg.hi(V)), sg.f(V, i, rhs[i])), patterns=[rhs[i]])))
        return out

    def bounds(self, ex):
        n, m, p = [lambda V, d=d: V['myQP.' + d] for d in 'nmp']
        return [('n', n), ('m', m), ('p', p), ('n+p', lambda V: n(V) + p(V)), ('n+p+m', lambda V: n(V) + p(V) + m(V))]

    def templates(self, ex, L, V0):
        q = 'myQP.'
        n, m, p = [lambda V, d=d: V[q + d] for d in 'nmp']
        sh = [('', lambda V: z3.RealVal(0))]
        for nm, k in L.real_vars():
            if not L.modified(k):
                sh.append(('+1+' + nm, lambda V, k=k: 1 + V.st.env[k]))
                sh.append(('+' + nm, lambda V, k=k: V.st.env[k]))
        sl = [Seg(q + a, lambda V: IV(0), m, lambda V, k, v: v > 0, a + ' positive') for a in 'sz']
        for nm, f in sh:
            sl.append(Seg(q + 's', lambda V: IV(0), m, lambda V, k, v, f=f: v == self.gap(V, k) + f(V), 's=h-Gx' + nm))
            sl.append(Seg(q + 'z', lambda V: IV(0), m, lambda V, k, v, f=f: v == -self.gap(V, k) + f(V), 'z=Gx-h' + nm))
        Vn = View(ex, V0.st, V0.args, old=V0, case=V0.case)
        offs = [('-n', lambda V: -n(V)), ('-n-p', lambda V: -n(V) - p(V))]
        return seg_templates(sl, ex, L, Vn) + seg_templates(self.segs(V0.case) + self.rhs(V0.case), ex, L, Vn, offs=offs)


class Fact:
    """a lemma without induction"""

    def __init__(self, name, goal, hyps=()):
        self.name, self.goal, self.hyps = name, goal, list(hyps)

    def obligations(self):
        from qpv.symex import Obl
        return [Obl('lemma %s' % self.name, 'lemma', 0, [(h, None) for h in self.hyps], self.goal)]


def _step():
    x, a, d, i, y = z3.Reals('x! a! d! i! y!')
    return [Fact('a step short of the boundary keeps a positive component positive', x + d * a > 0, [x > 0, a > 0, z3.Implies(d != 0, d * i == 1), z3.Implies(d < 0, i < 0), z3.Implies(d < 0, a < -(x * i))])]


LEMMAS = {'quadratic': _quadratic, 'lambda': _lambda, 'step': _step}
CONTRACTS = [kkt_initialize(), ldlinitialsolve(), kktsolve_1(), kktsolve_2(), computeresiduals(), obj_value()]
