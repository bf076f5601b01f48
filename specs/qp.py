"""The entry points (src/qpSWIFT.c)."""
from .common import *
from . import kktaux
from .ldl import INV, perm
from .dense import MULF
from qpv.symex import NoContractCase
from .kktaux import kn, kkt_obj, kkt_matrix, lp_ok, analysed, problem_dims, residuals, xval, ANALYSIS, NUMERIC, px, ptx

Q = 'myQP.'
OPTIMAL, KKTFAIL, MAXIT, FATAL = 0, 1, 2, 3
dn, dm, dp = [lambda V, q, d=d: V[Q + d] for d in 'nmp']
STATS_W = ('tsolve', 'kkt_time', 'ldl_numeric', 'IterationCount', 'n_rx', 'n_ry', 'n_rz', 'n_mu', 'alpha_p', 'alpha_d', 'fval', 'Flag', 'resolve_kkt')


def diag_slots(V):
    """the last m columns of the KKT matrix are not empty"""
    i = z3.Int('i')
    jc = V.a(Q + 'kkt.kktmatrix.jc')
    return ('the last m columns of the KKT matrix are not empty', z3.ForAll([i], z3.Implies(z3.And(V[Q + 'n'] + V[Q + 'p'] <= i, i < kn(V, Q + 'kkt')), jc[i] < jc[i + 1]), patterns=[jc[i + 1]]))


def kkt_rest(V, V0):
    """every entry of the KKT matrix outside the scaling diagonal is as in V0"""
    q = z3.Int('q')
    k = Q + 'kkt.kktmatrix.'
    jc = V.a(k + 'jc')
    c = col(jc.raw(), q)
    pr, pr0 = V.a(k + 'pr'), V0.a(k + 'pr')
    return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < V[k + 'nnz'], z3.Or(c < V[Q + 'n'] + V[Q + 'p'], q != jc[c + 1] - 1)), pr[q] == pr0[q]), patterns=[pr[q]])


def positive(V, x):
    return bq(IV(0), V[Q + 'm'], lambda k: V.a(Q + x)[k] > 0, lambda k: [V.a(Q + x)[k]])


class QP_SOLVE(Contract):
    name = 'QP_SOLVE'
    params = ['myQP']
    lemmas = ['lambda', 'step', 'quadratic', 'columns']

    def shapes(self):
        out = {}
        for c in ('eq', 'noeq'):
            k = kkt_obj(['b'] + ANALYSIS + NUMERIC, ['b'] + NUMERIC)
            k.fields['kktmatrix'].fields['pr'] = Arr('real', lambda V, p: V[p[:-3] + '.nnz'], True)
            f = {'P': smat(), 'G': smat(), 'kkt': k, 'stats': Obj_('stats', {}, STATS_W), 'options': Obj_('settings', {}, ('sigma',)), 'delta': Arr('real', lambda V, p: kn(V, Q + 'kkt'), True)}
            for x in ('x', 'rx', 'delta_x', 'temp'): f[x] = Arr('real', dn, True)
            for x in ('s', 'z', 'rz', 'delta_s', 'delta_z', 'ds', 'lambda'): f[x] = Arr('real', dm, True)
            f['c'], f['h'] = Arr('real', dn), Arr('real', dm)
            if c == 'eq':
                f['A'] = smat()
                for x in ('y', 'ry', 'delta_y'): f[x] = Arr('real', dp, True)
                f['b'] = Arr('real', dp)
            else:
                for x in ('A', 'y', 'ry', 'delta_y', 'b'): f[x] = Any()
            out[c] = {'myQP': Obj_('QP', f, ('mu', 'rho'))}
        return out

    def case_guard(self, V): return V[Q + 'p'] == 0 if V.case == 'noeq' else V[Q + 'p'] >= 1

    def requires(self, V):
        k = Q + 'kkt'
        return problem_dims(V) + kkt_matrix(V, k) + [('the KKT matrix has a row for every variable and constraint', kn(V, k) == V[Q + 'n'] + V[Q + 'm'] + V[Q + 'p']), diag_slots(V),
                ('s is positive', positive(V, 's')), ('z is positive', positive(V, 'z'))] + lp_ok(V, k) + analysed(V, k)

    def ensures(self, V):
        st = lambda f: V[Q + 'stats.' + f]
        o = V.old
        was = o[Q + 'stats.Flag'] == KKTFAIL
        opt = z3.And(z3.Not(was), V.ret == OPTIMAL)
        tol = V.num.div(V[Q + 'options.reltol'], V.num.sqrt(V.num.const('3.0')))
        mx = V[Q + 'options.maxit']
        out = [('the status returned is the one stored', V.ret == st('Flag')),
               ('one of the four documented codes', z3.And(0 <= V.ret, V.ret <= 3)),
               ('a KKT failure recorded at set-up is returned', z3.Implies(was, V.ret == KKTFAIL)),
               ('no solve without a failed factorisation reports one', z3.Implies(z3.Not(was), V.ret != KKTFAIL)),
               ('optimal only within the budget', z3.Implies(opt, z3.And(0 <= st('IterationCount'), st('IterationCount') < mx))),
               ('maximum iterations only if the count reached the maximum', z3.Implies(V.ret == MAXIT, z3.And(st('IterationCount') == mx, mx >= 0))),
               ('fatal only for a negative maximum', z3.Implies(z3.And(z3.Not(was), V.ret == FATAL), mx < 0)),
               ('never more iterations than configured', z3.Implies(z3.Not(was), z3.And(0 <= st('IterationCount'), z3.Or(st('IterationCount') <= mx, st('IterationCount') == 0))))]
        for l, f in residuals(V): out.append(('optimal exit: ' + l, z3.Implies(opt, f)))
        out += [('optimal exit: stationarity residual below tolerance', z3.Implies(opt, V.num.lt(st('n_rx'), tol))), ('optimal exit: inequality residual below tolerance', z3.Implies(opt, V.num.lt(st('n_rz'), tol))),
                ('optimal exit: complementarity below tolerance', z3.Implies(opt, V.num.lt(st('n_mu'), V[Q + 'options.abstol'])))]
        if V.case == 'eq': out.append(('optimal exit: equality residual below tolerance', z3.Implies(opt, V.num.lt(st('n_ry'), tol))))
        out.append(("optimal exit: the objective reported is 0.5 x'Px + c'x at the point returned", z3.Implies(opt, st('fval') == xval(V, Q + 'P', Q + 'c', Q + 'x'))))
        out += [('s is positive', positive(V, 's')), ('z is positive', positive(V, 'z')), ('the KKT matrix changes only in its scaling diagonal', kkt_rest(V, o))]
        for x in ('x', 's', 'z') + (('y',) if V.case == 'eq' else ()):
            a, b = V.a(Q + x), o.a(Q + x)
            out.append(('a recorded KKT failure leaves %s alone' % x, z3.Implies(was, a.raw() == b.raw())))
        return out

    def bounds(self, ex): return [(d, lambda V, d=d: V[Q + d]) for d in 'nmp'] + [('maxit', lambda V: V[Q + 'options.maxit'])]

    def templates(self, ex, L, V0):
        W = lambda st: View(ex, st, V0.args, old=V0, case=V0.case)
        out = []
        wr = {w[1] for w in L.wset if w[0] == 'reg'}
        mx = V0[Q + 'options.maxit']
        for n, f, m in counters(L) + [('IterationCount', lambda st: W(st)[Q + 'stats.IterationCount'], True)]:
            if m: out.append(('%s<=maxit or 0' % n, lambda st, f=f: z3.Or(f(st) <= mx, f(st) == 0)))
        for x in 'sz':
            if V0.ptr(Q + x).tgt in wr: out.append(('%s>0' % x, lambda st, x=x: positive(W(st), x)))
        if V0.ptr(Q + 'kkt.kktmatrix.pr').tgt in wr: out.append(('kkt rest', lambda st: kkt_rest(W(st), V0)))
        return out

    def step(self, ex, L, V0, head, back):
        so = V0.ptr(Q + 'stats').tgt
        if ('fld', so, 'IterationCount') not in L.wset: return []
        H = View(ex, head, V0.args, old=V0, case=V0.case)
        E = View(ex, back, V0.args, old=V0, case=V0.case)
        out = [('the count goes up by one', E[Q + 'stats.IterationCount'] == H[Q + 'stats.IterationCount'] + 1)]
        al = {c: E[Q + 'stats.alpha_' + c] for c in 'pd'}
        # the residual vectors behind the step are those of the point it starts from
        mid = back.fork()
        for x in 'xysz':
            if x == 'y' and V0.case != 'eq': continue
            r = V0.ptr(Q + x).tgt
            mid.regs[r] = mid.regs[r].rep(arr=head.regs[r].arr)
        M = View(ex, mid, V0.args, old=V0, case=V0.case)
        out += [('the step is based on ' + l, f) for l, f in residuals(M) if not l.startswith('n_')]
        for x, c, d in (('x', 'p', dn), ('y', 'd', dp), ('s', 'p', dm), ('z', 'd', dm)):
            if x == 'y' and V0.case != 'eq': continue
            n, o, dl = E.a(Q + x), H.a(Q + x), E.a(Q + 'delta_' + x)
            out.append(('%s moves by the %s step times its direction' % (x, {'p': 'primal', 'd': 'dual'}[c]), bq(IV(0), d(E, None), lambda k: n[k] == o[k] + al[c] * dl[k], lambda k: [n[k]])))
        for c, x in (('p', 's'), ('d', 'z')):
            a, x0, dx = al[c], H.a(Q + x), E.a(Q + 'delta_' + x)
            out.append(('0 < alpha_%s <= 1' % c, z3.And(a > 0, a <= 1)))
            out.append(('alpha_%s is at most 0.99 of the distance to the boundary' % c,
                        bq(IV(0), E[Q + 'm'], lambda k: z3.Implies(dx[k] < 0, a <= ex.num.const('0.99') * -(ex.num.div(x0[k], dx[k]))), lambda k: [dx[k]])))
        return out


CONTRACTS = [QP_SOLVE()]
LEMMAS = {}


# ------------------------------------------------------------------------------------------------ who owns what
def graph(case):
    """the blocks of an instance: path -> 'arr:int' / 'arr:real' / 'obj:TYPE' for what the library owns, the argument's name for what the caller owns, None for NULL"""
    eq, dense, given = case['eq'], case['dense'], case['given']
    g = {'': 'obj:QP', 'options': 'obj:settings', 'stats': 'obj:stats', 'kkt': 'obj:kkt', 'kkt.kktmatrix': 'obj:smat', 'Gt': 'obj:smat'}
    for x in ('x', 'z', 's', 'rx', 'rz', 'delta', 'delta_x', 'delta_z', 'delta_s', 'ds', 'lambda', 'temp') + (('y', 'ry', 'delta_y') if eq else ()): g[x] = 'arr:real'
    for M in ('P', 'G') + (('A',) if eq else ()):
        g[M] = 'obj:smat'
        for f in ('jc', 'ir', 'pr'): g[M + '.' + f] = ('arr:real' if f == 'pr' else 'arr:int') if dense else M + f
    for M in ('Gt', 'kkt.kktmatrix') + (('At',) if eq else ()):
        g[M] = 'obj:smat'
        for f in ('jc', 'ir', 'pr'): g[M + '.' + f] = 'arr:real' if f == 'pr' else 'arr:int'
    if not eq: g['A'] = g['At'] = g['b'] = None
    else: g['b'] = 'b'
    g['c'], g['h'] = 'c', 'h'
    for f in ('b', 'Y', 'D', 'Lx'): g['kkt.' + f] = 'arr:real'
    for f in ('Parent', 'Flag', 'Lnz', 'Li', 'Lp', 'Lti', 'Ltp', 'Pattern', 'UPattern', 'Pinv'): g['kkt.' + f] = 'arr:int'
    g['kkt.P'] = 'Permut' if given else 'arr:int'
    return g


def cases(dense):
    out = {}
    names = ('Apr', 'b') if dense else ('Ajc', 'Air', 'Apr', 'b')
    L = [('eq', (), g) for g in (0, 1)] + [('p=0', (), g) for g in ((0,) if dense else (0, 1))]
    # the equality data absent in every combination
    for k in range(1, 1 << len(names)):
        null = tuple(x for i, x in enumerate(names) if k >> i & 1)
        L.append(('no ' + ' '.join(null), null, k % 2 if not dense else int(k == 1)))
    for nm, null, given in L:
        for col_ in ((0, 1) if dense else (None,)):
            if dense and nm != 'eq' and col_ != (nm == 'no b'): continue
            k = '%s, %s' % (nm, 'ordering given' if given else 'ordering computed') + ('' if col_ is None else ', by columns' if col_ else ', by rows')
            out[k] = dict(eq=nm == 'eq', dense=dense, given=bool(given), null=null, p0=nm == 'p=0', col=col_)
    return out


class _Setup(Contract):
    opts = {'noleak': True}
    lemmas = ['columns']

    def cs(self, V): return self.CASES[V.case]

    def ghosts(self, ex, st, V):
        # set by the ordering routine
        st.ghost.update(order_status=z3.Int('order_status!'), order_n=z3.Int('order_n!'))
        for x in ('P', 'Ap', 'Ai'): st.ghost['order_' + x] = z3.Const('order_%s!' % x, AI)

    def axioms(self, num):
        P, k = z3.Const('P!', AI), z3.Int('k!')
        # INV(P,j) is the least index holding j
        return [z3.ForAll([P, k], z3.Implies(z3.And(k >= 0, P[k] == k), z3.And(0 <= INV(P, k), INV(P, k) <= k, P[INV(P, k)] == k)), patterns=[INV(P, k)])]

    def peff(self, V): return V['p'] if self.cs(V)['eq'] else IV(0)
    def N(self, V): return V['n'] + V['m'] + self.peff(V)

    def shapes(self):
        out = {}
        for k, c in self.CASES.items():
            n, m = (lambda V, q: V['n']), (lambda V, q: V['m'])
            s = {'c': Arr('real', n), 'h': Arr('real', m), 'b': Null() if 'b' in c['null'] else Arr('real', (lambda V, q: V['p']) if c['eq'] else None),
                 'Permut': Arr('int', lambda V, q: self.N(V)) if c['given'] else Null()}
            s.update(self.mats(c))
            out[k] = s
        return out

    def case_guard(self, V):
        c = self.cs(V)
        g = [V['p'] >= 1 if c['eq'] else V['p'] == 0 if c['p0'] else TRUE]
        if c['col'] is not None: g.append(V['ordering'] == 30 if c['col'] else V['ordering'] == 20)
        return z3.And(*g)

    def requires(self, V):
        c = self.cs(V)
        out = [('dimensions', z3.And(V['n'] >= 1, V['m'] >= 1))]
        if c['given']: out += perm(V, 'Permut', self.N(V))
        return out + self.data(V, c)

    def exit_checks(self, V, regs0, objs0):
        c = self.cs(V)
        st = V.st
        out, seen = [], {}
        r = V.ret
        if not (isinstance(r, Ptr) and r.kind == 'obj'):
            return [('ensures', 'returns an instance', FALSE)]
        for path, what in graph(c).items():
            full = 'ret.' + path if path else 'ret'
            try:
                p = V.ptr(full)
            except NoContractCase:
                p = None
            if what is None:
                out.append(('ensures', '%s is NULL' % path, z3.BoolVal(isinstance(p, Ptr) and p.kind == 'null')))
            elif what.startswith('arr:') or what.startswith('obj:'):
                t = what[4:]
                if what[0] == 'a':
                    ok = isinstance(p, Ptr) and p.kind == 'reg' and p.tgt not in regs0 and st.regs[p.tgt].live and st.regs[p.tgt].owner == 'malloc' and st.regs[p.tgt].elem == t
                else:
                    ok = isinstance(p, Ptr) and p.kind == 'obj' and p.tgt not in objs0 and st.objs[p.tgt].live and st.objs[p.tgt].owner == 'malloc' and st.objs[p.tgt].ty == t
                ok = ok and (p.kind, p.tgt) not in seen
                out.append(('own', '%s is a block of its own, allocated by set-up' % (path or 'the instance'), z3.BoolVal(bool(ok))))
                if ok:
                    seen[(p.kind, p.tgt)] = path
                    if p.kind == 'reg': out.append(('own', '%s points to the start of its block' % path, p.off == 0))
            else:
                a = V.args[what]
                ok = isinstance(p, Ptr) and p.kind == a.kind and p.tgt == a.tgt
                out.append(('ensures', '%s is the array the caller passed' % path, z3.And(z3.BoolVal(bool(ok)), (p.off == a.off) if ok and p.kind == 'reg' else TRUE)))
        for rid, x in st.regs.items():
            if rid not in regs0 and x.owner == 'malloc' and x.live and ('reg', rid) not in seen:
                out.append(('leak', 'block %s allocated here is released or reachable from the instance' % x.name, FALSE))
        for oid, x in st.objs.items():
            if oid not in objs0 and x.owner == 'malloc' and x.live and ('obj', oid) not in seen:
                out.append(('leak', 'structure %s allocated here is released or reachable from the instance' % x.name, FALSE))
        return out

    def ensures(self, V):
        c = self.cs(V)
        eq = c['eq']
        r = lambda f: V['ret.' + f]
        n, m, p, num = V['n'], V['m'], self.peff(V), V.num
        out = [('dimensions are recorded', z3.And(r('n') == n, r('m') == m, r('p') == p)),
               ('default settings', z3.And(r('options.maxit') == 100, r('options.abstol') == num.const('1e-6'), r('options.reltol') == num.const('1e-6'), r('options.verbose') == 0, r('options.sigma') == num.const('100'))),
               ('the centring parameter is recorded', r('sigma_d') == (V['sigma_d'] if not c['dense'] else num.const('0'))),
               ('statistics start at zero', z3.And(*[r('stats.' + x) == num.const('0') for x in ('n_rx', 'n_ry', 'n_rz', 'n_mu', 'alpha_p', 'alpha_d', 'fval')])),
               ('no KKT failure, no iterations', z3.And(r('stats.Flag') == FATAL, r('stats.IterationCount') == 0)),
               ('the ordering status tells whether the caller owns the permutation', (r('stats.AMD_RESULT') == -3) if c['given'] else (r('stats.AMD_RESULT') != -3))]
        if not c['given']:
            g, P, jc, ir = V.st.ghost, V.a('ret.kkt.P'), V.a('ret.kkt.kktmatrix.jc'), V.a('ret.kkt.kktmatrix.ir')
            out += [('ordering: it is the KKT matrix that was ordered', z3.And(g['order_n'] == self.N(V), g['order_Ap'] == jc.raw(), g['order_Ai'] == ir.raw())),
                    ('ordering: its status is recorded', r('stats.AMD_RESULT') == g['order_status']),
                    ('ordering: the minimum-degree ordering is used unless it failed', z3.Implies(g['order_status'] >= 0, P.raw() == g['order_P'])),
                    ('ordering: the natural order is used if it failed', z3.Implies(g['order_status'] < 0, bq(IV(0), self.N(V), lambda k: P[k] == k, lambda k: [P[k]])))]
        dims = [('P', n, n), ('G', m, n), ('Gt', n, m)] + ([('A', p, n), ('At', n, p)] if eq else [])
        out.append(('matrix dimensions', z3.And(*[z3.And(r(M + '.m') == a, r(M + '.n') == b) for M, a, b in dims])))
        out += self.mats_ok(V, c)
        T = self.sub('SparseMatrixTranspose')
        for M in ('G',) + (('A',) if eq else ()):
            W = View(V.ex, V.st, {'A': V.ptr('ret.' + M), 'At': V.ptr('ret.' + M + 't')}, case='all')
            out += [("%st is the transpose of %s: %s" % (M, M, l), f) for l, f in T.ensures(W)] + [('%st has as many entries as %s' % (M, M), r(M + 't.nnz') == r(M + '.nnz'))]
        a = {'P': 'P', 'G': 'G', 'Gt': 'Gt', 'kkt': 'kkt.kktmatrix', 'A': 'A', 'At': 'At'}
        W = View(V.ex, V.st, {k: V.ptr('ret.' + f) for k, f in a.items()}, case='equality' if eq else 'inequality only')
        out += [('KKT matrix: ' + l, f) for l, f in self.sub('formkktmatrix_full').ensures(W)]
        K = self.sub('kkt_initialize')
        W = View(V.ex, V.st, {'myQP': V.ret}, old=None, ret=IV(1), case='eq' if eq else 'noeq')
        out += [('start: ' + l, f) for l, f in K.ensures(W)]
        out += [(l, f) for l, f in perm(V, 'ret.kkt.P', self.N(V))]
        # what a solve requires
        S = QP_SOLVE()
        S.param_names(V.ex)
        W = View(V.ex, V.st, {'myQP': V.ret}, case='eq' if eq else 'noeq')
        acc = []
        bad = S.match(V.ex, V.st, S.shapes()[W.case]['myQP'], V.ret, 'myQP', acc)
        out.append(('the instance is one a solve accepts%s' % (': ' + bad if bad else ''), z3.BoolVal(not bad)))
        seen = {}
        for path, sh, v in acc:
            if isinstance(sh, Arr):
                if sh.length is not None: out.append(('what a solve needs: %s is long enough' % path[5:], W.len(path) >= sh.length(W, path)))
                if (v.tgt in seen) and (sh.w or seen[v.tgt]): out.append(('what a solve needs: %s is a block of its own' % path[5:], FALSE))
                seen[v.tgt] = sh.w or seen.get(v.tgt, False)
        return out + [('what a solve needs: ' + l, f) for l, f in S.requires(W)]

    # ---- use at a call site: a fresh instance graph
    def make_ret(self, ex, st, Vp):
        c = self.cs(Vp)
        for k, v in (('order_status', I), ('order_n', I), ('order_P', AI), ('order_Ap', AI), ('order_Ai', AI)): st.ghost.setdefault(k, ex.fresh(k, v))
        objs = {}
        g = graph(c)
        for path in sorted(g, key=lambda p: (p.count('.') if p else -1)):
            what = g[path]
            if what is None: v = NULL
            elif what.startswith('obj:'):
                objs[path] = ex.new_obj(st, path or 'instance', what[4:], 'malloc')
                v = Ptr('obj', objs[path])
            elif what.startswith('arr:'): v = Ptr('reg', ex.new_region(st, path, what[4:], ex.fint('len'), 'malloc'), ZERO)
            else: v = Vp.args[what]
            if path:
                up, f = path.rsplit('.', 1) if '.' in path else ('', path)
                st.objs[objs[up]].f[f] = v
        for o in objs.values():
            for f, t in ex.prog.structs[st.objs[o].ty]:
                if f not in st.objs[o].f and not is_ptr_ty(t): st.objs[o].f[f] = ex.uninit(t, f)
        return Ptr('obj', objs[''])

    def wanted(self, lab): return lab.startswith(('what a solve needs', 'dimensions are', 'default settings', 'no KKT failure', 'the ordering status'))

    def sub(self, name):
        from . import registry
        return registry.CONTRACTS[name]

    def bounds(self, ex): return [('n+m+p', lambda V: self.N(V))]

    def templates(self, ex, L, V0):
        out = []
        # the natural order, written while the ordering has failed
        for w in L.wset:
            if w[0] == 'reg' and w[1] in L.entry.regs and L.entry.regs[w[1]].elem == 'int':
                for n, f, m in counters(L):
                    if m: out.append(('%s[k]=k below %s' % (L.entry.regs[w[1]].name, n), lambda st, w=w, f=f: bq(IV(0), f(st), lambda k: st.regs[w[1]].arr[k] == k, lambda k: [st.regs[w[1]].arr[k]])))
        return out


class QP_SETUP(_Setup):
    name = 'QP_SETUP'
    params = ['n', 'm', 'p', 'Pjc', 'Pir', 'Ppr', 'Ajc', 'Air', 'Apr', 'Gjc', 'Gir', 'Gpr', 'c', 'h', 'b', 'sigma_d', 'Permut']
    CASES = cases(False)

    def mats(self, c):
        s = {}
        for M in 'PGA':
            use = M != 'A' or c['eq']
            nz = (lambda V, q, M=M: V.a(M + 'jc')[V['n']]) if use else None
            s.update({M + 'jc': Arr('int', (lambda V, q: V['n'] + 1) if use else None), M + 'ir': Arr('int', nz), M + 'pr': Arr('real', nz)})
        for x in c['null']: s[x] = Null()
        return s

    def data(self, V, c):
        out = []
        for M, rows in (('P', V['n']), ('G', V['m'])) + ((('A', V['p']),) if c['eq'] else ()):
            jc = V.a(M + 'jc')
            out += ccs_raw(jc, V.a(M + 'ir'), V['n'], rows, jc[V['n']], M)
        return out

    def mats_ok(self, V, c):
        return [('%s has all its entries' % M, V['ret.' + M + '.nnz'] == V.old.a(M + 'jc')[V['n']]) for M in ('P', 'G') + (('A',) if c['eq'] else ())]


class QP_SETUP_dense(_Setup):
    name = 'QP_SETUP_dense'
    params = ['n', 'm', 'p', 'Ppr', 'Apr', 'Gpr', 'c', 'h', 'b', 'Permut', 'ordering']
    CASES = cases(True)

    def mats(self, c):
        s = {}
        for M, d in (('P', 'n'), ('G', 'm'), ('A', 'p')):
            use = M != 'A' or c['eq']
            s[M + 'pr'] = Arr('real', (lambda V, q, d=d: MULF(V[d], V['n'])) if use else None)
        for x in c['null']: s[x] = Null()
        return s

    def data(self, V, c): return []

    def mats_ok(self, V, c):
        out = []
        D = self.sub('densetosparse' if c['col'] else 'densetosparse_ROWMAJOR')
        for M, d in (('P', 'n'), ('G', 'm')) + ((('A', 'p'),) if c['eq'] else ()):
            a = {'m': V[d], 'n': V['n'], 'pr': V.args[M + 'pr'], 'A': V.ptr('ret.' + M)}
            W = View(V.ex, V.st, a, old=View(V.ex, V.old.st, dict(a, A=NULL), case='all'), case='all')
            out += [('%s is the dense argument read by %s: %s' % (M, 'columns' if c['col'] else 'rows', l), f) for l, f in D.ensures(W)]
        return out


# ------------------------------------------------------------------------------------------------ releasing an instance
class _Cleanup(Contract):
    params = ['myQP']
    dense = False
    opts = {'noleak': True}

    def cases(self):
        out = {'%s, %s' % (e, g): dict(eq=e == 'eq', dense=self.dense, given=g == 'ordering given', gone=False) for e in ('eq', 'p=0') for g in ('ordering given', 'ordering computed')}
        for k in list(out):      # the caller may have released its own arrays by then (the Python binding does)
            out[k + ", the caller's arrays gone"] = dict(out[k], gone=True)
        return out

    def shapes(self):
        out = {}
        for k, c in self.cases().items():
            g = graph(c)
            objs = {}
            for path in sorted(g, key=lambda p: (p.count('.') if p else -1)):
                what = g[path]
                if what is None: sh = Null()
                elif what.startswith('obj:'): sh = objs[path] = Obj_(what[4:], {}, True, 'owned')
                elif what.startswith('arr:'): sh = Arr(what[4:], None, True, 'owned')
                else: sh = Arr('int' if path[-3:] in ('.jc', '.ir') or path == 'kkt.P' else 'real', None, False, 'input')
                if path:
                    up, f = path.rsplit('.', 1) if '.' in path else ('', path)
                    objs[up].fields[f] = sh
            out[k] = {'myQP': objs['']}
        return out

    def build(self, ex, case):
        st, args = Contract.build(self, ex, case)
        c = self.cases()[case]
        if c['gone']:
            V = View(ex, st, args, case=case)
            for path, what in graph(c).items():
                if what is not None and ':' not in what:
                    p = V.ptr('myQP.' + path)
                    st.regs[p.tgt] = st.regs[p.tgt].rep(live=False)
        return st, args

    def requires(self, V):
        c = self.cases()[V.case]
        r = V['myQP.stats.AMD_RESULT']
        return [('the ordering status tells whether the caller owns the permutation', r == -3 if c['given'] else r != -3)]

    def exit_checks(self, V, regs0, objs0):
        out = []
        for path, what in graph(self.cases()[V.case]).items():
            if what is None: continue
            full = 'myQP.' + path if path else 'myQP'
            p = V.old.ptr(full)
            blk = (V.st.regs if p.kind == 'reg' else V.st.objs)[p.tgt]
            if ':' in what: out.append(('leak', '%s is released' % (path or 'the instance'), z3.BoolVal(not blk.live)))
            elif not self.cases()[V.case]['gone']: out.append(('free', '%s, which the caller owns, is not released' % path, z3.BoolVal(bool(blk.live))))
        for rid, x in V.st.regs.items():
            if rid not in regs0 and x.owner == 'malloc' and x.live: out.append(('leak', 'block %s allocated here is released' % x.name, FALSE))
        return out


class QP_CLEANUP(_Cleanup):
    name = 'QP_CLEANUP'


class QP_CLEANUP_dense(_Cleanup):
    name = 'QP_CLEANUP_dense'
    dense = True


CONTRACTS += [QP_SETUP(), QP_SETUP_dense(), QP_CLEANUP(), QP_CLEANUP_dense()]
