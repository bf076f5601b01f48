"""Contracts of the numeric kernels in src/Auxilary.c (doubles as reals)."""
from .common import *


def hoisted(ex, L, V0, path, hs):
    """an array element kept in a local: local == a[hole]"""
    out = []
    for n, k in L.real_vars():
        for m, f in hs:
            out.append(('%s=%s[%s]' % (n, path, m), lambda st, k=k, f=f: st.env[k] == V0.a(path)[f(st)]))
    return out


class SparseMatrixMultiply(Contract):
    """y = (start ? 0 : y) - A x"""
    name = 'SparseMatrixMultiply'
    params = ['A', 'x', 'y', 'start']

    def shapes(self):
        return {'all': {'A': smat(), 'x': Arr('real', lambda V, p: V['A.n']), 'y': Arr('real', lambda V, p: V['A.m'], w=True), 'start': Int()}}

    def requires(self, V): return ccs(V, 'A')

    def mv(self, V, r, e):
        return MV(V.a('A.jc').raw(), V.a('A.ir').raw(), V.a('A.pr').raw(), V.a('x').raw(), r, e)

    def base(self, V, r):
        o = (V.old or V)
        return z3.If(V['start'] != 0, z3.RealVal(0), o.a('y')[r])

    def segs(self):
        return [Seg('y', lambda V: IV(0), lambda V: V['A.m'], lambda V, k, v: v == self.base(V, k) - self.mv(V, k, V['A.nnz']), 'y = base - A x')]

    def ensures(self, V): return seg_ensures(self.segs(), V)

    def templates(self, ex, L, V0):
        out = []
        W = lambda st: View(ex, st, V0.args, old=V0)
        hs = []
        for n, f, m in counters(L):
            hs.append((n, f))
            hs.append(('jc[%s]' % n, lambda st, f=f: V0.a('A.jc')[f(st)]))
            hs.append(('jc[%s+1]' % n, lambda st, f=f: V0.a('A.jc')[f(st) + 1]))
        for n, f in hs:
            out.append(('y=base-MV(%s)' % n, lambda st, f=f: Seg('y', lambda V: IV(0), lambda V: V['A.m'], lambda V, k, v: v == self.base(V, k) - self.mv(V, k, f(st)), '').formula(W(st))))
        z = [Seg('y', lambda V: IV(0), lambda V: V['A.m'], lambda V, k, v: v == 0, 'y=0'),
             Seg('y', lambda V: IV(0), lambda V: V['A.m'], lambda V, k, v: v == V0.a('y')[k], 'y=old')]
        out += seg_templates(z, ex, L, V0)
        return out

    def loop_instances(self, V, L, st, terms):
        r = z3.Int('r')
        out = []
        mv = lambda e: self.mv(V, r, e)
        out.append(z3.ForAll([r], mv(IV(0)) == 0, patterns=[mv(IV(0))]))
        for e in terms:
            out.append(z3.ForAll([r], mv(e + 1) == mv(e) + z3.If(V.a('A.ir')[e] == r, V.a('A.pr')[e] * V.a('x')[col(V.a('A.jc').raw(), e)], 0), patterns=[mv(e + 1), mv(e)]))
        out += col_inst(V.a('A.jc'), V['A.n'], terms)
        return out


class SparseMatrixTransMultiply(Contract):
    """y = (start ? 0 : y) - A' x"""
    name = 'SparseMatrixTransMultiply'
    params = ['A', 'x', 'y', 'start']

    def shapes(self):
        return {'all': {'A': smat(), 'x': Arr('real', lambda V, p: V['A.m']), 'y': Arr('real', lambda V, p: V['A.n'], w=True), 'start': Int()}}

    def requires(self, V): return ccs(V, 'A')

    def ps(self, V, e):
        return PS(V.a('A.ir').raw(), V.a('A.pr').raw(), V.a('x').raw(), e)

    def base(self, V, r):
        o = (V.old or V)
        return z3.If(V['start'] != 0, z3.RealVal(0), o.a('y')[r])

    def rowval(self, V, j):
        jc = V.a('A.jc')
        return self.ps(V, jc[j + 1]) - self.ps(V, jc[j])

    def segs(self):
        return [Seg('y', lambda V: IV(0), lambda V: V['A.n'], lambda V, k, v: v == self.base(V, k) - self.rowval(V, k), "y = base - A' x")]

    def ensures(self, V): return seg_ensures(self.segs(), V)

    def templates(self, ex, L, V0):
        W = View(ex, V0.st, V0.args, old=V0)
        z = [Seg('y', lambda V: IV(0), lambda V: V['A.n'], lambda V, k, v: v == 0, 'y=0'),
             Seg('y', lambda V: IV(0), lambda V: V['A.n'], lambda V, k, v: v == V0.a('y')[k], 'y=old'),
             Seg('y', lambda V: IV(0), lambda V: V['A.n'], lambda V, k, v: v == self.base(V, k), 'y=base')]
        out = seg_templates(self.segs() + z, ex, L, W)
        out += sum_templates(ex, L, V0, self.ps, 'PS')
        out += elem_sum_templates(ex, L, V0, self.ps, 'PS', 'y')
        return out

    def loop_instances(self, V, L, st, terms):
        out = [self.ps(V, IV(0)) == 0]
        for e in terms:
            out.append(self.ps(V, e + 1) == self.ps(V, e) + V.a('A.pr')[e] * V.a('x')[V.a('A.ir')[e]])
        return out


class updatevariables(Contract):
    """x += alpha * delta_x on the first count entries"""
    name = 'updatevariables'
    params = ['x', 'delta_x', 'alpha', 'count']

    def shapes(self):
        return {'vector': {'x': Arr('real', lambda V, p: V['count'], w=True), 'delta_x': Arr('real', lambda V, p: V['count'])},
                'empty': {'x': Any(), 'delta_x': Any()}}

    def case_guard(self, V): return V['count'] <= 0 if V.case == 'empty' else None

    def segs(self):
        return [Seg('x', lambda V: IV(0), lambda V: V['count'], lambda V, k, v: v == V.old.a('x')[k] + V.a('delta_x')[k] * V['alpha'], 'x += alpha*delta'),
                Seg('x', lambda V: V['count'], lambda V: V.len('x'), lambda V, k, v: v == V.old.a('x')[k], 'the rest of x is unchanged')]

    def ensures(self, V): return seg_ensures(self.segs(), V) if V.case == 'vector' else []

    def after_apply(self, ex, st, Vp, Vn):
        # lemma 'step': a step short of the boundary keeps a positive component positive
        if Vn.case != 'vector' or ex.num.name != 'R': return
        k = z3.Int('k')
        x, x0, d, a = Vn.a('x'), Vp.a('x'), Vn.a('delta_x'), Vn['alpha']
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < Vn['count'], x0[k] > 0, a > 0, z3.Implies(d[k] < 0, a < -(ex.num.div(x0[k], d[k])))), x[k] > 0), patterns=[x[k]]))

    def templates(self, ex, L, V0):
        if V0.case != 'vector': return []
        W = View(ex, V0.st, V0.args, old=V0)
        return seg_templates(self.segs(), ex, L, W) + frame_templates(ex, L, V0, ['x'])


class innerproduct(Contract):
    name = 'innerproduct'
    params = ['x', 'y', 'n']

    def shapes(self):
        return {'all': {'x': Arr('real', lambda V, p: V['n']), 'y': Arr('real', lambda V, p: V['n'])}}

    def alias_ok(self, a, b): return True

    def requires(self, V): return [('a length', V['n'] >= 0)]

    def dot(self, V, e): return DOT(V.a('x').raw(), V.a('y').raw(), e)

    def ensures(self, V):
        return [('the sum of x[i]*y[i]', V.ret == self.dot(V, V['n']))]

    def templates(self, ex, L, V0): return sum_templates(ex, L, V0, self.dot, 'DOT')

    def loop_instances(self, V, L, st, terms):
        return [self.dot(V, IV(0)) == 0] + [self.dot(V, e + 1) == self.dot(V, e) + V.a('x')[e] * V.a('y')[e] for e in terms]


class norm(Contract):
    name = 'norm'
    params = ['p', 'n']

    def shapes(self): return {'all': {'p': Arr('real', lambda V, p: V['n'])}}

    def requires(self, V): return [('a length', V['n'] >= 0)]

    def dot(self, V, e): return DOT(V.a('p').raw(), V.a('p').raw(), e)

    def ensures(self, V):
        return [('the Euclidean norm', z3.Implies(V['n'] >= 0, V.ret == V.num.sqrt(self.dot(V, V['n']))))]

    def templates(self, ex, L, V0): return sum_templates(ex, L, V0, self.dot, 'DOT')

    def loop_instances(self, V, L, st, terms):
        return [self.dot(V, IV(0)) == 0] + [self.dot(V, e + 1) == self.dot(V, e) + V.a('p')[e] * V.a('p')[e] for e in terms]


class findminmax(Contract):
    name = 'findminmax'
    params = ['z', 'n', 'min', 'max']

    def shapes(self): return {'all': {'z': Arr('real', lambda V, p: V['n']), 'min': Cell('real'), 'max': Cell('real')}}

    def requires(self, V): return [('at least one entry', V['n'] >= 1)]

    def ext(self, V, upto):
        k, w = z3.Ints('k w')
        z = V.a('z')
        return [('min is a lower bound', bq(IV(0), upto, lambda k: V.cell('min') <= z[k], lambda k: [z[k]])),
                ('max is an upper bound', bq(IV(0), upto, lambda k: V.cell('max') >= z[k], lambda k: [z[k]])),
                ('min is attained', z3.Exists([w], z3.And(0 <= w, w < upto, V.cell('min') == z[w]))),
                ('max is attained', z3.Exists([w], z3.And(0 <= w, w < upto, V.cell('max') == z[w])))]

    def ensures(self, V): return self.ext(V, V['n'])

    def att(self, V, c):
        w = z3.Int('w')
        return z3.Exists([w], z3.And(0 <= w, w < V['n'], c == V.a('z')[w]))

    def templates(self, ex, L, V0):
        out = []
        cells = [('min', lambda V: V.cell('min')), ('max', lambda V: V.cell('max'))]
        for n, k in L.real_vars():
            cells.append((n, lambda V, k=k: V.st.env[k]))
        for an, af in cells:
            for bn, bf in cells:
                if an != bn: out.append(('%s<=%s' % (an, bn), lambda st, af=af, bf=bf: af(V0.at(st)) <= bf(V0.at(st))))
        for cn, cf in cells:
            out.append(('%s attained' % cn, lambda st, cf=cf: self.att(V0.at(st), cf(V0.at(st)))))
            for n, f, m in counters(L):
                if not m: continue
                for sh in (0, 1):
                    def lo(st, cf=cf, f=f, sh=sh):
                        V = V0.at(st)
                        return bq(IV(0), f(st) + sh, lambda k: cf(V) <= V.a('z')[k], lambda k: [V.a('z')[k]])

                    def hi(st, cf=cf, f=f, sh=sh):
                        V = V0.at(st)
                        return bq(IV(0), f(st) + sh, lambda k: cf(V) >= V.a('z')[k], lambda k: [V.a('z')[k]])

                    def wit(st, cf=cf, f=f, sh=sh):
                        V = V0.at(st)
                        w = z3.Int('w')
                        return z3.Exists([w], z3.And(0 <= w, w < f(st) + sh, cf(V) == V.a('z')[w]), patterns=[])
                    out += [('%s lower bound < %s+%d' % (cn, n, sh), lo), ('%s upper bound < %s+%d' % (cn, n, sh), hi), ('%s attained < %s+%d' % (cn, n, sh), wit)]
        return out


class formlambda(Contract):
    name = 'formlambda'
    params = ['lambda', 's', 'z', 'n']

    def shapes(self): return {'all': {'lambda': Arr('real', lambda V, p: V['n'], w=True), 's': Arr('real', lambda V, p: V['n']), 'z': Arr('real', lambda V, p: V['n'])}}

    def alias_ok(self, a, b): return {a, b} == {'s', 'z'}

    def segs(self):
        return [Seg('lambda', lambda V: IV(0), lambda V: V['n'], lambda V, k, v: v == V.num.sqrt(V.a('s')[k] * V.a('z')[k]), 'lambda = sqrt(s*z)'),
                Seg('lambda', lambda V: IV(0), lambda V: V['n'], lambda V, k, v: z3.Implies(V.a('s')[k] * V.a('z')[k] >= 0, v * v == V.a('s')[k] * V.a('z')[k]), 'lambda^2 = s*z')]

    def ensures(self, V): return seg_ensures(self.segs(), V)

    def after_apply(self, ex, st, Vp, Vn):
        # lemma 'lambda': lambda'lambda = s'z
        if ex.num.name != 'R': return
        k = z3.Int('k')
        l, s, z, n = Vn.a('lambda'), Vn.a('s'), Vn.a('z'), Vn['n']
        h = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(s[k] > 0, z[k] > 0)), patterns=[s[k], z[k]])
        st.assume(z3.Implies(z3.And(n >= 0, h), DOT(l.raw(), l.raw(), n) == DOT(s.raw(), z.raw(), n)))

    def templates(self, ex, L, V0): return seg_templates(self.segs(), ex, L, View(ex, V0.st, V0.args, old=V0))


RHO = fn('RHO', AR, AR, AR, AR, R, R, I, R)   # sum_{k<e} (s+ap*ds)(z+ad*dz)


class formrho(Contract):
    name = 'formrho'
    params = ['s', 'delta_s', 'z', 'delta_z', 'alpha_p', 'alpha_d', 'n']

    def shapes(self): return {'all': {x: Arr('real', lambda V, p: V['n']) for x in ('s', 'delta_s', 'z', 'delta_z')}}

    def alias_ok(self, a, b): return True

    def requires(self, V): return [('a length', V['n'] >= 0)]

    def rho(self, V, e):
        return RHO(V.a('s').raw(), V.a('delta_s').raw(), V.a('z').raw(), V.a('delta_z').raw(), V['alpha_p'], V['alpha_d'], e)

    def ensures(self, V):
        return [("(s+ap*ds)'(z+ad*dz) / s'z", V.ret == V.num.div(self.rho(V, V['n']), DOT(V.a('s').raw(), V.a('z').raw(), V['n'])))]

    def templates(self, ex, L, V0):
        return sum_templates(ex, L, V0, self.rho, 'RHO') + sum_templates(ex, L, V0, lambda V, e: DOT(V.a('s').raw(), V.a('z').raw(), e), 'DOT')

    def loop_instances(self, V, L, st, terms):
        d = lambda e: DOT(V.a('s').raw(), V.a('z').raw(), e)
        out = [self.rho(V, IV(0)) == 0, d(IV(0)) == 0]
        for e in terms:
            a = V.a('s')[e] + V['alpha_p'] * V.a('delta_s')[e]
            b = V.a('z')[e] + V['alpha_d'] * V.a('delta_z')[e]
            out.append(self.rho(V, e + 1) == self.rho(V, e) + a * b)
            out.append(d(e + 1) == d(e) + V.a('s')[e] * V.a('z')[e])
        return out


class form_ds(Contract):
    name = 'form_ds'
    params = ['ds', 'lambda', 'delta_s', 'delta_z', 'sigma', 'mu', 'm', 'selector']

    def shapes(self):
        a = lambda: Arr('real', lambda V, p: V['m'])
        return {'all': {'ds': Arr('real', lambda V, p: V['m'], w=True), 'lambda': a(), 'delta_s': a(), 'delta_z': a()}}

    def alias_ok(self, a, b): return 'ds' not in (a, b)

    def requires(self, V): return [('a documented step kind', z3.And(V['selector'] >= 0, V['selector'] <= 2))]

    def segs(self):
        def f(V, k, v):
            l, sm = V.a('lambda')[k], V['sigma'] * V['mu']
            c = V.a('delta_s')[k] * V.a('delta_z')[k]
            return v == z3.If(V['selector'] == 0, -(l * l), z3.If(V['selector'] == 1, -(l * l) - c + sm, -(l * l) + sm))
        return [Seg('ds', lambda V: IV(0), lambda V: V['m'], f, 'ds of the requested step kind')]

    def ensures(self, V): return seg_ensures(self.segs(), V)

    def templates(self, ex, L, V0):
        w = View(ex, V0.st, V0.args, old=V0)
        extra = [Seg('ds', lambda V: IV(0), lambda V: V['m'], lambda V, k, v: v == -(V.a('lambda')[k] * V.a('lambda')[k]), 'ds=-l2'),
                 Seg('ds', lambda V: IV(0), lambda V: V['m'], lambda V, k, v: v == -(V.a('lambda')[k] * V.a('lambda')[k]) - V.a('delta_s')[k] * V.a('delta_z')[k], 'ds=-l2-dsdz'),
                 Seg('ds', lambda V: IV(0), lambda V: V['m'], lambda V, k, v: v == -(V.a('lambda')[k] * V.a('lambda')[k]) + z3.If(V['selector'] == 0, 0, V['sigma'] * V['mu']), 'ds=-l2+sm')]
        return seg_templates(self.segs() + extra, ex, L, w) + frame_templates(ex, L, V0, ['ds'])


class updatekktmatrix_b(Contract):
    name = 'updatekktmatrix_b'
    params = ['b', 'rx', 'ry', 'rz', 'ds', 'z', 'n', 'm', 'p']

    def shapes(self):
        s = {'b': Arr('real', lambda V, p: V['n'] + V['m'] + V['p'], w=True), 'rx': Arr('real', lambda V, p: V['n']),
             'rz': Arr('real', lambda V, p: V['m']), 'ds': Arr('real', lambda V, p: V['m']), 'z': Arr('real', lambda V, p: V['m'])}
        return {'eq': dict(s, ry=Arr('real', lambda V, p: V['p'])), 'noeq': dict(s, ry=Any())}

    def case_guard(self, V): return V['p'] == 0 if V.case == 'noeq' else None

    def alias_ok(self, a, b): return 'b' not in (a, b)

    def requires(self, V): return [('dimensions', z3.And(V['n'] >= 0, V['m'] >= 0, V['p'] >= 0))]

    def segs(self, V0=None, case=None):
        o = [Seg('b', lambda V: IV(0), lambda V: V['n'], lambda V, k, v: v == V.a('rx')[k], 'b = rx on the first block')]
        if case != 'noeq':
            o.append(Seg('b', lambda V: V['n'], lambda V: V['n'] + V['p'], lambda V, k, v: v == V.a('ry')[k - V['n']], 'b = ry on the second block'))
        o.append(Seg('b', lambda V: V['n'] + V['p'], lambda V: V['n'] + V['p'] + V['m'],
                     lambda V, k, v: v == V.a('rz')[k - V['n'] - V['p']] - V.num.div(V.a('ds')[k - V['n'] - V['p']], V.a('z')[k - V['n'] - V['p']]), 'b = rz - ds/z on the third block'))
        return o

    def ensures(self, V): return seg_ensures(self.segs(case=V.case), V)

    def bounds(self, ex):
        return [('n', lambda V: V['n']), ('n+p', lambda V: V['n'] + V['p']), ('n+p+m', lambda V: V['n'] + V['p'] + V['m']), ('m', lambda V: V['m']), ('p', lambda V: V['p'])]

    def templates(self, ex, L, V0):
        return seg_templates(self.segs(case=V0.case), ex, L, View(ex, V0.st, V0.args, old=V0), offs=[('+n', lambda V: V['n']), ('+n+p', lambda V: V['n'] + V['p'])])


class updatekktmatrix(Contract):
    """only the scaling diagonal (last entry of each of the last m columns) changes, to -s/z"""
    name = 'updatekktmatrix'
    params = ['kkt', 's', 'z', 'delta_s', 'delta_z', 'alpha_p', 'alpha_d', 'm', 'n', 'p', 'indicator']

    def shapes(self):
        k = smat()
        k.fields['pr'] = Arr('real', lambda V, p: V['kkt.nnz'], w=True)
        v = lambda: Arr('real', lambda V, p: V['m'])
        return {'all': {'kkt': k, 's': v(), 'z': v(), 'delta_s': v(), 'delta_z': v()}}

    def alias_ok(self, a, b): return 'kkt' not in a + b

    def requires(self, V):
        i = z3.Int('i')
        jc = V.a('kkt.jc')
        base = V['n'] + V['p']
        return [('dimensions', z3.And(V['n'] >= 0, V['m'] >= 0, V['p'] >= 0, V['kkt.n'] == V['n'] + V['m'] + V['p'])),
                ('only the Newton update is used', V['indicator'] == 0)] + ccs_jc(jc, V['kkt.n'], V['kkt.nnz'], 'kkt') + [
            ('the last m columns are non-empty', z3.ForAll([i], z3.Implies(z3.And(base <= i, i < V['kkt.n']), jc[i] < jc[i + 1]), patterns=[jc[i + 1]]))]

    def own(self, V, q):
        """q is the scaling-diagonal slot of inequality OW(q)"""
        jc = V.a('kkt.jc')
        return OW(jc.raw(), q)

    def isd(self, V, q, upto=None):
        """slot q is the last entry of column n+p+i for an inequality i (< upto)"""
        i = z3.Int('i')
        jc = V.a('kkt.jc')
        base = V['n'] + V['p']
        hi = V['m'] if upto is None else upto
        return z3.Exists([i], z3.And(0 <= i, i < hi, q == jc[base + i + 1] - 1))

    def diag(self, V, upto, frm=None):
        i = z3.Int('i')
        jc = V.a('kkt.jc')
        base = V['n'] + V['p']
        lo = IV(0) if frm is None else frm
        return z3.ForAll([i], z3.Implies(z3.And(base <= i, base + lo <= i, i < base + upto, i < base + V['m']), V.a('kkt.pr')[jc[i + 1] - 1] == -(V.num.div(V.a('s')[i - base], V.a('z')[i - base]))), patterns=[jc[i + 1]])

    def rest(self, V):
        """everything that is not a scaling slot is unchanged, stated through column ownership"""
        q, i = z3.Ints('q i')
        jc = V.a('kkt.jc')
        base = V['n'] + V['p']
        pr, pr0 = V.a('kkt.pr'), V.old.a('kkt.pr')
        c = col(jc.raw(), q)
        return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < V['kkt.nnz'], z3.Or(c < base, q != jc[c + 1] - 1)), pr[q] == pr0[q]), patterns=[pr[q]])

    def ensures(self, V):
        return [('the scaling diagonal is -s/z', self.diag(V, V['m'])), ('every other entry is unchanged', self.rest(V))]

    def bounds(self, ex):
        return [('n', lambda V: V['n']), ('n+p', lambda V: V['n'] + V['p']), ('n+p+m', lambda V: V['n'] + V['p'] + V['m']), ('m', lambda V: V['m'])]

    def templates(self, ex, L, V0):
        out = [('rest', lambda st: self.rest(View(ex, st, V0.args, old=V0)))]
        for n, f, m in counters(L):
            if not m: continue
            out.append(('diag<%s' % n, lambda st, f=f: self.diag(View(ex, st, V0.args, old=V0), f(st))))
            out.append(('diag<%s-n-p' % n, lambda st, f=f: self.diag(View(ex, st, V0.args, old=V0), f(st) - V0['n'] - V0['p'])))
        return out

    def loop_instances(self, V, L, st, terms):
        jc = V.a('kkt.jc')
        q = z3.Int('q')
        c = col(jc.raw(), q)
        base = V['n'] + V['p']
        out = []
        i = z3.Int('i')
        # definition of col (ownership is unique)
        out.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < V['kkt.n'], jc[i] < jc[i + 1]), col(jc.raw(), jc[i + 1] - 1) == i), patterns=[jc[i + 1]]))
        return out


OW = fn('OW', AI, I, I)


class findsteplength(Contract):
    """largest steps that keep s + a ds >= 0 and z + a dz >= 0 (1 when nothing blocks)"""
    name = 'findsteplength'
    params = ['s', 'delta_s', 'z', 'delta_z', 'm', 'alpha_p', 'alpha_d']
    CAP = z3.RealVal(10) ** 10 if False else z3.RealVal(10000000000)

    def shapes(self):
        v = lambda: Arr('real', lambda V, p: V['m'])
        return {'all': {'s': v(), 'delta_s': v(), 'z': v(), 'delta_z': v(), 'alpha_p': Cell('real'), 'alpha_d': Cell('real')}}

    def alias_ok(self, a, b): return 'alpha' not in a + b

    def requires(self, V):
        return [('a length', V['m'] >= 0),
                ('s and z are positive', bq(IV(0), V['m'], lambda k: z3.And(V.a('s')[k] > 0, V.a('z')[k] > 0), lambda k: [V.a('s')[k], V.a('z')[k]]))]

    def limit(self, V, x, dx, k):
        """the step at which component k reaches zero"""
        return -V.num.div(V.a(x)[k], V.a(dx)[k])

    def below(self, V, x, dx, a, upto):
        return bq(IV(0), upto, lambda k: z3.Implies(V.a(dx)[k] < 0, a <= self.limit(V, x, dx, k)), lambda k: [V.a(dx)[k]])

    def attained(self, V, x, dx, a, upto):
        w = z3.Int('w')
        return z3.Exists([w], z3.And(0 <= w, w < upto, V.a(dx)[w] < 0, a == self.limit(V, x, dx, w)))

    def ensures(self, V):
        out = []
        for x, dx, al in (('s', 'delta_s', 'alpha_p'), ('z', 'delta_z', 'alpha_d')):
            a = V.cell(al)
            out += [('%s is positive' % al, a > 0),
                    ('%s does not exceed the distance to the boundary' % al, self.below(V, x, dx, a, V['m'])),
                    ('%s is the distance to the boundary, or 1 if that is out of reach' % al,
                     z3.Or(self.attained(V, x, dx, a, V['m']), a == 1))]
        return out

    def templates(self, ex, L, V0):
        out = []
        cells = [('*alpha_p', lambda V: V.cell('alpha_p')), ('*alpha_d', lambda V: V.cell('alpha_d'))]
        for n, k in L.real_vars():
            cells.append((n, lambda V, k=k: V.st.env[k]))
        flags = [(n, k) for n, k in L.int_vars() if L.modified(k)]
        W = lambda st: V0.at(st)
        for cn, cf in cells:
            out.append(('%s>0' % cn, lambda st, cf=cf: cf(W(st)) > 0))
            out.append(('%s<=1e10' % cn, lambda st, cf=cf: cf(W(st)) <= self.CAP))
            for x, dx in (('s', 'delta_s'), ('z', 'delta_z')):
                for n, f, m in counters(L):
                    if not m: continue
                    out.append(('%s below %s<%s' % (cn, x, n), lambda st, cf=cf, f=f, x=x, dx=dx: self.below(W(st), x, dx, cf(W(st)), f(st))))
                    out.append(('%s attained %s<%s or cap' % (cn, x, n), lambda st, cf=cf, f=f, x=x, dx=dx: z3.Or(cf(W(st)) == self.CAP, self.attained(W(st), x, dx, cf(W(st)), f(st)))))
                    for fl, fk in flags:
                        out.append(('%s attained %s<%s if %s' % (cn, x, n, fl), lambda st, cf=cf, f=f, x=x, dx=dx, fk=fk: z3.Implies(st.env[fk] != 0, self.attained(W(st), x, dx, cf(W(st)), f(st)))))
            for fl, fk in flags:
                out.append(('%s=cap unless %s' % (cn, fl), lambda st, cf=cf, fk=fk: z3.Implies(st.env[fk] == 0, cf(W(st)) == self.CAP)))
        return out

    def axioms(self, num):
        x = z3.Real('x')
        return []


CONTRACTS = [SparseMatrixMultiply(), SparseMatrixTransMultiply(), updatevariables(), innerproduct(), norm(), findminmax(), formlambda(), formrho(), form_ds(), updatekktmatrix_b(), updatekktmatrix(), findsteplength()]
