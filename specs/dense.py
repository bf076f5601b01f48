"""densetosparse / densetosparse_ROWMAJOR: importing a dense matrix.

Positions are counted in column-major order, t = j*m+i.  NZ(a,t) is the number of nonzero entries before t; VIS is the
matrix read in column-major order (the input itself, or its row-major reading)."""
from .common import *

MULF = fn('MULF', I, I, I)     # product of two dimensions/counters (elementary laws instantiated)
ROW = fn('ROW', I, I, I)       # ROW(m,t) = row of position t
TT = fn('TT', I, I, I)         # TT(i,c): nonzeros in the first i rows of the first c columns


def sorts(num): return z3.ArraySort(I, num.sort)
def NZ(num): return z3.Function('NZ_' + num.name, sorts(num), I, I)
def VIS(num): return z3.Function('VIS_' + num.name, sorts(num), I, I, sorts(num))


class _Dense(Contract):
    params = ['m', 'n', 'pr', 'A']
    lemmas = ['nonzeros']
    opts = {'mulf': True}
    from qpv.symex import FloatNum as num
    rowmajor = False

    def shapes(self):
        return {'all': {'pr': Arr('real', lambda V, p: MULF(V['m'], V['n'])), 'A': Obj_('smat', {}, ('jc', 'ir', 'pr', 'n', 'm', 'nnz'))}}

    def requires(self, V): return [('dimensions', z3.And(V['m'] >= 0, V['n'] >= 0))]

    def vis(self, V):
        a = (V.old or V).a('pr').raw()
        return VIS(V.num)(a, V['m'], V['n']) if self.rowmajor else a

    def nzc(self, V, t): return NZ(V.num)(self.vis(V), t)
    def nz(self, V, t): return V.num.ne(z3.Select(self.vis(V), t), V.num.const('0'))
    def start(self, V, c): return MULF(c, V['m'])
    def size(self, V): return MULF(V['n'], V['m'])

    def allocs(self, V):
        return {'A.jc': ('int', lambda V: V['n'] + 1), 'A.ir': ('int', lambda V: V['A.nnz']), 'A.pr': ('real', lambda V: V['A.nnz'])}

    def placed(self, V, ir, pr, upto):
        t = z3.Int('t')
        q = self.nzc(V, t)
        b = []
        if ir is not None: b.append(ir[q] == ROW(V['m'], t))
        if pr is not None: b.append(pr[q] == z3.Select(self.vis(V), t))
        return z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < upto, self.nz(V, t)), z3.And(*b)), patterns=[z3.Select(self.vis(V), t)])

    def irrange(self, V, ir, upto):
        q = z3.Int('q')
        return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < upto), z3.And(0 <= ir[q], ir[q] < V['m'])), patterns=[ir[q]])

    def jcis(self, V, jc, upto):
        c = z3.Int('c')
        return z3.ForAll([c], z3.Implies(z3.And(0 <= c, c <= upto), jc[c] == self.nzc(V, self.start(V, c))), patterns=[jc[c]])

    def ensures(self, V):
        n, m, nnz = V['n'], V['m'], V['A.nnz']
        out = [('dimensions', z3.And(V['A.n'] == n, V['A.m'] == m)), ('the entry count is the number of nonzeros', nnz == self.nzc(V, self.size(V))),
               ('column c starts after the nonzeros of the earlier columns', self.jcis(V, V.a('A.jc'), n))]
        out += ccs_jc(V.a('A.jc'), n, nnz, 'the result')
        out += [('every nonzero is stored in column-major order with its row and value', self.placed(V, V.a('A.ir'), V.a('A.pr'), self.size(V))),
                ('row indices are in range', self.irrange(V, V.a('A.ir'), nnz))]
        return out

    def bounds(self, ex): return [('n', lambda V: V['n']), ('m', lambda V: V['m']), ('n+1', lambda V: V['n'] + 1)]

    def product_lemmas(self, a, b): return []

    def prods(self, V, terms):
        n, m = V['n'], V['m']
        out = [MULF(IV(0), m) == 0, MULF(IV(0), n) == 0, MULF(m, n) == MULF(n, m), MULF(m, n) >= 0]
        for c in terms:
            for d, N in ((m, n), (n, m)):
                out += [MULF(c + 1, d) == MULF(c, d) + d, z3.Implies(c >= 0, MULF(c, d) >= 0), z3.Implies(z3.And(0 <= c, c < N), MULF(c, d) + d <= MULF(N, d)), MULF(c, d) == MULF(d, c)]
        return out

    def ghosts(self, ex, st, V):
        n, m = V['n'], V['m']
        vis, num = self.vis(V), V.num
        s, t, c = z3.Ints('s t c')
        N = NZ(num)
        st.assume(self.prods(V, []))
        st.assume(N(vis, IV(0)) == 0)
        # monotonicity of the counting function (lemma 'nonzeros')
        st.assume(z3.ForAll([s, t], z3.Implies(z3.And(0 <= s, s <= t), z3.And(0 <= N(vis, s), N(vis, s) <= N(vis, t))), patterns=[z3.MultiPattern(N(vis, s), N(vis, t))]))
        st.assume(z3.ForAll([s, t], z3.Implies(z3.And(0 <= s, s < t, self.nz(V, s)), N(vis, s) + 1 <= N(vis, t)), patterns=[z3.MultiPattern(z3.Select(vis, s), N(vis, t))]))
        # products with a common factor are ordered like the other factor
        st.assume(z3.ForAll([s, t], z3.Implies(z3.And(0 <= s, s <= t, m >= 0), z3.And(0 <= MULF(s, m), MULF(s, m) <= MULF(t, m))), patterns=[z3.MultiPattern(MULF(s, m), MULF(t, m))]))
        if self.rowmajor:
            st.assume(z3.ForAll([c], z3.Implies(c >= 0, TT(IV(0), c) == 0), patterns=[TT(IV(0), c)]))
            st.assume(z3.ForAll([s], z3.Implies(0 <= s, TT(s, IV(0)) == 0), patterns=[TT(s, IV(0))]))
            st.assume(z3.Implies(n >= 0, TT(m, n) == N(vis, MULF(n, m))))

    def loop_instances(self, V, L, st, terms):
        n, m = V['n'], V['m']
        vis, num = self.vis(V), V.num
        N = NZ(num)
        terms = [t for t in terms if not t.eq(n) and not t.eq(m)]
        out = self.prods(V, terms)
        for a in terms:
            for b in terms:
                if a.eq(b): continue
                t = MULF(a, m) + b
                out += [z3.Implies(t >= 0, N(vis, t + 1) == N(vis, t) + z3.If(self.nz(V, t), IV(1), IV(0))), z3.Implies(z3.And(0 <= b, b < m), ROW(m, t) == b)]
                if self.rowmajor:
                    g = z3.And(0 <= b, b < m, 0 <= a, a < n)
                    p = MULF(b, n) + a
                    out += [z3.Implies(g, z3.Select(vis, t) == z3.Select((V.old or V).a('pr').raw(), p)),
                            TT(b, a + 1) == TT(b, a) + N(vis, t) - N(vis, MULF(a, m)), TT(b + 1, a + 1) == TT(b + 1, a) + N(vis, t + 1) - N(vis, MULF(a, m))]
        return out

    def templates(self, ex, L, V0):
        out = []
        n, m = V0['n'], V0['m']
        cs = counters(L)
        mod = [(x, f) for x, f, mm in cs if mm]
        nz = lambda t: self.nzc(V0, t)
        allv = [(x, f) for x, f, mm in cs if not (simp(f(L.entry)).eq(n) or simp(f(L.entry)).eq(m))]
        pos = []
        for x, f in allv:
            pos.append(('%s*m' % x, lambda st, f=f: MULF(f(st), m)))
            for y, g in allv:
                if x != y: pos.append(('%s*m+%s' % (x, y), lambda st, f=f, g=g: MULF(f(st), m) + g(st)))
        pos.append(('all', lambda st: self.size(V0)))
        for v, vf in mod:
            for pn, pf in pos:
                if v in pn.replace('*m', '').split('+'): continue
                out.append(('%s=NZ(%s)' % (v, pn), lambda st, vf=vf, pf=pf: vf(st) == nz(pf(st))))
                out.append(('%s=%s' % (v, pn), lambda st, vf=vf, pf=pf: vf(st) == pf(st)))
            if self.rowmajor:
                for x, f in allv:
                    if x == v: continue
                    out.append(('%s=T(%s,n)' % (v, x), lambda st, vf=vf, f=f: vf(st) == TT(f(st), n)))
                    for y, g in allv:
                        if y in (x, v): continue
                        out.append(('%s=T(%s+1,%s)+T(%s,n)-T(%s,%s)' % (v, x, y, x, x, y), lambda st, vf=vf, f=f, g=g: vf(st) == TT(f(st) + 1, g(st)) + TT(f(st), n) - TT(f(st), g(st))))
        k, c = z3.Ints('k c')
        for nm, rid in local_blocks(ex, L):
            if ('reg', rid) not in L.wset: continue
            A = lambda st, rid=rid: st.regs[rid].arr
            for x, f in allv:
                out.append(('%s=NZ(start) up to %s' % (nm, x), lambda st, A=A, f=f: self.jcis(V0, A(st), f(st))))
                out.append(('%s=0 below %s' % (nm, x), lambda st, A=A, f=f: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < f(st)), A(st)[k] == 0), patterns=[A(st)[k]])))
                if self.rowmajor:
                    cn = lambda r: nz(MULF(k - 1, m) + r) - nz(MULF(k - 1, m))
                    out.append(('%s=column counts of rows<%s' % (nm, x), lambda st, A=A, f=f, cn=cn: z3.ForAll([k], z3.Implies(z3.And(1 <= k, k <= n), A(st)[k] == cn(f(st))), patterns=[A(st)[k]])))
                    out.append(('%s=column counts beyond %s' % (nm, x), lambda st, A=A, f=f, cn=cn: z3.ForAll([k], z3.Implies(z3.And(f(st) + 1 <= k, k <= n), A(st)[k] == cn(m)), patterns=[A(st)[k]])))
                    for y, g in allv:
                        if x == y: continue
                        out.append(('%s=column counts of rows<%s, one more before %s' % (nm, x, y), lambda st, A=A, f=f, g=g, cn=cn: z3.ForAll([k], z3.Implies(z3.And(1 <= k, k <= n), A(st)[k] == z3.If(k <= g(st), cn(f(st) + 1), cn(f(st)))), patterns=[A(st)[k]])))
            out.append(('%s[0]=0' % nm, lambda st, A=A: A(st)[0] == 0))
            for pn, pf in pos:
                out.append(('%s placed before %s' % (nm, pn), lambda st, A=A, pf=pf: self.placed(V0, A(st), None, pf(st))))
            for v, vf in mod:
                out.append(('%s in range below %s' % (nm, v), lambda st, A=A, vf=vf: self.irrange(V0, A(st), vf(st))))
        for nm, rid in local_blocks(ex, L, 'real'):
            if ('reg', rid) not in L.wset: continue
            A = lambda st, rid=rid: st.regs[rid].arr
            for pn, pf in pos:
                out.append(('%s placed before %s' % (nm, pn), lambda st, A=A, pf=pf: self.placed(V0, None, A(st), pf(st))))
        return out


class densetosparse(_Dense):
    name = 'densetosparse'


class densetosparse_ROWMAJOR(_Dense):
    name = 'densetosparse_ROWMAJOR'
    rowmajor = True


def _nonzeros():
    num = _Dense.num()
    A = z3.Const('A!', sorts(num))
    N = NZ(num)
    s, m, c = z3.Ints('s! m! c!')
    b = lambda t: z3.If(num.ne(z3.Select(A, t), num.const('0')), IV(1), IV(0))
    d = lambda t: z3.Implies(t >= 0, N(A, t + 1) == N(A, t) + b(t))
    out = [Lemma('nonzero counts are naturals', lambda k: N(A, k) >= 0, lambda k: [N(A, IV(0)) == 0, d(k)]),
           Lemma('nonzero counts are monotone', lambda k: z3.And(N(A, s) <= N(A, s + k), z3.Implies(k >= 1, N(A, s) + b(s) <= N(A, s + k))), lambda k: [d(s + k), d(s)], hyps=[s >= 0]),
           Lemma('products are monotone', lambda k: z3.And(MULF(s, m) <= MULF(s + k, m)), lambda k: [MULF(s + k + 1, m) == MULF(s + k, m) + m], hyps=[m >= 0]),
           Lemma('products are naturals', lambda k: MULF(k, m) >= 0, lambda k: [MULF(IV(0), m) == 0, MULF(k + 1, m) == MULF(k, m) + m], hyps=[m >= 0]),
           Lemma('no nonzeros in no rows', lambda k: TT(IV(0), k) == 0, lambda k: [TT(IV(0), IV(0)) == 0, TT(IV(0), k + 1) == TT(IV(0), k) + N(A, MULF(k, m) + 0) - N(A, MULF(k, m))]),
           Lemma('all rows of the first columns', lambda k: TT(m, k) == N(A, MULF(k, m)), lambda k: [TT(m, IV(0)) == 0, MULF(IV(0), m) == 0, N(A, IV(0)) == 0, MULF(k + 1, m) == MULF(k, m) + m, TT(m, k + 1) == TT(m, k) + N(A, MULF(k, m) + m) - N(A, MULF(k, m))])]
    return out


CONTRACTS = [densetosparse(), densetosparse_ROWMAJOR()]
LEMMAS = {'nonzeros': _nonzeros}
