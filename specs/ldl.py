"""The sparse LDL' factorisation and its triangular solves (src/ldl.c).

The pattern of the factor is a mathematical object fixed by the pattern of the matrix and the permutation alone:
R(k,i) ("L(k,i) is structurally nonzero") and PAR (elimination tree), by the least-fixed-point definition
R(k,i) <=> i<k and (some entry of permuted column k has row i, or R(k,c) for some c<i with PAR(c)=i),
PAR(c) = the first k with R(k,c), or -1.  CNTR(i,k) = #{r<k : R(r,i)}; INV(P,.) is the inverse of the permutation."""
from .common import *
from qpv.symex import has_quant

SOURCES = ['src/ldl.c']
B = z3.BoolSort()
RR = fn('R', AI, AI, AI, I, I, B)
PARF = fn('PAR', AI, AI, AI, I, I, I)
CNTRF = fn('CNTR', AI, AI, AI, I, I, I)
INV = fn('INV', AI, I, I)


def perm(V, P='P', n=None):
    """P is a permutation of 0..n-1 and INV(P,.) its inverse"""
    n = V['n'] if n is None else n
    a = V.a(P)
    k = z3.Int('k')
    return [('%s maps 0..n-1 into itself and INV undoes it' % P, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= a[k], a[k] < n, INV(a.raw(), a[k]) == k)), patterns=[a[k]])),
            ('%s is onto' % P, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= INV(a.raw(), k), INV(a.raw(), k) < n, a[INV(a.raw(), k)] == k)), patterns=[INV(a.raw(), k)]))]


class Pattern:
    """the factor pattern belonging to (n, Ap, Ai, P)"""

    def __init__(self, n, ap, ai, P):
        self.n, self.ap, self.ai, self.P = n, ap, ai, P

    def R(self, k, i): return RR(self.ap, self.ai, self.P, k, i)
    def PAR(self, c): return PARF(self.ap, self.ai, self.P, self.n, c)
    def C(self, i, k): return CNTRF(self.ap, self.ai, self.P, i, k)
    def inv(self, j): return INV(self.P, j)
    def row(self, p): return self.inv(z3.Select(self.ai, p))
    def lo(self, k): return z3.Select(self.ap, z3.Select(self.P, k))
    def hi(self, k): return z3.Select(self.ap, z3.Select(self.P, k) + 1)
    def entry(self, k, p): return z3.And(self.lo(k) <= p, p < self.hi(k))

    def facts(self):
        """consequences of the definitions, for the whole pattern"""
        k, c, p = z3.Ints('k c p')
        n, R, PAR, C = self.n, self.R, self.PAR, self.C
        a, b = z3.Ints('a b')
        ai = self.ai
        return [
            z3.ForAll([k, p], z3.Implies(z3.And(0 <= k, k < n, self.entry(k, p), 0 <= self.row(p), self.row(p) < k), R(k, self.row(p))), patterns=[z3.MultiPattern(R(k, self.row(p)), z3.Select(self.ai, p))]),
            # rows and the tree
            z3.ForAll([k, c], z3.Implies(z3.And(R(k, c), 0 <= k, k < n), z3.And(0 <= c, c < k, c < PAR(c), PAR(c) <= k, z3.Implies(PAR(c) < k, R(k, PAR(c))))), patterns=[R(k, c)]),
            z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < n), z3.Or(PAR(c) == -1, z3.And(c < PAR(c), PAR(c) < n, R(PAR(c), c)))), patterns=[PAR(c)]),
            # counting
            z3.ForAll([c, a, b], z3.Implies(z3.And(0 <= a, a <= b), z3.And(0 <= C(c, a), C(c, a) <= C(c, b))), patterns=[z3.MultiPattern(C(c, a), C(c, b))])]

    def at(self, t):
        """instances for row t"""
        c = z3.Int('c')
        n, R, PAR, C = self.n, self.R, self.PAR, self.C
        p = z3.Int('p')
        return [z3.ForAll([c], z3.Implies(t >= 0, C(c, t + 1) == C(c, t) + z3.If(R(t, c), IV(1), IV(0))), patterns=[C(c, t + 1), C(c, t)]),
                z3.Implies(t >= 0, z3.And(C(t, t) == 0, C(t, t + 1) == 0)),
                z3.ForAll([c], z3.Implies(R(t, c), z3.And(C(c, t) + 1 == C(c, t + 1), z3.Implies(z3.And(0 <= t, t < n), C(c, t + 1) <= C(c, n)))), patterns=[R(t, c)]),
                z3.ForAll([p], z3.Implies(z3.And(0 <= t, t < n, self.entry(t, p), 0 <= self.row(p), self.row(p) < t), R(t, self.row(p))), patterns=[z3.Select(self.ai, p)])]

    def complete(self, flag, t):
        """lemma 'pattern': a set that holds the entries of row t and is closed under PAR holds all of row t"""
        c, p = z3.Ints('c p')
        F = lambda i: z3.Select(flag, i) == t
        h1 = z3.ForAll([p], z3.Implies(z3.And(self.entry(t, p), self.row(p) < t), F(self.row(p))), patterns=[z3.Select(self.ai, p)])
        h2 = z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < t, F(c)), z3.Or(self.PAR(c) == t, F(self.PAR(c)))), patterns=[z3.Select(flag, c)])
        return z3.Implies(z3.And(h1, h2, 0 <= t, t < self.n), z3.ForAll([c], z3.Implies(self.R(t, c), F(c)), patterns=[self.R(t, c)]))


def full(V): return Pattern(V['n'], V.a('Ap').raw(), V.a('Ai').raw(), V.a('P').raw())


def ccs_req(V):
    n = V['n']
    return ccs_raw(V.a('Ap'), V.a('Ai'), n, n, V.a('Ap')[n], 'matrix')


def nnz(V, p): return V.a('Ap')[V['n']]


def prefix(V, lp, pt, upto):
    """Lp[0..upto] are the running totals of the column counts of the factor"""
    a, b, k = z3.Ints('a b k')
    return [('Lp starts at 0', lp[0] == 0),
            ('Lp adds up the column counts', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < upto), lp[k + 1] == lp[k] + pt.C(k, pt.n)), patterns=[lp[k + 1]])),
            ('Lp is monotone', z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= upto), lp[a] <= lp[b]), patterns=[z3.MultiPattern(lp[a], lp[b])])),
            ('Lp adds up the column counts (2)', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < upto), lp[k + 1] == lp[k] + pt.C(k, pt.n)), patterns=[lp[k]]))]


class _Fact(Contract):
    lemmas = ['pattern', 'flags', 'columns']

    def pt(self, V): return full(V)

    def ghosts(self, ex, st, V):
        for f in self.pt(V).facts(): st.assume(f)
        for f in self.pt(V).at(V['n']): st.assume(f)

    def flagarr(self, V): return V.a('Flag').raw()

    def loop_instances(self, V, L, st, terms):
        pt = self.pt(V)
        out = []
        for t in terms:
            out += pt.at(t)
            if ('reg', V.ptr('Flag').tgt) in L.wset:
                out += pt.at(simp(t - 1))
                out += [pt.complete(self.flagarr(V), t), pt.complete(self.flagarr(V), simp(t - 1))]
        return out

    def walk_templates(self, ex, L, V0):
        """what both factorisation routines know about the row they are working on"""
        out = []
        W = lambda st: V0.at(st)
        pt = self.pt(V0)
        cs = counters(L)
        mod = [(n, f) for n, f, m in cs if m]
        F = lambda st: W(st).a('Flag')
        j, p = z3.Ints('j p')
        n = V0['n']
        Q = lambda st, hi, body: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < hi), body(F(st)[j])), patterns=[F(st)[j]])
        for x, f, m in cs:
            out.append(('flags below %s are old' % x, lambda st, f=f: Q(st, f(st), lambda v: v < f(st))))
            out.append(('flags below %s are current or old' % x, lambda st, f=f: Q(st, f(st), lambda v: v <= f(st))))
            out.append(('%s is flagged by itself' % x, lambda st, f=f: F(st)[f(st)] == f(st)))
            out.append(('flagged in row %s: structurally nonzero' % x, lambda st, f=f: Q(st, f(st), lambda v: z3.Implies(v == f(st), pt.R(f(st), j)))))
            out.append(('row %s is closed' % x, lambda st, f=f: Q(st, f(st), lambda v: z3.Implies(v == f(st), z3.Or(pt.PAR(j) == f(st), F(st)[pt.PAR(j)] == f(st))))))
            for y, g, my in cs:
                if x == y: continue
                out.append(('row %s is closed up to %s' % (x, y), lambda st, f=f, g=g: Q(st, f(st), lambda v: z3.Implies(v == f(st), z3.Or(pt.PAR(j) == f(st), F(st)[pt.PAR(j)] == f(st), pt.PAR(j) == g(st))))))
                out.append(('entries of row %s below %s are flagged' % (x, y), lambda st, f=f, g=g: z3.ForAll([p], z3.Implies(z3.And(pt.lo(f(st)) <= p, p < g(st), pt.row(p) < f(st)), F(st)[pt.row(p)] == f(st)), patterns=[z3.Select(pt.ai, p)])))
                out.append(('%s is in row %s' % (y, x), lambda st, f=f, g=g: z3.Or(g(st) == f(st), z3.And(0 <= g(st), pt.R(f(st), g(st))))))
                out.append(('%s<=%s' % (y, x), lambda st, f=f, g=g: g(st) <= f(st)))
                for z, h, mz in cs:
                    if z in (x, y) or not my: continue
                    out.append(('row of entry %s is flagged in row %s or is %s' % (z, x, y), lambda st, f=f, g=g, h=h: z3.Or(F(st)[pt.row(h(st))] == f(st), g(st) == pt.row(h(st)))))
                out.append(('%s is an entry of row %s' % (y, x), lambda st, f=f, g=g: z3.And(pt.lo(f(st)) <= g(st), g(st) <= pt.hi(f(st)))))
                out.append(('%s ends row %s' % (y, x), lambda st, f=f, g=g: g(st) == pt.hi(f(st))))
        return out

    def bounds(self, ex): return [('n', lambda V: V['n'])]


class LDL_symbolic(_Fact):
    name = 'LDL_symbolic'
    params = ['n', 'Ap', 'Ai', 'Lp', 'Parent', 'Lnz', 'Flag', 'P', 'Pinv']

    def shapes(self):
        N = lambda V, p: V['n']
        N1 = lambda V, p: V['n'] + 1
        return {'permuted': {'Ap': Arr('int', N1), 'Ai': Arr('int', nnz), 'Lp': Arr('int', N1, True), 'Parent': Arr('int', N, True), 'Lnz': Arr('int', N, True),
                             'Flag': Arr('int', N, True), 'P': Arr('int', N), 'Pinv': Arr('int', N, True)}}

    def requires(self, V): return ccs_req(V) + perm(V)

    def ensures(self, V):
        pt = self.pt(V)
        n = V['n']
        j = z3.Int('j')
        return [('Pinv is the inverse permutation', self.pinv(V, n)),
                ('Parent is the elimination tree', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), V.a('Parent')[j] == pt.PAR(j)), patterns=[V.a('Parent')[j]])),
                ('Lnz counts the rows of each column of the factor', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), V.a('Lnz')[j] == pt.C(j, n)), patterns=[V.a('Lnz')[j]]))] + prefix(V, V.a('Lp'), pt, n)

    def pinv(self, V, upto):
        j = z3.Int('j')
        v = INV(V.a('P').raw(), j)
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < V['n'], v < upto), V.a('Pinv')[j] == v), patterns=[V.a('Pinv')[j]])

    def templates(self, ex, L, V0):
        out = self.walk_templates(ex, L, V0)
        W = lambda st: V0.at(st)
        pt = self.pt(V0)
        n = V0['n']
        j = z3.Int('j')
        cs = counters(L)
        for x, f, m in cs:
            out.append(('Pinv inverts below %s' % x, lambda st, f=f: self.pinv(W(st), f(st))))
            Pa = lambda st: W(st).a('Parent')
            Ln = lambda st: W(st).a('Lnz')
            Fl = lambda st: W(st).a('Flag')
            out.append(('Parent known before row %s' % x, lambda st, f=f: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < f(st)), Pa(st)[j] == z3.If(pt.PAR(j) < f(st), pt.PAR(j), IV(-1))), patterns=[Pa(st)[j]])))
            out.append(('Parent known within row %s' % x, lambda st, f=f: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= f(st)), Pa(st)[j] == z3.If(z3.Or(pt.PAR(j) < f(st), z3.And(pt.PAR(j) == f(st), Fl(st)[j] == f(st))), pt.PAR(j), IV(-1))), patterns=[Pa(st)[j]])))
            out.append(('counts before row %s' % x, lambda st, f=f: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < f(st)), Ln(st)[j] == pt.C(j, f(st))), patterns=[Ln(st)[j]])))
            out.append(('counts within row %s' % x, lambda st, f=f: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= f(st)), Ln(st)[j] == pt.C(j, f(st)) + z3.If(z3.And(j < f(st), Fl(st)[j] == f(st)), IV(1), IV(0))), patterns=[Ln(st)[j]])))
            for i, (nm, _) in enumerate(prefix(V0, V0.a('Lp'), pt, n)):
                out.append(('%s up to %s' % (nm, x), lambda st, i=i, f=f: prefix(W(st), W(st).a('Lp'), pt, f(st))[i][1]))
        return out


class LDL_numeric(_Fact):
    name = 'LDL_numeric'
    params = ['n', 'Ap', 'Ai', 'Ax', 'Lp', 'Parent', 'Lnz', 'Li', 'Lx', 'D', 'Y', 'Pattern', 'Flag', 'P', 'Pinv']
    EPS = '0.00000000000001'

    def shapes(self):
        N = lambda V, p: V['n']
        N1 = lambda V, p: V['n'] + 1
        NL = lambda V, p: V.a('Lp')[V['n']]
        return {'permuted': {'Ap': Arr('int', N1), 'Ai': Arr('int', nnz), 'Ax': Arr('real', nnz), 'Lp': Arr('int', N1), 'Parent': Arr('int', N), 'Lnz': Arr('int', N, True),
                             'Li': Arr('int', NL, True), 'Lx': Arr('real', NL, True), 'D': Arr('real', N, True), 'Y': Arr('real', N, True), 'Pattern': Arr('int', N, True),
                             'Flag': Arr('int', N, True), 'P': Arr('int', N), 'Pinv': Arr('int', N)}}

    def analysed(self, V):
        """what LDL_symbolic established"""
        pt = self.pt(V)
        n = V['n']
        j = z3.Int('j')
        return [('Pinv is the inverse permutation', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), V.a('Pinv')[j] == INV(V.a('P').raw(), j)), patterns=[V.a('Pinv')[j]])),
                ('Parent is the elimination tree', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), V.a('Parent')[j] == pt.PAR(j)), patterns=[V.a('Parent')[j]]))] + prefix(V, V.a('Lp'), pt, n)

    def requires(self, V): return [('n', V['n'] >= 0)] + ccs_req(V) + perm(V) + self.analysed(V)

    def ensures(self, V):
        pt = self.pt(V)
        n = V['n']
        j = z3.Int('j')
        return [('returns the dimension', V.ret == n), ('every pivot is at least the threshold away from zero', self.pivots(V, n)),
                ('every column of the factor holds exactly its rows, in increasing order', self.columns(V, n)),
                ('every column of the factor is completely filled', self.counts(V, n)),
                ('the factor is strictly lower triangular', self.lowertri(V))]

    def after_apply(self, ex, st, Vp, Vn):
        r = lambda V, f: V.a(f).raw()
        st.assume(FACT(Vn['n'], r(Vn, 'Ap'), r(Vn, 'Ai'), r(Vn, 'Ax'), r(Vn, 'P'), r(Vn, 'Lp'), r(Vn, 'Li'), r(Vn, 'Lx'), r(Vn, 'D')))

    def lowertri(self, V):
        q = z3.Int('q')
        lp, li = V.a('Lp'), V.a('Li')
        return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < lp[V['n']]), z3.And(0 <= li[q], col(lp.raw(), q) < li[q], li[q] < V["n"])), patterns=[li[q]])

    def pivots(self, V, upto):
        j = z3.Int('j')
        d = V.a('D')[j]
        e = V.num.const(self.EPS)
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < upto), z3.Or(d > e, d < -e)), patterns=[d])

    def columns(self, V, upto):
        pt = self.pt(V)
        q = z3.Int('q')
        lp = V.a('Lp')
        c = col(lp.raw(), q)
        r = V.a('Li')[q]
        return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < lp[V['n']], c < upto, q < lp[c] + V.a('Lnz')[c]), z3.And(c < r, r < upto, pt.R(r, c), pt.C(c, r) == q - lp[c])), patterns=[r])

    def counts(self, V, upto):
        pt = self.pt(V)
        j = z3.Int('j')
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < upto), V.a('Lnz')[j] == pt.C(j, upto)), patterns=[V.a('Lnz')[j]])

    def ghosts(self, ex, st, V):
        super().ghosts(ex, st, V)
        n, lp = V['n'], V.a('Lp')
        e = z3.Int('e')
        # lemma 'columns' and the definition of the owner column
        st.assume(z3.ForAll([e], z3.Implies(z3.And(0 <= e, e < lp[n]), col_in(lp.raw(), n, e)), patterns=[col(lp.raw(), e)]))
        c = z3.Int('c')
        st.assume(z3.ForAll([c, e], z3.Implies(z3.And(0 <= c, c < n, lp[c] <= e, e < lp[c + 1]), col(lp.raw(), e) == c), patterns=[z3.MultiPattern(lp[c], col(lp.raw(), e))]))
        st.ghost['pos'] = z3.Const('pos0', AI)

    @property
    def on_write(self):
        def hook(ex, st, rid, idx, v, e, old, new):
            if rid == 'Flag@':
                # lemma 'flags'
                st.assume(z3.Implies(v >= 0, CNT(new, v, v) == CNT(old, v, v) + z3.If(z3.And(0 <= idx, idx < v, z3.Select(old, idx) != v), IV(1), IV(0))))
            if rid == 'Pattern@' and 'pos' in st.ghost:
                a = ex.farr('pos', 'int')
                st.pc.append((a == z3.Store(st.ghost['pos'], v, idx), None))
                st.ghost['pos'] = a
                ex.log(('ghost', 'pos'))
        return hook

    def templates(self, ex, L, V0):
        out = self.walk_templates(ex, L, V0)
        W = lambda st: V0.at(st)
        pt = self.pt(V0)
        n = V0['n']
        j, a = z3.Ints('j a')
        cs = counters(L)
        mod = [(x, f) for x, f, m in cs if m]
        G = lambda st: st.ghost['pos']
        Pt = lambda st: W(st).a('Pattern')
        Fl = lambda st: W(st).a('Flag')
        CN = lambda st, k: CNT(Fl(st).raw(), k, k)

        def zone(st, q, k, top, ln):
            z = z3.And(top <= q, q < n)
            return z if ln is None else z3.Or(z, z3.And(0 <= q, q < ln))
        for x, f, m in cs:
            out.append(('columns of the factor filled with rows below %s' % x, lambda st, f=f: self.columns(W(st), f(st))))
            out.append(('columns of the factor filled with rows up to %s' % x, lambda st, f=f: self.columns(W(st), f(st) + 1)))
            out.append(('counts before row %s' % x, lambda st, f=f: self.counts(W(st), f(st))))
            out.append(('counts at the start of row %s' % x, lambda st, f=f: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= f(st)), W(st).a('Lnz')[j] == pt.C(j, f(st))), patterns=[W(st).a('Lnz')[j]])))
            out.append(('pivots before %s' % x, lambda st, f=f: self.pivots(W(st), f(st))))
            if m: continue
            k = f
            for y, top, my in cs:
                if y == x: continue
                out.append(('%s=n-flags of row %s' % (y, x), lambda st, k=k, top=top: top(st) == n - CN(st, k(st))))
                out.append(('counts within row %s up to %s' % (x, y), lambda st, k=k, top=top: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= k(st)), W(st).a('Lnz')[j] == pt.C(j, k(st)) + z3.If(z3.And(j < k(st), Fl(st)[j] == k(st), G(st)[j] < top(st)), IV(1), IV(0))), patterns=[W(st).a('Lnz')[j]])))
                for z, ln, mz in [(None, None, None)] + cs:
                    if z in (x, y): continue
                    l = (lambda st: None) if ln is None else ln
                    nm = '%s..n%s' % (y, '' if ln is None else ' and 0..%s' % z)
                    if ln is not None: out.append(('%s+n-%s=flags of row %s' % (z, y, x), lambda st, k=k, top=top, ln=ln: ln(st) + n - top(st) == CN(st, k(st))))
                    out.append(('stack %s of row %s: members' % (nm, x), lambda st, k=k, top=top, l=l: z3.ForAll([a], z3.Implies(zone(st, a, k(st), top(st), l(st)), z3.And(0 <= Pt(st)[a], Pt(st)[a] < k(st), Fl(st)[Pt(st)[a]] == k(st), G(st)[Pt(st)[a]] == a)), patterns=[Pt(st)[a]])))
                    out.append(('stack %s of row %s: complete' % (nm, x), lambda st, k=k, top=top, l=l: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k(st), Fl(st)[j] == k(st)), z3.And(zone(st, G(st)[j], k(st), top(st), l(st)), Pt(st)[G(st)[j]] == j)), patterns=[Fl(st)[j], G(st)[j]])))
        # the update of Y by one column
        for x, f, m in cs:
            for y, g, my in cs:
                if x == y: continue
                out.append(('%s runs over the stored part of column %s' % (x, y), lambda st, f=f, g=g: z3.And(W(st).a('Lp')[g(st)] <= f(st), f(st) <= W(st).a('Lp')[g(st)] + W(st).a('Lnz')[g(st)])))
                out.append(('%s=%s' % (x, y), lambda st, f=f, g=g: f(st) == g(st)))
        return out

    def loop_instances(self, V, L, st, terms):
        out = super().loop_instances(V, L, st, terms)
        fl = V.a('Flag').raw()
        out += col_inst(V.a('Lp'), V['n'], terms)
        # counting flags (lemmas 'flags')
        for t in terms:
            out.append(z3.Implies(t >= 0, z3.And(0 <= CNT(fl, t, t), CNT(fl, t, t) <= t)))
            out.append(self.noflags(fl, t))
        return out

    def noflags(self, fl, t):
        j = z3.Int('j')
        return z3.Implies(z3.And(t >= 0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < t), z3.Select(fl, j) != t), patterns=[z3.Select(fl, j)])), CNT(fl, t, t) == 0)


# (n,Ap,Ai,Ax,P,Lp,Li,Lx,D): (I+L) D (I+L)' is the permuted matrix, up to the replaced pivots
FACT = fn('FACT', I, AI, AI, AR, AI, AI, AI, AR, AR, B)
# ------------------------------------------------------------------------------------------------ triangular solves
LSOLVED = fn('LSOLVED', I, AI, AI, AR, AR, AR, B)      # (n,Lp,Li,Lx,b,x): (I+L)x = b
LTSOLVED = fn('LTSOLVED', I, AI, AI, AR, AR, AR, B)    # (n,Lp,Li,Lx,b,x): (I+L)'x = b
DSOLVED = fn('DSOLVED', I, AR, AR, AR, B)              # (n,D,b,x): Dx = b
PERMUTED = fn('PERMUTED', I, AI, AR, AR, B)            # (n,P,b,x): x[j] = b[P[j]]


def lower(V, n):
    """(Lp,Li) holds a strictly lower triangular matrix"""
    q = z3.Int('q')
    lp, li = V.a('Lp'), V.a('Li')
    return ccs_jc(lp, n, lp[n], 'L') + [('n', n >= 0), ('L has its rows below the diagonal', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < lp[n]), z3.And(0 <= li[q], col(lp.raw(), q) < li[q], li[q] < n)), patterns=[li[q]]))]


class _Tri(Contract):
    params = ['n', 'X', 'Lp', 'Li', 'Lx']
    lemmas = ['columns', 'triangular']

    def shapes(self):
        NL = lambda V, p: V.a('Lp')[V['n']]
        return {'all': {'X': Arr('real', lambda V, p: V['n'], True), 'Lp': Arr('int', lambda V, p: V['n'] + 1), 'Li': Arr('int', NL), 'Lx': Arr('real', NL)}}

    def requires(self, V): return lower(V, V['n'])

    def ghosts(self, ex, st, V):
        lp = V.a('Lp')
        e = z3.Int('e')
        st.assume(z3.ForAll([e], z3.Implies(z3.And(0 <= e, e < lp[V['n']]), col_in(lp.raw(), V['n'], e)), patterns=[col(lp.raw(), e)]))

    def X(self, V): return V.a('X')
    def Lp(self, V): return V.a('Lp')

    def heads(self, L, V0):
        hs = []
        for n, f, m in counters(L):
            hs += [(n, f), ('Lp[%s]' % n, lambda st, f=f: V0.a('Lp')[f(st)]), ('Lp[%s+1]' % n, lambda st, f=f: V0.a('Lp')[f(st) + 1])]
        return hs

    def templates(self, ex, L, V0):
        out = []
        W = lambda st: View(ex, st, V0.args, old=V0)
        for n, f in self.heads(L, V0):
            out.append(('solved up to entry %s' % n, lambda st, f=f: self.entrywise(W(st), f(st))))
        k = z3.Int('k')
        for x, f, m in counters(L):
            out.append(('solved from row %s on' % x, lambda st, f=f: self.rows(W(st), f(st))))
            out.append(('solved after row %s' % x, lambda st, f=f: self.rows(W(st), f(st) + 1)))
            out.append(('X unchanged before row %s' % x, lambda st, f=f: z3.ForAll([k], z3.Implies(k < f(st), W(st).a('X')[k] == V0.a('X')[k]), patterns=[W(st).a('X')[k]])))
            out.append(('X unchanged up to row %s' % x, lambda st, f=f: z3.ForAll([k], z3.Implies(k <= f(st), W(st).a('X')[k] == V0.a('X')[k]), patterns=[W(st).a('X')[k]])))
            for y, g, my in counters(L):
                if x == y: continue
                out.append(('%s in column %s' % (x, y), lambda st, f=f, g=g: z3.And(V0.a('Lp')[g(st)] <= f(st), f(st) <= V0.a('Lp')[g(st) + 1])))
                out.append(('row %s solved up to entry %s' % (y, x), lambda st, f=f, g=g: self.row1(W(st), g(st), f(st))))
                for n, k2 in L.real_vars():
                    out.append(('%s holds row %s solved up to entry %s' % (n, y, x), lambda st, f=f, g=g, k2=k2: st.env[k2] == self.val1(W(st), g(st), f(st))))
        for n, k2 in L.real_vars():
            for x, f, m in counters(L):
                out.append(('%s=X[%s]' % (n, x), lambda st, f=f, k2=k2: st.env[k2] == W(st).a('X')[f(st)]))
        return out

    def bounds(self, ex): return [('n', lambda V: V['n'])]


class LDL_lsolve(_Tri):
    """(I+L) X_new = X_old"""
    name = 'LDL_lsolve'

    def mv(self, V, r, e, x=None): return MV(V.a('Lp').raw(), V.a('Li').raw(), V.a('Lx').raw(), V.a('X').raw() if x is None else x, r, e)

    def entrywise(self, V, e):
        r = z3.Int('r')
        return z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < V['n']), V.a('X')[r] == (V.old or V).a('X')[r] - self.mv(V, r, e)), patterns=[V.a('X')[r]])

    def rows(self, V, j): return TRUE
    def row1(self, V, j, e): return TRUE
    def val1(self, V, j, e): return V.a('X')[j]

    def ensures(self, V):
        return [('X + L X = old X in every row', self.entrywise(V, V.a('Lp')[V['n']]))]

    def after_apply(self, ex, st, Vp, Vn):
        st.assume(LSOLVED(Vn['n'], Vn.a('Lp').raw(), Vn.a('Li').raw(), Vn.a('Lx').raw(), Vp.a('X').raw(), Vn.a('X').raw()))

    def loop_instances(self, V, L, st, terms):
        r = z3.Int('r')
        mv = lambda e: self.mv(V, r, e)
        out = [z3.ForAll([r], mv(IV(0)) == 0, patterns=[mv(IV(0))])]
        lp = V.a('Lp')
        for e in list(terms) + [simp(t - 1) for t in terms]:
            out.append(z3.ForAll([r], z3.Implies(e >= 0, mv(e + 1) == mv(e) + z3.If(V.a('Li')[e] == r, V.a('Lx')[e] * V.a('X')[col(lp.raw(), e)], 0)), patterns=[mv(e + 1), mv(e)]))
        return out + col_inst(lp, V['n'], list(terms) + [simp(t - 1) for t in terms])

    @property
    def on_write(self):
        def hook(ex, st, rid, idx, v, e, old, new):
            if rid != 'X@': return
            V = ex.spec.V0.at(st)
            r, q = z3.Ints('r q')
            lp = V.a('Lp')
            # lemma 'triangular': entries of earlier columns do not look at X[idx]
            st.assume(z3.ForAll([r, q], z3.Implies(z3.And(0 <= idx, idx < V['n'], 0 <= q, q <= lp[idx]), self.mv(V, r, q, new) == self.mv(V, r, q, old)), patterns=[self.mv(V, r, q, new)]))
        return hook


class LDL_ltsolve(_Tri):
    """(I+L)' X_new = X_old"""
    name = 'LDL_ltsolve'

    def ps(self, V, e, x=None): return PS(V.a('Li').raw(), V.a('Lx').raw(), V.a('X').raw() if x is None else x, e)

    def val1(self, V, j, e): return (V.old or V).a('X')[j] - (self.ps(V, e) - self.ps(V, V.a('Lp')[j]))
    def row1(self, V, j, e): return V.a('X')[j] == self.val1(V, j, e)

    def rows(self, V, lo):
        j = z3.Int('j')
        return z3.ForAll([j], z3.Implies(z3.And(lo <= j, 0 <= j, j < V['n']), self.row1(V, j, V.a('Lp')[j + 1])), patterns=[V.a('X')[j]])

    def entrywise(self, V, e): return TRUE

    def ensures(self, V): return [("X + L' X = old X in every row", self.rows(V, IV(0)))]

    def after_apply(self, ex, st, Vp, Vn):
        st.assume(LTSOLVED(Vn['n'], Vn.a('Lp').raw(), Vn.a('Li').raw(), Vn.a('Lx').raw(), Vp.a('X').raw(), Vn.a('X').raw()))

    def loop_instances(self, V, L, st, terms):
        ps = lambda e: self.ps(V, e)
        lp = V.a('Lp')
        ts = list(terms) + [simp(t - 1) for t in terms]
        return [ps(IV(0)) == 0] + [z3.Implies(e >= 0, ps(e + 1) == ps(e) + V.a('Lx')[e] * V.a('X')[V.a('Li')[e]]) for e in ts] + col_inst(lp, V['n'], ts)

    @property
    def on_write(self):
        def hook(ex, st, rid, idx, v, e, old, new):
            if rid != 'X@': return
            V = ex.spec.V0.at(st)
            q = z3.Int('q')
            lp = V.a('Lp')
            # lemma 'triangular': entries from column idx on do not look at X[idx]
            st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= idx, idx < V['n'], lp[idx] <= q, q <= lp[V['n']]), self.ps(V, q, new) - self.ps(V, q, old) == self.ps(V, lp[idx], new) - self.ps(V, lp[idx], old)), patterns=[self.ps(V, q, new)]))
        return hook


class LDL_dsolve(Contract):
    name = 'LDL_dsolve'
    params = ['n', 'X', 'D']

    def shapes(self): return {'all': {'X': Arr('real', lambda V, p: V['n'], True), 'D': Arr('real', lambda V, p: V['n'])}}

    def requires(self, V):
        j = z3.Int('j')
        return [('n', V['n'] >= 0), ('no pivot is zero', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < V['n']), V.a('D')[j] != 0), patterns=[V.a('D')[j]]))]

    def segs(self): return [Seg('X', lambda V: IV(0), lambda V: V['n'], lambda V, k, v: v == V.num.div((V.old or V).a('X')[k], V.a('D')[k]), 'X = old X / D')]
    def ensures(self, V): return seg_ensures(self.segs(), V)

    def after_apply(self, ex, st, Vp, Vn): st.assume(DSOLVED(Vn['n'], Vn.a('D').raw(), Vp.a('X').raw(), Vn.a('X').raw()))

    def templates(self, ex, L, V0):
        return seg_templates(self.segs(), ex, L, View(ex, V0.st, V0.args, old=V0)) + frame_templates(ex, L, V0, ['X'])


class LDL_perm(Contract):
    name = 'LDL_perm'
    params = ['n', 'X', 'B', 'P']

    def shapes(self):
        N = lambda V, p: V['n']
        return {'all': {'X': Arr('real', N, True), 'B': Arr('real', N), 'P': Arr('int', N)}}

    def requires(self, V): return [('n', V['n'] >= 0)] + perm(V)
    def segs(self): return [Seg('X', lambda V: IV(0), lambda V: V['n'], lambda V, k, v: v == V.a('B')[V.a('P')[k]], 'X[j] = B[P[j]]')]
    def ensures(self, V): return seg_ensures(self.segs(), V)
    def after_apply(self, ex, st, Vp, Vn): st.assume(PERMUTED(Vn['n'], Vn.a('P').raw(), Vn.a('B').raw(), Vn.a('X').raw()))
    def templates(self, ex, L, V0): return seg_templates(self.segs(), ex, L, V0)


class LDL_permt(LDL_perm):
    name = 'LDL_permt'

    def upto(self, V, t):
        k = z3.Int('k')
        i = INV(V.a('P').raw(), k)
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < V['n'], i < t), V.a('X')[k] == V.a('B')[i]), patterns=[V.a('X')[k]])

    def onto(self, V):
        k = z3.Int('k')
        p = V.a('P')
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < V['n']), V.a('X')[p[k]] == V.a('B')[k]), patterns=[p[k], V.a('B')[k]])

    def ensures(self, V): return [('X[P[j]] = B[j]', self.onto(V))]
    def after_apply(self, ex, st, Vp, Vn): st.assume(PERMUTED(Vn['n'], Vn.a('P').raw(), Vn.a('X').raw(), Vn.a('B').raw()))
    def templates(self, ex, L, V0): return [('X[P[j]]=B[j] for j<%s' % x, lambda st, f=f: self.upto(V0.at(st), f(st))) for x, f, m in counters(L)] + [('X[P[j]]=B[j] for j>=%s' % x, lambda st, f=f: self.down(V0.at(st), f(st))) for x, f, m in counters(L)]

    def down(self, V, t):
        k = z3.Int('k')
        i = INV(V.a('P').raw(), k)
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < V['n'], i >= t), V.a('X')[k] == V.a('B')[i]), patterns=[V.a('X')[k]])


def _triangular():
    lp, li = z3.Const('lp!', AI), z3.Const('li!', AI)
    lx, x, y = [z3.Const(s, AR) for s in ('lx!', 'x!', 'y!')]
    n, i, r, a, b, e = z3.Ints('n! i! r! a b e')
    hy = [z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= n), lp[a] <= lp[b]), patterns=[z3.MultiPattern(lp[a], lp[b])]), lp[0] == 0,
          z3.ForAll([e], z3.Implies(z3.And(0 <= e, e < lp[n]), col_in(lp, n, e)), patterns=[col(lp, e)]),
          z3.ForAll([e], z3.Implies(z3.And(0 <= e, e < lp[n]), z3.And(col(lp, e) < li[e], li[e] < n)), patterns=[li[e]]),
          z3.ForAll([e], z3.Implies(e != i, x[e] == y[e]), patterns=[x[e]]), 0 <= i, i < n]
    mv = lambda v, k: MV(lp, li, lx, v, r, k)
    dm = lambda v, k: mv(v, k + 1) == mv(v, k) + z3.If(li[k] == r, lx[k] * v[col(lp, k)], 0)
    ps = lambda v, k: PS(li, lx, v, k)
    dp = lambda v, k: z3.Implies(k >= 0, ps(v, k + 1) == ps(v, k) + lx[k] * v[li[k]])
    return [Lemma('entries of earlier columns do not look at X[i]', lambda k: z3.Implies(k <= lp[i], mv(x, k) == mv(y, k)), lambda k: [mv(x, IV(0)) == 0, mv(y, IV(0)) == 0, dm(x, k), dm(y, k)], hyps=hy),
            Lemma('entries from column i on do not look at X[i]', lambda k: z3.Implies(lp[i] + k <= lp[n], ps(x, lp[i] + k) - ps(y, lp[i] + k) == ps(x, lp[i]) - ps(y, lp[i])), lambda k: [dp(x, lp[i] + k), dp(y, lp[i] + k)], hyps=hy)]


def _pattern():
    ap, ai, P, flag = [z3.Const(x, AI) for x in ('ap!', 'ai!', 'P!', 'flag!')]
    n, t, c, p, i = z3.Ints('n! t! c p i')
    pt = Pattern(n, ap, ai, P)
    F = lambda i: z3.Select(flag, i) == t
    WP, WC = fn('WP', I, I, I), fn('WC', I, I, I)
    h1 = z3.ForAll([p], z3.Implies(z3.And(pt.entry(t, p), pt.row(p) < t), F(pt.row(p))), patterns=[pt.row(p)])
    h2 = z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < t, F(c)), z3.Or(pt.PAR(c) == t, F(pt.PAR(c)))), patterns=[z3.Select(flag, c)])
    # definition of R, row t (a witness for each member): least fixed point
    df = z3.ForAll([i], z3.Implies(pt.R(t, i), z3.And(0 <= i, i < t, z3.Or(z3.And(pt.entry(t, WP(t, i)), pt.row(WP(t, i)) == i), z3.And(0 <= WC(t, i), WC(t, i) < i, pt.R(t, WC(t, i)), pt.PAR(WC(t, i)) == i)))), patterns=[pt.R(t, i)])
    comp = Lemma('a set with the entries of a row, closed under the tree, contains the row', lambda k: z3.ForAll([i], z3.Implies(z3.And(i < k, pt.R(t, i)), F(i)), patterns=[pt.R(t, i)]), lambda k: [], hyps=[h1, h2, df, 0 <= t, t < n])
    C = pt.C
    cnt = lambda x, k: C(x, k + 1) == C(x, k) + z3.If(pt.R(k, x), IV(1), IV(0))
    x, a = z3.Ints('x! a!')
    l2 = Lemma('row counts are monotone', lambda k: z3.And(C(x, a) <= C(x, a + k)), lambda k: [cnt(x, a + k)], hyps=[a >= 0])
    l3 = Lemma('row counts are naturals', lambda k: C(x, k) >= 0, lambda k: [C(x, IV(0)) == 0, cnt(x, k)])
    l4 = Lemma('a column of the factor has no row above the diagonal', lambda k: z3.Implies(k <= x + 1, C(x, k) == 0), lambda k: [C(x, IV(0)) == 0, cnt(x, k), z3.Implies(pt.R(k, x), x < k)])
    return [comp, l2, l3, l4]


CONTRACTS = [LDL_symbolic(), LDL_numeric(), LDL_lsolve(), LDL_dsolve(), LDL_ltsolve(), LDL_perm(), LDL_permt()]


def _flags():
    a = z3.Const('a!', AI)
    r, i, p = z3.Ints('r! i! p')
    s = z3.Store(a, i, r)
    d = lambda x, e: CNT(x, r, e + 1) == CNT(x, r, e) + z3.If(z3.Select(x, e) == r, IV(1), IV(0))
    z = [CNT(s, r, IV(0)) == 0, CNT(a, r, IV(0)) == 0]
    return [Lemma('setting one flag adds one', lambda k: CNT(s, r, k) == CNT(a, r, k) + z3.If(z3.And(0 <= i, i < k, z3.Select(a, i) != r), IV(1), IV(0)), lambda k: z + [d(s, k), d(a, k)]),
            Lemma('flags are at most the positions', lambda k: z3.And(0 <= CNT(a, r, k), CNT(a, r, k) <= k), lambda k: z + [d(a, k)]),
            Lemma('no flags count zero', lambda k: CNT(a, r, k) == 0, lambda k: z + [d(a, k), z3.Select(a, k) != r])]


LEMMAS = {'pattern': _pattern, 'flags': _flags, 'triangular': _triangular}
