"""formkktmatrix_full: assembly of the KKT matrix, entry by entry."""
from .common import *


class formkktmatrix_full(Contract):
    """kkt = [P A' G'; A 0 0; G 0 -I] (without the middle block when there are no equality constraints)"""
    name = 'formkktmatrix_full'
    params = ['P', 'G', 'A', 'Gt', 'At', 'kkt']
    lemmas = ['columns']

    def eq(self, V): return V.case == 'equality'

    # ---- dimensions
    def n(self, V): return V['P.n']
    def p(self, V): return V['A.m'] if self.eq(V) else IV(0)
    def m(self, V): return V['G.m']
    def N(self, V): return self.n(V) + self.p(V) + self.m(V)
    def annz(self, V): return V['A.nnz'] if self.eq(V) else IV(0)
    def base1(self, V): return V['P.nnz'] + V['G.nnz'] + self.annz(V)
    def base2(self, V): return self.base1(V) + self.annz(V)
    def nnz(self, V): return self.base2(V) + V['G.nnz'] + V['G.m']

    def shapes(self):
        def k(case):
            class F:  # lengths of the output
                pass
            return Obj_('smat', {'jc': Arr('int', lambda V, p: self.N(V) + 1, True), 'ir': Arr('int', lambda V, p: self.nnz(V), True), 'pr': Arr('real', lambda V, p: self.nnz(V), True)})
        return {'equality': {'P': smat(), 'G': smat(), 'A': smat(), 'Gt': smat(), 'At': smat(), 'kkt': k('e')},
                'inequality only': {'P': smat(), 'G': smat(), 'A': Null(), 'Gt': smat(), 'At': Null(), 'kkt': k('i')}}

    def requires(self, V):
        out = ccs(V, 'P') + ccs(V, 'G') + ccs(V, 'Gt')
        out += [('dimensions agree', z3.And(V['P.m'] == V['P.n'], V['G.n'] == V['P.n'], V['Gt.n'] == V['G.m'], V['Gt.m'] == V['G.n'], V['Gt.nnz'] == V['G.nnz']))]
        if self.eq(V):
            out += ccs(V, 'A') + ccs(V, 'At') + [('dimensions of A agree', z3.And(V['A.n'] == V['P.n'], V['At.n'] == V['A.m'], V['At.m'] == V['A.n'], V['At.nnz'] == V['A.nnz']))]
        return out

    # ---- the parts: (name, matrix, slot offset of column c as a function of c, row offset)
    def parts(self, V):
        P, G = V.a('P.jc'), V.a('G.jc')
        A = V.a('A.jc') if self.eq(V) else None
        a = (lambda c: A[c]) if A is not None else (lambda c: IV(0))
        out = [('P', 'P', lambda c: a(c) + G[c], IV(0))]
        if A is not None:
            out.append(('A', 'A', lambda c: P[c + 1] + G[c], self.n(V)))
        out.append(('G', 'G', lambda c: P[c + 1] + a(c + 1), self.n(V) + self.p(V)))
        if A is not None:
            out.append(("A'", 'At', lambda c: self.base1(V), IV(0)))
        out.append(("G'", 'Gt', lambda c: self.base2(V) + c, IV(0)))
        return out

    def placed(self, V, part, upto):
        nm, mat, off, ro = part
        e = z3.Int('e')
        jc, ir, pr = V.a(mat + '.jc'), V.a(mat + '.ir'), V.a(mat + '.pr')
        q = e + off(col(jc.raw(), e))
        b = [V.a('kkt.ir')[q] == ir[e] + ro, V.a('kkt.pr')[q] == pr[e], 0 <= q, q < self.nnz(V)]
        return z3.ForAll([e], z3.Implies(z3.And(0 <= e, e < upto), z3.And(*b)), patterns=[ir[e], pr[e]])

    def diag(self, V, upto):
        i = z3.Int('i')
        q = self.base2(V) + V.a('Gt.jc')[i + 1] + i
        o = self.n(V) + self.p(V)
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < upto), z3.And(V.a('kkt.ir')[q] == o + i, V.a('kkt.pr')[q] == -1)), patterns=[V.a('Gt.jc')[i + 1]])

    def kjc(self, V, lo, hi):
        """column pointers in [lo,hi]"""
        c = z3.Int('c')
        k = V.a('kkt.jc')
        n, p = self.n(V), self.p(V)
        t = V.a('P.jc')[c] + V.a('G.jc')[c] + (V.a('A.jc')[c] if self.eq(V) else IV(0))
        out = [z3.Implies(c <= n, k[c] == t)]
        if self.eq(V):
            out.append(z3.Implies(z3.And(c >= n, c <= n + p), k[c] == self.base1(V) + V.a('At.jc')[c - n]))
        out.append(z3.Implies(c >= n + p, k[c] == self.base2(V) + V.a('Gt.jc')[c - n - p] + c - n - p))
        return z3.ForAll([c], z3.Implies(z3.And(lo <= c, c <= hi), z3.And(*out)), patterns=[k[c]])

    def irrange(self, V, upto):
        q = z3.Int('q')
        k = V.a('kkt.ir')
        return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < upto), z3.And(0 <= k[q], k[q] < self.N(V))), patterns=[k[q]])

    def ensures(self, V):
        out = [('column pointers: P, A, G below each other, then A\', then G\' and -I', self.kjc(V, IV(0), self.N(V)))]
        for pt in self.parts(V):
            out.append(('the entries of %s are in their block, row and column' % pt[0], self.placed(V, pt, V[pt[1] + '.nnz'])))
        out.append(('the last entry of each of the last m columns is the diagonal -1', self.diag(V, self.m(V))))
        out += ccs_jc(V.a('kkt.jc'), self.N(V), self.nnz(V), 'the KKT matrix')
        out.append(('row indices of the KKT matrix are in range', self.irrange(V, self.nnz(V))))
        return out

    def bounds(self, ex):
        return [('n', lambda V: self.n(V)), ('m', lambda V: self.m(V))] + ([('p', lambda V: self.p(V)), ('n+p', lambda V: self.n(V) + self.p(V))])

    def templates(self, ex, L, V0):
        out = []
        W = lambda st: V0.at(st)
        cs = counters(L)
        mod = [(n, f) for n, f, m in cs if m]
        parts = self.parts(V0)
        wr = {w[1] for w in L.wset if w[0] == 'reg'}
        for part in parts:
            nm, mat, off, ro = part
            jc = V0.a(mat + '.jc')
            hs = [(n, f) for n, f in mod]
            for n, f, m in cs:
                hs.append(('jc[%s]' % n, lambda st, f=f, jc=jc: jc[f(st)]))
                hs.append(('jc[%s+1]' % n, lambda st, f=f, jc=jc: jc[f(st) + 1]))
            hs.append(('nnz', lambda st, mat=mat: V0[mat + '.nnz']))
            for hn, h in hs:
                out.append(('%s placed below %s' % (nm, hn), lambda st, part=part, h=h: self.placed(W(st), part, h(st))))
            # where the next entry goes
            for vn, vf in mod:
                for n, f, m in cs:
                    if n == vn: continue
                    out.append(('%s at start of %s column %s' % (vn, nm, n), lambda st, vf=vf, f=f, jc=jc, off=off: vf(st) == jc[f(st)] + off(f(st))))
                    for jn, jf in mod:
                        if jn in (n, vn): continue
                        out.append(('%s=%s in %s column %s' % (vn, jn, nm, n), lambda st, vf=vf, f=f, jf=jf, off=off: vf(st) == jf(st) + off(f(st))))
        for n, f, m in cs:
            out.append(('diagonal below %s' % n, lambda st, f=f: self.diag(W(st), f(st))))
        for n, f in mod:
            out.append(('row indices in range below %s' % n, lambda st, f=f: self.irrange(W(st), f(st))))
            for on, o in (('', lambda V: IV(0)), ('+n', self.n), ('+n+p', lambda V: self.n(V) + self.p(V))):
                out.append(('column pointers up to %s%s' % (n, on), lambda st, f=f, o=o: self.kjc(W(st), IV(0), f(st) + o(V0))))
        return out

    def facts(self, V):
        e = z3.Int('e')
        out = []
        for nm, mat, off, ro in self.parts(V):
            jc = V.a(mat + '.jc').raw()
            out.append(z3.ForAll([e], z3.Implies(z3.And(0 <= e, e < V[mat + '.nnz']), col_in(jc, V[mat + '.n'], e)), patterns=[col(jc, e)]))
        return out

    def ghosts(self, ex, st, V):
        for f in self.facts(V): st.assume(f)

    def loop_instances(self, V, L, st, terms):
        out = []
        for nm, mat, off, ro in self.parts(V):
            out += col_inst(V.a(mat + '.jc'), V[mat + '.n'], terms)
        return out


CONTRACTS = [formkktmatrix_full()]
LEMMAS = {}
