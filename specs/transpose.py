"""SparseMatrixTranspose and Transpose_Row_Count: counting-sort transposition of a compressed-column matrix."""
from .common import *


class _Transpose(Contract):
    """e-th source entry lands in slot tjc[ir e] + (number of earlier entries of the same row)"""
    lemmas = ['counting']

    # paths: dimensions and arrays of the source / target
    def dims(self, V): raise NotImplementedError

    def pos(self, V, e):
        jc, ir, tjc = self.jc(V), self.ir(V), self.tjc(V)
        return tjc[ir[e]] + CNT(ir.raw(), ir[e], e)

    def jc(self, V): return V.a(self.P['jc'])
    def ir(self, V): return V.a(self.P['ir'])
    def tjc(self, V): return V.a(self.P['tjc'])
    def tir(self, V): return V.a(self.P['tir'])
    def n(self, V): return V[self.P['n']]
    def m(self, V): return V[self.P['m']]

    def nnz(self, V): return V[self.P['nnz']] if 'nnz' in self.P else self.jc(V)[V[self.P['n']]]

    def requires(self, V):
        return ccs_raw(self.jc(V), self.ir(V), self.n(V), self.m(V), self.nnz(V), 'the matrix')

    def placed(self, V, upto, what=('ir', 'pr')):
        k = z3.Int('k')
        q = self.pos(V, k)
        out = []
        ir = self.ir(V)
        g = z3.And(0 <= k, k < upto)
        b = [self.tir(V)[q] == col(self.jc(V).raw(), k), self.tjc(V)[ir[k]] <= q, q < self.tjc(V)[ir[k] + 1]]
        if 'pr' in self.P:
            b.append(V.a(self.P['tpr'])[q] == V.a(self.P['pr'])[k])
        return z3.ForAll([k], z3.Implies(g, z3.And(*b)), patterns=[ir[k]])

    def rowptr(self, V, upto):
        r = z3.Int('r')
        nnz = self.nnz(V)
        ir = self.ir(V).raw()
        return z3.ForAll([r], z3.Implies(z3.And(0 <= r, r <= upto), self.tjc(V)[r] == CC(ir, r, nnz)), patterns=[self.tjc(V)[r]])

    def slots(self, V):
        """every slot of row r holds a source entry of row r"""
        r, q = z3.Ints('r q')
        tjc, ir = self.tjc(V), self.ir(V).raw()
        e = SEL(ir, r, q - tjc[r])
        b = [0 <= e, e < self.nnz(V), self.ir(V)[e] == r, self.tir(V)[q] == col(self.jc(V).raw(), e)]
        if 'pr' in self.P:
            b.append(V.a(self.P['tpr'])[q] == V.a(self.P['pr'])[e])
        return z3.ForAll([r, q], z3.Implies(z3.And(0 <= r, r < self.m(V), tjc[r] <= q, q < tjc[r + 1]), z3.And(*b)), patterns=[z3.MultiPattern(tjc[r], self.tir(V)[q])])

    def ensures(self, V):
        nnz = self.nnz(V)
        q = z3.Int('q')
        i, j = z3.Ints('i j')
        tjc, tir = self.tjc(V), self.tir(V)
        return [('the row pointers count the entries of earlier rows', self.rowptr(V, self.m(V)))] + ccs_jc(tjc, self.m(V), nnz, 'the transpose') + [
            ('every entry is in its slot, in the order of the source', self.placed(V, nnz)),
            ('row indices of the transpose are in range', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < nnz), z3.And(0 <= tir[q], tir[q] < self.n(V))), patterns=[tir[q]]))]

    def bounds(self, ex):
        return [('m', lambda V: self.m(V)), ('n', lambda V: self.n(V))]

    def templates(self, ex, L, V0):
        out = []
        W = lambda st: V0.at(st)
        hs = []
        for n, f, m in counters(L):
            hs.append((n, lambda st, f=f: f(st)))
            if m:
                hs.append(('jc[%s]' % n, lambda st, f=f: self.jc(V0)[f(st)]))
        k = z3.Int('k')
        ir0 = self.ir(V0).raw()
        nnz = self.nnz(V0)
        for nm, rid in local_blocks(ex, L):
            A = lambda st, rid=rid: st.regs[rid].arr
            for cn, cf in hs:
                out.append(('%s=CNT(%s)' % (nm, cn), lambda st, A=A, cf=cf: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.m(V0)), A(st)[k] == CNT(ir0, k, cf(st))), patterns=[A(st)[k]])))
            out.append(('%s=CNT(nnz)' % nm, lambda st, A=A: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.m(V0)), A(st)[k] == CNT(ir0, k, nnz)), patterns=[A(st)[k]])))
            out.append(('%s=jc+CNT(nnz)' % nm, lambda st, A=A: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.m(V0)), A(st)[k] == CC(ir0, k, nnz)), patterns=[A(st)[k]])))
            for cn, cf in hs:
                out.append(('%s=tjc+CNT(%s)' % (nm, cn), lambda st, A=A, cf=cf: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.m(V0)), A(st)[k] == CC(ir0, k, nnz) + CNT(ir0, k, cf(st))), patterns=[A(st)[k]])))
            for cn, cf, m in counters(L):
                if not m: continue
                out.append(('%s=0 below %s' % (nm, cn), lambda st, A=A, cf=cf: bq(IV(0), cf(st), lambda k: A(st)[k] == 0, lambda k: [A(st)[k]])))
                out.append(('%s=CNT(nnz) from %s' % (nm, cn), lambda st, A=A, cf=cf: z3.ForAll([k], z3.Implies(z3.And(cf(st) <= k, k < self.m(V0)), A(st)[k] == CNT(ir0, k, nnz)), patterns=[A(st)[k]])))
                out.append(('%s=CC(nnz) below %s' % (nm, cn), lambda st, A=A, cf=cf: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cf(st)), A(st)[k] == CC(ir0, k, nnz)), patterns=[A(st)[k]])))
        for cn, cf, m in counters(L):
            if not m: continue
            out.append(('tjc upto %s' % cn, lambda st, cf=cf: self.rowptr(W(st), cf(st))))
        out.append(('tjc all', lambda st: self.rowptr(W(st), self.m(V0))))
        for cn, cf in hs:
            out.append(('placed<%s' % cn, lambda st, cf=cf: self.placed(W(st), cf(st))))
        # running total of counts
        for n, kk in L.int_vars():
            if not L.modified(kk): continue
            for cn, cf, m in counters(L):
                if m and cn != n:
                    out.append(('%s=CC(%s)' % (n, cn), lambda st, kk=kk, cf=cf: ex.to_int(st.env[kk]) == CC(ir0, cf(st), nnz)))
        return out

    def loop_instances(self, V, L, st, terms):
        ir = self.ir(V)
        jc = self.jc(V)
        a = ir.raw()
        nnz = self.nnz(V)
        r, k, R_ = z3.Ints('r k R')
        out = [z3.ForAll([r], CNT(a, r, IV(0)) == 0, patterns=[CNT(a, r, IV(0))])]
        for e in terms:
            out.append(z3.ForAll([r], CNT(a, r, e + 1) == CNT(a, r, e) + z3.If(a[e] == r, IV(1), IV(0)), patterns=[CNT(a, r, e + 1), CNT(a, r, e)]))
            out.append(cc_step(a, e, nnz))
            # an earlier entry of the same row was counted
            out.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < e), CNT(a, a[k], k) + 1 <= CNT(a, a[k], e)), patterns=[a[k]]))
            out.append(z3.Implies(z3.And(0 <= e, e < nnz), z3.And(CNT(a, a[e], e) >= 0, CNT(a, a[e], e) + 1 <= CNT(a, a[e], nnz))))
            out.append(SELDEF(a, e))
        out += col_inst(jc, self.n(V), terms)
        return out

    def exit_lemmas(self, V):
        ir, jc, tjc, tir = self.ir(V), self.jc(V), self.tjc(V), self.tir(V)
        a, nnz, m = ir.raw(), self.nnz(V), self.m(V)
        q = z3.Int('q')
        r = col(tjc.raw(), q)
        return [z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < nnz), z3.And(col_in(tjc.raw(), m, q), cc_step(a, r, nnz), sel_in(a, r, q - tjc[r], nnz), col_in(jc.raw(), self.n(V), SEL(a, r, q - tjc[r])))), patterns=[tir[q]])]

    def ghosts(self, ex, st, V):
        # instances of the counting lemmas for this matrix (their hypotheses are the preconditions)
        a, nnz, m = self.ir(V).raw(), self.nnz(V), self.m(V)
        r, R_, k = z3.Ints('r R k')
        st.assume(cc_none(a, nnz))
        st.assume(cc_full(a, m, nnz))
        # rows occupy disjoint ranges of slots
        st.assume(z3.ForAll([r, R_], z3.Implies(z3.And(0 <= r, r < R_, nnz >= 0), z3.And(CC(a, r, nnz) >= 0, CNT(a, r, nnz) >= 0, CC(a, r, nnz) + CNT(a, r, nnz) <= CC(a, R_, nnz))), patterns=[z3.MultiPattern(CC(a, r, nnz), CC(a, R_, nnz))]))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nnz), z3.And(CNT(a, a[k], k) >= 0, CNT(a, a[k], k) + 1 <= CNT(a, a[k], nnz))), patterns=[a[k]]))


class SparseMatrixTranspose(_Transpose):
    """At = A' by counting sort"""
    name = 'SparseMatrixTranspose'
    params = ['A', 'At']
    P = dict(jc='A.jc', ir='A.ir', pr='A.pr', tjc='At.jc', tir='At.ir', tpr='At.pr', n='A.n', m='A.m', nnz='A.nnz')

    def shapes(self):
        return {'all': {'A': smat(),
                        'At': Obj_('smat', {'jc': Arr('int', lambda V, p: V['A.m'] + 1, True),
                                            'ir': Arr('int', lambda V, p: V['A.nnz'], True),
                                            'pr': Arr('real', lambda V, p: V['A.nnz'], True)})}}


class Transpose_Row_Count(_Transpose):
    """pattern of the transpose of L"""
    name = 'Transpose_Row_Count'
    params = ['m', 'n', 'Li', 'Lp', 'Lti', 'Ltp']
    P = dict(jc='Lp', ir='Li', tjc='Ltp', tir='Lti', n='n', m='m')

    def shapes(self):
        nz = lambda V, p: V.a('Lp')[V['n']]
        return {'all': {'Lp': Arr('int', lambda V, p: V['n'] + 1), 'Li': Arr('int', nz), 'Lti': Arr('int', nz, w=True), 'Ltp': Arr('int', lambda V, p: V['m'] + 1, w=True)}}


CONTRACTS = [SparseMatrixTranspose(), Transpose_Row_Count()]
