"""The ordering package (src/amd_*.c, compiled with 64-bit integers)."""
from .common import *
from .ldl import INV, perm

OK, OOM, INVALID, JUMBLED = 0, -1, -2, 1
SRC = ['src/amd_order.c', 'src/amd_valid.c', 'src/amd_preprocess.c', 'src/amd_aat.c', 'src/amd_defaults.c']
SIZE_MAX = 2 ** 64 - 1


class _Amd(Contract):
    sources = SRC
    opts = {'malloc_may_fail': True}


class amd_l_defaults(_Amd):
    name = 'amd_l_defaults'
    params = ['Control']
    ptys_decl = {'Control': 'double *'}
    ret = 'void'

    def shapes(self): return {'array': {'Control': Arr('real', lambda V, p: IV(5), True)}, 'no array': {'Control': Null()}}

    def ensures(self, V):
        if V.case != 'array': return []
        a = V.a('Control')
        return [('documented defaults', z3.And(a[0] == 10, a[1] == 1, a[2] == 0, a[3] == 0, a[4] == 0))]

    def templates(self, ex, L, V0):
        if V0.case != 'array': return []
        out = []
        for n, f, m in counters(L):
            if m: out.append(('Control is 0 below %s' % n, lambda st, f=f: bq(IV(0), f(st), lambda k: V0.at(st).a('Control')[k] == 0, lambda k: [V0.at(st).a('Control')[k]])))
        return out


def covered(V, n):
    j = z3.Int('j')
    return ('the row indices cover every column pointer', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= n), V.a('Ap')[j] <= V.len('Ai')), patterns=[V.a('Ap')[j]]))


# what a well-formed pattern is, column by column
def ptrs_ok(V, upto):
    j = z3.Int('j')
    a = V.a('Ap')
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < upto), a[j] <= a[j + 1]), patterns=[a[j + 1]])


def rows_ok(V, rows, upto):
    j, p = z3.Ints('j p')
    a, r = V.a('Ap'), V.a('Ai')
    return z3.ForAll([j, p], z3.Implies(z3.And(0 <= j, j < upto, a[j] <= p, p < a[j + 1]), z3.And(0 <= r[p], r[p] < rows)), patterns=[z3.MultiPattern(a[j + 1], r[p])])


def rows_ok_part(V, rows, lo, hi):
    p = z3.Int('p')
    r = V.a('Ai')
    return z3.ForAll([p], z3.Implies(z3.And(lo <= p, p < hi), z3.And(0 <= r[p], r[p] < rows)), patterns=[r[p]])


def sorted_(V, upto):
    j, p = z3.Ints('j p')
    a, r = V.a('Ap'), V.a('Ai')
    return z3.ForAll([j, p], z3.Implies(z3.And(0 <= j, j < upto, a[j] < p, p < a[j + 1]), r[p - 1] < r[p]), patterns=[z3.MultiPattern(a[j + 1], r[p])])


def sorted_part(V, lo, hi):
    p = z3.Int('p')
    r = V.a('Ai')
    return z3.ForAll([p], z3.Implies(z3.And(lo < p, p < hi), r[p - 1] < r[p]), patterns=[r[p]])


def valid(V, rows, cols):
    a = V.a('Ap')
    return z3.And(rows >= 0, cols >= 0, a[0] == 0, a[cols] >= 0, ptrs_ok(V, cols), rows_ok(V, rows, cols))


class amd_l_valid(_Amd):
    """invalid exactly for a malformed pattern, jumbled exactly for a well-formed one with an unsorted or repeated row index"""
    name = 'amd_l_valid'
    params = ['n_row', 'n_col', 'Ap', 'Ai']

    def shapes(self):
        A = Arr('int', lambda V, p: V['n_col'] + 1)
        return {'all': {'Ap': A, 'Ai': Arr('int')}, 'no Ap': {'Ap': Null(), 'Ai': Arr('int')}, 'no Ai': {'Ap': A, 'Ai': Null()}, 'neither': {'Ap': Null(), 'Ai': Null()}}

    def requires(self, V): return [covered(V, V['n_col'])] if V.case == 'all' else []

    def ensures(self, V):
        if V.case != 'all': return [('missing arrays are invalid', V.ret == INVALID)]
        r, n, a = V['n_row'], V['n_col'], V.a('Ap')
        good = V.ret != INVALID
        return [('a documented status', z3.Or(V.ret == OK, V.ret == INVALID, V.ret == JUMBLED)),
                ('accepted: the dimensions are natural numbers', z3.Implies(good, z3.And(r >= 0, n >= 0))),
                ('accepted: the column pointers start at 0 and end at a natural number', z3.Implies(good, z3.And(a[0] == 0, a[n] >= 0))),
                ('accepted: the column pointers are ascending', z3.Implies(good, ptrs_ok(V, n))),
                ('accepted: the row indices are in range', z3.Implies(good, rows_ok(V, r, n))),
                ('rejected: the pattern is malformed', z3.Implies(z3.Not(good), z3.Not(valid(V, r, n)))),
                ('sorted when reported sorted', z3.Implies(V.ret == OK, sorted_(V, n))),
                ('not sorted when reported jumbled', z3.Implies(V.ret == JUMBLED, z3.Not(sorted_(V, n))))]

    def bounds(self, ex): return [('n_col', lambda V: V['n_col'])]

    def templates(self, ex, L, V0):
        if V0.case != 'all': return []
        out = []
        W = lambda st: V0.at(st)
        n, r, a = V0['n_col'], V0['n_row'], V0.a('Ap')
        cs = counters(L)
        for c, f, m in cs:
            if m:
                out += [('ptrs<%s' % c, lambda st, f=f: ptrs_ok(V0, f(st))), ('rows<%s' % c, lambda st, f=f: rows_ok(V0, r, f(st))), ('0<=Ap[%s]' % c, lambda st, f=f: a[f(st)] >= 0),
                        ('%s in -1..n_row' % c, lambda st, f=f: z3.And(f(st) >= -1, f(st) <= r))]
                for d, g, _ in cs:
                    if d == c: continue
                    out += [('rows in Ap[%s]..%s' % (d, c), lambda st, f=f, g=g: rows_ok_part(V0, r, a[g(st)], f(st))), ('%s<=Ap[%s+1]' % (c, d), lambda st, f=f, g=g: f(st) <= a[g(st) + 1]),
                            ('Ap[%s]<=%s' % (d, c), lambda st, f=f, g=g: a[g(st)] <= f(st)),
                            ('%s is the row before %s' % (d, c), lambda st, f=f, g=g: z3.Implies(g(st) >= 0, z3.And(V0.a('Ai')[f(st) - 1] == g(st)))),
                            ('%s is set after Ap' % d, lambda st, f=f, g=g: z3.BoolVal(True))]
                    for e, h, _ in cs:
                        if e in (c, d): continue
                        # d: status so far, e: the column
                        out += [('%s: sorted<%s, part %s' % (d, e, c), lambda st, f=f, g=g, h=h: z3.Implies(g(st) == OK, z3.And(sorted_(V0, h(st)), sorted_part(V0, a[h(st)], f(st))))),
                                ('%s is the row before %s in column %s' % (d, c, e), lambda st, f=f, g=g, h=h: z3.If(f(st) > a[h(st)], V0.a('Ai')[f(st) - 1] == g(st), g(st) == -1))]
                    out += [('%s: sorted<%s' % (d, c), lambda st, f=f, g=g: z3.Implies(g(st) == OK, sorted_(V0, f(st)))),
                            ('%s: jumbled' % d, lambda st, g=g: z3.Implies(g(st) == JUMBLED, z3.Not(sorted_(V0, n)))),
                            ('%s: ok or jumbled' % d, lambda st, g=g: z3.Or(g(st) == OK, g(st) == JUMBLED))]
        return out


def clean(V, n):
    """well formed and sorted"""
    return [('the pattern is well formed', z3.And(n >= 0, V.a('Ap')[0] == 0, V.a('Ap')[n] >= 0)), ('the column pointers are ascending', ptrs_ok(V, n)), ('the row indices are in range', rows_ok(V, n, n)),
            ('the row indices are sorted', sorted_(V, n))]


class amd_l_order(_Amd):
    """0/1: P is a permutation; -1: out of memory; -2: invalid matrix"""
    name = 'amd_l_order'
    params = ['n', 'Ap', 'Ai', 'P', 'Control', 'Info']
    ptys_decl = {'n': 'long', 'Ap': 'const long *', 'Ai': 'const long *', 'P': 'long *', 'Control': 'double *', 'Info': 'double *'}
    ret = 'int'

    def shapes(self):
        ap, p = Arr('int', lambda V, q: V['n'] + 1), Arr('int', lambda V, q: V['n'], True)
        ct, info = Arr('real', lambda V, q: IV(5)), Arr('real', lambda V, q: IV(20), True)
        out = {'all': {'Ap': ap, 'Ai': Arr('int'), 'P': p, 'Control': ct, 'Info': info}, 'no Info': {'Ap': ap, 'Ai': Arr('int'), 'P': p, 'Control': Null(), 'Info': Null()}}
        for x in ('Ap', 'Ai', 'P'): out['no ' + x] = dict(out['all'], **{x: Null()})
        return out

    def requires(self, V): return [covered(V, V['n'])] if V.case in ('all', 'no Info') else []

    def ensures(self, V):
        if V.case not in ('all', 'no Info'): return [('missing arrays are invalid', V.ret == INVALID)]
        ok, n, a = V.ret >= 0, V['n'], V.a('Ap')
        fits = z3.And(n < SIZE_MAX // 8, a[n] < SIZE_MAX // 8)
        return [('a documented status', z3.And(V.ret >= -2, V.ret <= 1))] + [('on success ' + l, z3.Implies(ok, f)) for l, f in perm(V, 'P', n)] + [
            ('accepted: the matrix is well formed', z3.Implies(z3.And(ok, n != 0), valid(V, n, n))),
            ('a malformed matrix is reported invalid', z3.Implies(z3.And(fits, n != 0, z3.Not(valid(V, n, n))), V.ret == INVALID)),
            ('only a malformed matrix is reported invalid', z3.Implies(V.ret == INVALID, z3.Not(valid(V, n, n))))]

    def axioms(self, num):
        return []

    def after_apply(self, ex, st, Vp, Vn):
        # ghost: what was ordered and what came back
        if 'order_status' not in st.ghost: return
        st.ghost.update(order_status=Vn.ret, order_P=Vn.a('P').raw(), order_Ap=Vp.a('Ap').raw(), order_Ai=Vp.a('Ai').raw(), order_n=Vp['n'])

    def bounds(self, ex): return [('n', lambda V: V['n'])]

    def templates(self, ex, L, V0):
        out = []
        n = V0['n']
        cs = [(c, f) for c, f, m in counters(L) if m]
        for c, f in cs:
            for d, g in cs:
                # room for one vector more in every round
                if c != d: out.append(('%s=entry+%s*n' % (d, c), lambda st, f=f, g=g: g(st) == g(L.entry) + z3.Sum([z3.If(f(st) > t, n, IV(0)) for t in range(8)])))
        return out

    def ghosts(self, ex, st, V):
        st.ghost.update(aat_ret=z3.Int('aat_ret!'), aat_Ap=z3.Const('aat_Ap!', AI), aat_Ai=z3.Const('aat_Ai!', AI), aat_Len=z3.Const('aat_Len!', AI))


def ascending(V, n, a=None):
    """lemma: column pointers that ascend step by step are monotone (lemma 'ascending')"""
    i, j = z3.Ints('i j')
    a = V.a('Ap') if a is None else a
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= n), z3.And(a[0] <= a[i], a[i] <= a[j], a[j] <= a[n])), patterns=[z3.MultiPattern(a[i], a[j])])


def _ascending():
    A = z3.Const('A!', AI)
    i, j = z3.Ints('i j')
    return [Lemma('ascending column pointers are monotone', lambda n: z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), A[j] <= A[j + 1]), patterns=[A[j + 1]]),
                  z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= n), z3.And(A[0] <= A[i], A[i] <= A[j], A[j] <= A[n])), patterns=[z3.MultiPattern(A[i], A[j])])), lambda n: [])]


class amd_l_aat(_Amd):
    """column counts of A+A' (their values are not specified here; the ordering of amd_1 relies on them)"""
    name = 'amd_l_aat'
    params = ['n', 'Ap', 'Ai', 'Len', 'Tp', 'Info']

    def shapes(self):
        v = Arr('int', lambda V, q: V['n'], True)
        s = {'Ap': Arr('int', lambda V, q: V['n'] + 1), 'Ai': Arr('int', lambda V, q: V.a('Ap')[V['n']]), 'Len': v, 'Tp': v}
        return {'all': dict(s, Info=Arr('real', lambda V, q: IV(20), True)), 'no Info': dict(s, Info=Null())}

    def requires(self, V): return clean(V, V['n'])

    def ensures(self, V):
        L = V.a('Len')
        return [('the counts are natural numbers', bq(IV(0), V['n'], lambda k: L[k] >= 0, lambda k: [L[k]])), ('the total is a natural number', V.ret >= 0)]

    def ghosts(self, ex, st, V): st.assume(ascending(V, V['n']))

    def after_apply(self, ex, st, Vp, Vn):
        if 'aat_ret' in st.ghost: st.ghost.update(aat_ret=Vn.ret, aat_Ap=Vp.a('Ap').raw(), aat_Ai=Vp.a('Ai').raw(), aat_Len=Vn.a('Len').raw())

    def bounds(self, ex): return [('n', lambda V: V['n'])]

    def templates(self, ex, L, V0):
        out = []
        W = lambda st: V0.at(st)
        a = V0.a('Ap')
        LE = lambda st, hi: bq(IV(0), hi, lambda k: W(st).a('Len')[k] >= 0, lambda k: [W(st).a('Len')[k]])
        TP = lambda st, hi: bq(IV(0), hi, lambda k: z3.And(a[k] <= W(st).a('Tp')[k], W(st).a('Tp')[k] <= a[k + 1]), lambda k: [W(st).a('Tp')[k]])
        out.append(('Len>=0', lambda st: LE(st, V0['n'])))
        out.append(('Tp in its column', lambda st: TP(st, V0['n'])))
        cs = counters(L)
        for c, f, m in cs:
            out.append(('Tp in its column below %s' % c, lambda st, f=f: TP(st, f(st))))
            if not m: continue
            out.append(('Len>=0 below %s' % c, lambda st, f=f: LE(st, f(st))))
            for d, g, _ in cs:
                if d == c: continue
                out += [('%s<=Ap[%s+1]' % (c, d), lambda st, f=f, g=g: f(st) <= a[g(st) + 1]), ('Ap[%s]<=%s' % (d, c), lambda st, f=f, g=g: a[g(st)] <= f(st))]
        return out


LASTC = fn('LASTC', AI, AI, I, I, I)      # LASTC(jc,ir,i,e) = column of the last entry before e in row i, -1 if there is none
DIST = fn('DIST', AI, AI, I, I, I)        # DIST(jc,ir,i,e)  = number of columns with an entry in row i among the entries before e
DISTC = fn('DISTC', AI, AI, I, I, I)      # DISTC(jc,ir,R,e) = the same, over the rows below R


def distinct_def(jc, ir, i, e):
    new = z3.And(ir[e] == i, LASTC(jc, ir, i, e) != col(jc, e))
    return [LASTC(jc, ir, i, e + 1) == z3.If(ir[e] == i, col(jc, e), LASTC(jc, ir, i, e)), DIST(jc, ir, i, e + 1) == DIST(jc, ir, i, e) + z3.If(new, IV(1), IV(0))]


def distc_def(jc, ir, R_, e):
    new = z3.And(ir[e] < R_, LASTC(jc, ir, ir[e], e) != col(jc, e))
    return DISTC(jc, ir, R_, e + 1) == DISTC(jc, ir, R_, e) + z3.If(new, IV(1), IV(0))


def _distinct():
    A, B = z3.Const('A!', AI), z3.Const('B!', AI)
    r, R_, f0, k = z3.Ints('r! R! f0 k!')
    base = [LASTC(A, B, r, IV(0)) == -1, DIST(A, B, r, IV(0)) == 0, DIST(A, B, R_, IV(0)) == 0, DISTC(A, B, R_, IV(0)) == 0, DISTC(A, B, R_ + 1, IV(0)) == 0, DISTC(A, B, r, IV(0)) == 0, DISTC(A, B, IV(0), IV(0)) == 0]
    D = lambda i, e: DIST(A, B, i, e)
    C = lambda i, e: DISTC(A, B, i, e)
    return [Lemma('DIST is monotone', lambda j: D(r, f0) <= D(r, f0 + j), lambda j: distinct_def(A, B, r, f0 + j)),
            Lemma('DIST is a natural number', lambda j: D(r, j) >= 0, lambda j: base + distinct_def(A, B, r, j)),
            Lemma('DISTC splits by row', lambda j: C(R_ + 1, j) == C(R_, j) + D(R_, j), lambda j: base + distinct_def(A, B, R_, j) + [distc_def(A, B, R_, j), distc_def(A, B, R_ + 1, j)]),
            Lemma('DISTC is monotone and bounded', lambda j: z3.Implies(r <= R_, z3.And(0 <= C(r, j), C(r, j) <= C(R_, j), C(R_, j) <= j)), lambda j: base + [distc_def(A, B, R_, j), distc_def(A, B, r, j)]),
            Lemma('DISTC over no row', lambda j: z3.Implies(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < j), B[k] >= 0), patterns=[B[k]]), C(IV(0), j) == 0), lambda j: base + [distc_def(A, B, IV(0), j)]),
            Lemma('earlier entries lie in columns up to the present one', lambda j: z3.Implies(z3.And(R_ >= 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < j), z3.And(0 <= col(A, k), col(A, k) <= R_)), patterns=[col(A, k)])), z3.And(-1 <= LASTC(A, B, r, j), LASTC(A, B, r, j) <= R_, (LASTC(A, B, r, j) == -1) == (DIST(A, B, r, j) == 0), D(r, j) >= 0)),
                  lambda j: base + distinct_def(A, B, r, j) + [col(A, j) == col(A, j)])]


class amd_l_preprocess(_Amd):
    """R = A' without repeated entries: a clean pattern"""
    name = 'amd_l_preprocess'
    params = ['n', 'Ap', 'Ai', 'Rp', 'Ri', 'W', 'Flag']

    def shapes(self):
        v = Arr('int', lambda V, q: V['n'], True)
        nz = lambda V, q: V.a('Ap')[V['n']]
        return {'all': {'Ap': Arr('int', lambda V, q: V['n'] + 1), 'Ai': Arr('int', nz), 'Rp': Arr('int', lambda V, q: V['n'] + 1, True), 'Ri': Arr('int', nz, True), 'W': v, 'Flag': v}}

    def requires(self, V): return clean(V, V['n'])[:3]

    def ensures(self, V):
        n = V['n']
        W = View(V.ex, V.st, {'Ap': V.args['Rp'], 'Ai': V.args['Ri']})
        return clean(W, n) + [('no more entries than before', V.a('Rp')[n] <= V.a('Ap')[n])]

    def bounds(self, ex): return [('n', lambda V: V['n'])]

    def ghosts(self, ex, st, V):
        st.assume(ascending(V, V['n']))
        jc, ir, n = V.a('Ap').raw(), V.a('Ai').raw(), V['n']
        nz = jc[n]
        r, R_, e, p, j = z3.Ints('r R e p j')
        D, C = (lambda i, e: DIST(jc, ir, i, e)), (lambda i, e: DISTC(jc, ir, i, e))
        # instances of the lemmas of group 'distinct' (their hypotheses are the precondition)
        st.assume(z3.ForAll([r], z3.And(LASTC(jc, ir, r, IV(0)) == -1, D(r, IV(0)) == 0), patterns=[D(r, IV(0))]))
        st.assume(z3.ForAll([r, e], z3.Implies(z3.And(0 <= e, e <= nz), z3.And(0 <= D(r, e), D(r, e) <= D(r, nz))), patterns=[D(r, e)]))
        st.assume(z3.ForAll([r], z3.Implies(0 <= r, C(r + 1, nz) == C(r, nz) + D(r, nz)), patterns=[D(r, nz)]))
        st.assume(z3.ForAll([r, R_], z3.Implies(z3.And(0 <= r, r <= R_), z3.And(0 <= C(r, nz), C(r, nz) <= C(R_, nz), C(R_, nz) <= nz)), patterns=[z3.MultiPattern(C(r, nz), C(R_, nz))]))
        st.assume(z3.ForAll([r, R_], z3.Implies(z3.And(0 <= r, r < R_), C(r, nz) + D(r, nz) <= C(R_, nz)), patterns=[z3.MultiPattern(C(r, nz), C(R_, nz))]))
        st.assume(C(IV(0), nz) == 0)
        # the defining equations, at every entry; its column is the one that owns it
        st.assume(z3.ForAll([j, p], z3.Implies(z3.And(0 <= j, j < n, jc[j] <= p, p < jc[j + 1]), z3.And(col(jc, p) == j, 0 <= ir[p], ir[p] < n)), patterns=[z3.MultiPattern(jc[j + 1], ir[p])]))

    def loop_instances(self, V, L, st, terms):
        jc, ir, n = V.a('Ap').raw(), V.a('Ai').raw(), V['n']
        r = z3.Int('r')
        out = []
        for e in terms:
            out.append(z3.ForAll([r], z3.And(*distinct_def(jc, ir, r, e)), patterns=[DIST(jc, ir, r, e), DIST(jc, ir, r, e + 1)]))
            out.append(z3.ForAll([r], z3.And(*distinct_def(jc, ir, r, e)), patterns=[LASTC(jc, ir, r, e), LASTC(jc, ir, r, e + 1)]))
            # lemma 'earlier entries lie in columns up to the present one'
            for j in terms:
                if not j.eq(e): out.append(z3.Implies(z3.And(0 <= j, j < n, 0 <= e, e <= jc[j + 1]), z3.ForAll([r], z3.And(-1 <= LASTC(jc, ir, r, e), LASTC(jc, ir, r, e) <= j, (LASTC(jc, ir, r, e) == -1) == (DIST(jc, ir, r, e) == 0)), patterns=[LASTC(jc, ir, r, e)])))
                if not j.eq(e): out.append(z3.Implies(z3.And(0 < j, j <= n, 0 <= e, e <= jc[j]), z3.ForAll([r], z3.And(-1 <= LASTC(jc, ir, r, e), LASTC(jc, ir, r, e) < j), patterns=[LASTC(jc, ir, r, e)])))
        return out

    def templates(self, ex, L, V0):
        out = []
        W = lambda st: V0.at(st)
        jc, ir, n = V0.a('Ap').raw(), V0.a('Ai').raw(), V0['n']
        nz = jc[n]
        D, C, LC = (lambda i, e: DIST(jc, ir, i, e)), (lambda i, e: DISTC(jc, ir, i, e)), (lambda i, e: LASTC(jc, ir, i, e))
        cs = counters(L)
        all_ = lambda st, x, hi, f: bq(IV(0), hi, lambda k: f(k, W(st).a(x)[k]), lambda k: [W(st).a(x)[k]])
        es = [('nz', lambda st: nz)] + [x for c, f, m in cs for x in (((c, f), ('Ap[%s]' % c, lambda st, f=f: jc[f(st)])) if m else ())]

        def ri(st, e):
            r, q = z3.Ints('r q')
            R = W(st).a('Ri')
            k0 = C(r, nz)
            return z3.ForAll([r, q], z3.Implies(z3.And(0 <= r, r < n, k0 <= q, q < k0 + D(r, e)),
                                                z3.And(0 <= R[q], R[q] < n, z3.Implies(q > k0, R[q - 1] < R[q]), R[q] <= LC(r, e))), patterns=[z3.MultiPattern(k0, R[q])])

        for nm, e in es:
            out += [('W=DIST(%s)' % nm, lambda st, e=e: all_(st, 'W', n, lambda k, x: x == D(k, e(st)))), ('Flag=LASTC(%s)' % nm, lambda st, e=e: all_(st, 'Flag', n, lambda k, x: x == LC(k, e(st)))),
                    ('W=DISTC+DIST(%s)' % nm, lambda st, e=e: all_(st, 'W', n, lambda k, x: x == C(k, nz) + D(k, e(st)))), ('rows of R hold what came before %s' % nm, lambda st, e=e: ri(st, e(st)))]
        out += [('Rp=DISTC', lambda st: all_(st, 'Rp', n + 1, lambda k, x: x == C(k, nz))), ('Flag=-1', lambda st: all_(st, 'Flag', n, lambda k, x: x == -1))]
        for c, f, m in cs:
            if not m: continue
            out += [('W=0 below %s' % c, lambda st, f=f: all_(st, 'W', f(st), lambda k, x: x == 0)), ('Flag=-1 below %s' % c, lambda st, f=f: all_(st, 'Flag', f(st), lambda k, x: x == -1)),
                    ('Rp=DISTC upto %s' % c, lambda st, f=f: all_(st, 'Rp', f(st) + 1, lambda k, x: x == C(k, nz))), ('W=DISTC below %s' % c, lambda st, f=f: all_(st, 'W', f(st), lambda k, x: x == C(k, nz)))]
            out.append(('W=DIST(nz) from %s' % c, lambda st, f=f: bq(f(st), n, lambda k: W(st).a('W')[k] == D(k, nz), lambda k: [W(st).a('W')[k]])))
            for d, g, _ in cs:
                if d == c: continue
                out += [('%s<=Ap[%s+1]' % (c, d), lambda st, f=f, g=g: f(st) <= jc[g(st) + 1]), ('Ap[%s]<=%s' % (d, c), lambda st, f=f, g=g: jc[g(st)] <= f(st))]
        return out


class amd_l1(_Amd):
    """minimum-degree ordering of a clean pattern (trusted: amd_1.c, amd_2.c, amd_postorder.c, amd_post_tree.c)"""
    name = 'amd_l1'
    params = ['n', 'Ap', 'Ai', 'P', 'Pinv', 'Len', 'slen', 'S', 'Control', 'Info']
    ptys_decl = {'n': 'long', 'Ap': 'const long *', 'Ai': 'const long *', 'P': 'long *', 'Pinv': 'long *', 'Len': 'long *', 'slen': 'long', 'S': 'long *', 'Control': 'double *', 'Info': 'double *'}
    ret = 'void'
    trusted = True

    def shapes(self):
        v = Arr('int', lambda V, q: V['n'], True)
        s = {'Ap': Arr('int', lambda V, q: V['n'] + 1), 'Ai': Arr('int', lambda V, q: V.a('Ap')[V['n']]), 'P': v, 'Pinv': v, 'Len': v, 'S': Arr('int', lambda V, q: V['slen'], True)}
        return {'all': dict(s, Control=Arr('real', lambda V, q: IV(5)), Info=Arr('real', lambda V, q: IV(20), True)), 'no Info': dict(s, Control=Null(), Info=Null())}

    def requires(self, V):
        g = V.st.ghost
        z = g.get('aat_ret', IV(0))
        return clean(V, V['n']) + [('n is at least 1', V['n'] >= 1),
                ('the column counts are those of this pattern', z3.And(V.a('Len').raw() == g['aat_Len'], V.a('Ap').raw() == g['aat_Ap'], V.a('Ai').raw() == g['aat_Ai']) if 'aat_Len' in g else FALSE),
                ('the workspace has room for the pattern, elbow room and 7 vectors', V['slen'] >= z + z / 5 + 7 * V['n'])]

    def ensures(self, V): return perm(V, 'P', V['n'])


CONTRACTS = [amd_l_defaults(), amd_l_valid(), amd_l_preprocess(), amd_l_aat(), amd_l_order(), amd_l1()]

LEMMAS = {'ascending': _ascending, 'distinct': _distinct}
