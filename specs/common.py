"""Shared vocabulary of the specifications."""
import z3
from qpv.symex import Ptr, IV, I, TRUE, FALSE, simp, NULL
from qpv.spec import *

R = z3.RealSort()
AI = z3.ArraySort(I, I)
AR = z3.ArraySort(I, R)


def fn(name, *sorts):
    return z3.Function(name, *sorts)


# --- mathematical definitions (uninterpreted symbols + their defining equations, instantiated where needed)
col = fn('col', AI, I, I)                    # column that owns entry e of a compressed-column matrix
MV = fn('MV', AI, AI, AR, AR, I, I, R)       # MV(jc,ir,pr,x,r,e) = sum_{k<e, ir[k]=r} pr[k]*x[col(jc,k)]
PS = fn('PS', AI, AR, AR, I, R)              # PS(ir,pr,x,e)      = sum_{k<e} pr[k]*x[ir[k]]
DOT = fn('DOT', AR, AR, I, R)                # DOT(x,y,e)         = sum_{k<e} x[k]*y[k]
CNT = fn('CNT', AI, I, I, I)                 # CNT(ir,r,e)        = #{k<e : ir[k]=r}


def ccs(V, p, rows=None, sorted_=False):
    """p is a valid compressed-column matrix"""
    n, m, nnz = V[p + '.n'], V[p + '.m'], V[p + '.nnz']
    return ccs_raw(V.a(p + '.jc'), V.a(p + '.ir'), n, m, nnz, p)


def ccs_jc(jc, n, nnz, p):
    i, j = z3.Ints('i j')
    return [('%s: column pointers start at 0' % p, jc[0] == 0),
            ('%s: last column pointer is the entry count' % p, jc[n] == nnz),
            ('%s: column pointers are monotone' % p, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= n), jc[i] <= jc[j]), patterns=[z3.MultiPattern(jc[i], jc[j])])),
            ('%s: column pointers are in range' % p, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= n), z3.And(0 <= jc[i], jc[i] <= nnz)), patterns=[jc[i]]))]


def ccs_raw(jc, ir, n, m, nnz, p):
    k = z3.Int('k')
    return [('%s: dimensions' % p, z3.And(n >= 0, m >= 0, nnz >= 0))] + ccs_jc(jc, n, nnz, p) + [
        ('%s: row indices are in range' % p, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nnz), z3.And(0 <= ir[k], ir[k] < m)), patterns=[ir[k]]))]


def col_inst(jc, n, terms, nnz=None):
    """col is the owner of an entry (definition, ground instances for the program's counters)"""
    out = []
    for i in terms:
        for e in terms:
            if i.eq(e): continue
            out.append(z3.Implies(z3.And(0 <= i, i < n, jc[i] <= e, e < jc[i + 1]), col(jc.arr, e) == i))
    return out


def counters(L, entry=None):
    """(name, fn(st)) for every integer counter in scope, 0-based candidates for 'how far'"""
    ex = L.ex
    out = []
    for n, k in L.int_vars():
        out.append((n, lambda st, k=k: ex.to_int(st.env[k]), L.modified(k)))
    for n, k in L.ptr_vars():
        out.append(('off(%s)' % n, lambda st, k=k: st.env[k].off, True))
    return out


def modcounters(L):
    return [(n, f) for n, f, m in counters(L) if m]


class Seg:
    """pointwise fact about an array:  forall k in [lo,hi): a[k] == f(k)"""

    def __init__(self, path, lo, hi, f, name, only_if=None):
        self.path, self.lo, self.hi, self.f, self.name, self.only_if = path, lo, hi, f, name, only_if

    def formula(self, V, upto=None, downto=None, pats=None):
        k = z3.Int('k')
        a = V.a(self.path)
        g = [self.lo(V) <= k, k < self.hi(V)]
        if self.only_if is not None: g.append(self.only_if(V))
        if upto is not None: g.append(k < upto)
        if downto is not None: g.append(k >= downto)
        return z3.ForAll([k], z3.Implies(z3.And(*g), self.f(V, k, a[k])), patterns=[a[k]])


def seg_ensures(segs, V):
    return [(s.name, s.formula(V)) for s in segs]


def seg_templates(segs, ex, L, V0, offs=()):
    """prefix / suffix versions of pointwise facts, for every counter in scope"""
    out = []
    cs = counters(L)
    for s in segs:
        v = V0.ptr(s.path)
        if not isinstance(v, Ptr) or v.kind != 'reg' or ('reg', v.tgt) not in L.wset:
            continue
        out.append(('%s: all' % s.name, lambda st, s=s: s.formula(V0.at(st))))
        for n, f, m in cs:
            if not m: continue
            for on, of in [('', None)] + list(offs):
                def up(st, s=s, f=f, of=of):
                    t = f(st) if of is None else f(st) + of(V0.at(st))
                    return s.formula(V0.at(st), upto=t)

                def dn(st, s=s, f=f, of=of):
                    t = f(st) if of is None else f(st) + of(V0.at(st))
                    return s.formula(V0.at(st), downto=t)
                out.append(('%s: k<%s%s' % (s.name, n, on), up))
                out.append(('%s: k>=%s%s' % (s.name, n, on), dn))
                out.append(('%s: k>%s%s' % (s.name, n, on), lambda st, s=s, f=f, of=of: s.formula(V0.at(st), downto=(f(st) if of is None else f(st) + of(V0.at(st))) + 1)))
    return out


def frame_templates(ex, L, V0, paths, offs=()):
    """the part of an array a loop has not reached is unchanged since the loop started / since the call"""
    out = []
    cs = counters(L)
    for p in paths:
        v = V0.ptr(p)
        if not isinstance(v, Ptr) or v.kind != 'reg' or ('reg', v.tgt) not in L.wset:
            continue
        rid = v.tgt
        k = z3.Int('k')
        for src, a0 in (('entry', L.entry.regs[rid].arr), ('call', V0.st.regs[rid].arr)):
            for n, f, m in cs:
                if not m: continue
                for on, of in [('', None)] + list(offs):
                    def g(st, f=f, of=of, a0=a0, lt=True):
                        t = f(st) if of is None else f(st) + of(V0.at(st))
                        a = st.regs[rid].arr
                        return z3.ForAll([k], z3.Implies(k < t if lt else k >= t, a[k] == a0[k]), patterns=[a[k]])
                    out.append(('%s unchanged(%s) k>=%s%s' % (p, src, n, on), lambda st, g=g: g(st, lt=False)))
                    out.append(('%s unchanged(%s) k<%s%s' % (p, src, n, on), lambda st, g=g: g(st, lt=True)))
    return out


def delta_templates(ex, L, V0, path, adds):
    """the part of an array a loop has passed is what it was when the loop started plus a value: adds = [(name, f(V, k))]"""
    v = V0.ptr(path)
    if not isinstance(v, Ptr) or v.kind != 'reg' or ('reg', v.tgt) not in L.wset:
        return []
    out = []
    k = z3.Int('k')
    rid = v.tgt
    a0 = L.entry.regs[rid].arr
    for n, f, m in counters(L):
        if not m: continue
        for an, g in adds:
            def h(st, f=f, g=g, up=True):
                a = st.regs[rid].arr
                return z3.ForAll([k], z3.Implies(z3.And(v.off <= k, k < f(st) + v.off) if up else k >= f(st) + v.off, a[k] == a0[k] + g(V0.at(st), k - v.off)), patterns=[a[k]])
            out.append(('%s = entry + %s k<%s' % (path, an, n), h))
            out.append(('%s = entry + %s k>=%s' % (path, an, n), lambda st, h=h: h(st, up=False)))
    return out


def sum_templates(ex, L, V0, F, name):
    """real locals / array elements that accumulate a prefix sum F(e) from the loop's start on"""
    out = []
    cs = [(n, f) for n, f, m in counters(L) if m]
    ents = {n: f(L.entry) for n, f in cs}
    allc = counters(L)
    for n, k in L.real_vars():
        if not L.modified(k):
            continue
        e0 = L.entry.env[k]
        for c, f in cs:
            for sg in (1, -1):
                out.append(('%s%s%s(%s)' % (n, '+=' if sg > 0 else '-=', name, c),
                            lambda st, k=k, f=f, c=c, sg=sg, e0=e0: st.env[k] == e0 + sg * (F(V0.at(st), f(st)) - F(V0.at(st), ents[c]))))
    return out


def elem_sum_templates(ex, L, V0, F, name, path):
    out = []
    v = V0.ptr(path)
    if not isinstance(v, Ptr) or v.kind != 'reg' or ('reg', v.tgt) not in L.wset:
        return out
    rid = v.tgt
    cs = [(n, f) for n, f, m in counters(L) if m]
    ents = {n: f(L.entry) for n, f in cs}
    for jn, jf, jm in counters(L):
        if jm: continue
        for c, f in cs:
            for sg in (1, -1):
                out.append(('%s[%s]%s%s(%s)' % (path, jn, '+=' if sg > 0 else '-=', name, c),
                            lambda st, jf=jf, f=f, c=c, sg=sg: st.regs[rid].arr[jf(st)] == L.entry.regs[rid].arr[jf(st)] + sg * (F(V0.at(st), f(st)) - F(V0.at(st), ents[c]))))
        k = z3.Int('k')
        out.append(('%s changes only at %s' % (path, jn), lambda st, jf=jf: z3.ForAll([k], z3.Implies(k != jf(st), st.regs[rid].arr[k] == L.entry.regs[rid].arr[k]), patterns=[st.regs[rid].arr[k]])))
    return out


class Lemma:
    """a universally quantified fact proved by induction on one natural number"""

    def __init__(self, name, P, defs, hyps=()):
        self.name, self.P, self.defs, self.hyps = name, P, defs, list(hyps)

    def obligations(self):
        from qpv.symex import Obl
        k = z3.Int('k!ind')
        h = [(x, None) for x in self.hyps]
        base = Obl('lemma %s: base' % self.name, 'lemma', 0, h + [(d, None) for d in self.defs(IV(0))], self.P(IV(0)))
        step = Obl('lemma %s: step' % self.name, 'lemma', 0, h + [(k >= 0, None), (self.P(k), None)] + [(d, None) for d in self.defs(k)], self.P(k + 1))
        return [base, step]


def local_blocks(ex, L, elem='int'):
    """blocks allocated by the function and held in a local: (name, region id)"""
    out = []
    for k, v in L.entry.env.items():
        if k[0] == 'g' or not isinstance(v, Ptr) or v.kind != 'reg':
            continue
        r = L.entry.regs[v.tgt]
        if r.owner in ('malloc', 'local') and r.elem == elem and r.live:
            out.append((ex.var_name(k), v.tgt))
    return out


# --- counting -------------------------------------------------------------------------------------------------------
CC = fn('CC', AI, I, I, I)        # CC(a,R,e)  = #{k<e : a[k]<R}
SEL = fn('SEL', AI, I, I, I)      # SEL(a,r,t) = position of the t-th occurrence of r in a


def cnt_def(a, r, e):
    return CNT(a, r, e + 1) == CNT(a, r, e) + z3.If(a[e] == r, IV(1), IV(0))


def cc_def(a, R_, e):
    return CC(a, R_, e + 1) == CC(a, R_, e) + z3.If(a[e] < R_, IV(1), IV(0))


_A = z3.Const('A!', AI)
_r, _R, _e, _f, _N, _t = z3.Ints('r! R! e! f! N! t!')

CNT_MONO = z3.ForAll([_A, _r, _e, _f], z3.Implies(z3.And(0 <= _e, _e <= _f), z3.And(0 <= CNT(_A, _r, _e), CNT(_A, _r, _e) <= CNT(_A, _r, _f), CNT(_A, _r, _f) - CNT(_A, _r, _e) <= _f - _e)),
                     patterns=[z3.MultiPattern(CNT(_A, _r, _e), CNT(_A, _r, _f))])
CC_STEP = z3.ForAll([_A, _R, _e], z3.Implies(_e >= 0, CC(_A, _R + 1, _e) == CC(_A, _R, _e) + CNT(_A, _R, _e)), patterns=[CC(_A, _R + 1, _e)])
CC_MONO = z3.ForAll([_A, _r, _R, _e], z3.Implies(z3.And(_r <= _R, 0 <= _e), z3.And(0 <= CC(_A, _r, _e), CC(_A, _r, _e) <= CC(_A, _R, _e), CC(_A, _R, _e) <= _e)), patterns=[z3.MultiPattern(CC(_A, _r, _e), CC(_A, _R, _e))])


def cc_step(a, R_, e):
    return z3.Implies(e >= 0, CC(a, R_ + 1, e) == CC(a, R_, e) + CNT(a, R_, e))


def cc_full(a, m, e):
    """all of a[0..e) below m -> CC(a,m,e)=e"""
    k = z3.Int('k!')
    return z3.Implies(z3.And(e >= 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < e), a[k] < m))), CC(a, m, e) == e)


def cc_none(a, e):
    """no element of a[0..e) is negative -> CC(a,0,e)=0"""
    k = z3.Int('k!')
    return z3.Implies(z3.And(e >= 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < e), a[k] >= 0))), CC(a, IV(0), e) == 0)


def _lemmas():
    A, r, R_, e = _A, _r, _R, _e
    k = z3.Int('k!')
    base = lambda E: [CNT(A, r, IV(0)) == 0, CC(A, R_, IV(0)) == 0, CC(A, r, IV(0)) == 0, CC(A, R_ + 1, IV(0)) == 0, CNT(A, R_, IV(0)) == 0]
    f0 = z3.Int('f0')
    out = []
    # monotone from a fixed e up to e+k
    out.append(Lemma('CNT is monotone', lambda j: z3.And(CNT(A, r, f0) <= CNT(A, r, f0 + j), CNT(A, r, f0 + j) - CNT(A, r, f0) <= j),
                     lambda j: [CNT(A, r, f0 + j + 1) == CNT(A, r, f0 + j) + z3.If(A[f0 + j] == r, IV(1), IV(0))]))
    out.append(Lemma('CNT is a natural number', lambda j: CNT(A, r, j) >= 0, lambda j: [CNT(A, r, IV(0)) == 0, cnt_def(A, r, j)]))
    out.append(Lemma('CC splits by row', lambda j: CC(A, R_ + 1, j) == CC(A, R_, j) + CNT(A, R_, j),
                     lambda j: base(j) + [cc_def(A, R_ + 1, j), cc_def(A, R_, j), cnt_def(A, R_, j)]))
    out.append(Lemma('CC is monotone and bounded', lambda j: z3.Implies(r <= R_, z3.And(0 <= CC(A, r, j), CC(A, r, j) <= CC(A, R_, j), CC(A, R_, j) <= j)),
                     lambda j: base(j) + [cc_def(A, R_, j), cc_def(A, r, j)]))
    out.append(Lemma('CC over all rows', lambda j: z3.Implies(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < j), A[k] < R_), patterns=[A[k]]), CC(A, R_, j) == j),
                     lambda j: base(j) + [cc_def(A, R_, j), z3.Implies(A[j] < R_, TRUE)]))
    out.append(Lemma('CC over no row', lambda j: z3.Implies(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < j), A[k] >= 0), patterns=[A[k]]), CC(A, IV(0), j) == 0),
                     lambda j: [CC(A, IV(0), IV(0)) == 0, cc_def(A, IV(0), j)]))
    s = SEL(A, r, _t)
    out.append(Lemma('every occurrence is selected', lambda j: z3.ForAll([_t], z3.Implies(z3.And(0 <= _t, _t < CNT(A, r, j)), z3.And(0 <= s, s < j, A[s] == r, CNT(A, r, s) == _t)), patterns=[s]),
                     lambda j: [CNT(A, r, IV(0)) == 0, cnt_def(A, r, j), z3.Implies(A[j] == r, SEL(A, r, CNT(A, r, j)) == j)]))
    return out


SEL_ALL = z3.ForAll([_A, _r, _t, _e], z3.Implies(z3.And(0 <= _t, _t < CNT(_A, _r, _e), 0 <= _e), z3.And(0 <= SEL(_A, _r, _t), SEL(_A, _r, _t) < _e, _A[SEL(_A, _r, _t)] == _r, CNT(_A, _r, SEL(_A, _r, _t)) == _t)),
                    patterns=[z3.MultiPattern(SEL(_A, _r, _t), CNT(_A, _r, _e))])


def SELDEF(a, e):
    return SEL(a, a[e], CNT(a, a[e], e)) == e


def col_in(jc, n, e):
    """lemma: every entry of a compressed-column matrix has an owner column"""
    c = col(jc, e)
    return z3.Implies(z3.And(jc[0] == 0, 0 <= e, e < jc[n], n >= 0), z3.And(0 <= c, c < n, jc[c] <= e, e < jc[c + 1]))


def sel_in(a, r, t, e):
    """lemma: the t-th occurrence of r among a[0..e) exists when t < CNT"""
    s = SEL(a, r, t)
    return z3.Implies(z3.And(e >= 0, 0 <= t, t < CNT(a, r, e)), z3.And(0 <= s, s < e, a[s] == r, CNT(a, r, s) == t))


def _col_lemmas():
    J = z3.Const('J!', AI)
    e, i, k = z3.Ints('e i k')
    c = col(J, e)
    return [Lemma('every entry has an owner column', lambda j: z3.ForAll([e], z3.Implies(z3.And(J[0] <= e, e < J[j]), z3.And(0 <= c, c < j, J[c] <= e, e < J[c + 1])), patterns=[c]),
                  lambda j: [z3.ForAll([e], z3.Implies(z3.And(J[j] <= e, e < J[j + 1]), c == j), patterns=[c])], hyps=[z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i <= k), J[i] <= J[k]), patterns=[z3.MultiPattern(J[i], J[k])])])]


LEMMAS = {'columns': _col_lemmas, 'counting': _lemmas}
