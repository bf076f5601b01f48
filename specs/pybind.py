"""The Python binding (python/pyqpSWIFT.c)."""
from .common import *
from qpv.pyapi import *
from .dense import MULF
from .qp import QP_SOLVE, graph

AR_ = z3.ArraySort(I, z3.RealSort())
SNAP = ('x', 'y', 'z', 's')
BASIC = {'ExitFlag': 'flag', 'Iterations': 'IterationCount', 'Setup_Time': 'tsetup', 'Solve_Time': 'tsolve'}
ADV = {'fval': 'fval', 'kktTime': 'kkt_time', 'ldlTime': 'ldl_numeric'}


class method_qpSWIFT(Contract):
    name = 'method_qpSWIFT'
    params = ['self', 'args', 'kwargs']
    opts = {'noleak': True}
    exec_cls = PyExec
    sources = ['python/pyqpSWIFT.c', 'src/Auxilary.c', 'src/qpSWIFT.c', 'src/ldl.c', 'src/timer.c']

    def shapes(self):
        out = {}
        for o in (0, 1):
            for k in ('no A, no b', 'A only', 'b only', 'A and b', 'empty A and b'):
                out['%s, %s' % (k, 'options' if o else 'no options')] = dict(self=Any(), args=Any(), kwargs=Any())
        return out

    def has(self, case, nm):
        if nm == 'opts': return not case.endswith('no options')
        if nm == 'A': return case.startswith(('A', 'empty'))
        if nm == 'b': return case.startswith(('b', 'A and b', 'empty'))
        return True

    def build(self, ex, case):
        st, args = Contract.build(self, ex, case)
        ex.given = {}
        for nm in ARGS[:-1]:
            if not self.has(case, nm):
                args[nm], ex.given[nm] = NULL, None
                continue
            f = {k: z3.Int('%s_%s' % (k, nm)) for k in ('nd', 'isflt', 'isdbl', 'isctg')}
            for k in ('isflt', 'isdbl', 'isctg'): st.assume(z3.Or(f[k] == 0, f[k] == 1))
            st.assume(f['nd'] >= 0)
            dims = z3.Const('dims_' + nm, AI)
            size = z3.If(f['nd'] == 1, dims[0], z3.If(f['nd'] == 2, MULF(dims[0], dims[1]), z3.Int('size_' + nm)))
            st.regs['dims_%s@' % nm] = Reg('the dimensions of ' + nm, 'int', dims, f['nd'], True, 'input', False)
            st.regs['data_%s@' % nm] = Reg(nm, 'real', z3.Const('data_' + nm, z3.ArraySort(I, ex.num.sort)), size, True, 'input', False)
            st.assume(size >= 0)
            o = Obj(nm, AR, dict(f, refs=IV(1), dims=Ptr('reg', 'dims_%s@' % nm, ZERO), data=Ptr('reg', 'data_%s@' % nm, ZERO)), True, 'input', False)
            st.objs[nm + '@'] = o
            args[nm] = ex.given[nm] = Ptr('obj', nm + '@')
        if self.has(case, 'opts'):
            st.objs['opts@'] = Obj('opts', '_opts', dict(refs=IV(1)), True, 'input', False)
            args['opts'] = ex.given['opts'] = Ptr('obj', 'opts@')
        else: args['opts'], ex.given['opts'] = NULL, None
        g = dict(err=IV(0), gil=IV(1), parsed=z3.Int('parsed'), warn_raises=z3.Int('warn_raises'), solves=IV(0))
        for k in OPTS: g['own_' + k] = IV(0)
        for x in SNAP: g['out_' + x] = z3.Const('none_' + x, AR_)
        for x in ('n', 'm', 'p', 'flag', 'IterationCount'): g['out_' + x] = z3.Int('none_' + x)
        for x in ('tsetup', 'tsolve', 'fval', 'kkt_time', 'ldl_numeric'): g['out_' + x] = z3.Real('none_' + x)
        st.ghost.update(g)
        return st, args

    def requires(self, V):
        d = lambda a, i: V.st.regs['dims_%s@' % a].arr[i]
        out = [('observers', z3.And(*[z3.Implies(HUGE(handle(k)), KIND_INT(handle(k))) for k in OPTS] + [z3.Not(z3.And(KIND_INT(handle(k)), KIND_FLT(handle(k)))) for k in OPTS])),
               ('at least one variable and one inequality', z3.And(d('c', 0) >= 1, d('h', 0) >= 1))]
        for a in ARGS[:-1]:
            if self.has(V.case, a): out.append(('dimensions of %s are natural numbers' % a, z3.And(d(a, 0) >= 0, d(a, 1) >= 0)))
        if V.case.startswith('A and b'): out.append(('equality constraints', d('b', 0) >= 1))
        if V.case.startswith('empty'): out.append(('no equality constraints', d('b', 0) == 0))
        return out

    def both(self, V): return self.has(V.case, 'A') and self.has(V.case, 'b')

    def valid(self, V0):
        """the arguments are proper ones"""
        st = V0.st
        fl = lambda a: st.objs[a + '@'].f
        d = lambda a, i: st.regs['dims_%s@' % a].arr[i]
        vec = lambda a: z3.And(fl(a)['isflt'] == 1, fl(a)['nd'] == 1)
        mat = lambda a, r, c: z3.And(fl(a)['isflt'] == 1, fl(a)['nd'] == 2, d(a, 0) == r, d(a, 1) == c)
        n, m = d('c', 0), d('h', 0)
        out = [st.ghost['parsed'] == 1, vec('c'), vec('h'), mat('G', m, n), mat('P', n, n)]
        if self.both(V0): out += [vec('b'), mat('A', d('b', 0), n)]
        if self.has(V0.case, 'opts'):
            h = handle
            opt = lambda k, f: z3.Or(h(k) == 0, f)
            num = V0.num
            out += [opt('MAXITER', z3.And(KIND_INT(h('MAXITER')), z3.Not(HUGE(h('MAXITER'))), 0 < LVAL(h('MAXITER')), LVAL(h('MAXITER')) < 200)),
                    opt('SIGMA', z3.And(KIND_FLT(h('SIGMA')), DVAL(h('SIGMA')) > 0)),
                    opt('VERBOSE', z3.And(KIND_INT(h('VERBOSE')), z3.Not(HUGE(h('VERBOSE'))), LVAL(h('VERBOSE')) >= 0)),
                    z3.Or(h('OUTPUT') == 0, self.good_output(), st.ghost['warn_raises'] != 1)]
            out += [opt(k, z3.And(KIND_FLT(h(k)), DVAL(h(k)) > 0, DVAL(h(k)) < 1)) for k in ('ABSTOL', 'RELTOL')]
        return z3.And(*out)

    def good_output(self):
        o = handle('OUTPUT')
        return z3.And(KIND_INT(o), z3.Not(HUGE(o)), LVAL(o) >= 0)

    def option(self, V, k, kind, default):
        if not self.has(V.case, 'opts'): return default
        h = handle(k)
        return z3.If(h != 0, LVAL(h) if kind == 'int' else DVAL(h), default)

    # ------------------------------------------------------------------------------- what reaches the library
    def library(self, ex, name, vs, st, e):
        ln, at = e.line, ex.where(e)
        V0 = ex.spec.V0
        ob = lambda f, l, kind='ensures': ex.oblige(st, f if z3.is_expr(f) else z3.BoolVal(bool(f)), kind, ln, '%s at %s' % (l, at))
        d = lambda a, i: V0.st.regs['dims_%s@' % a].arr[i]
        if name == 'QP_SETUP_dense':
            n, m, p, P, A, G, c, h, b, perm, order = vs
            both = self.both(V0)
            ob(z3.And(ex.to_int(n) == d('c', 0), ex.to_int(m) == d('h', 0), ex.to_int(p) == (d('b', 0) if both else 0)), 'set-up is given the dimensions of the arguments')
            ob(ex.to_int(order) == 20, 'set-up is told that the matrices are stored by rows')
            ob(isinstance(perm, Ptr) and perm.kind == 'null', 'set-up is given no permutation')
            for nm, v in (('P', P), ('A', A), ('G', G), ('c', c), ('h', h), ('b', b)):
                if nm in 'Ab' and not both:
                    ob(isinstance(v, Ptr) and v.kind == 'null', 'set-up is given no %s' % nm)
                    continue
                r = st.regs.get(v.tgt) if isinstance(v, Ptr) and v.kind == 'reg' else None
                ob(r is not None and r.live and r.arr.eq(V0.st.regs['data_%s@' % nm].arr) and simp(v.off).eq(ZERO), 'set-up is given the entries of %s' % nm)
            if st.dead: return []
            for lab, f in self.requires(V0):        # known already; kept near for the choice of the case
                if 'equality constraints' in lab: st.assume(f)
            out = ex.contracts[name].apply(ex, st, vs, e)
            for s, v in out:
                if not s.dead: s.ghost['instances'] = simp(s.ghost.get('instances', IV(0)) + 1)
            return out
        inst = vs[0] if vs else None
        live = isinstance(inst, Ptr) and inst.kind == 'obj' and st.objs[inst.tgt].ty == 'QP' and st.objs[inst.tgt].live
        ob(live, '%s is given the instance that was set up' % name, 'memory')
        if st.dead: return []
        W = View(ex, st, {'myQP': inst})
        if name == 'QP_SOLVE':
            num = ex.num
            for f, k, kind, dv in (('maxit', 'MAXITER', 'int', IV(100)), ('abstol', 'ABSTOL', 'real', num.const('1e-6')), ('reltol', 'RELTOL', 'real', num.const('1e-6')), ('sigma', 'SIGMA', 'real', num.const('100')), ('verbose', 'VERBOSE', 'int', IV(0))):
                ob(W['myQP.options.' + f] == self.option(V0, k, kind, dv), 'the solve uses the given option %s, or its default' % k)
            S = ex.contracts['QP_SOLVE']
            out = S.apply(ex, st, vs, e)
            for s, v in out:
                if s.dead: continue
                g = s.ghost
                g['solves'] = simp(g['solves'] + 1)
                X = View(ex, s, {'myQP': inst})
                for x in SNAP:
                    q = X.ptr('myQP.' + x)
                    if isinstance(q, Ptr) and q.kind == 'reg': g['out_' + x] = s.regs[q.tgt].arr
                for x in 'nmp': g['out_' + x] = X['myQP.' + x]
                for x in ('IterationCount', 'tsetup', 'tsolve', 'fval', 'kkt_time', 'ldl_numeric'): g['out_' + x] = X['myQP.stats.' + x]
                g['out_flag'] = v
            return out
        # clean-up of what the dense entry point made
        ob(name == 'QP_CLEANUP_dense', 'the instance is released by the clean-up that matches its set-up', 'free')
        case = dict(eq=not (W.null('myQP.A')), dense=True, given=False)
        ob(W['myQP.stats.AMD_RESULT'] != -3, 'the clean-up is told that the ordering belongs to the library', 'pre')
        for path, what in graph(case).items():
            if what is None or ':' not in what: continue
            p = W.ptr('myQP.' + path if path else 'myQP')
            if p.kind == 'reg': st.regs[p.tgt] = st.regs[p.tgt].rep(live=False)
        for path, what in sorted(graph(case).items(), key=lambda kv: -len(kv[0])):
            if what is not None and what.startswith('obj:'): st.objs[W.ptr('myQP.' + path if path else 'myQP').tgt].live = False
        return [(st, None)]

    # ------------------------------------------------------------------------------- results
    def ensures(self, V):
        st, g = V.st, V.st.ghost
        none = isinstance(V.ret, Ptr) and V.ret.kind == 'null'
        out = [('an exception is raised exactly when no result is returned', g['err'] == (1 if none else 0)),
               ('improper arguments give no result' if not none else 'proper arguments give a result', (z3.Not if none else (lambda x: x))(self.valid(V.old))),
               ('the interpreter lock is held on return', g['gil'] == 1)]
        for k in OPTS:
            if not none and self.has(V.case, 'opts'): out.append(('no reference to option %s is kept' % k, g['own_' + k] == 0))
        for a in ARGS:
            if self.has(V.case, a): out.append(('the argument %s is still referenced' % a, z3.BoolVal(bool(st.objs[a + '@'].live))))
        live = [o for o in st.objs.values() if o.ty == 'QP' and o.live]
        out.append(('the instance is released', z3.BoolVal(not live)))
        if none: return out
        out.append(('one problem is set up and solved once', z3.And(g.get('instances', IV(0)) == 1, g['solves'] == 1)))
        r = V.ret
        ok = isinstance(r, Ptr) and r.kind == 'obj' and st.objs[r.tgt].ty == '_dict' and st.objs[r.tgt].live
        out.append(('the result is a dictionary', z3.BoolVal(bool(ok))))
        if not ok: return out
        f = st.objs[r.tgt].f
        lvl = IV(10)
        if self.has(V.case, 'opts'): lvl = z3.If(z3.And(handle('OUTPUT') != 0, self.good_output()), LVAL(handle('OUTPUT')), IV(10))
        keys = {k[1:] for k in f if k.startswith('#')}
        for k, c in (('sol', TRUE), ('basicInfo', z3.Or(lvl == 1, lvl == 2)), ('advInfo', lvl == 2)):
            out.append(('%s is in the result exactly at the output levels that ask for it' % k, c if k in keys else z3.Not(c)))
        out.append(('nothing else is in the result', z3.BoolVal(keys <= {'sol', 'basicInfo', 'advInfo'})))
        def vec(d, k, src, n, path):
            p = d.get('#' + k)
            good = isinstance(p, Ptr) and p.kind == 'obj' and st.objs[p.tgt].ty == AR and st.objs[p.tgt].live
            out.append(('%s is a live array' % path, z3.BoolVal(bool(good))))
            if not good: return
            o = st.objs[p.tgt].f
            a = st.regs[o['data'].tgt].arr
            N = g['out_' + n]
            out.append(('%s has one dimension, of the right size' % path, z3.And(o['nd'] == 1, st.regs[o['dims'].tgt].arr[0] == N)))
            out.append(('%s holds what the solver computed' % path, bq(IV(0), N, lambda i: a[i] == g['out_' + src][i], lambda i: [a[i]])))
        def sub(k, want, opt):
            if k not in keys: return None
            p = f['#' + k]
            good = isinstance(p, Ptr) and p.kind == 'obj' and st.objs[p.tgt].ty == '_dict' and st.objs[p.tgt].live
            out.append(('%s is a live dictionary' % k, z3.BoolVal(bool(good))))
            if not good: return None
            d = st.objs[p.tgt].f
            have = {x[1:] for x in d if x.startswith('#')}
            out.append(('%s has its documented fields' % k, z3.BoolVal(have == set(want) | set(opt))))
            for x, src in want.items():
                v = d.get('#' + x)
                same = v is not None and not isinstance(v, Ptr) and v.sort() == g['out_' + src].sort()
                out.append(('%s.%s is what the solver reported' % (k, x), v == g['out_' + src] if same else FALSE))
            return d
        vec(f, 'sol', 'x', 'n', 'sol')
        sub('basicInfo', BASIC, ())
        d = sub('advInfo', ADV, ('z', 's') + (('y',) if self.both(V) else ()))
        if d is not None:
            vec(d, 'z', 'z', 'm', 'advInfo.z')
            vec(d, 's', 's', 'm', 'advInfo.s')
            if self.both(V): vec(d, 'y', 'y', 'p', 'advInfo.y')
        return out

    def templates(self, ex, L, V0):
        out = []
        g = L.entry.ghost
        for w in L.wset:
            if w[0] == 'reg' and w[1] in L.entry.regs and L.entry.regs[w[1]].elem == 'real':
                for n, f, m in counters(L):
                    for x in SNAP:
                        if m: out.append(('%s[k]=%s[k] below %s' % (L.entry.regs[w[1]].name, x, n), lambda st, w=w, f=f, x=x: bq(IV(0), f(st), lambda k: st.regs[w[1]].arr[k] == g['out_' + x][k], lambda k: [st.regs[w[1]].arr[k]])))
        return out

    def bounds(self, ex): return []


CONTRACTS = [method_qpSWIFT()]
LEMMAS = {}
