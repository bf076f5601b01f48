"""Contracts: shapes of arguments, requires / ensures / frame, loop-invariant templates, and the modular verifier."""
import z3, time, json, os, re
from .symex import *
from .cfront import Unsupported, strip, params
from . import prover

R = z3.RealSort()


# ------------------------------------------------------------------------------------------------------------ shapes
class Sh:
    pass


class Int(Sh):
    pass


class Real(Sh):
    pass


class Null(Sh):
    pass


class Any(Sh):
    """not used by the function in this case"""


class Arr(Sh):
    def __init__(self, elem, length=None, w=False, owner='input'):
        self.elem, self.length, self.w, self.owner = elem, length, w, owner


class Cell(Sh):
    """pointer to one scalar"""

    def __init__(self, elem, w=True):
        self.elem, self.w = elem, w


class Obj_(Sh):
    def __init__(self, ty, fields, w=(), owner='input'):
        self.ty, self.fields, self.w, self.owner = ty, fields, w, owner


def smat(w=False, objw=(), n=None, m=None, nnz=None):
    """a compressed-column matrix argument"""
    def L(nm):
        return nm
    return Obj_('smat', {'jc': Arr('int', lambda V, p: V[p[:-3] + '.n'] + 1, w),
                         'ir': Arr('int', lambda V, p: V[p[:-3] + '.nnz'], w),
                         'pr': Arr('real', lambda V, p: V[p[:-3] + '.nnz'], w)}, objw)


class AV:
    """array view: region content from a pointer on"""

    def __init__(self, arr, off):
        self.arr, self.off = arr, off

    def __getitem__(self, i):
        if isinstance(i, int): i = IV(i)
        return z3.Select(self.arr, i if self.zero() else self.off + i)

    def zero(self):
        return z3.is_int_value(self.off) and self.off.as_long() == 0

    def raw(self):
        if not self.zero():
            raise NoContractCase('offset array')
        return self.arr


class View:
    def __init__(self, ex, st, args, old=None, ret=None, case=None):
        self.ex, self.st, self.args, self.old, self.ret, self.case = ex, st, args, old, ret, case
        self.num = ex.num

    def ptr(self, path):
        parts = path.split('.')
        v = self.args[parts[0]]
        for f in parts[1:]:
            if not isinstance(v, Ptr) or v.kind != 'obj':
                raise NoContractCase('%s is not an object' % path)
            o = self.st.objs[v.tgt]
            v = o.f.get(f)
            if v is None:
                v = self.ex.uninit(self.ex.field_ty(o.ty, f), f)
                o.f[f] = v
        return v

    def __getitem__(self, path):
        v = self.ptr(path)
        if isinstance(v, Ptr):
            if v.kind == 'null': return NULL
            if v.kind == 'loc': return self.st.env[v.tgt]
            if v.kind == 'fld': return self.ex.rd(self.st, ('fld', v.tgt, v.aux), None)
            return self.a(path)
        return self.ex.to_int(v) if z3.is_bool(v) else v

    def cell(self, path):
        v = self.ptr(path)
        if v.kind == 'reg':
            return z3.Select(self.st.regs[v.tgt].arr, v.off)
        return self[path]

    def a(self, path):
        v = self.ptr(path)
        if not isinstance(v, Ptr) or v.kind != 'reg':
            raise NoContractCase('%s is not an array (%r)' % (path, v))
        return AV(self.st.regs[v.tgt].arr, v.off)

    def len(self, path):
        v = self.ptr(path)
        r = self.st.regs[v.tgt]
        return r.len - v.off if not (z3.is_int_value(v.off) and v.off.as_long() == 0) else r.len

    def null(self, path):
        v = self.ptr(path)
        return isinstance(v, Ptr) and v.kind == 'null'

    def at(self, st):
        return View(self.ex, st, self.args, self.old, self.ret, self.case)


def bq(lo, hi, body, pat=None, nm='q'):
    """forall k in [lo,hi): body(k)"""
    k = z3.Int(nm)
    b = z3.Implies(z3.And(lo <= k, k < hi), body(k))
    if pat is None:
        return z3.ForAll([k], b)
    return z3.ForAll([k], b, patterns=[p for p in pat(k)])


def pick_pats(arrs, k):
    return [a[k] for a in arrs]


class Contract:
    """base class; a subclass describes one function of the code base"""
    name = None
    on_write = None
    ret = None            # 'int' / 'real' / None
    opts = {}
    exec_cls = None

    def shapes(self):
        """-> dict case-name -> dict param -> shape"""
        raise NotImplementedError

    def requires(self, V): return []
    def ensures(self, V): return []
    def templates(self, ex, L, V): return []
    def loop_instances(self, V, L, st, terms): return []
    def bounds(self, ex): return []
    def axioms(self, num): return []
    def product_lemmas(self, a, b): return []
    def allocs(self, V): return {}
    def ghosts(self, ex, st, V): pass
    def setup(self, ex, st, V): pass
    def exit_lemmas(self, V): return []
    def exit_checks(self, V, regs0, objs0): return []     # further obligations on the heap at exit
    def step(self, ex, L, V0, head, back): return []     # what every iteration of a loop achieves

    # -------------------------------------------------------------------------------- building the arbitrary pre-state
    def build(self, ex, case):
        st = State()
        args = {}
        fn = ex.prog.funcs[self.name]
        shp = self.shapes()[case]
        self._lens = []
        for p in params(fn):
            n = p.d['name']
            ty = strip(p.dty)
        names = self.param_names(ex)
        for n in names:
            args[n] = self.mk(ex, st, shp.get(n), n, self.ptys[n])
        V = View(ex, st, args, case=case)
        for path, sh in self._lens:
            if sh.length is not None:
                st.assume(V.len(path) >= sh.length(V, path))
            st.assume(V.len(path) >= 0)
        return st, args

    def param_names(self, ex):
        """contract parameter names, bound to the function's parameters by position"""
        fn = ex.prog.funcs.get(self.name)
        if fn is None and hasattr(self, 'ptys_decl'):
            self.ptys = self.ptys_decl
            return self.params
        ps = params(fn)
        if len(ps) != len(self.params):
            raise Unsupported('%s has %d parameters, the contract declares %d' % (self.name, len(ps), len(self.params)))
        self.ptys = {n: strip(p.dty) for n, p in zip(self.params, ps)}
        return self.params

    def mk(self, ex, st, sh, path, ty):
        if sh is None:
            if is_int_ty(ty): return z3.Int(path)
            if is_real_ty(ty): return z3.Const(path, ex.num.sort)
            return Ptr('wild')
        if isinstance(sh, Int): return z3.Int(path)
        if isinstance(sh, Real): return z3.Const(path, ex.num.sort)
        if isinstance(sh, Null): return NULL
        if isinstance(sh, Any): return Ptr('wild')
        if isinstance(sh, Arr):
            rid = path + '@'
            st.regs[rid] = Reg(path, sh.elem, z3.Const(path, z3.ArraySort(I, ex.esort(sh.elem))), z3.Int('len_' + path), True, sh.owner, bool(sh.w))
            self._lens.append((path, sh))
            return Ptr('reg', rid, ZERO)
        if isinstance(sh, Cell):
            rid = path + '@'
            st.regs[rid] = Reg(path, sh.elem, z3.Const(path, z3.ArraySort(I, ex.esort(sh.elem))), IV(1), True, 'input', bool(sh.w))
            return Ptr('reg', rid, ZERO)
        if isinstance(sh, Obj_):
            oid = path + '@'
            o = Obj(path, sh.ty, {}, True, sh.owner, True if sh.w is True else tuple(sh.w))
            st.objs[oid] = o
            for f, t in ex.prog.structs[sh.ty]:
                if f in sh.fields:
                    o.f[f] = self.mk(ex, st, sh.fields[f], path + '.' + f, t)
                elif is_int_ty(t):
                    o.f[f] = z3.Int(path + '.' + f)
                elif is_real_ty(t):
                    o.f[f] = z3.Const(path + '.' + f, ex.num.sort)
                else:
                    o.f[f] = Ptr('wild')
            return Ptr('obj', oid)
        raise Unsupported('shape')

    # -------------------------------------------------------------------------------- use at a call site
    def match(self, ex, st, sh, v, path, acc):
        if sh is None or isinstance(sh, Any):
            return None
        if isinstance(sh, (Int, Real)):
            return None if not isinstance(v, Ptr) else '%s is a pointer' % path
        if not isinstance(v, Ptr):
            return '%s is not a pointer' % path
        if isinstance(sh, Null):
            return None if v.kind == 'null' else '%s is not NULL' % path
        if isinstance(sh, Arr):
            if v.kind != 'reg': return '%s is a %s pointer' % (path, v.kind)
            r = st.regs[v.tgt]
            if r.elem != sh.elem: return '%s has elements of another type' % path
            if not r.live: return '%s is released memory' % path
            acc.append((path, sh, v))
            return None
        if isinstance(sh, Cell):
            if v.kind == 'reg':
                acc.append((path, sh, v))
                return None
            if v.kind in ('loc', 'fld'):
                acc.append((path, sh, v))
                return None
            return '%s is a %s pointer' % (path, v.kind)
        if isinstance(sh, Obj_):
            if v.kind != 'obj': return '%s is a %s pointer' % (path, v.kind)
            o = st.objs[v.tgt]
            if not o.live: return '%s is released memory' % path
            if o.ty != sh.ty: return '%s is a %s' % (path, o.ty)
            acc.append((path, sh, v))
            for f, fs in sh.fields.items():
                fv = o.f.get(f)
                if fv is None:
                    fv = ex.uninit(ex.field_ty(o.ty, f), f)
                    o.f[f] = fv
                r = self.match(ex, st, fs, fv, path + '.' + f, acc)
                if r: return r
            return None
        return 'shape'

    def apply(self, ex, st, vs, e):
        names = self.param_names(ex)
        args = dict(zip(names, vs))
        why = []
        chosen = None
        for case, shp in self.shapes().items():
            acc = []
            bad = None
            for n in names:
                bad = self.match(ex, st, shp.get(n), args[n], n, acc)
                if bad: break
            if bad:
                why.append('%s: %s' % (case, bad))
                continue
            V = View(ex, st, args, case=case)
            g = self.case_guard(V)
            if g is not None:
                c = simp(g)
                if z3.is_false(c) or not ex.maybe(st, c):
                    why.append('%s: guard' % case)
                    continue
            chosen = (case, acc)
            break
        ln = e.line if e is not None else 0
        if chosen is None:
            ex.oblige(st, FALSE, 'pre', ln, 'arguments of %s satisfy its contract (%s) at %s' % (self.name, '; '.join(why), ex.where(e)))
            st.dead = True
            return [(st, None)]
        case, acc = chosen
        ex.used_contracts[self.name] = ex.used_contracts.get(self.name, 0) + 1
        V = View(ex, st, args, case=case)
        g = self.case_guard(V)
        if g is not None:
            ex.oblige(st, g, 'pre', ln, 'precondition of %s: case %s at %s' % (self.name, case, ex.where(e)))
        # separation of everything the callee writes from everything else it sees
        seen = {}
        for path, sh, v in acc:
            k = ('fld', v.tgt, v.aux) if v.kind == 'fld' else (v.kind, v.tgt)
            w = bool(getattr(sh, 'w', False))
            if k in seen and (w or seen[k][1]):
                if not self.alias_ok(path, seen[k][0]):
                    ex.oblige(st, FALSE, 'pre', ln, '%s: arguments %s and %s do not overlap at %s' % (self.name, path, seen[k][0], ex.where(e)))
            seen[k] = (path, w)
        for path, sh, v in acc:
            if isinstance(sh, Arr):
                if sh.length is not None:
                    ex.oblige(st, V.len(path) >= sh.length(V, path), 'pre', ln, 'precondition of %s: %s is long enough at %s' % (self.name, path, ex.where(e)))
                if sh.w:
                    r = st.regs[v.tgt]
                    if not r.write:
                        ex.oblige(st, FALSE, 'frame', ln, '%s writes %s, outside the declared frame at %s' % (self.name, r.name, ex.where(e)))
            elif isinstance(sh, Obj_) and sh.w:
                o = st.objs[v.tgt]
                if o.owner == 'input' and not (o.write is True):
                    fs = [f for f, _ in ex.prog.structs[o.ty]] if sh.w is True else sh.w
                    for f in fs:
                        if f not in o.write:
                            ex.oblige(st, FALSE, 'frame', ln, '%s writes %s.%s, outside the declared frame at %s' % (self.name, o.name, f, ex.where(e)))
                            break
        for lab, f in self.requires(V):
            ex.oblige(st, f, 'pre', ln, 'precondition of %s: %s at %s' % (self.name, lab, ex.where(e)))
        if st.dead:
            return [(st, None)]
        pre = st.fork()
        Vp = View(ex, pre, args, case=case)
        # havoc the frame
        for path, sh, v in acc:
            if isinstance(sh, Arr) and sh.w:
                r = st.regs[v.tgt]
                na = ex.farr(r.name, r.elem)
                old = r.arr
                st.regs[v.tgt] = r.rep(arr=na)
                ex.log(('reg', v.tgt))
                if not (z3.is_int_value(v.off) and v.off.as_long() == 0):
                    k = z3.Int('k!off')
                    st.assume(z3.ForAll([k], z3.Implies(k < v.off, na[k] == old[k]), patterns=[na[k]]))
            elif isinstance(sh, Cell) and sh.w:
                if v.kind == 'reg':
                    r = st.regs[v.tgt]
                    ex.wr(st, ('elem', v.tgt, v.off), ex.fresh('cell', ex.esort(sh.elem)), e)
                elif v.kind == 'loc':
                    ex.wr(st, ('var', v.tgt), ex.fresh('cell', ex.esort(sh.elem)), e)
                else:
                    ex.wr(st, ('fld', v.tgt, v.aux), ex.fresh('cell', ex.esort(sh.elem)), e)
            elif isinstance(sh, Obj_) and sh.w:
                o = st.objs[v.tgt]
                fs = [f for f, _ in ex.prog.structs[o.ty]] if sh.w is True else sh.w
                for f in fs:
                    t = ex.field_ty(o.ty, f)
                    if is_int_ty(t): nv = ex.fint(f)
                    elif is_real_ty(t): nv = ex.fresh(f, ex.num.sort)
                    else: continue
                    o.f[f] = nv
                    ex.log(('fld', v.tgt, f))
        ret = self.make_ret(ex, st, Vp)
        Vn = View(ex, st, dict(args, ret=ret) if isinstance(ret, Ptr) else args, old=Vp, ret=ret, case=case)
        for path, (elem, lenf) in self.allocs(Vp).items():
            # fresh blocks handed back through a field
            base, f = path.rsplit('.', 1)
            o = st.objs[Vn.ptr(base).tgt]
            rid = ex.new_region(st, path.split('.')[-1], elem, ex.fint('len'), 'malloc')
            o.f[f] = Ptr('reg', rid, ZERO)
            ex.log(('fld', Vn.ptr(base).tgt, f))
        for path, (elem, lenf) in self.allocs(Vp).items():
            st.assume(Vn.len(path) >= lenf(Vn))
        for lab, f in self.ensures(Vn):
            if self.wanted(lab): st.assume(f)
        self.after_apply(ex, st, Vp, Vn)
        return [(st, ret)]

    def make_ret(self, ex, st, Vp):
        rt = self.ret_type(ex)
        if rt == 'int': return ex.fint(self.name + '_ret')
        if rt == 'real': return ex.fresh(self.name + '_ret', ex.num.sort)
        return None

    def wanted(self, lab): return True      # may leave out postconditions a caller has no use for

    def after_apply(self, ex, st, Vp, Vn): pass

    def case_guard(self, V): return None

    def alias_ok(self, a, b): return False

    def ret_type(self, ex):
        t = ex.prog.funcs[self.name].ty if self.name in ex.prog.funcs else None
        t = strip(t.split('(')[0]) if t else None
        if self.ret is not None: return None if self.ret == 'void' else self.ret
        if t in (None, 'void'): return None
        if is_int_ty(t) or t == 'qp_int' or t == 'SuiteSparse_long': return 'int'
        if is_real_ty(t) or t == 'qp_real': return 'real'
        return None


class SpecHook:
    """what the executor asks the specification of the function being verified"""

    def __init__(self, contract, V0):
        self.c, self.V0 = contract, V0
        self.on_write = getattr(contract, 'on_write', None)

    def instances(self, ex, L, st):
        V = self.V0.at(st)
        V.old = self.V0
        terms = []
        seen = set()
        for n, k in L.int_vars():
            v = st.env.get(k)
            if v is None: continue
            v = simp(ex.to_int(v))
            if v.sexpr() in seen or z3.is_int_value(v) and v.as_long() != 0: continue
            seen.add(v.sexpr())
            terms.append(v)
        for n, k in L.ptr_vars():
            v = st.env.get(k)
            if isinstance(v, Ptr) and v.kind == 'reg':
                terms.append(simp(v.off))
        return self.c.loop_instances(V, L, st, terms)

    def bounds(self, ex):
        V0 = self.V0
        return [(n, lambda st, f=f: f(V0.at(st))) for n, f in self.c.bounds(ex)]

    def product_lemmas(self, a, b):
        return self.c.product_lemmas(a, b)

    def step(self, ex, L, head, back):
        return self.c.step(ex, L, self.V0, head, back)


# --------------------------------------------------------------------------------------------------- loop invariants
class Cand:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


def std_candidates(ex, L, V0, contract):
    """bounds and linear relations between the integer variables a loop changes"""
    out = []
    iv = [(n, lambda st, k=k: ex.to_int(st.env[k]), L.modified(k), L.val(L.entry, k)) for n, k in L.int_vars()]
    for w in L.wset:
        if w[0] == 'fld' and w[1] in L.entry.objs:
            o = L.entry.objs[w[1]]
            v = o.f.get(w[2])
            if v is not None and not isinstance(v, Ptr) and not z3.is_bool(v) and v.sort() == I:
                iv.append((o.name + '.' + w[2], lambda st, w=w: st.objs[w[1]].f[w[2]], True, v))
    for n, k in L.ptr_vars():
        iv.append(('off(' + n + ')', lambda st, k=k: st.env[k].off, True, L.entry.env[k].off))
        rid = L.entry.env[k].tgt
        out.append(Cand('off(%s)<=len' % n, lambda st, k=k, rid=rid: st.env[k].off <= st.regs[rid].len))
        out.append(Cand('off(%s)>=0' % n, lambda st, k=k, rid=rid: st.env[k].off >= 0))
    mod = [(n, f, e) for n, f, m, e in iv if m]
    bt = L.bound_terms()
    for n, f, e in mod:
        ev = simp(e)
        out.append(Cand('%s>=entry' % n, lambda st, f=f, e=e: f(st) >= e))
        out.append(Cand('%s<=entry' % n, lambda st, f=f, e=e: f(st) <= e))
        if not z3.is_int_value(ev) or ev.as_long() != 0:
            out.append(Cand('%s>=0' % n, lambda st, f=f: f(st) >= 0))
            if not z3.is_int_value(ev) or ev.as_long() != -1:
                out.append(Cand('%s>=-1' % n, lambda st, f=f: f(st) >= -1))
        for bn, bf in bt:
            out.append(Cand('%s<=%s' % (n, bn), lambda st, f=f, bf=bf: f(st) <= bf(st)))
            out.append(Cand('%s<%s' % (n, bn), lambda st, f=f, bf=bf: f(st) < bf(st)))
            out.append(Cand('%s>=%s' % (n, bn), lambda st, f=f, bf=bf: f(st) >= bf(st)))
    for a in range(len(mod)):
        for b in range(a):
            (n1, f1, e1), (n2, f2, e2) = mod[a], mod[b]
            out.append(Cand('%s-%s const' % (n1, n2), lambda st, f1=f1, f2=f2, e1=e1, e2=e2: f1(st) - f2(st) == e1 - e2))
            out.append(Cand('%s+%s const' % (n1, n2), lambda st, f1=f1, f2=f2, e1=e1, e2=e2: f1(st) + f2(st) == e1 + e2))
            out.append(Cand('%s<=%s' % (n1, n2), lambda st, f1=f1, f2=f2: f1(st) <= f2(st)))
            out.append(Cand('%s>=%s' % (n1, n2), lambda st, f1=f1, f2=f2: f1(st) >= f2(st)))
    return out


class Shapes:
    """candidates restricted to the forms a known proof uses, whatever the variables are called"""

    def __init__(self, shapes):
        self.shapes = set(shapes)


class Names:
    """the invariants of a known proof, tried at every loop; locals that were renamed are matched in order of declaration"""

    def __init__(self, hints, prog, name):
        self.names = {n for k, v in hints.items() if not k.startswith('term:') and k not in ('shapes', 'vars') for n in v}
        old = [x.split(':')[1] for x in sorted(hints.get('vars', []))]
        new = local_names(prog, name)
        gone, come = [v for v in old if v not in new], [v for v in new if v not in old]
        if gone and len(gone) <= len(come):
            m = dict(zip(gone, come))
            self.names |= {re.sub(r'[A-Za-z_]\w*', lambda x: m.get(x.group(0), x.group(0)), n) for n in self.names}

    def get(self, key, default=None): return self.names


def local_names(prog, name):
    """names of the parameters and locals of a function, in order of declaration"""
    out = []

    def walk(x):
        if x is None: return
        if x.kind in ('VarDecl', 'ParmVarDecl') and x.d.get('name') and x.d['name'] not in out: out.append(x.d['name'])
        for y in x.inner: walk(y)
    walk(prog.funcs[name])
    return out


def shaper(L):
    names = {n for n, _ in L.int_vars()} | {n for n, _ in L.real_vars()} | {n for n, _ in L.ptr_vars()}
    for k, v in L.entry.env.items():
        if k[0] != 'g' and isinstance(v, Ptr) and v.kind == 'reg' and L.entry.regs[v.tgt].owner in ('malloc', 'local'):
            names.add(L.ex.var_name(k))

    def shape(s):
        return re.sub(r'[A-Za-z_]\w*(?:@\d+)?', lambda m: '$' if len(m.group(0)) == 1 or m.group(0) in names else m.group(0), s)
    return shape


class CandStore:
    """candidate invariants per loop; Houdini deletes the ones that are not inductive"""

    def __init__(self, contract, V0, only=None):
        self.c, self.V0, self.dropped, self.names = contract, V0, set(), {}
        self.only = only      # key -> set of names (hints), Shapes, or None
        self.shape_of = {}
        self.made = {}

    def get(self, ex, L):
        if ex.dry:
            return []
        c = []
        names = set()
        V = self.V0
        allc = std_candidates(ex, L, V, self.c) + [Cand(n, f) for n, f in self.c.templates(ex, L, V)]
        shp = None
        if isinstance(self.only, Shapes):
            allowed, shp = None, shaper(L)
        else:
            allowed = None if self.only is None else self.only.get(L.key, set())
        sh = shaper(L)
        for x in allc:
            if x.name in names or (L.key, x.name) in self.dropped:
                continue
            if allowed is not None and x.name not in allowed:
                continue
            if shp is not None and shp(x.name) not in self.only.shapes:
                continue
            self.shape_of[(L.key, x.name)] = sh(x.name)
            names.add(x.name)
            c.append(x)
        self.made.setdefault(L.key, set()).update(names)
        return c


# ------------------------------------------------------------------------------------------------------- verification
class Result:
    def __init__(self, unit):
        self.unit = unit
        self.ok = False
        self.failed = []     # obligations not discharged
        self.obls = []
        self.rounds = 0
        self.secs = 0.0
        self.error = None
        self.inlined = set()
        self.used = {}
        self.cands = {}
        self.dropped = 0
        self.mode = None
        self.backends = {}
        self.trivial = 0


def gen(prog, contracts, c, case, num, store_only, dropped, opts=None):
    """one symbolic execution -> (obligations, axioms, executor)"""
    o = dict(c.opts)
    o.update(opts or {})
    ex = (c.exec_cls or Exec)(prog, contracts, num, None, o)
    ex.curfn = c.name
    st, args = c.build(ex, case)
    V0s = View(ex, st.fork(), args, case=case)
    for lab, f in c.requires(View(ex, st, args, case=case)):
        st.assume(f)
    V0 = View(ex, st.fork(), args, case=case)
    ex.spec = SpecHook(c, V0)
    store = CandStore(c, V0, store_only)
    store.dropped = dropped
    ex.cands = store
    g = c.case_guard(View(ex, st, args, case=case))
    if g is not None:
        st.assume(g)
        V0.st.assume(g)
    c.ghosts(ex, st, V0)
    fn = prog.funcs[c.name]
    # vacuity guard: the precondition must be satisfiable as far as the prover can tell
    ex.obls.append(Obl('precondition of %s is not contradictory' % c.name, 'vacuity', 0, list(st.pc), FALSE, None, c.name, 'vacuity'))
    ex.stack = [c.name]
    ex.frame = 1
    for p, n in zip(params(fn), c.params):
        st.env[(1, p.id)] = args[n]
    regs0 = set(st.regs)
    objs0 = set(st.objs)
    nret = 0
    outs = ex.exec(fbody(fn), st)
    finals = []
    for k, s, v in outs:
        if s.dead:
            continue
        if k not in ('return', 'next'):
            raise Unsupported('stray ' + k)
        nret += 1
        finals.append((s, v))
    # vacuity guard: not every exit may be unreachable
    for s, v in finals[:6]:
        ex.obls.append(Obl('an exit of %s is reachable' % c.name, 'vacuity-exit', 0, list(s.pc), FALSE, None, c.name, 'vacuity'))
    for s, v in finals:
        V = View(ex, s, dict(args, ret=v) if isinstance(v, Ptr) else args, old=V0, ret=v, case=case)
        line = fn.line
        fresh = {}
        try:
            al = c.allocs(V0)
            for path, (elem, lenf) in al.items():
                p = V.ptr(path)
                good = isinstance(p, Ptr) and p.kind == 'reg' and p.tgt not in regs0 and s.regs[p.tgt].live and s.regs[p.tgt].owner == 'malloc' and s.regs[p.tgt].elem == elem and p.tgt not in fresh
                ex.oblige(s, z3.BoolVal(bool(good)), 'ensures', line, '%s returns a fresh block in %s' % (c.name, path), assume=False)
                if good:
                    fresh[p.tgt] = path
                    ex.oblige(s, z3.And(p.off == 0, s.regs[p.tgt].len >= lenf(V)), 'ensures', line, '%s: block %s is at least as long as declared' % (c.name, path), assume=False)
            if not c.opts.get('noleak'):
                for rid, r in s.regs.items():
                    if rid not in regs0 and r.owner == 'malloc' and r.live and rid not in fresh:
                        ex.oblige(s, FALSE, 'leak', line, '%s: block %s allocated here is released or handed to the caller' % (c.name, r.name), assume=False)
            for kind, lab, f in c.exit_checks(V, regs0, objs0):
                ex.oblige(s, f, kind, line, '%s: %s' % (c.name, lab), assume=False)
            for f in c.exit_lemmas(V):
                s.assume(f)
            for lab, f in c.ensures(V):
                ex.oblige(s, f, 'ensures', line, 'postcondition of %s: %s' % (c.name, lab), assume=False)
        except NoContractCase as e2:
            ex.oblige(s, FALSE, 'ensures', line, 'postcondition of %s: %s' % (c.name, e2), assume=False)
    ax = list(num.axioms()) + list(c.axioms(num))
    ex.finals = finals
    return ex, ax, store, nret


def run_term(term, ax, timeout, deadline, hints):
    """termination needs one decreasing measure per loop: try the known one, then all of them briefly, then thoroughly"""
    def open_():
        grp = {}
        for o in term:
            grp.setdefault(o.group[1], {}).setdefault(o.group[2], []).append(o)
        return {l: ms for l, ms in grp.items() if not any(all(o.result is not None and o.result[0] == 'proved' for o in os_) for os_ in ms.values())}

    for stage in range(3):
        todo = []
        for l, ms in open_().items():
            for m, os_ in ms.items():
                if stage == 0 and str(m) not in hints.get(str(l), ()): continue
                todo += os_
        if todo:
            prover.run(todo, ax, timeout=(timeout, 600, timeout)[stage], strats=prover.STRATS[:1] if stage < 2 else prover.STRATS[:2], deadline=deadline + 30, depth=1)


def verify(prog, contracts, c, case, num, hints=None, timeout=4000, budget=400, verbose=False, opts=None, full_ok=True):
    t0 = time.time()
    unit = '%s[%s/%s]' % (c.name, case, num.name)
    r = Result(unit)
    deadline = t0 + budget
    attempts = []
    if hints is not None:
        if not os.environ.get('QPV_NOHINTS'):
            attempts.append(('hints', hints))
        if full_ok:
            attempts.append(('names', Names(hints, prog, c.name)))
        if full_ok and hints.get('shapes'):
            attempts.append(('shapes', Shapes(hints['shapes'])))
    if full_ok or hints is None:
        attempts.append(('near', None))
        attempts.append(('full', None))
    for mode, only in attempts:
        dropped = set()
        r.mode = mode
        r.rounds = 0
        r.error = None
        stage_to = timeout if mode == 'hints' else {'names': 800, 'shapes': 500, 'near': 600, 'full': 1500}[mode]
        near = dict(depth=2 if mode == 'near' else 1, only_near=mode == 'near')
        while True:
            r.rounds += 1
            try:
                ex, ax, store, nret = gen(prog, contracts, c, case, num, only, dropped, opts)
            except (Unsupported, NoContractCase, KeyError) as e:
                r.error = '%s: %s' % (type(e).__name__, e)
                if verbose:
                    import traceback; traceback.print_exc()
                break
            inv = [o for o in ex.obls if o.cand is not None]
            if mode == 'hints' and any(not set(v) <= store.made.get(k, set()) for k, v in only.items() if not k.startswith('term:') and k not in ('shapes', 'vars')):
                r.error = 'the loops or variables are not those of the known proof'
                break
            if inv:
                # initiation first: cheap and prunes most
                if r.rounds == 1 and mode != 'hints':
                    ini = [o for o in inv if o.kind == 'inv-init']
                    prover.run(ini, ax, timeout=stage_to, deadline=deadline, **near)
                    bad = {o.cand for o in ini if o.result[0] != 'proved'}
                    if bad:
                        dropped |= bad
                        continue
                prover.run(inv, ax, timeout=stage_to, deadline=deadline, **near)
                if mode == 'hints' and r.rounds == 1:
                    # a known proof: give the few obligations the prover stumbles over a second chance
                    again = [o for o in inv if o.result[0] != 'proved']
                    if 0 < len(again) <= 16: prover.run(again, ax, timeout=2 * timeout, strats=prover.STRATS[1:] + prover.STRATS[:1], deadline=deadline)
                bad = {o.cand for o in inv if o.result[0] not in ('proved', 'limit')}
                if not bad:
                    # only when nothing else can go: candidates the prover ran out of its limit on
                    bad = {o.cand for o in inv if o.result[0] != 'proved'}
                if verbose:
                    print('  %s %s round %d: %d inv obligations, %d dropped, %.1fs' % (unit, mode, r.rounds, len(inv), len(bad), time.time() - t0), flush=True)
                if bad and mode == 'hints' and len(attempts) > 1:
                    r.error = 'the known proof does not go through'
                    break
                if bad:
                    if verbose == 2:
                        for o in inv:
                            if o.result[0] != 'proved': print('     drop', o.kind, o.label, o.result[:2])
                    dropped |= bad
                    if time.time() > deadline:
                        r.error = 'time budget'
                        break
                    continue
            break
        if r.error:
            r.obls = []
            continue
        rest = [o for o in ex.obls if o.cand is None]
        term = [o for o in rest if isinstance(o.group, tuple) and o.group[0] == 'term']
        plain = [o for o in rest if not (isinstance(o.group, tuple) and o.group[0] == 'term')]
        prover.run([o for o in plain if o.kind.startswith('vacuity')], ax, timeout=300, strats=prover.STRATS[:1])
        prover.run([o for o in plain if not o.kind.startswith('vacuity')], ax, timeout=timeout, strats=prover.STRATS, deadline=deadline + 30, depth=1)
        run_term(term, ax, timeout, deadline, {k[5:]: v for k, v in (hints or {}).items() if k.startswith('term:')})
        rest = [o for o in rest if o.result is not None]
        # groups: termination needs one measure
        bygrp = {}
        fails = []
        exits = [o for o in rest if o.kind == 'vacuity-exit']
        if exits and all(o.result[0] == 'proved' for o in exits): fails.append(exits[0])
        for o in rest:
            if o.kind == 'vacuity-exit': continue
            if o.kind == 'vacuity':
                if o.result[0] == 'proved':
                    fails.append(o)
                continue
            if isinstance(o.group, tuple) and o.group[0] == 'term':
                bygrp.setdefault((o.group[1]), {}).setdefault(o.group[2], []).append(o)
            elif o.result[0] != 'proved':
                fails.append(o)
        okterm = []
        for loop, ms in bygrp.items():
            good = [m for m, os_ in ms.items() if all(o.result[0] == 'proved' for o in os_)]
            if not good:
                fails.append(next(iter(ms.values()))[0])
            else:
                okterm += ms[good[0]]
        r.failed = fails
        r.obls = [o for o in ex.obls if o.result and o.result[0] == 'proved' and not (isinstance(o.group, tuple)) and not o.kind.startswith('vacuity')] + okterm
        r.inlined = ex.inlined
        r.used = ex.used_contracts
        r.cands = {k: sorted(n for n in v if (k, n) not in dropped) for k, v in store.made.items()}
        for loop, ms in bygrp.items():
            good = [m for m, os_ in ms.items() if all(o.result[0] == 'proved' for o in os_)]
            if good: r.cands['term:%s' % loop] = [str(good[0])]
        r.dropped = len(dropped)
        r.trivial = getattr(ex, 'trivial', 0)
        r.nret = nret
        r.ok = not fails and nret > 0
        if nret == 0:
            r.error = 'no path reaches the end of the function'
        if r.ok:
            break
    r.secs = time.time() - t0
    if not r.ok and not r.failed and not r.error:
        r.error = 'not verified'
    r._ex = None
    return r


def slim(prog, contracts, c, case, num, r, timeout=8000):
    """which invariants the proof really uses (unsat cores, transitively) -> hints"""
    only = {k: set(v) for k, v in r.cands.items() if not k.startswith('term:') and k not in ('shapes', 'vars')}
    terms = {k: v for k, v in r.cands.items() if k.startswith('term:')}
    ex, ax, store, nret = gen(prog, contracts, c, case, num, only, set())
    obls = [o for o in ex.obls if not o.kind.startswith('vacuity') and not (isinstance(o.group, tuple) and [str(o.group[2])] != terms.get('term:%s' % o.group[1]))]
    prover.run(obls, ax, timeout=timeout, want_core=True)
    need, work = set(), []
    termgrp = {}
    for o in obls:
        if isinstance(o.group, tuple):
            termgrp.setdefault(o.group[1], {}).setdefault(o.group[2], []).append(o)
    roots = []
    for o in obls:
        if o.cand is None and not isinstance(o.group, tuple):
            roots.append(o)
    for loop, ms in termgrp.items():
        good = [m for m, os_ in ms.items() if all(o.result[0] == 'proved' for o in os_)]
        if good:
            roots += ms[good[0]]
    bycand = {}
    for o in obls:
        if o.cand is not None:
            bycand.setdefault(o.cand, []).append(o)

    def add(o):
        if o.result[0] == 'proved':
            for t in o.result[2]:
                if t not in need:
                    need.add(t)
                    work.append(t)
        else:
            # needed but no core: keep everything
            for k, v in only.items():
                for n in v:
                    if (k, n) not in need:
                        need.add((k, n))
                        work.append((k, n))
    for o in roots:
        add(o)
    while work:
        t = work.pop()
        for o in bycand.get(t, []):
            add(o)
    out = {}
    for k, n in need:
        out.setdefault(k, []).append(n)
    shapes = sorted({store.shape_of[(k, n)] for k, v in out.items() for n in v if (k, n) in store.shape_of})
    out = {k: sorted(v) for k, v in out.items()}
    out['shapes'] = shapes
    out['vars'] = ['%03d:%s' % (i, v) for i, v in enumerate(local_names(prog, c.name))]
    out.update(terms)
    return out
