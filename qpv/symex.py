"""Symbolic executor / verification-condition generator over clang's AST.

Every function under contract is executed once, symbolically, for all inputs: loops are cut at their invariants (the
arbitrary-iteration rule), calls are replaced by the callee's contract (helpers without a contract are inlined), and
every proof obligation (array bounds, null, frame, contract clauses, invariants, termination) is recorded with the path
facts it may use.  Nothing is unrolled or bounded.
"""
import z3, fractions
from .cfront import N, Unsupported, strip, params, body as fbody

I = z3.IntSort()
IV = z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
MULF = z3.Function('MULF', I, I, I)


# ----------------------------------------------------------------------------------------------- numbers (doubles)
class RealNum:
    """doubles as mathematical reals (assumption: rounding is not modelled)"""
    name = 'R'
    sort = z3.RealSort()
    inv = z3.Function('inv', z3.RealSort(), z3.RealSort())
    sqrtf = z3.Function('sqrt', z3.RealSort(), z3.RealSort())

    def const(self, s):
        return z3.RealVal(fractions.Fraction(float(s)))

    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b
    def mul(self, a, b): return a * b

    def div(self, a, b):
        if z3.is_rational_value(b):
            return a / b
        return a * self.inv(b)

    def neg(self, a): return -a
    def lt(self, a, b): return a < b
    def le(self, a, b): return a <= b
    def gt(self, a, b): return a > b
    def ge(self, a, b): return a >= b
    def eq(self, a, b): return a == b
    def ne(self, a, b): return a != b
    def of_int(self, a): return z3.ToReal(a) if not z3.is_int_value(a) else z3.RealVal(a.as_long())
    def sqrt(self, a): return self.sqrtf(a)
    def fabs(self, a): return z3.If(a >= 0, a, -a)

    def axioms(self):
        x = z3.Real('x')
        iv, sq = self.inv, self.sqrtf
        return [z3.ForAll([x], z3.Implies(x > 0, iv(x) > 0), patterns=[iv(x)]),
                z3.ForAll([x], z3.Implies(x < 0, iv(x) < 0), patterns=[iv(x)]),
                z3.ForAll([x], z3.Implies(x >= 0, z3.And(sq(x) >= 0, sq(x) * sq(x) == x)), patterns=[sq(x)])]


class FloatNum:
    """doubles as an uninterpreted sort: no arithmetic law is assumed, so NaN and rounding are covered"""
    name = 'F'

    def __init__(self):
        F = self.sort = z3.DeclareSort('F64')
        B = z3.BoolSort()
        self.f = {o: z3.Function('f_' + o, F, F, F) for o in ('add', 'sub', 'mul', 'div')}
        self.c = {o: z3.Function('f_' + o, F, F, B) for o in ('lt', 'le', 'eq')}
        self.u = {o: z3.Function('f_' + o, F, F) for o in ('neg', 'sqrt', 'fabs')}
        self.i2f = z3.Function('f_of_int', I, F)
        self.lit = z3.Function('f_lit', z3.RealSort(), F)

    def const(self, s):
        return self.lit(z3.RealVal(fractions.Fraction(float(s))))

    def add(self, a, b): return self.f['add'](a, b)
    def sub(self, a, b): return self.f['sub'](a, b)
    def mul(self, a, b): return self.f['mul'](a, b)
    def div(self, a, b): return self.f['div'](a, b)
    def neg(self, a): return self.u['neg'](a)
    def sqrt(self, a): return self.u['sqrt'](a)
    def fabs(self, a): return self.u['fabs'](a)
    def lt(self, a, b): return self.c['lt'](a, b)
    def le(self, a, b): return self.c['le'](a, b)
    def gt(self, a, b): return self.c['lt'](b, a)
    def ge(self, a, b): return self.c['le'](b, a)
    def eq(self, a, b): return self.c['eq'](a, b)
    def ne(self, a, b): return z3.Not(self.c['eq'](a, b))

    def of_int(self, a):
        if z3.is_int_value(a):
            return self.const(str(a.as_long()))
        return self.i2f(a)

    def axioms(self):
        # IEEE-754 comparison facts that hold for every pair, NaN included
        F = self.sort
        a, b, c = z3.Consts('fa fb fc', F)
        lt, le, eq = self.c['lt'], self.c['le'], self.c['eq']
        return [z3.ForAll([a, b], z3.Implies(lt(a, b), z3.And(le(a, b), z3.Not(lt(b, a)), z3.Not(le(b, a)), z3.Not(eq(a, b)))), patterns=[lt(a, b)]),
                z3.ForAll([a, b], z3.Implies(eq(a, b), z3.And(le(a, b), le(b, a), eq(b, a))), patterns=[eq(a, b)])]


# ----------------------------------------------------------------------------------------------- heap
class Ptr:
    __slots__ = ('kind', 'tgt', 'off', 'aux')

    def __init__(self, kind, tgt=None, off=None, aux=None):
        self.kind, self.tgt, self.off, self.aux = kind, tgt, off, aux

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.kind, self.tgt, self.off)


NULL = Ptr('null')
ZERO = IV(0)


def same_shape(a, b):
    if isinstance(a, Ptr) != isinstance(b, Ptr):
        return False
    if isinstance(a, Ptr):
        return a.kind == b.kind and a.tgt == b.tgt
    if a is None or b is None:
        return a is b
    return True


class Reg:
    __slots__ = ('name', 'elem', 'arr', 'len', 'live', 'owner', 'write')

    def __init__(self, name, elem, arr, len, live=True, owner='input', write=True):
        self.name, self.elem, self.arr, self.len, self.live, self.owner, self.write = name, elem, arr, len, live, owner, write

    def rep(self, **kw):
        r = Reg(self.name, self.elem, self.arr, self.len, self.live, self.owner, self.write)
        for k, v in kw.items():
            setattr(r, k, v)
        return r


class Obj:
    __slots__ = ('name', 'ty', 'f', 'live', 'owner', 'write')

    def __init__(self, name, ty, f, live=True, owner='input', write=()):
        self.name, self.ty, self.f, self.live, self.owner, self.write = name, ty, f, live, owner, write

    def copy(self):
        return Obj(self.name, self.ty, dict(self.f), self.live, self.owner, self.write)


class State:
    __slots__ = ('env', 'objs', 'regs', 'pc', 'ghost', 'dead', 'tags')

    def __init__(self):
        self.env = {}
        self.objs = {}
        self.regs = {}
        self.pc = []
        self.ghost = {}
        self.dead = False

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.objs = {k: o.copy() for k, o in self.objs.items()}
        s.regs = dict(self.regs)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.dead = self.dead
        return s

    def assume(self, f, tag=None):
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x, tag)
            return
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            self.dead = True
        if z3.is_and(f):
            for c in f.children():
                self.assume(c, tag)
            return
        self.pc.append((f, tag))


class Obl:
    __slots__ = ('label', 'kind', 'line', 'facts', 'goal', 'cand', 'func', 'result', 'extra', 'group')

    def __init__(self, label, kind, line, facts, goal, cand=None, func=None, group=None):
        self.label, self.kind, self.line, self.facts, self.goal, self.cand, self.func = label, kind, line, facts, goal, cand, func
        self.result = None
        self.extra = None
        self.group = group


class NoContractCase(Exception):
    pass


SIZEOF = {'double': 8, 'long': 8, 'unsigned long': 8, 'int': 4, 'unsigned int': 4, 'char': 1, 'size_t': 8}


def is_int_ty(t):
    return t in ('long', 'int', 'unsigned long', 'unsigned int', 'size_t', 'char', 'short', '_Bool', 'long long', 'unsigned long long', 'unsigned char', 'signed char', 'unsigned short', 'SuiteSparse_long', 'Py_ssize_t', 'npy_intp')


def is_real_ty(t):
    return t in ('double', 'float')


def is_ptr_ty(t):
    return t is not None and t.endswith('*')


def simp(x):
    return z3.simplify(x)


class Exec:
    MAXPATHS = 4000

    def __init__(self, prog, contracts, num, cands=None, opts=None):
        self.prog, self.contracts, self.num = prog, contracts, num
        self.obls = []
        self.dry = 0
        self.wlogs = []
        self.cnt = 0
        self.cands = cands            # Candidate store
        self.opts = opts or {}
        self.frame = 0
        self.nframes = 0
        self.curfn = None
        self.stack = []
        self.spec = None
        self.loops_seen = {}
        self.inlined = set()
        self.used_contracts = {}
        self.externals = set()
        self.args_ctx = None
        self.measures = {}
        self.fact_hooks = []
        self._feas = {}

    def var_name(self, key):
        if not hasattr(self, '_names'):
            self._names = {}

            def walk(x):
                if x is None: return
                if x.kind in ('VarDecl', 'ParmVarDecl'):
                    self._names[x.id] = x.d.get('name', '?')
                for y in x.inner: walk(y)
            for f in self.prog.funcs.values():
                walk(f)
        return self._names.get(key[1], str(key[1]))

    # ---- naming
    def fresh(self, base, sort):
        self.cnt += 1
        return z3.Const('%s!%d' % (base, self.cnt), sort)

    def fint(self, base):
        return self.fresh(base, I)

    def esort(self, elem):
        return I if elem == 'int' else self.num.sort

    def farr(self, base, elem):
        return self.fresh(base, z3.ArraySort(I, self.esort(elem)))

    # ---- obligations
    def oblige(self, st, goal, kind, line, label, cand=None, group=None, assume=True):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.dry == 0 and not st.dead:
            g = simp(goal)
            if not z3.is_true(g) or cand is not None or kind in ('ensures',):
                self.obls.append(Obl(label, kind, line, list(st.pc), goal, cand, self.curfn, group))
            else:
                self.trivial = getattr(self, 'trivial', 0) + 1
        if assume:
            if z3.is_false(simp(goal)):
                st.dead = True
            st.assume(goal)

    def where(self, e):
        return '%s:%s' % (self.stack[-1] if self.stack else '?', e.line if e is not None else '?')

    # ---- coercions
    def to_bool(self, v):
        if isinstance(v, Ptr):
            if v.kind == 'wild':
                raise Unsupported('test of an indeterminate pointer')
            return z3.BoolVal(v.kind != 'null')
        if z3.is_bool(v):
            return v
        if v.sort() == I:
            return v != 0
        return self.num.ne(v, self.num.const('0'))

    def to_int(self, v):
        if isinstance(v, Ptr):
            raise Unsupported('pointer as integer')
        if z3.is_bool(v):
            s = simp(v)
            if z3.is_true(s): return IV(1)
            if z3.is_false(s): return IV(0)
            return z3.If(v, IV(1), IV(0))
        return v

    # ---- state primitives
    def log(self, item):
        for w in self.wlogs:
            w.add(item)

    def new_region(self, st, name, elem, length, owner, arr=None, write=True):
        self.cnt += 1
        rid = '%s#%d' % (name, self.cnt)
        st.regs[rid] = Reg(name, elem, arr if arr is not None else self.farr(name, elem), length, True, owner, write)
        return rid

    def new_obj(self, st, name, ty, owner, write=True):
        self.cnt += 1
        oid = '%s#%d' % (name, self.cnt)
        st.objs[oid] = Obj(name, ty, {}, True, owner, write)
        return oid

    # ---- lvalues: ('var',key) ('fld',oid,f) ('elem',rid,idx)
    def key(self, declid):
        return (self.frame, declid)

    def lv(self, e, st):
        k = e.kind
        if k == 'ParenExpr':
            return self.lv(e.inner[0], st)
        if k == 'DeclRefExpr':
            ref = e.d['ref']
            return [(st, ('var', self.varkey(st, ref)))]
        if k == 'ArraySubscriptExpr':
            out = []
            for s1, b in self.ev(e.inner[0], st):
                for s2, i in self.ev(e.inner[1], s1):
                    if isinstance(i, Ptr):
                        b, i = i, b
                    out.append((s2, self.deref(s2, b, self.to_int(i), e)))
            return out
        if k == 'UnaryOperator' and e.d['opcode'] == '*':
            return [(s, self.deref(s, p, ZERO, e)) for s, p in self.ev(e.inner[0], st)]
        if k == 'MemberExpr':
            fname = e.d['name']
            out = []
            if e.d.get('isArrow'):
                for s, p in self.ev(e.inner[0], st):
                    out.append((s, self.member(s, p, fname, e)))
            else:
                for s, l in self.lv(e.inner[0], st):
                    if l[0] == 'var':
                        v = s.env.get(l[1])
                        if isinstance(v, Ptr) and v.kind == 'obj':
                            out.append((s, ('fld', v.tgt, fname)))
                            continue
                    if l[0] == 'wholeobj':
                        out.append((s, ('fld', l[1], fname)))
                        continue
                    raise Unsupported('member of %s at %s' % (l, self.where(e)))
            return out
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and e.d.get('castKind') in ('NoOp', 'LValueBitCast'):
            return self.lv(e.inner[0], st)
        if k == 'ConditionalOperator':
            out = []
            for s, c in self.branch(e.inner[0], st):
                out += self.lv(e.inner[1 if c else 2], s)
            return out
        raise Unsupported('lvalue %s at %s' % (k, self.where(e)))

    def varkey(self, st, ref):
        k = self.key(ref[0])
        if k in st.env:
            return k
        # static / global
        g = ('g', ref[1])
        if g in st.env:
            return g
        if ref[2] == 'VarDecl':
            t = strip(ref[3])
            st.env[g] = self.global_value(st, ref[1], t)
            return g
        return k

    def global_value(self, st, name, t):
        if is_int_ty(t):
            return self.fint('glob_' + name)
        if is_real_ty(t):
            return self.fresh('glob_' + name, self.num.sort)
        return Ptr('func', name)

    def member(self, st, p, fname, e):
        if not isinstance(p, Ptr):
            raise Unsupported('-> on non pointer at ' + self.where(e))
        if p.kind == 'raw':
            raise Unsupported('raw pointer member')
        if p.kind == 'obj':
            o = st.objs[p.tgt]
            if not o.live:
                self.oblige(st, FALSE, 'memory', e.line, 'access to released object %s->%s at %s' % (o.name, fname, self.where(e)))
            return ('fld', p.tgt, fname)
        self.oblige(st, FALSE, 'memory', e.line, 'dereference of a %s pointer (->%s) at %s' % (p.kind, fname, self.where(e)))
        st.dead = True
        return ('bad',)

    def deref(self, st, p, i, e):
        if not isinstance(p, Ptr):
            raise Unsupported('dereference of non pointer at ' + self.where(e))
        if p.kind == 'reg':
            idx = simp(p.off + i)
            r = st.regs[p.tgt]
            if not r.live:
                self.oblige(st, FALSE, 'memory', e.line, 'access to released block %s at %s' % (r.name, self.where(e)))
            self.oblige(st, z3.And(idx >= 0, idx < r.len), 'bounds', e.line, 'index of %s within bounds at %s' % (r.name, self.where(e)))
            return ('elem', p.tgt, idx)
        if p.kind in ('loc', 'fld') and z3.is_int_value(simp(i)) and simp(i).as_long() == 0:
            return ('var', p.tgt) if p.kind == 'loc' else ('fld', p.tgt, p.aux)
        if p.kind == 'obj' and z3.is_int_value(simp(i)) and simp(i).as_long() == 0:
            return ('wholeobj', p.tgt)
        self.oblige(st, FALSE, 'memory', e.line, 'dereference of a %s pointer at %s' % (p.kind, self.where(e)))
        st.dead = True
        return ('bad',)

    def rd(self, st, loc, e):
        if loc[0] == 'var':
            v = st.env.get(loc[1])
            if v is None:
                t = strip(e.dty) if e is not None else None
                v = self.uninit(t, 'local')
                st.env[loc[1]] = v
            return v
        if loc[0] == 'fld':
            o = st.objs[loc[1]]
            v = o.f.get(loc[2])
            if v is None:
                v = self.uninit(self.field_ty(o.ty, loc[2]), '%s.%s' % (o.name, loc[2]))
                o.f[loc[2]] = v
            return v
        if loc[0] == 'elem':
            return z3.Select(st.regs[loc[1]].arr, loc[2])
        if loc[0] == 'wholeobj':
            return Ptr('obj', loc[1])
        if loc[0] == 'bad':
            t = strip(e.dty)
            return self.uninit(t, 'bad')
        raise Unsupported('read %s' % (loc,))

    def field_ty(self, ty, f):
        for n, t in self.prog.structs.get(ty, []):
            if n == f:
                return t
        raise Unsupported('no field %s.%s' % (ty, f))

    def uninit(self, t, name):
        if is_int_ty(t):
            return self.fint('uninit_' + name)
        if is_real_ty(t):
            return self.fresh('uninit_' + name, self.num.sort)
        if is_ptr_ty(t):
            return Ptr('wild')
        return Ptr('wild')

    def wr(self, st, loc, v, e):
        if loc[0] == 'var':
            self.log(loc)
            if loc[1][0] == 'g':
                self.oblige(st, FALSE, 'frame', e.line if e else 0, 'no write to global state (%s) at %s' % (loc[1][1], self.where(e)))
            st.env[loc[1]] = v
        elif loc[0] == 'fld':
            self.log(loc)
            o = st.objs[loc[1]]
            if o.owner == 'input' and not (o.write is True or loc[2] in o.write):
                self.oblige(st, FALSE, 'frame', e.line if e else 0, 'write to %s.%s is outside the declared frame at %s' % (o.name, loc[2], self.where(e)))
            o.f[loc[2]] = v
        elif loc[0] == 'elem':
            self.log(('reg', loc[1]))
            r = st.regs[loc[1]]
            if isinstance(v, Ptr):
                raise Unsupported('pointer stored in array')
            if not r.write:
                self.oblige(st, FALSE, 'frame', e.line if e else 0, 'write to %s is outside the declared frame at %s' % (r.name, self.where(e)))
            if r.elem == 'int':
                v = self.to_int(v)
            na = self.farr(r.name, r.elem)
            st.pc.append((na == z3.Store(r.arr, loc[2], v), None))
            if self.spec is not None and self.spec.on_write:
                self.spec.on_write(self, st, loc[1], loc[2], v, e, r.arr, na)
            st.regs[loc[1]] = r.rep(arr=na)
        elif loc[0] == 'bad':
            pass
        else:
            raise Unsupported('write %s' % (loc,))

    # ---- conditions: returns list of (state, concrete bool)
    def branch(self, e, st):
        out = []
        for s, v in self.ev(e, st):
            out += self.split(s, self.to_bool(v))
        return out

    def split(self, s, c):
        c = simp(c)
        if z3.is_true(c): return [(s, True)]
        if z3.is_false(c): return [(s, False)]
        a, b = s.fork(), s
        a.assume(c)
        b.assume(z3.Not(c))
        return [(x, k) for x, k in ((a, True), (b, False)) if self.feasible(x)]

    def feasible(self, st):
        """cheap pruning with the quantifier-free facts only (sound: an unknown keeps the path)"""
        if st.dead:
            return False
        if not self.opts.get('prune', True):
            return True
        fs = [f for f, _ in st.pc if not has_quant(f)]
        fs = fs[-60:]
        s = z3.SimpleSolver()
        s.set('rlimit', 200000)
        s.set('arith.nl', False)
        s.add(*fs)
        return s.check() != z3.unsat

    def maybe(self, st, c):
        fs = [f for f, _ in st.pc if not has_quant(f)][-80:]
        s = z3.SimpleSolver()
        s.set('rlimit', 200000)
        s.set('arith.nl', False)
        s.add(*fs)
        s.add(c)
        return s.check() != z3.unsat

    def pure(self, e):
        if e is None:
            return True
        if e.kind == 'CallExpr':
            n = self.callee_name(e)
            if n in ('sqrt', 'fabs'):
                return all(self.pure(c) for c in e.inner[1:])
            return False
        if e.kind == 'CompoundAssignOperator':
            return False
        if e.kind == 'BinaryOperator' and e.d['opcode'] == '=':
            return False
        if e.kind == 'UnaryOperator' and e.d['opcode'] in ('++', '--'):
            return False
        return all(self.pure(c) for c in e.inner)

    def under(self, st, cond, fn):
        """evaluate fn(st) with cond as an extra fact; facts learnt inside are kept conditionally"""
        mark = len(st.pc)
        d0 = st.dead
        st.assume(cond)
        r = fn(st)
        if len(r) != 1 or r[0][0] is not st:
            raise Unsupported('impure guarded expression')
        learnt = st.pc[mark:]
        del st.pc[mark:]
        dead = st.dead
        st.dead = d0
        own = 0
        cc = simp(cond)
        for f, t in learnt:
            st.pc.append((z3.Implies(cc, f), t))
        if dead and not d0:
            st.assume(z3.Not(cond))
        return r[0][1]

    # ---- expressions
    def ev(self, e, st):
        m = getattr(self, 'ev_' + e.kind, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (e.kind, self.where(e)))
        return m(e, st)

    def ev_ParenExpr(self, e, st): return self.ev(e.inner[0], st)
    def ev_ConstantExpr(self, e, st): return self.ev(e.inner[0], st)

    def ev_IntegerLiteral(self, e, st): return [(st, IV(int(e.d['value'])))]
    def ev_CharacterLiteral(self, e, st): return [(st, IV(int(e.d['value'])))]
    def ev_FloatingLiteral(self, e, st): return [(st, self.num.const(e.d['value']))]
    def ev_StringLiteral(self, e, st): return [(st, Ptr('str', e.d.get('value')))]

    def ev_UnaryExprOrTypeTraitExpr(self, e, st):
        if e.d.get('name') != 'sizeof':
            raise Unsupported('trait')
        t = e.d.get('argTy')
        if t is None:
            t = e.inner[0].dty
        return [(st, self.sizeof(strip(t)))]

    def sizeof(self, t):
        if t in SIZEOF: return IV(SIZEOF[t])
        if is_ptr_ty(t): return IV(8)
        if t in self.prog.structs:
            return z3.Int('sizeof_' + t)
        raise Unsupported('sizeof ' + t)

    def ev_DeclRefExpr(self, e, st):
        ref = e.d['ref']
        if ref[2] == 'FunctionDecl':
            return [(st, Ptr('func', ref[1]))]
        if ref[2] == 'EnumConstantDecl':
            raise Unsupported('enum')
        return [(st, self.rd(st, ('var', self.varkey(st, ref)), e))]

    def ev_ImplicitCastExpr(self, e, st): return self.cast(e, st)
    def ev_CStyleCastExpr(self, e, st): return self.cast(e, st)

    def cast(self, e, st):
        ck = e.d.get('castKind')
        sub = e.inner[0]
        if ck == 'LValueToRValue':
            return [(s, self.rd(s, l, e)) for s, l in self.lv(sub, st)]
        if ck == 'ArrayToPointerDecay':
            if sub.kind == 'StringLiteral':
                return self.ev(sub, st)
            if sub.kind == 'PredefinedExpr':
                return [(st, Ptr('str'))]
            return [(s, self.rd(s, l, sub)) for s, l in self.lv(sub, st)]
        if ck in ('FunctionToPointerDecay', 'NoOp', 'BuiltinFnToFnPtr'):
            return self.ev(sub, st)
        if ck == 'BitCast':
            return [(s, self.ptr_cast(s, v, strip(e.dty), e)) for s, v in self.ev(sub, st)]
        if ck == 'NullToPointer':
            return [(st, NULL)]
        if ck == 'IntegralCast':
            out = []
            for s, v in self.ev(sub, st):
                v = self.to_int(v)
                tt, ft = strip(e.dty), strip(sub.dty)
                if tt.startswith('unsigned') and not (ft or '').startswith('unsigned') and not z3.is_int_value(simp(v)):
                    self.oblige(s, v >= 0, 'cast', e.line, 'value converted to unsigned is non-negative at ' + self.where(e))
                elif tt.startswith('unsigned') and z3.is_int_value(simp(v)) and simp(v).as_long() < 0:
                    v = IV(simp(v).as_long() % 2 ** {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32}.get(tt, 64))
                out.append((s, v))
            return out
        if ck == 'IntegralToFloating':
            return [(s, self.num.of_int(simp(self.to_int(v)))) for s, v in self.ev(sub, st)]
        if ck == 'FloatingToIntegral':
            out = []
            for s, v in self.ev(sub, st):
                if self.num.name == 'R':
                    r = self.fint('trunc')
                    s.assume(z3.Implies(v >= 0, z3.And(z3.ToReal(r) <= v, v < z3.ToReal(r) + 1)))
                else:
                    r = self.fint('trunc')
                out.append((s, r))
            return out
        if ck == 'FloatingCast':
            return self.ev(sub, st)
        if ck in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean'):
            return [(s, self.to_bool(v)) for s, v in self.ev(sub, st)]
        if ck == 'ToVoid':
            return [(s, None) for s, v in self.ev(sub, st)]
        raise Unsupported('cast %s at %s' % (ck, self.where(e)))

    def ptr_cast(self, st, v, t, e):
        if v.kind == 'raw':
            el = t[:-1].strip() if t.endswith('*') else None
            if el in self.prog.structs:
                # a block for one struct object
                return self.raw_to_obj(st, v, el, e)
            if el in ('void',):
                return v
            kind = 'int' if is_int_ty(el) else ('real' if is_real_ty(el) else None)
            if kind is None:
                raise Unsupported('allocation of ' + t)
            esz = SIZEOF[el]
            ln = self.div_size(v.off, esz, st)
            self.oblige(st, ln >= 0, 'alloc', e.line, 'allocation size is non-negative at ' + self.where(e))
            rid = self.new_region(st, v.aux or 'heap', kind, ln, v.tgt)
            if v.aux == 'zero':
                k = z3.Int('k!blk')
                a = st.regs[rid].arr
                st.assume(z3.ForAll([k], a[k] == (IV(0) if kind == 'int' else self.num.const('0')), patterns=[a[k]]))
            return Ptr('reg', rid, ZERO)
        return v

    def raw_to_obj(self, st, v, el, e):
        size = simp(v.off)
        want = z3.Int('sizeof_' + el)
        if not size.eq(want):
            self.oblige(st, size >= want, 'alloc', e.line, 'allocation holds a whole %s at %s' % (el, self.where(e)))
        oid = self.new_obj(st, el, el, v.tgt)
        return Ptr('obj', oid)

    def div_size(self, size, esz, st):
        size = simp(size)
        if z3.is_int_value(size):
            return IV(size.as_long() // esz)
        # c * t
        if z3.is_mul(size):
            cs = size.children()
            if z3.is_int_value(cs[0]) and cs[0].as_long() % esz == 0:
                k = cs[0].as_long() // esz
                r = cs[1] if len(cs) == 2 else z3.Product(*cs[1:])
                return r if k == 1 else k * r
        if z3.is_add(size):
            parts = [self.div_exact(c, esz) for c in size.children()]
            if all(p is not None for p in parts):
                return simp(z3.Sum(*parts))
        L = self.fint('len')
        st.assume(z3.And(esz * L <= size, size < esz * L + esz))
        return L

    def div_exact(self, c, esz):
        if z3.is_int_value(c):
            return IV(c.as_long() // esz) if c.as_long() % esz == 0 else None
        if z3.is_mul(c):
            cs = c.children()
            if z3.is_int_value(cs[0]) and cs[0].as_long() % esz == 0:
                k = cs[0].as_long() // esz
                r = cs[1] if len(cs) == 2 else z3.Product(*cs[1:])
                return r if k == 1 else k * r
        return None

    def ev_UnaryOperator(self, e, st):
        op = e.d['opcode']
        sub = e.inner[0]
        if op in ('++', '--'):
            out = []
            for s, l in self.lv(sub, st):
                v = self.rd(s, l, sub)
                d = 1 if op == '++' else -1
                if isinstance(v, Ptr):
                    if v.kind != 'reg':
                        raise Unsupported('pointer arithmetic on %s' % v.kind)
                    n = Ptr('reg', v.tgt, simp(v.off + d))
                elif v.sort() == I:
                    n = v + d
                    if d < 0 and (strip(sub.dty) or '').startswith(('unsigned', 'size_t')):
                        self.oblige(s, v >= 1, 'arith', e.line, 'unsigned decrement does not wrap at ' + self.where(e))
                else:
                    n = self.num.add(v, self.num.const(str(d)))
                self.wr(s, l, n, e)
                out.append((s, v if e.d.get('isPostfix') else n))
            return out
        if op == '&':
            out = []
            for s, l in self.lv(sub, st):
                if l[0] == 'var':
                    v = s.env.get(l[1])
                    if isinstance(v, Ptr) and v.kind == 'obj' and not is_ptr_ty(strip(sub.dty)):
                        out.append((s, v))
                    elif isinstance(v, Ptr) and v.kind == 'reg' and '[' in (sub.dty or ''):
                        out.append((s, v))
                    else:
                        out.append((s, Ptr('loc', l[1])))
                elif l[0] == 'fld':
                    out.append((s, Ptr('fld', l[1], None, l[2])))
                elif l[0] == 'elem':
                    out.append((s, Ptr('reg', l[1], l[2])))
                elif l[0] == 'wholeobj':
                    out.append((s, Ptr('obj', l[1])))
                else:
                    raise Unsupported('address of %s' % (l,))
            return out
        if op == '*':
            return [(s, self.rd(s, l, e)) for s, l in self.lv(e, st)]
        out = []
        for s, v in self.ev(sub, st):
            if op == '-':
                v = self.to_int(v) if z3.is_bool(v) else v
                out.append((s, -v if v.sort() == I else self.num.neg(v)))
            elif op == '+':
                out.append((s, v))
            elif op == '!':
                out.append((s, z3.Not(self.to_bool(v))))
            elif op == '__extension__':
                out.append((s, v))
            else:
                raise Unsupported('unary %s at %s' % (op, self.where(e)))
        return out

    def ev_BinaryOperator(self, e, st):
        op = e.d['opcode']
        a, b = e.inner
        if op == '=':
            out = []
            # right side first (C leaves it unspecified; sources here do not depend on it)
            for s, v in self.ev(b, st):
                for s2, l in self.lv(a, s):
                    if is_int_ty(strip(a.dty)) and not isinstance(v, Ptr):
                        v = self.to_int(v)
                    if isinstance(v, Ptr) and v.kind == 'raw' and v.aux is None and l[0] == 'fld':
                        pass
                    self.wr(s2, l, v, e)
                    out.append((s2, v))
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(a, st):
                out += self.ev(b, s)
            return out
        if op in ('&&', '||'):
            out = []
            for s, v in self.ev(a, st):
                c = simp(self.to_bool(v))
                short = z3.is_false(c) if op == '&&' else z3.is_true(c)
                need = z3.is_true(c) if op == '&&' else z3.is_false(c)
                if short:
                    out.append((s, z3.BoolVal(op == '||')))
                elif need:
                    out += [(s2, self.to_bool(w)) for s2, w in self.ev(b, s)]
                elif self.pure(b):
                    g = c if op == '&&' else z3.Not(c)
                    w = self.under(s, g, lambda q: self.ev(b, q))
                    w = self.to_bool(w)
                    out.append((s, z3.And(c, w) if op == '&&' else z3.Or(c, w)))
                else:
                    for s2, k in self.split(s, c):
                        if k == (op == '&&'):
                            out += [(s3, self.to_bool(w)) for s3, w in self.ev(b, s2)]
                        else:
                            out.append((s2, z3.BoolVal(op == '||')))
            return out
        out = []
        for s, v in self.ev(a, st):
            for s2, w in self.ev(b, s):
                out.append((s2, self.binop(s2, op, v, w, e)))
        return out

    def binop(self, st, op, v, w, e):
        if isinstance(v, Ptr) or isinstance(w, Ptr):
            return self.ptr_op(st, op, v, w, e)
        v, w = self.to_int(v), self.to_int(w)
        if v.sort() == I and w.sort() == I:
            if op == '+': return v + w
            if op == '-':
                if e is not None and (strip(e.dty) or '').startswith(('unsigned', 'size_t')):
                    self.oblige(st, v >= w, 'arith', e.line, 'unsigned subtraction does not wrap at ' + self.where(e))
                return v - w
            if op == '*': return self.imul(st, v, w)
            if op in ('/', '%'):
                self.oblige(st, w != 0, 'arith', e.line, 'divisor is nonzero at ' + self.where(e))
                q = z3.If(v >= 0, z3.If(w > 0, v / w, -(v / (-w))), z3.If(w > 0, -((-v) / w), (-v) / (-w)))
                if z3.is_int_value(simp(w)) and simp(w).as_long() > 0:
                    q = z3.If(v >= 0, v / w, -((-v) / w))
                return q if op == '/' else v - w * q
            if op == '<': return v < w
            if op == '<=': return v <= w
            if op == '>': return v > w
            if op == '>=': return v >= w
            if op == '==': return v == w
            if op == '!=': return v != w
            if op in ('&', '|', '^', '<<', '>>'):
                raise Unsupported('bit operation at ' + self.where(e))
        else:
            n = self.num
            if v.sort() == I: v = n.of_int(v)
            if w.sort() == I: w = n.of_int(w)
            f = {'+': n.add, '-': n.sub, '*': n.mul, '/': n.div, '<': n.lt, '<=': n.le, '>': n.gt, '>=': n.ge, '==': n.eq, '!=': n.ne}.get(op)
            if f is not None:
                return f(v, w)
        raise Unsupported('binary %s at %s' % (op, self.where(e)))

    def imul(self, st, v, w):
        r = v * w
        v1, w1 = simp(v), simp(w)
        if not z3.is_int_value(v1) and not z3.is_int_value(w1) and self.opts.get('mulf'):
            return MULF(v1, w1)
        if not z3.is_int_value(v1) and not z3.is_int_value(w1) and self.spec is not None:
            # products of dimensions: elementary bounds lemmas are instantiated by the specification
            for f in self.spec.product_lemmas(v1, w1):
                st.assume(f)
        return r

    def ptr_op(self, st, op, v, w, e):
        if op in ('==', '!='):
            if isinstance(v, Ptr) and isinstance(w, Ptr):
                if 'wild' in (v.kind, w.kind):
                    raise Unsupported('comparison of an indeterminate pointer')
                if v.kind == 'null' or w.kind == 'null':
                    r = z3.BoolVal(v.kind == w.kind)
                elif v.kind != w.kind or v.tgt != w.tgt:
                    r = FALSE
                elif v.kind == 'reg':
                    r = v.off == w.off
                else:
                    r = TRUE
                return r if op == '==' else z3.Not(r)
        if op in ('+', '-') and isinstance(v, Ptr) and not isinstance(w, Ptr) and v.kind == 'reg':
            d = self.to_int(w)
            n = simp(v.off + d if op == '+' else v.off - d)
            r = st.regs[v.tgt]
            self.oblige(st, z3.And(n >= 0, n <= r.len), 'bounds', e.line, 'pointer into %s stays within the block at %s' % (r.name, self.where(e)))
            return Ptr('reg', v.tgt, n)
        if op == '+' and isinstance(w, Ptr) and not isinstance(v, Ptr):
            return self.ptr_op(st, '+', w, v, e)
        if op == '-' and isinstance(v, Ptr) and isinstance(w, Ptr) and v.kind == 'reg' and w.kind == 'reg' and v.tgt == w.tgt:
            return v.off - w.off
        if op in ('<', '<=', '>', '>=') and isinstance(v, Ptr) and isinstance(w, Ptr) and v.kind == 'reg' and v.tgt == w.tgt:
            return self.binop(st, op, v.off, w.off, e)
        if op == '+' and v.kind in ('loc', 'fld', 'null') and z3.is_int_value(simp(w)) and simp(w).as_long() == 0:
            return v
        raise Unsupported('pointer operation %s at %s' % (op, self.where(e)))

    def ev_CompoundAssignOperator(self, e, st):
        op = e.d['opcode'][:-1]
        a, b = e.inner
        out = []
        for s, w in self.ev(b, st):
            for s2, l in self.lv(a, s):
                v = self.rd(s2, l, a)
                n = self.binop(s2, op, v, w, e)
                if is_int_ty(strip(a.dty)) and not isinstance(n, Ptr) and not z3.is_bool(n) and n.sort() != I:
                    raise Unsupported('compound assignment narrows a double')
                self.wr(s2, l, n, e)
                out.append((s2, n))
        return out

    def ev_ConditionalOperator(self, e, st):
        out = []
        for s, v in self.ev(e.inner[0], st):
            c = simp(self.to_bool(v))
            if z3.is_true(c):
                out += self.ev(e.inner[1], s)
            elif z3.is_false(c):
                out += self.ev(e.inner[2], s)
            elif self.pure(e.inner[1]) and self.pure(e.inner[2]) and not is_ptr_ty(strip(e.dty)):
                a = self.under(s, c, lambda q: self.ev(e.inner[1], q))
                b = self.under(s, z3.Not(c), lambda q: self.ev(e.inner[2], q))
                if z3.is_bool(a) or z3.is_bool(b):
                    a, b = self.to_int(a), self.to_int(b)
                if a.sort() != b.sort():
                    if a.sort() == I: a = self.num.of_int(a)
                    if b.sort() == I: b = self.num.of_int(b)
                r = z3.If(c, a, b)
                if r.sort() == I:
                    t = self.fint('t')
                    s.assume(t == r)
                    r = t
                out.append((s, r))
            else:
                for s2, k in self.split(s, c):
                    out += self.ev(e.inner[1 if k else 2], s2)
        return out

    # ---- calls
    def callee_name(self, e):
        c = e.inner[0]
        while c.kind in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') or (c.kind == 'UnaryOperator' and c.d['opcode'] == '*'):
            c = c.inner[0]
        if c.kind == 'DeclRefExpr':
            return c.d['ref'][1]
        return None

    def ev_CallExpr(self, e, st):
        name = self.callee_name(e)
        if name is None:
            raise Unsupported('indirect call at ' + self.where(e))
        states = [(st, [])]
        for a in e.inner[1:]:
            nxt = []
            for s, vs in states:
                for s2, v in self.ev(a, s):
                    nxt.append((s2, vs + [v]))
            states = nxt
        out = []
        for s, vs in states:
            if s.dead:
                continue
            out += self.call(name, vs, s, e)
        return out

    def call(self, name, vs, st, e):
        b = getattr(self, 'bi_' + name, None)
        if b is not None:
            return b(vs, st, e)
        c = self.contracts.get(name) if self.contracts else None
        if c is not None and name not in self.opts.get('inline', ()):
            return c.apply(self, st, vs, e)
        ext = self.opts.get('externs', {}).get(name)
        if ext is not None:
            return ext(self, vs, st, e)
        fn = self.prog.funcs.get(name)
        if fn is None:
            raise Unsupported('call to unknown function %s at %s' % (name, self.where(e)))
        if name in self.stack:
            raise Unsupported('recursion through ' + name)
        self.inlined.add(name)
        return self.inline(fn, vs, st)

    def inline(self, fn, vs, st):
        self.nframes += 1
        old = self.frame
        fr = self.nframes
        # deterministic frame ids: depth-based so that re-execution of a loop body sees the same keys
        fr = old + 1
        self.frame = fr
        self.stack.append(fn.d['name'])
        try:
            for p, v in zip(params(fn), vs):
                st.env[(fr, p.id)] = self.conv_param(v, strip(p.dty))
                self.log(('var', (fr, p.id)))
            out = []
            for k, s, v in self.exec(fbody(fn), st):
                for key in [x for x in s.env if x[0] == fr]:
                    del s.env[key]
                if k == 'return':
                    out.append((s, v))
                elif k == 'next':
                    out.append((s, None))
                else:
                    raise Unsupported('stray ' + k)
        finally:
            self.stack.pop()
            self.frame = old
        return self.merge_results(out)

    def conv_param(self, v, t):
        if isinstance(v, Ptr) or v is None:
            return v
        if is_int_ty(t): return self.to_int(v)
        return v

    def merge_results(self, out):
        return out

    # builtins
    def bi_sqrt(self, vs, st, e): return [(st, self.num.sqrt(vs[0]))]
    def bi_fabs(self, vs, st, e): return [(st, self.num.fabs(vs[0]))]
    bi___builtin_fabs = bi_fabs
    bi___builtin_sqrt = bi_sqrt

    def bi_printf(self, vs, st, e): return [(st, IV(0))]

    # the timer is trusted: it touches only the timer object and returns some number
    def bi_tic(self, vs, st, e): return [(st, None)]
    def bi_toc(self, vs, st, e): return [(st, self.fresh('time', self.num.sort))]

    def bi_malloc(self, vs, st, e):
        self.cnt += 1
        return [(st, Ptr('raw', 'malloc', self.to_int(vs[0]), 'blk'))]

    def bi_free(self, vs, st, e):
        p = vs[0]
        if not isinstance(p, Ptr) or p.kind in ('wild', 'func', 'str', 'loc', 'fld'):
            self.oblige(st, FALSE, 'free', e.line, 'released pointer is a live heap block at ' + self.where(e))
            return [(st, None)]
        if p.kind == 'null':
            return [(st, None)]
        if p.kind == 'raw':
            return [(st, None)]
        tgt = st.regs[p.tgt] if p.kind == 'reg' else st.objs[p.tgt]
        ok = tgt.live and tgt.owner in ('malloc', 'owned')
        self.oblige(st, z3.BoolVal(ok), 'free', e.line, 'released block %s is live, library-owned and released once at %s' % (tgt.name, self.where(e)))
        if p.kind == 'reg':
            self.oblige(st, p.off == 0, 'free', e.line, 'released pointer is the start of block %s at %s' % (tgt.name, self.where(e)))
            st.regs[p.tgt] = tgt.rep(live=False)
            self.log(('reg', p.tgt))
        else:
            tgt.live = False
        return [(st, None)]

    # the ordering package reaches the allocator through function pointers; there it may also fail
    def bi_amd_malloc(self, vs, st, e):
        if not self.opts.get('malloc_may_fail'): return self.bi_malloc(vs, st, e)
        return self.bi_malloc(vs, st.fork(), e) + [(st, NULL)]
    def bi_amd_free(self, vs, st, e): return self.bi_free(vs, st, e)

    def bi_calloc(self, vs, st, e):
        self.cnt += 1
        a, b = self.to_int(vs[0]), self.to_int(vs[1])
        return [(st, Ptr('raw', 'malloc', simp(a * b), 'zero'))]

    def blk(self, st, p, nbytes, e, what):
        if not isinstance(p, Ptr) or p.kind != 'reg':
            raise Unsupported('%s on a %s pointer at %s' % (what, getattr(p, 'kind', '?'), self.where(e)))
        n = self.div_size(nbytes, 8, st)
        r = st.regs[p.tgt]
        if not r.live:
            self.oblige(st, FALSE, 'memory', e.line, 'access to released block %s at %s' % (r.name, self.where(e)))
        self.oblige(st, z3.And(n >= 0, p.off >= 0, p.off + n <= r.len), 'bounds', e.line, '%s stays within %s at %s' % (what, r.name, self.where(e)))
        return n

    def bulk(self, st, p, n, f, e):
        r = st.regs[p.tgt]
        if not r.write:
            self.oblige(st, FALSE, 'frame', e.line, 'write to %s is outside the declared frame at %s' % (r.name, self.where(e)))
        self.log(('reg', p.tgt))
        na = self.farr(r.name, r.elem)
        k = z3.Int('k!blk')
        st.assume(z3.ForAll([k], na[k] == z3.If(z3.And(p.off <= k, k < p.off + n), f(k), r.arr[k]), patterns=[na[k]]))
        st.regs[p.tgt] = r.rep(arr=na)

    def bi_memset(self, vs, st, e):
        p, c, n = vs
        c = simp(self.to_int(c))
        if not z3.is_int_value(c) or c.as_long() != 0:
            raise Unsupported('memset with a nonzero value at ' + self.where(e))
        n = self.blk(st, p, self.to_int(n), e, 'memset')
        z = IV(0) if st.regs[p.tgt].elem == 'int' else self.num.const('0')
        self.bulk(st, p, n, lambda k: z, e)
        return [(st, p)]

    def bi_memcpy(self, vs, st, e):
        p, q, nb = vs
        n = self.blk(st, p, self.to_int(nb), e, 'memcpy')
        self.blk(st, q, self.to_int(nb), e, 'memcpy')
        if st.regs[p.tgt].elem != st.regs[q.tgt].elem:
            raise Unsupported('memcpy between element types')
        if p.tgt == q.tgt and self.callee_name(e) != 'memmove':
            self.oblige(st, z3.Or(p.off + n <= q.off, q.off + n <= p.off), 'memory', e.line, 'memcpy blocks do not overlap at ' + self.where(e))
        src = st.regs[q.tgt].arr
        self.bulk(st, p, n, lambda k: src[k - p.off + q.off], e)
        return [(st, p)]
    bi_memmove = bi_memcpy

    # ---- statements
    def exec(self, n, st):
        """-> list of (kind, state, value) with kind in next/break/continue/return"""
        if n is None:
            return [('next', st, None)]
        m = getattr(self, 'st_' + n.kind, None)
        if m is not None:
            return m(n, st)
        # expression statement
        return [('next', s, None) for s, _ in self.ev(n, st) if not s.dead]

    def st_NullStmt(self, n, st): return [('next', st, None)]

    def st_CompoundStmt(self, n, st):
        r = self.st_Compound(n, st)
        keys = [self.key(d.id) for c in n.inner if c is not None and c.kind == 'DeclStmt' for d in c.inner if d is not None]
        if keys:
            for k, s, v in r:
                for x in keys:
                    s.env.pop(x, None)
        return r

    def st_Compound(self, n, st):
        cur = [('next', st, None)]
        done = []
        for c in n.inner:
            if c is None or c.kind.endswith('Comment'):
                continue
            nxt = []
            for k, s, v in cur:
                if s.dead:
                    continue
                for r in self.exec(c, s):
                    (nxt if r[0] == 'next' else done).append(r)
            cur = nxt
            if len(cur) + len(done) > self.MAXPATHS:
                raise Unsupported('too many paths in ' + str(self.stack))
            if not cur:
                break
        return cur + done

    def st_DeclStmt(self, n, st):
        cur = [st]
        for d in n.inner:
            if d is None or d.kind != 'VarDecl':
                continue
            nxt = []
            for s in cur:
                nxt += self.decl(d, s)
            cur = nxt
        return [('next', s, None) for s in cur]

    def decl(self, d, st):
        t = strip(d.dty)
        key = self.key(d.id)
        if d.d.get('storageClass') == 'static' and 'const' not in (d.ty or '').split():
            st.env[key] = self.static_local(d, t, st)
            return [st]
        self.log(('var', key))
        if '[' in t:
            el, ln = t.split('[')[0].strip(), t.split('[')[1].rstrip(']')
            kind = 'int' if is_int_ty(el) else 'real' if is_real_ty(el) else None
            if kind is None or not ln.strip().isdigit():
                raise Unsupported('local array ' + t)
            rid = 'local_%s@%s' % (d.d['name'], d.id)
            st.regs[rid] = Reg(d.d['name'], kind, self.farr(d.d['name'], kind), IV(int(ln)), True, 'local', True)
            self.log(('reg', rid))
            st.env[key] = Ptr('reg', rid, ZERO)
            return [st]
        if t in self.prog.structs:
            oid = 'local_%s@%s' % (d.d['name'], d.id)
            st.objs[oid] = Obj(d.d['name'], t, {}, True, 'local', True)
            st.env[key] = Ptr('obj', oid)
            return [st]
        init = [c for c in d.inner if c is not None and not c.kind.endswith('Comment')]
        if init:
            out = []
            for s, v in self.ev(init[0], st):
                if is_int_ty(t) and not isinstance(v, Ptr):
                    v = self.to_int(v)
                s.env[key] = v
                out.append(s)
            return out
        st.env[key] = self.uninit(t, d.d['name'])
        return [st]

    def static_local(self, d, t, st):
        self.oblige(st, FALSE, 'frame', d.line, 'no static storage: %s' % d.d['name'])
        return self.uninit(t, d.d['name'])

    def st_IfStmt(self, n, st):
        parts = [c for c in n.inner]
        cond, then = parts[0], parts[1]
        els = parts[2] if len(parts) > 2 else None
        out = []
        for s, v in self.ev(cond, st):
            c = simp(self.to_bool(v))
            if z3.is_true(c):
                out += self.exec(then, s)
                continue
            if z3.is_false(c):
                out += self.exec(els, s) if els is not None else [('next', s, None)]
                continue
            base = len(s.pc)
            a, b = s.fork(), s.fork()
            a.assume(c)
            b.assume(z3.Not(c))
            ra = self.exec(then, a) if self.feasible(a) else []
            rb = (self.exec(els, b) if els is not None else [('next', b, None)]) if self.feasible(b) else []
            ra = [r for r in ra if not r[1].dead]
            rb = [r for r in rb if not r[1].dead]
            na = [r for r in ra if r[0] == 'next']
            nb = [r for r in rb if r[0] == 'next']
            if len(na) == 1 and len(nb) == 1:
                m = self.merge(c, na[0][1], nb[0][1], base)
                if m is not None:
                    out.append(('next', m, None))
                    out += [r for r in ra + rb if r[0] != 'next']
                    continue
            out += ra + rb
        return out

    def merge(self, c, a, b, base):
        """join of two branches; None when pointers differ"""
        if self.opts.get('nomerge'):
            return None
        if set(a.regs) != set(b.regs) or set(a.objs) != set(b.objs) or set(a.ghost) != set(b.ghost):
            return None
        m = State()

        def mv(x, y):
            if x is y:
                return x
            if isinstance(x, Ptr):
                if x.kind == 'reg' and not x.off.eq(y.off):
                    return Ptr('reg', x.tgt, name(x.off, y.off))
                return x
            if x is None:
                return None
            if z3.is_bool(x) != z3.is_bool(y):
                x, y = self.to_int(x), self.to_int(y)
            return name(x, y)

        defs = []
        m0 = {}

        def name(x, y):
            if x.eq(y):
                return x
            key = (x.get_id(), y.get_id())
            if key in m0:
                return m0[key][0]
            if z3.is_bool(x):
                return z3.If(c, x, y)
            t = self.fresh('j', x.sort())
            m0[key] = (t, x, y)
            defs.append(z3.Implies(c, t == x))
            defs.append(z3.Implies(z3.Not(c), t == y))
            return t
        for k in a.env:
            if k in b.env:
                if not same_shape(a.env[k], b.env[k]):
                    if k[0] == self.frame and False:
                        pass
                    return None
                m.env[k] = mv(a.env[k], b.env[k])
        for o in a.objs:
            x, y = a.objs[o], b.objs[o]
            if x.live != y.live:
                return None
            f = {}
            for k in set(x.f) | set(y.f):
                vx, vy = x.f.get(k), y.f.get(k)
                if vx is None or vy is None:
                    # set on one side only: indeterminate after the join unless scalar
                    if vx is None: vx = self.uninit(self.field_ty(x.ty, k), k)
                    if vy is None: vy = self.uninit(self.field_ty(x.ty, k), k)
                if not same_shape(vx, vy):
                    return None
                f[k] = mv(vx, vy)
            m.objs[o] = Obj(x.name, x.ty, f, x.live, x.owner, x.write)
        ndiff = 0
        for r in a.regs:
            x, y = a.regs[r], b.regs[r]
            if x.live != y.live:
                return None
            if x.arr.eq(y.arr):
                m.regs[r] = x
            else:
                ndiff += 1
                m.regs[r] = x.rep(arr=name(x.arr, y.arr))
        if ndiff > self.opts.get('merge_arrays', 2):
            return None
        for g in a.ghost:
            x, y = a.ghost[g], b.ghost[g]
            m.ghost[g] = name(x, y)
        m.pc = a.pc[:base]
        m.pc += [(z3.Implies(c, f), t) for f, t in a.pc[base:] if not f.eq(c)]
        nc = z3.Not(c)
        m.pc += [(z3.Implies(nc, f), t) for f, t in b.pc[base:] if not f.eq(nc)]
        m.pc += [(f, None) for f in defs]
        m.pc = [(f, t) for f, t in m.pc if not z3.is_true(f)]
        return m

    def st_ReturnStmt(self, n, st):
        if not n.inner:
            return [('return', st, None)]
        out = []
        for s, v in self.ev(n.inner[0], st):
            if z3.is_expr(v) and z3.is_bool(v):
                v = self.to_int(v)
            out.append(('return', s, v))
        return out

    def st_BreakStmt(self, n, st): return [('break', st, None)]
    def st_ContinueStmt(self, n, st): return [('continue', st, None)]

    def st_SwitchStmt(self, n, st):
        cond, body = n.inner[0], n.inner[-1]
        if body is None or body.kind != 'CompoundStmt':
            raise Unsupported('switch body')
        # flatten: (labels, statement)
        items = []

        def add(c, labels):
            if c is None or c.kind.endswith('Comment'):
                return
            if c.kind == 'CaseStmt':
                kids = [x for x in c.inner if x is not None]
                add(kids[-1], labels + [kids[0]])
            elif c.kind == 'DefaultStmt':
                add(c.inner[-1], labels + ['default'])
            else:
                items.append((labels, c))
        for c in body.inner:
            add(c, [])
        out = []
        for s, v in self.ev(cond, st):
            v = self.to_int(v)
            vals = []
            for labels, _ in items:
                for l in labels:
                    if not isinstance(l, str):
                        vals.append(simp(self.to_int(self.ev(l, s)[0][1])))
            entries = []
            for i, (labels, _) in enumerate(items):
                for l in labels:
                    if isinstance(l, str):
                        entries.append((i, z3.And(*[v != x for x in vals]) if vals else TRUE))
                    else:
                        entries.append((i, v == simp(self.to_int(self.ev(l, s)[0][1]))))
            if not any(isinstance(l, str) for labels, _ in items for l in labels):
                entries.append((len(items), z3.And(*[v != x for x in vals]) if vals else TRUE))
            for i, c in entries:
                c = simp(c)
                if z3.is_false(c):
                    continue
                q = s.fork()
                q.assume(c)
                if not self.feasible(q):
                    continue
                cur = [('next', q, None)]
                for _, stmt in items[i:]:
                    nxt = []
                    for k, s2, r in cur:
                        if k == 'next' and not s2.dead:
                            nxt += self.exec(stmt, s2)
                        elif k != 'next':
                            nxt.append((k, s2, r))
                    cur = nxt
                out += [('next' if k == 'break' else k, s2, r) for k, s2, r in cur]
        return out

    def st_GotoStmt(self, n, st):
        raise Unsupported('goto')

    # ---- loops
    def st_WhileStmt(self, n, st):
        return self.loop(n, st, n.inner[-2], None, n.inner[-1], False)

    def st_DoStmt(self, n, st):
        return self.loop(n, st, n.inner[1], None, n.inner[0], True)

    def st_ForStmt(self, n, st):
        init, _, cond, inc, body = n.inner
        out = []
        for k, s, v in (self.exec(init, st) if init is not None else [('next', st, None)]):
            out += self.loop(n, s, cond, inc, body, False)
        return out

    def havoc(self, st, wset):
        for w in sorted(wset, key=str):
            if w[0] == 'var':
                v = st.env.get(w[1])
                if v is None:
                    continue
                if isinstance(v, Ptr):
                    if v.kind == 'reg':
                        st.env[w[1]] = Ptr('reg', v.tgt, self.fint('off'))
                    elif v.kind in ('obj', 'wild', 'null', 'func'):
                        pass
                    else:
                        raise Unsupported('pointer variable changes in loop')
                elif z3.is_bool(v):
                    st.env[w[1]] = self.fint('v')
                else:
                    st.env[w[1]] = self.fresh('v', v.sort())
            elif w[0] == 'reg':
                if w[1] in st.regs:
                    r = st.regs[w[1]]
                    st.regs[w[1]] = r.rep(arr=self.farr(r.name, r.elem))
            elif w[0] == 'fld':
                if w[1] in st.objs:
                    o = st.objs[w[1]]
                    v = o.f.get(w[2])
                    if v is None:
                        v = self.uninit(self.field_ty(o.ty, w[2]), w[2])
                    if isinstance(v, Ptr):
                        if v.kind == 'reg':
                            o.f[w[2]] = Ptr('reg', v.tgt, self.fint('off'))
                    else:
                        o.f[w[2]] = self.fresh('f_' + w[2], v.sort() if not z3.is_bool(v) else I)
            elif w[0] == 'ghost':
                if w[1] in st.ghost:
                    st.ghost[w[1]] = self.fresh('g_' + w[1], st.ghost[w[1]].sort())

    def loop_once(self, st, cond, inc, body, isdo):
        """one iteration from st -> (exits [(kind,st,val)], backs [st])"""
        exits, backs = [], []

        def run_body(s):
            for k, s2, v in self.exec(body, s):
                if s2.dead:
                    continue
                if k in ('next', 'continue'):
                    if isdo:
                        for s3, c in self.branch(cond, s2):
                            (backs if c else exits).append(s3 if c else ('next', s3, None))
                    elif inc is not None:
                        for s3, _ in self.ev(inc, s2):
                            backs.append(s3)
                    else:
                        backs.append(s2)
                elif k == 'break':
                    exits.append(('next', s2, None))
                else:
                    exits.append((k, s2, v))
        if isdo:
            run_body(st)
        elif cond is None:
            run_body(st)
        else:
            for s, c in self.branch(cond, st):
                if c:
                    run_body(s)
                else:
                    exits.append(('next', s, None))
        return exits, backs

    def loop(self, n, st, cond, inc, body, isdo):
        if st.dead:
            return []
        # 1. what the loop may write: dry runs to a fixpoint
        wset = set()
        self.dry += 1
        try:
            while True:
                s = st.fork()
                self.havoc(s, wset)
                log = set()
                self.wlogs.append(log)
                try:
                    self.loop_once(s, cond, inc, body, isdo)
                finally:
                    self.wlogs.pop()
                log = {w for w in log if self.exists(st, w)}
                if log <= wset:
                    break
                wset |= log
        finally:
            self.dry -= 1
        for w in wset:
            self.log(w)
        # 2. arbitrary iteration
        key = self.loop_key(n)
        head = st.fork()
        self.havoc(head, wset)
        L = LoopCtx(self, key, n, st, head, wset, cond)
        cl = self.cands.get(self, L) if self.cands is not None else []
        if self.dry == 0:
            inst = self.spec.instances(self, L, st) if self.spec is not None else []
            s0 = st
            if inst:
                s0 = st.fork()
                s0.assume(inst)
            for c in cl:
                try:
                    g = c.fn(st)
                except KeyError:
                    g = FALSE
                if g is None:
                    g = FALSE
                self.oblige(s0, g, 'inv-init', n.line, '%s: %s' % (key, c.name), cand=(key, c.name), assume=False)
        for c in cl:
            try:
                g = c.fn(head)
            except KeyError:
                g = None
            if g is not None:
                head.assume(g, tag=(key, c.name))
        if self.spec is not None:
            head.assume(self.spec.instances(self, L, head))
        h0 = head.fork()
        exits, backs = self.loop_once(head, cond, inc, body, isdo)
        # the cut is only valid if an iteration leaves the shape of the heap alone
        for b in backs:
            if b.dead:
                continue
            for k, v in h0.env.items():
                if k in b.env and not same_shape(v, b.env[k]):
                    raise Unsupported('loop %s changes what %s points to' % (key, self.var_name(k)))
            for r, v in h0.regs.items():
                if b.regs[r].live != v.live:
                    raise Unsupported('loop %s releases %s' % (key, v.name))
            for r, v in h0.objs.items():
                if b.objs[r].live != v.live:
                    raise Unsupported('loop %s releases %s' % (key, v.name))
                for f, x in v.f.items():
                    if f in b.objs[r].f and not same_shape(x, b.objs[r].f[f]):
                        raise Unsupported('loop %s changes what %s.%s points to' % (key, v.name, f))
        # 3. preservation and termination
        if self.dry == 0:
            for b in backs:
                if b.dead:
                    continue
                if self.spec is not None:
                    b.assume(self.spec.instances(self, L, b))
                for c in cl:
                    try:
                        g = c.fn(b)
                    except KeyError:
                        g = FALSE
                    if g is None:
                        g = FALSE
                    self.oblige(b, g, 'inv-pres', n.line, '%s: %s' % (key, c.name), cand=(key, c.name), assume=False)
                if self.spec is not None and hasattr(self.spec, 'step'):
                    for lab, g in self.spec.step(self, L, h0, b):
                        self.oblige(b, g, 'step', n.line, '%s: every iteration: %s' % (key, lab), assume=False)
            self.termination(n, key, L, h0, backs)
        return exits

    def exists(self, st, w):
        if w[0] == 'var': return w[1] in st.env
        if w[0] == 'reg': return w[1] in st.regs
        if w[0] == 'fld': return w[1] in st.objs
        if w[0] == 'ghost': return w[1] in st.ghost
        return False

    def loop_key(self, n):
        # path of functions + ordinal of the loop inside its function
        fn = self.stack[-1]
        om = self._ordinals(fn)
        return '/'.join(self.stack) + '#' + str(om[n.id])

    def _ordinals(self, fn):
        c = self.loops_seen.get(fn)
        if c is None:
            c = {}

            def walk(x):
                if x is None: return
                if x.kind in ('ForStmt', 'WhileStmt', 'DoStmt'):
                    c[x.id] = len(c)
                for y in x.inner: walk(y)
            walk(self.prog.funcs[fn])
            self.loops_seen[fn] = c
        return c

    def termination(self, n, key, L, head, backs):
        if self.opts.get('noterm') or not backs:
            return
        alts = []
        for name, mf in L.measures():
            try:
                m0 = mf(head)
                alts.append((name, [(b, z3.And(mf(b) < m0, m0 >= -1)) for b in backs if not b.dead]))
            except KeyError:
                pass
        for name, goals in alts:
            for b, g in goals:
                self.obls.append(Obl('termination of loop %s (measure %s)' % (key, name), 'term', n.line, list(b.pc), g, None, self.curfn, ('term', key, name)))
        if not alts:
            self.obls.append(Obl('termination of loop %s (no measure)' % key, 'term', n.line, [], FALSE, None, self.curfn, ('term', key, 'none')))


def has_quant(f):
    c = _hq.get(f.get_id())
    if c is not None:
        return c[0]
    r = _has_quant(f)
    _hq[f.get_id()] = (r, f)
    return r


_hq = {}


def _has_quant(f):
    if z3.is_quantifier(f):
        return True
    if z3.is_app(f):
        return any(has_quant(c) for c in f.children())
    return False


class LoopCtx:
    """what a specification may look at when it proposes loop invariants"""

    def __init__(self, ex, key, node, entry, head, wset, cond):
        self.ex, self.key, self.node, self.entry, self.head, self.wset, self.cond = ex, key, node, entry, head, wset, cond
        self.frame = ex.frame

    def int_vars(self):
        """integer-valued local variables visible in the current frame: (name, key)"""
        out = []
        seen = {}
        for k, v in self.entry.env.items():
            if k[0] == 'g':
                continue
            if not isinstance(v, Ptr) and v is not None and (z3.is_bool(v) or v.sort() == I):
                nm = self.ex.var_name(k)
                if nm in seen:
                    seen[nm] += 1
                    nm = '%s@%d' % (nm, seen[nm])
                else:
                    seen[nm] = 0
                out.append((nm, k))
        return out

    def real_vars(self):
        out = []
        for k, v in self.entry.env.items():
            if k[0] == 'g':
                continue
            if not isinstance(v, Ptr) and v is not None and not z3.is_bool(v) and v.sort() == self.ex.num.sort:
                out.append((self.ex.var_name(k), k))
        return out

    def ptr_vars(self):
        out = []
        for k, v in self.entry.env.items():
            if isinstance(v, Ptr) and v.kind == 'reg' and ('var', k) in self.wset:
                out.append((self.ex.var_name(k), k))
        return out

    def modified(self, key):
        return ('var', key) in self.wset

    def val(self, st, key):
        return self.ex.to_int(st.env[key])

    def measures(self):
        ex = self.ex
        out = []
        iv = self.int_vars()
        mod = [(n, k) for n, k in iv if self.modified(k)]
        bounds = self.bound_terms()
        for n, k in mod:
            out.append((n, lambda st, k=k: ex.to_int(st.env[k])))
            for bn, bf in bounds:
                out.append(('%s-%s' % (bn, n), lambda st, k=k, bf=bf: bf(st) - ex.to_int(st.env[k])))
        for n, k in self.ptr_vars():
            rid = self.entry.env[k].tgt
            out.append(('end-' + n, lambda st, k=k, rid=rid: st.regs[rid].len - st.env[k].off))
            out.append((n, lambda st, k=k: st.env[k].off))
        return out

    def bound_terms(self):
        """loop-invariant integer terms occurring in the loop condition, plus the contract's own"""
        ex = self.ex
        out = []
        if self.cond is not None:
            for sub in comparisons(self.cond):
                for side in sub.inner:
                    def f(st, side=side):
                        fr = ex.frame
                        ex.frame = self.frame
                        ex.dry += 1
                        try:
                            s2 = st.fork()
                            r = ex.ev(side, s2)
                            v = r[0][1]
                            if isinstance(v, Ptr):
                                if v.kind != 'reg': raise KeyError('ptr')
                                return v.off
                            v = ex.to_int(v)
                            if v.sort() != I:
                                raise KeyError('real')
                            return v
                        finally:
                            ex.dry -= 1
                            ex.frame = fr
                    if not ex.pure(side):
                        continue
                    t = strip(side.dty)
                    if not is_int_ty(t):
                        continue
                    out.append((srctext(side), f))
        if ex.spec is not None:
            out += ex.spec.bounds(ex)
        # dedupe by name
        d = {}
        for nm, f in out:
            d.setdefault(nm, f)
        return list(d.items())


def comparisons(e):
    if e is None:
        return []
    out = []
    if e.kind == 'BinaryOperator' and e.d['opcode'] in ('<', '<=', '>', '>=', '!=', '=='):
        out.append(e)
    for c in e.inner:
        out += comparisons(c)
    return out


def srctext(e):
    k = e.kind
    if k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'ConstantExpr'):
        return srctext(e.inner[0])
    if k == 'DeclRefExpr': return e.d['ref'][1]
    if k == 'IntegerLiteral': return e.d['value']
    if k == 'BinaryOperator': return '(%s%s%s)' % (srctext(e.inner[0]), e.d['opcode'], srctext(e.inner[1]))
    if k == 'ArraySubscriptExpr': return '%s[%s]' % (srctext(e.inner[0]), srctext(e.inner[1]))
    if k == 'MemberExpr': return '%s.%s' % (srctext(e.inner[0]), e.d['name'])
    if k == 'UnaryOperator': return '%s%s' % (e.d['opcode'], srctext(e.inner[0]))
    return k
