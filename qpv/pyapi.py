"""Contracts of the Python and numpy C API functions that the binding calls (trusted: they are not part of /repo).

PyObject * that the caller supplied inside the options dictionary are integers (0 is NULL) with uninterpreted observers, so that branches on them merge;
arrays are objects with their dimension count, element kind, dimensions and contents.  Ghost variables (in State.ghost):
  err     is a Python exception set
  gil     does this thread hold the interpreter lock
  parsed  did the argument parser succeed
"""
import z3, re
from .symex import *
from .cfront import Unsupported, strip, params
from .spec import View, NoContractCase, bq

AR = 'tagPyArrayObject'
KIND_INT = z3.Function('py_is_int', I, z3.BoolSort())
KIND_FLT = z3.Function('py_is_float', I, z3.BoolSort())
HUGE = z3.Function('py_int_too_large', I, z3.BoolSort())
LVAL = z3.Function('py_int_value', I, I)
DVAL = z3.Function('py_float_value', I, z3.RealSort())
OPTS = ('MAXITER', 'ABSTOL', 'RELTOL', 'SIGMA', 'VERBOSE', 'OUTPUT')
ARGS = ('c', 'h', 'P', 'G', 'A', 'b', 'opts')
NPY_DOUBLE = 12


def handle(k): return z3.Int('opt_' + k)


def cstr(p):
    """text of a string literal"""
    if isinstance(p, Ptr) and p.kind == 'str' and p.tgt is not None:
        t = p.tgt
        if t.startswith('"') and t.endswith('"'):
            return t[1:-1].encode().decode('unicode_escape')
    return None


class PyExec(Exec):
    # ---------------------------------------------------------------- language
    def static_local(self, d, t, st):
        init = [c for c in d.inner if c is not None and not c.kind.endswith('Comment')]
        v = self.strings(init[0]) if init and 'char' in t else None
        if v is not None:
            return v
        return Exec.static_local(self, d, t, st)

    def strings(self, n):
        """a string literal, or a table of them"""
        while n.kind in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') and n.inner: n = n.inner[0]
        if n.kind == 'StringLiteral': return Ptr('str', n.d.get('value'))
        if n.kind == 'InitListExpr':
            out = []
            for c in n.inner:
                while c.kind in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') and c.inner:
                    if c.d.get('castKind') == 'NullToPointer': break
                    c = c.inner[0]
                if c.kind == 'StringLiteral': out.append(cstr(Ptr('str', c.d.get('value'))))
                elif c.d.get('castKind') == 'NullToPointer' or c.kind in ('GNUNullExpr', 'IntegerLiteral'): out.append(None)
                else: return None
            return Ptr('strs', tuple(out))
        return None

    def decl(self, d, st):
        t = strip(d.dty)
        if d.d.get('storageClass') != 'static' and 'char' in t and '*' in t and '[' in t:
            init = [c for c in d.inner if c is not None and not c.kind.endswith('Comment')]
            v = self.strings(init[0]) if init else None
            if v is not None:
                st.env[self.key(d.id)] = v
                return [st]
        return Exec.decl(self, d, st)

    def ptr_cast(self, st, v, t, e):
        if not isinstance(v, Ptr) or v.kind != 'raw': return v
        return Exec.ptr_cast(self, st, v, t, e)

    def ptr_op(self, st, op, v, w, e):
        if op in ('==', '!='):
            for a, b in ((v, w), (w, v)):
                if not isinstance(a, Ptr) and isinstance(b, Ptr):
                    r = a == 0 if b.kind == 'null' else FALSE
                    return r if op == '==' else z3.Not(r)
        return Exec.ptr_op(self, st, op, v, w, e)

    def global_value(self, st, name, t):
        if name.startswith('Py'): return Ptr('func', name)
        return Exec.global_value(self, st, name, t)

    def pure(self, e):
        if e is not None and e.kind == 'CallExpr' and self.callee_name(e) in self.PUREAPI: return all(self.pure(c) for c in e.inner[1:])
        return Exec.pure(self, e)

    # ---------------------------------------------------------------- helpers
    def api(self, st, e, what=None):
        """every call of the Python API needs the interpreter lock"""
        self.oblige(st, st.ghost['gil'] == 1, 'pre', e.line, 'the interpreter lock is held at the call of %s at %s' % (what or self.callee_name(e), self.where(e)))

    def arr(self, st, p, e):
        if isinstance(p, Ptr) and p.kind == 'obj' and st.objs[p.tgt].ty == AR:
            if not st.objs[p.tgt].live:
                self.oblige(st, FALSE, 'memory', e.line, 'array %s is used after its last reference was released at %s' % (st.objs[p.tgt].name, self.where(e)))
            return st.objs[p.tgt]
        self.oblige(st, FALSE, 'pre', e.line, '%s is given an array at %s' % (self.callee_name(e), self.where(e)))
        st.dead = True
        return None

    def set_err(self, st, v=1): st.ghost['err'] = IV(v)

    def new_array(self, st, nd, dims, data, name):
        o = self.new_obj(st, name, AR, 'malloc')
        x = st.objs[o]
        x.f.update(refs=IV(1), nd=nd, isflt=IV(1), isdbl=IV(1), isctg=IV(1), dims=dims, data=data)
        return Ptr('obj', o)

    def opt_key(self, h):
        if not isinstance(h, Ptr) and h is not None:
            s = simp(h)
            for k in OPTS:
                if s.eq(handle(k)): return k
        return None

    # ---------------------------------------------------------------- arguments and errors
    def bi_PyArg_ParseTupleAndKeywords(self, vs, st, e):
        self.api(st, e)
        fmt, kw, rest = cstr(vs[2]), vs[3], vs[4:]
        ln, at = e.line, self.where(e)
        if fmt is None or not (isinstance(kw, Ptr) and kw.kind == 'strs'): raise Unsupported('argument format at ' + at)
        self.oblige(st, z3.BoolVal(kw.tgt == ARGS + (None,)), 'pre', ln, 'the keywords are the documented ones, in the documented order at ' + at)
        f = re.split('[:;]', fmt)[0]
        units = re.findall(r'O!|O|\||\$', f)
        if ''.join(units) != f or '$' in units: raise Unsupported('argument format %s' % fmt)
        opt = units.index('|') if '|' in units else len(units)
        self.oblige(st, z3.BoolVal(opt == 4 and len([u for u in units if u != '|']) == 7), 'pre', ln, 'four required and three optional arguments are parsed at ' + at)
        if st.dead: return []
        bad, ok = st.fork(), st
        bad.assume(bad.ghost['parsed'] == 0)
        self.set_err(bad)
        ok.assume(ok.ghost['parsed'] == 1)
        i = 0
        for u, nm in zip([u for u in units if u != '|'], ARGS):
            if u == 'O!':
                t = rest[i] if i < len(rest) else None
                tn = t.tgt[1] if isinstance(t, Ptr) and t.kind == 'loc' and t.tgt[0] == 'g' else t.tgt if isinstance(t, Ptr) else None
                self.oblige(ok, z3.BoolVal(tn == ('PyDict_Type' if nm == 'opts' else 'PyArray_Type')), 'pre', ln, 'argument %s is required to be %s at %s' % (nm, 'a dictionary' if nm == 'opts' else 'an array', at))
                i += 1
            else:
                self.oblige(ok, FALSE, 'pre', ln, 'argument %s is required to be %s at %s' % (nm, 'a dictionary' if nm == 'opts' else 'an array', at))
            if ok.dead: break
            p = rest[i] if i < len(rest) else None
            i += 1
            if not isinstance(p, Ptr) or p.kind != 'loc': raise Unsupported('argument target at ' + at)
            v = self.given[nm]
            if v is not None: self.wr(ok, ('var', p.tgt), v, e)
            elif ok.env.get(p.tgt) is None: pass
        return [(bad, IV(0)), (ok, IV(1))]

    def bi_PyErr_SetString(self, vs, st, e):
        self.api(st, e)
        self.set_err(st)
        return [(st, None)]

    def bi_PyErr_Format(self, vs, st, e):
        self.api(st, e)
        self.set_err(st)
        return [(st, NULL)]

    def bi_PyErr_NoMemory(self, vs, st, e): return self.bi_PyErr_Format(vs, st, e)

    def bi_PyErr_Clear(self, vs, st, e):
        self.api(st, e)
        self.set_err(st, 0)
        return [(st, None)]

    def bi_PyErr_Occurred(self, vs, st, e):
        self.api(st, e)
        return [(st, st.ghost['err'])]

    def bi_PyErr_WarnEx(self, vs, st, e):
        """a warning, which the interpreter may be set to turn into an exception"""
        self.api(st, e)
        w = st.ghost['warn_raises']
        st.ghost['err'] = simp(z3.If(w == 1, IV(1), st.ghost['err']))
        return [(st, simp(z3.If(w == 1, IV(-1), IV(0))))]

    # ---------------------------------------------------------------- options
    def bi_PyDict_GetItemString(self, vs, st, e):
        self.api(st, e)
        k = cstr(vs[1])
        p = vs[0]
        if isinstance(p, Ptr) and p.kind == 'null':
            self.oblige(st, FALSE, 'memory', e.line, 'a dictionary is looked up at ' + self.where(e))
            return []
        if not (isinstance(p, Ptr) and p.kind == 'obj' and st.objs[p.tgt].ty == '_opts'): raise Unsupported('dictionary at ' + self.where(e))
        self.oblige(st, z3.BoolVal(k in OPTS), 'pre', e.line, 'option %s is a documented one at %s' % (k, self.where(e)))
        if k not in OPTS: return []
        return [(st, handle(k))]

    def obs(self, st, v, e):
        if isinstance(v, Ptr):
            self.oblige(st, FALSE, 'memory', e.line, '%s is given an object at %s' % (self.callee_name(e), self.where(e)))
            return None
        self.api(st, e)
        self.oblige(st, v != 0, 'memory', e.line, '%s is given an object at %s' % (self.callee_name(e), self.where(e)))
        return v

    def kind_test(self, f):
        def g(vs, st, e):
            v = self.obs(st, vs[0], e)
            return [(st, z3.If(f(v), IV(1), IV(0)))] if v is not None else []
        return g

    def bi_PyLong_Check(self, vs, st, e): return self.kind_test(KIND_INT)(vs, st, e)
    def bi_PyFloat_Check(self, vs, st, e): return self.kind_test(KIND_FLT)(vs, st, e)

    def bi_PyLong_AsLong(self, vs, st, e):
        v = self.obs(st, vs[0], e)
        if v is None: return []
        self.oblige(st, KIND_INT(v), 'pre', e.line, 'PyLong_AsLong is given an integer at ' + self.where(e))
        st.ghost['err'] = simp(z3.If(HUGE(v), IV(1), st.ghost['err']))
        return [(st, z3.If(HUGE(v), IV(-1), LVAL(v)))]

    def bi_PyFloat_AsDouble(self, vs, st, e):
        v = self.obs(st, vs[0], e)
        if v is None: return []
        self.oblige(st, KIND_FLT(v), 'pre', e.line, 'PyFloat_AsDouble is given a float at ' + self.where(e))
        return [(st, DVAL(v))]
    bi_PyFloat_AS_DOUBLE = bi_PyFloat_AsDouble

    # calls above change only ghost state that a rejected option sets again: they may be evaluated under a condition
    PUREAPI = ('PyLong_Check', 'PyFloat_Check', 'PyLong_AsLong', 'PyFloat_AsDouble', 'PyFloat_AS_DOUBLE')

    # ---------------------------------------------------------------- references
    def bi_qpv_incref(self, vs, st, e, x=False):
        self.api(st, e, 'Py_INCREF')
        p = vs[0]
        if isinstance(p, Ptr):
            if p.kind == 'null' and x: return [(st, None)]
            if p.kind != 'obj': self.oblige(st, FALSE, 'memory', e.line, 'a reference is taken to an object at ' + self.where(e))
            else:
                o = st.objs[p.tgt]
                if not o.live: self.oblige(st, FALSE, 'memory', e.line, 'a reference is taken to a live object at ' + self.where(e))
                o.f['refs'] = simp(o.f['refs'] + 1)
            return [(st, None)]
        k = self.opt_key(p)
        if k is None: raise Unsupported('Py_INCREF at ' + self.where(e))
        if not x: self.oblige(st, p != 0, 'memory', e.line, 'a reference is taken to an object at ' + self.where(e))
        st.ghost['own_' + k] = simp(st.ghost['own_' + k] + z3.If(p != 0, IV(1), IV(0)))
        return [(st, None)]

    def bi_qpv_xincref(self, vs, st, e): return self.bi_qpv_incref(vs, st, e, True)

    def bi_qpv_decref(self, vs, st, e, x=False):
        self.api(st, e, 'Py_DECREF')
        p = vs[0]
        at = self.where(e)
        if isinstance(p, Ptr):
            if p.kind == 'null' and x: return [(st, None)]
            if p.kind != 'obj':
                self.oblige(st, FALSE, 'memory', e.line, 'the reference released is one to an object at ' + at)
                return []
            o = st.objs[p.tgt]
            if not o.live:
                self.oblige(st, FALSE, 'memory', e.line, 'a reference to %s is released once at %s' % (o.name, at))
                return []
            r = simp(o.f['refs'] - 1)
            self.oblige(st, z3.BoolVal(not (o.owner == 'input' and r.as_long() < 1)), 'free', e.line, 'the reference to %s that is released is owned at %s' % (o.name, at))
            o.f['refs'] = r
            if r.as_long() == 0: self.release(st, p.tgt)
            return [(st, None)]
        k = self.opt_key(p)
        if k is None: raise Unsupported('Py_DECREF at ' + at)
        self.oblige(st, z3.Or(p == 0, st.ghost['own_' + k] >= 1) if x else z3.And(p != 0, st.ghost['own_' + k] >= 1), 'free', e.line, 'the reference to option %s that is released is owned at %s' % (k, at))
        st.ghost['own_' + k] = simp(st.ghost['own_' + k] - z3.If(p != 0, IV(1), IV(0)))
        return [(st, None)]

    def bi_qpv_xdecref(self, vs, st, e): return self.bi_qpv_decref(vs, st, e, True)

    def release(self, st, oid):
        o = st.objs[oid]
        o.live = False
        for k, v in o.f.items():
            if k in ('dims', 'data') and isinstance(v, Ptr) and v.kind == 'reg':
                st.regs[v.tgt] = st.regs[v.tgt].rep(live=False)
            elif o.ty == '_dict' and isinstance(v, Ptr) and v.kind == 'obj' and k.startswith('#'):
                c = st.objs[v.tgt]
                c.f['refs'] = simp(c.f['refs'] - 1)
                if c.f['refs'].as_long() == 0: self.release(st, v.tgt)

    # ---------------------------------------------------------------- arrays
    def bi_PyArray_ISFLOAT(self, vs, st, e):
        self.api(st, e)
        o = self.arr(st, vs[0], e)
        return [(st, o.f['isflt'])] if o else []

    def bi_PyArray_NDIM(self, vs, st, e):
        self.api(st, e)
        o = self.arr(st, vs[0], e)
        return [(st, o.f['nd'])] if o else []

    def bi_PyArray_DIMS(self, vs, st, e):
        self.api(st, e)
        o = self.arr(st, vs[0], e)
        return [(st, o.f['dims'])] if o else []
    bi_PyArray_SHAPE = bi_PyArray_DIMS

    def bi_PyArray_DIM(self, vs, st, e):
        self.api(st, e)
        o = self.arr(st, vs[0], e)
        if o is None: return []
        i = self.to_int(vs[1])
        self.oblige(st, z3.And(0 <= i, i < o.f['nd']), 'bounds', e.line, 'the array %s has the dimension asked for at %s' % (o.name, self.where(e)))
        return [(st, st.regs[o.f['dims'].tgt].arr[i])]

    def bi_PyArray_SIZE(self, vs, st, e):
        self.api(st, e)
        o = self.arr(st, vs[0], e)
        return [(st, st.regs[o.f['data'].tgt].len)] if o else []

    def bi_PyArray_ISCONTIGUOUS(self, vs, st, e):
        self.api(st, e)
        o = self.arr(st, vs[0], e)
        return [(st, o.f['isctg'])] if o else []
    bi_PyArray_IS_C_CONTIGUOUS = bi_PyArray_ISCONTIGUOUS

    def bi_PyArray_DATA(self, vs, st, e):
        self.api(st, e)
        o = self.arr(st, vs[0], e)
        if o is None: return []
        self.oblige(st, z3.And(o.f['isdbl'] == 1, o.f['isctg'] == 1), 'pre', e.line, 'the data of %s that are read are doubles, stored by rows at %s' % (o.name, self.where(e)))
        return [(st, o.f['data'])]

    def copy_array(self, st, o, dbl, e, tag):
        dm, da = st.regs[o.f['dims'].tgt], st.regs[o.f['data'].tgt]
        d = self.new_region(st, o.name + '.dims', 'int', dm.len, 'malloc', dm.arr)
        v = self.new_region(st, o.name + '.data', 'real', da.len, 'malloc', da.arr)
        p = self.new_array(st, o.f['nd'], Ptr('reg', d, ZERO), Ptr('reg', v, ZERO), '%s of %s' % (tag, o.name))
        st.objs[p.tgt].f.update(isflt=o.f['isflt'] if not dbl else IV(1), isdbl=IV(1) if dbl else o.f['isdbl'])
        return p

    def bi_PyArray_GETCONTIGUOUS(self, vs, st, e):
        self.api(st, e)
        o = self.arr(st, vs[0], e)
        return [(st, self.copy_array(st, o, False, e, 'contiguous form'))] if o else []

    def bi_PyArray_Cast(self, vs, st, e):
        self.api(st, e)
        o = self.arr(st, vs[0], e)
        t = simp(self.to_int(vs[1]))
        if not z3.is_int_value(t) or t.as_long() != NPY_DOUBLE: raise Unsupported('conversion to another type at ' + self.where(e))
        return [(st, self.copy_array(st, o, True, e, 'doubles'))] if o else []

    def bi_PyArray_FROM_OTF(self, vs, st, e):
        self.api(st, e)
        o = self.arr(st, vs[0], e)
        t, f = simp(self.to_int(vs[1])), simp(self.to_int(vs[2]))
        if not z3.is_int_value(t) or t.as_long() != NPY_DOUBLE or not z3.is_int_value(f) or not f.as_long() & 1: raise Unsupported('conversion at ' + self.where(e))
        return [(st, self.copy_array(st, o, True, e, 'doubles'))] if o else []

    def bi_PyArray_ContiguousFromAny(self, vs, st, e):
        self.api(st, e)
        o = self.arr(st, vs[0], e)
        t = simp(self.to_int(vs[1]))
        if not z3.is_int_value(t) or t.as_long() != NPY_DOUBLE: raise Unsupported('conversion at ' + self.where(e))
        return [(st, self.copy_array(st, o, True, e, 'doubles'))] if o else []

    def bi_PyArray_SimpleNew(self, vs, st, e):
        self.api(st, e)
        nd, dims, t = simp(self.to_int(vs[0])), vs[1], simp(self.to_int(vs[2]))
        if not z3.is_int_value(nd) or nd.as_long() != 1 or not z3.is_int_value(t) or t.as_long() != NPY_DOUBLE: raise Unsupported('new array at ' + self.where(e))
        if isinstance(dims, Ptr) and dims.kind == 'loc': n = self.to_int(self.rd(st, ('var', dims.tgt), None))
        else: n = self.to_int(self.rd(st, self.deref(st, dims, ZERO, e), e))
        self.oblige(st, n >= 0, 'alloc', e.line, 'the new array has a non-negative size at ' + self.where(e))
        d = self.new_region(st, 'dims', 'int', IV(1), 'malloc')
        st.assume(st.regs[d].arr[0] == n)
        v = self.new_region(st, 'newdata', 'real', n, 'malloc')
        return [(st, self.new_array(st, IV(1), Ptr('reg', d, ZERO), Ptr('reg', v, ZERO), 'new array'))]

    # ---------------------------------------------------------------- results
    def bi_Py_BuildValue(self, vs, st, e):
        self.api(st, e)
        f = cstr(vs[0])
        at = self.where(e)
        if f is None: raise Unsupported('format at ' + at)
        f = re.sub(r'[\s]', '', f)
        m = re.fullmatch(r'\{((?:s[:,]?[ldinfLkON],?)*)\}', f)
        if not m: raise Unsupported('format %s at %s' % (f, at))
        items = re.findall(r's[:,]?([ldinfLkON])', m.group(1))
        rest = vs[1:]
        self.oblige(st, z3.BoolVal(len(rest) == 2 * len(items)), 'pre', e.line, 'the format has an item for every argument at ' + at)
        if st.dead: return []
        o = self.new_obj(st, 'result', '_dict', 'malloc')
        x = st.objs[o]
        x.f['refs'] = IV(1)
        for i, t in enumerate(items):
            k, v = cstr(rest[2 * i]), rest[2 * i + 1]
            if k is None: raise Unsupported('key at ' + at)
            if t in 'ON':
                if isinstance(v, Ptr) and v.kind == 'func' and v.tgt == 'None':
                    x.f['#' + k] = v
                    continue
                ok = isinstance(v, Ptr) and v.kind == 'obj' and st.objs[v.tgt].live
                self.oblige(st, z3.BoolVal(bool(ok)), 'memory', e.line, 'the value stored under %s is a live object at %s' % (k, at))
                if not ok: return []
                if t == 'O': st.objs[v.tgt].f['refs'] = simp(st.objs[v.tgt].f['refs'] + 1)
            else:
                real = t in 'df'
                ok = not isinstance(v, Ptr) and v is not None and (v.sort() == self.num.sort) == real
                self.oblige(st, z3.BoolVal(bool(ok)), 'pre', e.line, 'the value stored under %s has the type its format says at %s' % (k, at))
                if not ok: return []
            x.f['#' + k] = v
        return [(st, Ptr('obj', o))]

    def bi_qpv_none(self, vs, st, e): return [(st, Ptr('func', 'None'))]

    # ---------------------------------------------------------------- threads, output
    def bi_qpv_gil_release(self, vs, st, e):
        self.api(st, e)
        st.ghost['gil'] = IV(0)
        return [(st, None)]

    def bi_qpv_gil_take(self, vs, st, e):
        st.ghost['gil'] = IV(1)
        return [(st, None)]

    def bi_PySys_WriteStdout(self, vs, st, e):
        self.api(st, e)
        return [(st, None)]

    # ---------------------------------------------------------------- the library
    def call(self, name, vs, st, e):
        if name in ('QP_SETUP_dense', 'QP_SETUP', 'QP_SOLVE', 'QP_CLEANUP', 'QP_CLEANUP_dense'):
            return self.spec.c.library(self, name, vs, st, e)
        return Exec.call(self, name, vs, st, e)
