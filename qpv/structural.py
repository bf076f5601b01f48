"""Whole-program obligations read off the syntax tree: what the library's functions share."""
from . import cfront
from .cfront import strip

SRC = ['src/amd_1.c', 'src/amd_2.c', 'src/amd_aat.c', 'src/amd_control.c', 'src/amd_defaults.c', 'src/amd_dump.c', 'src/amd_global.c', 'src/amd_info.c', 'src/amd_order.c', 'src/amd_post_tree.c', 'src/amd_postorder.c',
       'src/amd_preprocess.c', 'src/amd_valid.c', 'src/ldl.c', 'src/timer.c', 'src/Auxilary.c', 'src/qpSWIFT.c']
# what the library may call outside itself: none of it keeps state that a result could depend on
PURE = {'sqrt', 'fabs', 'pow', 'floor', 'ceil', 'fmin', 'fmax', 'fma', 'hypot', 'labs', 'abs', 'isnan', 'isinf', 'malloc', 'calloc', 'realloc', 'free', 'memcpy', 'memset', 'memmove', 'memcmp', 'printf', 'fprintf', 'puts', 'putchar', 'fflush', '__assert_fail', 'assert'}
CLOCK = {'clock_gettime', 'gettimeofday', 'clock', 'time', 'mach_absolute_time', 'mach_timebase_info', 'QueryPerformanceCounter', 'QueryPerformanceFrequency'}


def is_const(t):
    t = (t or '').strip()
    if t.endswith(']'): t = t[:t.index('[')]
    if '*' in t: return t.rstrip().endswith('const')
    return 'const' in t.split()


def shared_state(tier=None):
    """-> one obligation per variable of static storage and per function"""
    p = cfront.load(SRC)
    decls, out = {}, []

    def collect(x, fn):
        if x is None: return
        if x.kind == 'VarDecl' and (fn is None or x.d.get('storageClass') in ('static', 'extern')): decls[x.id] = (x, fn)
        for y in x.inner: collect(y, fn)
    for g in p.globals.values(): collect(g, None)
    for f in p.funcs.values():
        for y in f.inner: collect(y, f.d['name'])
    names = {}
    for x, fn in decls.values(): names.setdefault(x.d['name'], []).append((x, fn))
    touched = {}
    calls = {}

    def walk(x, f, ctx):
        if x is None: return
        if x.kind == 'DeclRefExpr' and x.d.get('ref'):
            i, nm, kind, ty = x.d['ref']
            hit = decls.get(i)
            if hit is None and nm in p.globals and kind == 'VarDecl' and i not in locals_: hit = (p.globals[nm], None)
            if hit is not None and ctx != 'read' and not is_const(hit[0].dty or hit[0].ty): touched.setdefault(nm, []).append('%s:%s' % (f, x.line))
            if kind == 'FunctionDecl' and nm not in p.funcs: calls.setdefault(nm, set()).add(f)
        for y in x.inner:
            c = None
            if x.kind == 'ImplicitCastExpr' and x.d.get('castKind') == 'LValueToRValue': c = 'read'
            elif x.kind in ('UnaryExprOrTypeTraitExpr',): c = 'read'
            elif ctx == 'read' and x.kind in ('ParenExpr', 'MemberExpr') and not x.d.get('isArrow'): c = 'read'
            elif ctx == 'read' and x.kind == 'ArraySubscriptExpr': c = 'read'
            elif ctx == 'read' and x.kind == 'ImplicitCastExpr' and x.d.get('castKind') == 'ArrayToPointerDecay': c = 'read'
            walk(y, f, c)
    for f in p.funcs.values():
        locals_ = set()

        def loc(x):
            if x is None: return
            if x.kind in ('VarDecl', 'ParmVarDecl') and x.d.get('storageClass') not in ('static', 'extern'): locals_.add(x.id)
            for y in x.inner: loc(y)
        loc(f)
        walk(f, f.d['name'], None)
    for nm in sorted(names):
        x, fn = names[nm][0]
        bad = touched.get(nm, [])
        out.append(dict(unit='shared state', kind='frame', label='static-storage variable %s is never written by the library' % nm, ok=not bad, detail='written or its address taken in ' + ', '.join(bad[:5])))
    for nm in sorted(calls):
        fs = sorted(calls[nm])
        if nm in CLOCK: ok = all(p.funcs[f].file.endswith('timer.c') for f in fs)
        else: ok = nm in PURE or nm.startswith('__builtin_')
        out.append(dict(unit='shared state', kind='frame', label='external function %s keeps no state a result can depend on' % nm, ok=ok, detail='called by ' + ', '.join(fs[:5])))
    out.append(dict(unit='shared state', kind='frame', label='%d functions of the library examined' % len(p.funcs), ok=len(p.funcs) >= 20, detail='functions not found'))
    return out
