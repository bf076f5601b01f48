"""Which contracts decide which property."""
import importlib, re

MODULES = ['aux_kernels', 'transpose', 'formkkt', 'dense', 'kktaux', 'ldl', 'qp', 'amd', 'pybind']
CONTRACTS = {}
LEMMAS = {}
SOURCES = {}
for m in MODULES:
    try:
        mod = importlib.import_module('specs.' + m)
    except ModuleNotFoundError as e:
        if 'specs.' + m not in str(e): raise
        continue
    for c in mod.CONTRACTS:
        c.module = m
        CONTRACTS[c.name] = c
from specs import common
LEMMAS.update(common.LEMMAS)
for m in MODULES:
    try:
        mod = importlib.import_module('specs.' + m)
        LEMMAS.update(getattr(mod, 'LEMMAS', {}) if m != 'common' else {})
    except ModuleNotFoundError:
        pass

ALLSRC = ['src/Auxilary.c', 'src/qpSWIFT.c', 'src/ldl.c', 'src/timer.c']
REAL = 'doubles are treated as mathematical reals (rounding, overflow and NaN are not modelled) in the units marked /R'
INT = 'machine integers are treated as mathematical integers (no overflow; unsigned wrap-around is excluded by an obligation)'
EXT = 'malloc/free/sqrt/printf and the timer behave as in the C standard; malloc does not fail'
CLANG = 'clang 18 parses the sources the way the compiler that builds them does'
TB = ['z3 (SMT solver)', 'qpv/symex.py: verification-condition generator written for this task', 'clang 18 front end (AST dump)', REAL, INT, EXT]

# cross-cutting kinds of obligations
MEM = ('bounds', 'memory', 'arith', 'cast', 'alloc', 'term', 'pre')

PROPS = {}


def prop(pid, units, technique=None, lemmas=(), kinds=None, bounded=None, assumptions=(), labels=None, extra=None):
    PROPS[pid] = dict(units=list(units), lemmas=list(lemmas), kinds=kinds, bounded=bounded, assumptions=list(assumptions), labels=labels, extra=extra,
                      technique=technique or 'contract-based deductive verification: verification conditions generated from the real C sources, discharged by z3')


prop('C05', ['SparseMatrixMultiply', 'SparseMatrixTransMultiply', 'SparseMatrixTranspose', 'Transpose_Row_Count', 'innerproduct', 'norm', 'updatevariables', 'findminmax'], lemmas=['columns', 'counting'])


def bnd(what, seconds=20):
    return dict(what=what, seconds=seconds, rule='pseudo-random problems with n <= 7, m <= 9, p <= 3 (and unit-level inputs of comparable size), run on the code compiled from /repo with the address and undefined-behaviour sanitisers and compared with an independent oracle')


def labels(**fns):
    """only the obligations of a unit that bear on the property: function name -> regular expression over 'kind: label'"""
    def f(u, o):
        r = fns.get(u['fn'])
        return r is None or re.search(r, '%s: %s' % (o['kind'], o['label'])) is not None
    return f


TERM = '^term'
FACTOR = 'factor|pivot|triangular|Pinv|Parent|inverse|reports success|^pre: '
prop('C01', ['QP_SOLVE', 'computeresiduals', 'norm', 'innerproduct', 'SparseMatrixMultiply', 'SparseMatrixTransMultiply'],
     labels=labels(QP_SOLVE='optimal exit: (?!the objective)|status returned|optimal only|one of the four|precondition of (computeresiduals|norm|innerproduct)'),
     bounded=bnd('whole solves: the residuals recomputed from the problem data at the point returned, also with not-a-number and infinite data'))
prop('C02', ['QP_SOLVE', 'kktsolve_1', 'findsteplength'], labels=labels(QP_SOLVE='status returned|KKT failure recorded|one of the four|no solve without|optimal only|optimal exit: .*below tolerance|maximum iterations|fatal only|never more|count goes up|' + TERM, kktsolve_1='reports success|' + TERM, findsteplength=TERM),
     bounded=bnd('whole solves: status against an independent evaluation of the convergence test, iteration counts for every configured maximum'))
prop('C03', ['findsteplength', 'findminmax', 'updatevariables', 'formlambda', 'kkt_initialize', 'QP_SOLVE'], lemmas=['step'],
     labels=labels(QP_SOLVE='positive|alpha_|^pre: .*(formlambda|findsteplength|updatevariables|formrho|updatekktmatrix)', kkt_initialize='positive|arith|^pre: .*findminmax'), bounded=bnd('the starting point and the whole solve loop: s, z > 0 and step lengths at every iteration'))
prop('C04', ['formkktmatrix_full', 'updatekktmatrix', 'SparseMatrixTranspose', 'QP_SOLVE'], lemmas=['columns', 'counting'],
     labels=labels(QP_SOLVE='KKT matrix changes|precondition of (updatekktmatrix|kktsolve_.: .*scaling)|scaling'), bounded=bnd('set-up and solve: the KKT matrix at every iteration against the block formula'))
prop('C06', ['densetosparse', 'densetosparse_ROWMAJOR'], lemmas=['nonzeros'], bounded=bnd('dense import in both storage orders against the matrix read entry by entry'))
prop('C07', ['LDL_symbolic', 'LDL_numeric', 'LDL_lsolve', 'LDL_ltsolve', 'LDL_dsolve', 'LDL_perm', 'LDL_permt', 'ldlinitialsolve', 'kktsolve_1', 'kktsolve_2'], lemmas=['pattern', 'flags', 'columns', 'triangular'],
     labels=labels(LDL_numeric='^(?!.*threshold away)', kktsolve_1='factor|Pinv|^pre: .*LDL_', kktsolve_2='factor|Pinv|^pre: .*LDL_', ldlinitialsolve='factor|Pinv|Parent|pointer|^pre|^own|block'),
     bounded=bnd("L D L' against the permuted matrix and the solves against the factored system, on generated matrices (values of the numeric phase; its pattern is proved)"))
prop('C08', ['LDL_numeric', 'LDL_dsolve', 'ldlinitialsolve', 'kktsolve_1', 'kktsolve_2'], lemmas=['pattern', 'flags', 'columns'],
     labels=labels(LDL_numeric='threshold away|returns the dimension|divisor', ldlinitialsolve='reports success|pivot', kktsolve_1='reports success|pivot', kktsolve_2='pivot'),
     bounded=bnd('pivots before and after regularisation on generated matrices, among them pivots at and next to the threshold'))
DIR = 'right-hand side|lambda|ds|centring|delta_|direction|based on|^pre: .*(kktsolve|form_ds|formrho|formlambda|updatekktmatrix_b)|moves by|mu is'
prop('C13', ['form_ds', 'formlambda', 'formrho', 'updatekktmatrix_b', 'updatevariables', 'findsteplength', 'kktsolve_1', 'kktsolve_2', 'kkt_initialize', 'QP_SOLVE'], lemmas=['lambda', 'columns'],
     labels=labels(kktsolve_1=DIR, kktsolve_2=DIR, kkt_initialize='block of the solution|right-hand|up to a shift|factored system', QP_SOLVE=DIR),
     bounded=bnd('the composition in the solve loop: directions, slack direction, centring weight and update at every iteration'))
prop('C14', ['QP_SOLVE', 'obj_value', 'computeresiduals', 'norm', 'innerproduct', 'SparseMatrixMultiply'], lemmas=['quadratic'],
     labels=labels(QP_SOLVE='optimal exit|precondition of (obj_value|computeresiduals)'), bounded=bnd('whole solves: objective and statistics recomputed from the problem data at the point returned'))


def verified(): return [n for n, c in CONTRACTS.items() if not getattr(c, 'trusted', False) and c.module != 'pybind']


def kinds(ks, rx=None, **fns):
    """obligations of the given kinds, or whose label matches; fns: only that regular expression for a unit"""
    def f(u, o):
        r = fns.get(u['fn'])
        if r is not None: return re.search(r, '%s: %s' % (o['kind'], o['label'])) is not None
        return o['kind'] in ks or (rx is not None and re.search(rx, '%s: %s' % (o['kind'], o['label'])) is not None)
    return f


# obligations that a callee's accesses rest on
STRUCT = 'long enough|arguments of|overlap|column pointers|row indices|row pointers|dimension|inverse|maps 0|onto|Parent|Lp |is square|: n( at |$)|a length|at least one entry|non-empty|: case |lower triangular|below the diagonal|fresh block|its block|is at least as long|is NULL|room for|column counts|well formed|natural number|caller passed|accepts|what a solve needs: (?!s is|z is)'
AMDU = ['amd_l_defaults', 'amd_l_valid', 'amd_l_preprocess', 'amd_l_aat', 'amd_l_order']
MEMK = ('bounds', 'memory', 'cast', 'alloc', 'term', 'free')
AMD_NOTE = 'amd_1.c, amd_2.c, amd_postorder.c and amd_post_tree.c (the minimum-degree elimination itself) are trusted: contract assumed, exercised by the bounded runs only'

prop('C15', ['QP_SETUP', 'QP_SETUP_dense', 'densetosparse', 'densetosparse_ROWMAJOR', 'SparseMatrixTranspose', 'formkktmatrix_full', 'kkt_initialize', 'ldlinitialsolve'], lemmas=['columns', 'counting', 'nonzeros'],
     labels=kinds(('ensures', 'pre'), None, QP_SETUP='^(ensures|pre): (?!.*(what a solve needs|ordering))', QP_SETUP_dense='^(ensures|pre): (?!.*(what a solve needs|ordering))', kkt_initialize='^(ensures|pre): (?!.*positive)', ldlinitialsolve='^(ensures|pre): (?!.*pivot)'),
     bounded=bnd('both entry points: the instance against the problem given, and the starting point against a dense solve of the initial KKT system'))
prop('C10', ['QP_SETUP', 'QP_SETUP_dense', 'QP_CLEANUP', 'QP_CLEANUP_dense', 'kkt_initialize', 'ldlinitialsolve', 'densetosparse', 'densetosparse_ROWMAJOR', 'SparseMatrixTranspose', 'Transpose_Row_Count', 'QP_SOLVE', 'amd_l_order', 'amd_l_preprocess', 'amd_l_aat'], lemmas=['ascending'],
     labels=kinds(('free', 'leak', 'own', 'alloc', 'memory'), 'fresh block|caller passed|is NULL|ordering status|is released|released memory|the library allocated|what a solve needs: .*block of its own'), assumptions=[AMD_NOTE],
     bounded=bnd('set-up, solve and clean-up through both entry points with every block counted, the ordering package also with failing allocations'))
prop('C12', verified(), lemmas=['columns', 'counting', 'pattern', 'flags', 'triangular', 'nonzeros', 'ascending', 'distinct'],
     labels=kinds(MEMK, '^(pre|ensures|own|unit): .*(%s)' % STRUCT), assumptions=[AMD_NOTE],
     bounded=bnd('whole runs under the address and undefined-behaviour sanitisers, with values outside the reach of the proofs (infinities, not-a-number) and the trusted part of the ordering package'))
DATA = r'(writes|write to) (\S+\.)?(Pjc|Pir|Ppr|Ajc|Air|Apr|Gjc|Gir|Gpr|c|h|(?<!kkt\.)b|Permut|Ap|Ai|P|[PGA]\.(jc|ir|pr)|pr)(,| is)'
prop('C11', verified(), labels=kinds((), '^frame: ' + DATA + '|^free: .*which the caller owns|caller passed'), assumptions=[AMD_NOTE],
     bounded=bnd('every array of the caller compared with a copy after set-up, after every solve and after clean-up'))
prop('C09', AMDU + ['QP_SETUP', 'QP_SETUP_dense', 'kkt_initialize', 'ldlinitialsolve', 'LDL_symbolic'], lemmas=['ascending', 'distinct'],
     labels=kinds((), None, QP_SETUP='ordering|maps 0|onto|kkt.P|Permut', QP_SETUP_dense='ordering|maps 0|onto|kkt.P|Permut', kkt_initialize='Pinv|inverse|maps 0|onto|kkt.P ', ldlinitialsolve='Pinv|inverse|maps 0|onto|kkt.P ', LDL_symbolic='Pinv|inverse',
                  amd_l_valid='ensures|bounds|term', amd_l_order='ensures|pre|bounds|term', amd_l_preprocess='.', amd_l_aat='.', amd_l_defaults='.'), assumptions=[AMD_NOTE],
     bounded=bnd('the ordering package on well-formed and malformed matrices, and with failing allocations; the permutation and its inverse after set-up'))
from qpv import structural
prop('C17', verified(), labels=kinds((), 'static storage|global state|statistics start|default settings'), extra=structural.shared_state, assumptions=['that two runs on the same data agree bit for bit is exercised by the bounded runs (two instances, blocks filled with different bytes); proved is that no function writes state outside its arguments'],
     bounded=bnd('interleaved set-up, solve and clean-up of several instances, and the same data twice with fresh blocks filled differently'))
PYAPI = 'the Python and numpy C API behaves as its documentation says (contracts in qpv/pyapi.py, trusted); memory does not run out; PyArray_GETCONTIGUOUS and PyArray_Cast keep the numbers'
prop('C16', ['method_qpSWIFT'], assumptions=[PYAPI, 'the argument lists of the calls that parse arguments and build values are read from their format strings', 'at least one variable and one inequality'],
     bounded=dict(what='calls of the built extension, proper and improper, compared with the C library on the same numbers', seconds=20, rule='pseudo-random problems with n <= 5, m <= 6, p <= 2 in several element types and memory layouts, every option, and one improper argument or option at a time; built from /repo with the address sanitiser'))
