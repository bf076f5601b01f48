"""Front end: the real C sources -> AST, through clang's own parser (no hand-written parser, no copy of the code).

Every run invokes  clang -Xclang -ast-dump=json  on the files of /repo, so the text that is verified is exactly the text
that is compiled.  What the extraction drops: source formatting, comments, and declarations without a body.
"""
import json, subprocess, os, re

REPO = os.environ.get('QPV_REPO', '/repo')


class Unsupported(Exception):
    pass


class N:
    """AST node."""
    __slots__ = ('kind', 'line', 'file', 'inner', 'ty', 'dty', 'd', 'id')

    def __init__(self, kind, line, file, inner, ty, dty, d, id):
        self.kind, self.line, self.file, self.inner, self.ty, self.dty, self.d, self.id = kind, line, file, inner, ty, dty, d, id

    def __repr__(self):
        return '<%s %s:%s>' % (self.kind, self.file, self.line)


class Loc:
    file = None
    line = None


def _upd(loc, cur):
    """clang prints file/line only when they change, in dump order."""
    if not isinstance(loc, dict):
        return
    if 'spellingLoc' in loc or 'expansionLoc' in loc:
        for k in loc:
            if k in ('spellingLoc', 'expansionLoc'):
                _upd(loc[k], cur)
        return
    if 'file' in loc:
        cur.file = loc['file']
    if 'line' in loc:
        cur.line = loc['line']


def conv(j, cur):
    if not j or 'kind' not in j:
        return None
    if 'loc' in j:
        _upd(j['loc'], cur)
    line = None
    if 'range' in j:
        b = j['range'].get('begin', {})
        _upd(b, cur)
        line, file = cur.line, cur.file
        _upd(j['range'].get('end', {}), cur)
    else:
        line, file = cur.line, cur.file
    t = j.get('type') or j.get('argType') or {}
    ty = t.get('qualType')
    dty = t.get('desugaredQualType', ty)
    d = {k: v for k, v in j.items() if k not in ('inner', 'loc', 'range', 'type', 'kind')}
    if 'argType' in j:
        d['argTy'] = j['argType'].get('desugaredQualType', j['argType'].get('qualType'))
        ty = (j.get('type') or {}).get('qualType')
        dty = (j.get('type') or {}).get('desugaredQualType', ty)
    if 'referencedDecl' in j:
        r = j['referencedDecl']
        d['ref'] = (r.get('id'), r.get('name'), r.get('kind'), (r.get('type') or {}).get('desugaredQualType', (r.get('type') or {}).get('qualType')))
    inner = [conv(c, cur) for c in j.get('inner', [])]
    return N(j['kind'], line, file, inner, ty, dty, d, j.get('id'))


def strip(t):
    if t is None:
        return t
    t = t.replace('struct ', '').replace('const ', '').replace('volatile ', '').replace('restrict', '')
    t = re.sub(r'\bconst\b', '', t)
    return re.sub(r'\s+', ' ', t).strip()


class TU:
    pass


class Program:
    def __init__(self):
        self.funcs = {}      # name -> (N FunctionDecl, file)
        self.statics = []    # (function or None, var name, file, line, N)
        self.structs = {}    # name -> [(field, type)]
        self.globals = {}    # name -> N
        self.files = []
        self.src = {}

    def add_json(self, j, path):
        cur = Loc()
        top = conv(j, cur)
        base = os.path.basename(path)
        self.files.append(path)
        for n in top.inner:
            if n is None:
                continue
            if n.kind == 'FunctionDecl':
                body = [c for c in n.inner if c is not None and c.kind == 'CompoundStmt']
                if body and n.file and (n.file.endswith(base) or n.file.startswith(REPO)):
                    self.funcs[n.d['name']] = n
            elif n.kind == 'RecordDecl' and n.d.get('name'):
                fl = [(c.d['name'], strip(c.dty)) for c in n.inner if c is not None and c.kind == 'FieldDecl']
                if fl:
                    self.structs[n.d['name']] = fl
            elif n.kind == 'VarDecl' and n.file and n.file.startswith(REPO):
                self.globals.setdefault(n.d['name'], n)
            elif n.kind == 'TypedefDecl':
                pass


CFLAGS = ['-DDLONG']


def clang_ast(path, flags=()):
    cmd = ['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w', '-I' + REPO + '/include', '-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'pystub')] + list(flags) + [path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise Unsupported('clang failed on %s: %s' % (path, r.stderr.decode()[:500]))
    return json.loads(r.stdout)


_cache = {}


def load(files, flags=()):
    key = (tuple(files), tuple(flags))
    if key in _cache:
        return _cache[key]
    p = Program()
    from concurrent.futures import ThreadPoolExecutor
    paths = [f if f.startswith('/') else os.path.join(REPO, f) for f in files]
    with ThreadPoolExecutor(8) as ex:
        js = list(ex.map(lambda f: clang_ast(f, flags), paths))
    for f, j in zip(paths, js):
        p.add_json(j, f)
    _cache[key] = p
    return p


def params(fn):
    return [c for c in fn.inner if c is not None and c.kind == 'ParmVarDecl']


def body(fn):
    return [c for c in fn.inner if c is not None and c.kind == 'CompoundStmt'][0]
