"""Discharging obligations: z3 (and cvc5 as a second opinion) in forked worker processes."""
import os, io, sys, time, pickle, select, signal, z3, subprocess, tempfile

RL = 3000
NPROC = int(os.environ.get('QPV_JOBS', '8'))


def mk(nl=False, timeout=5000, seed=0, mbqi=False):
    s = z3.SimpleSolver()
    s.set('auto_config', False)
    s.set('mbqi', mbqi)
    s.set('arith.nl', nl)
    # the limit is on z3's own work counter, so that a verdict does not depend on how loaded the machine is;
    # the clock is only a backstop
    s.set('rlimit', timeout * RL)
    s.set('timeout', timeout * 15)
    s.set('random_seed', seed)
    return s


STRATS = [dict(nl=False, seed=0), dict(nl=True, seed=0), dict(nl=False, seed=7)]


SYMS = {}     # ast id -> (expression, symbols of arrays and functions in it, is it quantified)


def symbols(f):
    """names of the array constants and uninterpreted functions in a formula"""
    k = f.get_id()
    c = SYMS.get(k)
    if c is not None:
        return c
    syms, quant, seen, todo = set(), False, set(), [f]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x):
            quant = True
            todo.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and (d.arity() > 0 or z3.is_array(x)):
                syms.add(d.name())
            todo += x.children()
    SYMS[k] = (f, frozenset(syms), quant)
    return SYMS[k]


def near(o, axioms, depth):
    """the facts that may matter for the goal: unquantified ones, and quantified ones linked to it by shared arrays"""
    cur = set(symbols(o.goal)[1])
    fs = [symbols(f) for f, _ in o.facts]
    for e, sy, q in fs:
        if not q and z3.is_eq(e) and len(sy) == 2 and sy & cur: cur |= sy     # array equalities
    ax = [symbols(a) for a in axioms]
    keep = set()
    for d in range(depth):
        add = set()
        for i, (e, sy, q) in enumerate(fs):
            if q and i not in keep and sy & cur:
                keep.add(i)
                add |= sy
        cur |= add
    out = [e for i, (e, sy, q) in enumerate(fs) if not q or i in keep]
    return out, [e for e, sy, q in ax if not q or sy & cur]


def solve_near(o, axioms, timeout, depth):
    s = mk(timeout=timeout)
    fs, ax = near(o, axioms, depth)
    for a in ax: s.add(a)
    for f in fs: s.add(f)
    s.add(z3.Not(o.goal))
    return str(s.check())


def solve_one(o, axioms, timeout, strats, want_core=False, depth=0, only_near=False):
    """-> (status, backend, core tags, seconds)"""
    t0 = time.time()
    if depth and not want_core:
        r = solve_near(o, axioms, timeout if only_near else max(300, timeout // 8), depth)
        if r == 'unsat':
            return 'proved', 'z3', None, time.time() - t0
        if only_near:
            return 'unknown', 'z3', None, time.time() - t0
    if want_core:
        s = mk(timeout=timeout, **strats[0])
        s.set('unsat_core', True)
        for a in axioms:
            s.add(a)
        tags = {}
        for i, (f, tag) in enumerate(o.facts):
            if tag is not None:
                b = z3.Bool('tag!%d' % i)
                tags['tag!%d' % i] = tag
                s.assert_and_track(f, b)
            else:
                s.add(f)
        s.add(z3.Not(o.goal))
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3', [tags[str(x)] for x in s.unsat_core()], time.time() - t0
        return str(r), 'z3', None, time.time() - t0
    last = 'unknown'
    for i, st in enumerate(strats):
        s = mk(timeout=timeout, **st)
        for a in axioms:
            s.add(a)
        for f, _ in o.facts:
            s.add(f)
        s.add(z3.Not(o.goal))
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3', None, time.time() - t0
        last = str(r)
        if r == z3.unknown and any(w in s.reason_unknown() for w in ('resource', 'timeout', 'cancel', 'memory', 'interrupt')):
            last = 'limit'
        if r == z3.sat:
            break
    return last, 'z3', None, time.time() - t0


def cvc5_try(o, axioms, timeout):
    s = z3.Solver()
    for a in axioms: s.add(a)
    for f, _ in o.facts: s.add(f)
    s.add(z3.Not(o.goal))
    txt = s.to_smt2()
    txt = '(set-logic ALL)\n' + txt
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout / 1000 + 10)
        out = r.stdout.decode().strip().split('\n')[0]
    except Exception as e:
        out = 'unknown'
    finally:
        os.unlink(f.name)
    return out


def run(obls, axioms, timeout=4000, strats=None, want_core=False, nproc=None, deadline=None, cvc5=False, depth=0, only_near=False):
    """fills o.result=(status, backend, core, secs) for every obligation"""
    if not obls:
        return
    strats = strats or STRATS[:1]
    nproc = nproc or NPROC
    n = len(obls)
    # A fixed chunk of obligations per process: what a query finds in z3's context, and with it the verdict, does not depend
    # on the number of workers or on which of them is faster.
    size = 1 if n < 400 else 3
    if depth:
        for a in axioms: symbols(a)
        for o in obls:
            symbols(o.goal)
            for f, _ in o.facts: symbols(f)
    todo = [range(i, min(i + size, n)) for i in range(0, n, size)][::-1]
    live = {}
    while todo or live:
        while todo and len(live) < nproc:
            chunk = todo.pop()
            if deadline and time.time() > deadline:
                for i in chunk: obls[i].result = ('timeout', 'z3', None, 0.0)
                continue
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    for q in live: os.close(q)
                    os.close(r)
                    for i in chunk:
                        try:
                            res = solve_one(obls[i], axioms, timeout, strats, want_core, depth, only_near)
                            if cvc5 and res[0] != 'proved':
                                if cvc5_try(obls[i], axioms, timeout) == 'unsat':
                                    res = ('proved', 'cvc5', None, res[3])
                        except z3.Z3Exception as ex:
                            res = ('error:' + str(ex)[:200], 'z3', None, 0.0)
                        b = pickle.dumps((i, res))
                        while b: b = b[os.write(wfd, b):]
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(wfd)
            live[r] = [pid, b'', time.time() + len(chunk) * (len(strats) * timeout * 15 / 1000 + 20)]
        if not live: continue
        ready = select.select(list(live), [], [], 2)[0]
        now = time.time()
        for r in list(live):
            # z3 does not always come back when its limits are reached
            if r not in ready and now > min(live[r][2], (deadline or 1e18) + 20):
                try: os.kill(live[r][0], signal.SIGKILL)
                except OSError: pass
        for r in ready:
            b = os.read(r, 1 << 16)
            if b:
                live[r][1] += b
                continue
            os.close(r)
            pid, buf, _ = live.pop(r)
            os.waitpid(pid, 0)
            f = io.BytesIO(buf)
            while True:
                try:
                    i, res = pickle.load(f)
                    obls[i].result = res
                except Exception:
                    break
    for o in obls:
        if o.result is None:
            o.result = ('timeout', 'z3', None, 0.0)
