"""Running the real code: compiles /repo's current sources with the oracle harness and searches for failing inputs."""
import os, re, subprocess, tempfile, shutil, time, threading, json
from .cfront import REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = ['-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=1')


class Concrete:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='qpv.')
        self.bin = None
        self.note = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def build(self):
        """-> error text or None"""
        srcs = sorted(os.path.join(REPO, 'src', f) for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.c'))
        procs = []
        objs = []
        for f in srcs:
            o = os.path.join(self.dir, os.path.basename(f) + '.o')
            objs.append(o)
            procs.append(subprocess.Popen(['gcc'] + SAN + ['-w', '-I' + REPO + '/include', '-include', HERE + '/harness/wrap.h', '-c', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        err = ''
        for p in procs:
            out = p.communicate()[0].decode(errors='replace')
            if p.returncode: err += out
        if err:
            return 'the library does not compile: ' + err[:800]
        for extra in ([], ['-DNOUNIT']):
            b = os.path.join(self.dir, 'h')
            r = subprocess.run(['gcc'] + SAN + ['-w'] + extra + ['-I' + REPO + '/include', HERE + '/harness/h.c'] + objs + ['-lm', '-o', b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 0:
                self.bin = b
                if extra: self.note = 'internal functions changed their interface: only the public entry points were run'
                return None
        return 'the harness does not link: ' + r.stdout.decode(errors='replace')[:800]

    def run(self, prop, seed, lo, hi, timeout=120):
        """-> None or dict(case, kind, msg, detail)"""
        try:
            r = subprocess.run([self.bin, prop, str(seed), str(lo), str(hi)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
            out, err, rc = r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace'), r.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc = '', (e.stderr or b'').decode(errors='replace'), 4
        if rc == 0 and 'PASS' in out:
            return None
        cs = re.findall(r'^@(\d+)$', err, re.M)
        case = int(cs[-1]) if cs else lo
        err = re.sub(r'^@\d+\n', '', err, flags=re.M)
        m = re.search(r'^FAIL \S+ case=(\d+) (.*)$', out, re.M)
        if m:
            return dict(case=int(m.group(1)), kind='fail', msg=m.group(2), detail='')
        if rc == 4 or 'FAIL timeout' in out:
            return dict(case=case, kind='timeout', msg='the call does not return', detail='')
        m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)', err)
        fr = re.findall(r'#\d+ \S+ in (\S+ %s/src/\S+)' % re.escape(REPO), err)
        msg = (m.group(1) if m else 'the process ended with status %d' % rc) + (' in ' + fr[0] if fr else '')
        return dict(case=case, kind='crash', msg=re.sub(r'0x[0-9a-f]+', '0x..', msg), detail=err[:4000])

    def search(self, prop, seed, seconds, jobs=8, chunk=1000, limit=None, kinds=('fail', 'crash', 'timeout')):
        """-> (cases run, first failure or None)"""
        stop = time.time() + seconds
        lock = threading.Lock()
        st = dict(next=0, done=0, bad=None)

        def work():
            while True:
                with lock:
                    if st['bad'] or time.time() > stop or (limit and st['next'] >= limit): return
                    lo = st['next']
                    st['next'] += chunk
                hi = lo + chunk
                while lo < hi:
                    f = self.run(prop, seed, lo, hi)
                    if f and f['kind'] not in kinds:
                        with lock: st['done'] += f['case'] + 1 - lo
                        lo = f['case'] + 1
                        if time.time() > stop: return
                        continue
                    with lock:
                        if f:
                            if st['bad'] is None or f['case'] < st['bad']['case']: st['bad'] = f
                            st['done'] += f['case'] + 1 - lo
                            return
                        st['done'] += hi - lo
                    break
        ts = [threading.Thread(target=work) for _ in range(jobs)]
        for t in ts: t.start()
        for t in ts: t.join()
        return st['done'], st['bad']
