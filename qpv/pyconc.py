"""Running the real Python binding: builds the extension from /repo's current sources and searches for failing calls."""
import os, re, subprocess, tempfile, shutil, time, threading, json, sys
from .cfront import REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/usr/bin/python3'


class Py:
    def __init__(self): self.dir = tempfile.mkdtemp(prefix='qpv.')
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

    def build(self):
        """-> error text or None"""
        q = subprocess.run([PYTHON, '-c', 'import sysconfig, numpy; print(sysconfig.get_path("include")); print(numpy.get_include()); print(sysconfig.get_config_var("EXT_SUFFIX"))'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode: return 'no Python with numpy: ' + q.stdout[:300]
        inc, npi, suf = q.stdout.split()
        srcs = sorted(os.path.join(REPO, 'src', f) for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.c'))
        flags = ['-g', '-O1', '-w', '-fPIC', '-shared', '-ffp-contract=off', '-I' + REPO + '/include', '-I' + inc, '-I' + npi]
        jobs = []
        for out, extra, more in ((os.path.join(self.dir, 'qpSWIFT' + suf), ['-fsanitize=address', '-fno-omit-frame-pointer'], [REPO + '/python/pyqpSWIFT.c']), (os.path.join(self.dir, 'ref.so'), [], [HERE + '/harness/pyref.c'])):
            jobs.append(subprocess.Popen(['gcc'] + flags + extra + more + srcs + ['-lm', '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for j in jobs:
            t = j.communicate()[0]
            if j.returncode: return 'the binding does not compile: ' + t[:800]
        self.asan = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()

    def run(self, seed, lo, hi, timeout=120):
        env = dict(os.environ, PYTHONPATH=self.dir, PYTHONMALLOC='malloc', LD_PRELOAD=self.asan, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', PYTHONNOUSERSITE='1')
        try:
            r = subprocess.run([PYTHON, HERE + '/harness/pyh.py', str(seed), str(lo), str(hi), self.dir + '/ref.so'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=self.dir)
            err, rc = r.stderr.decode(errors='replace'), r.returncode
        except subprocess.TimeoutExpired as e:
            err, rc = (e.stderr or b'').decode(errors='replace'), 4
        if rc == 0 and 'PASS' in err: return None
        cs = re.findall(r'^@(\d+)$', err, re.M)
        if not cs: return dict(case=-1, kind='error', msg=err[-600:])
        m = re.search(r'^FAIL (\d+) (.*)$', err, re.M)
        if m: return dict(case=int(m.group(1)), kind='fail', msg=m.group(2), detail='')
        rest = re.sub(r'^@\d+\n', '', err, flags=re.M)
        if rc == 4: return dict(case=int(cs[-1]), kind='timeout', msg='the call does not return', detail='')
        a = re.search(r'ERROR: AddressSanitizer: [^\n]*', rest)
        t = re.search(r'^(\w*Error: .*)$', rest, re.M)
        if t and not a and rc == 1: return dict(case=int(cs[-1]), kind='error', msg=t.group(1), detail=rest[-1500:])
        return dict(case=int(cs[-1]), kind='crash', msg=re.sub(r'0x[0-9a-f]+', '0x..', a.group(0)) if a else 'the interpreter ended with status %d' % rc, detail=rest[:3000])


def run(seed, secs, jobs=8, chunk=250):
    out = dict(cases=0, failure=None, engine='python', note=None)
    p = Py()
    try:
        e = p.build()
        if e:
            out['note'] = e
            return out
        stop = time.time() + secs
        lock = threading.Lock()
        st = dict(next=0, done=0, bad=None)

        def work():
            while True:
                with lock:
                    if st['bad'] or time.time() > stop: return
                    lo = st['next']
                    st['next'] += chunk
                f = p.run(seed, lo, lo + chunk)
                with lock:
                    if f and f['kind'] == 'error':
                        out['note'] = f['msg']
                        st['next'] = 1 << 60
                        return
                    if f and (st['bad'] is None or f['case'] < st['bad']['case']): st['bad'] = f
                    st['done'] += (f['case'] + 1 - lo) if f else chunk
        ts = [threading.Thread(target=work) for _ in range(jobs)]
        for t in ts: t.start()
        for t in ts: t.join()
        out['cases'], out['failure'] = st['done'], st['bad']
    finally:
        p.close()
    return out


def replay(f, seed=1):
    p = Py()
    try:
        e = p.build()
        if e: sys.exit(e)
        r = p.run(seed, f['case'], f['case'] + 1)
        print(json.dumps(r, indent=1) if r else 'the recorded call passes on the current tree')
    finally:
        p.close()
