"""Runs simulations: hands specifications to the simulator (real clazy code under simulated scheduling, memory, files
and time) and brings back everything observable about the run."""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QT = VERIF + '/workload/qt'
QTMOD = VERIF + '/workload/qtmod'
V = '/w'  # root of the virtual scratch tree every run sees


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if not isinstance(p, (bytes, str)):
            p = json.dumps(p, sort_keys=True)
        if isinstance(p, str):
            p = p.encode('utf-8', 'surrogateescape')
        h.update(b'%d:' % len(p) + p)
    return h.hexdigest()[:16]


class Rng:
    """splitmix64: the same sequence everywhere"""
    M = (1 << 64) - 1

    def __init__(self, *seed):
        self.s = int(hashlib.sha256(repr(seed).encode()).hexdigest()[:16], 16)

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & self.M
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & self.M
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & self.M
        return z ^ (z >> 31)

    def below(self, n):
        return self.next() % n if n > 0 else 0

    def rng(self, a, b):
        return a + self.below(b - a + 1)

    def chance(self, p):
        return self.next() / 2.0 ** 64 < p

    def choice(self, xs):
        return xs[self.below(len(xs))]

    def sample(self, xs, k):
        xs = list(xs)
        self.shuffle(xs)
        return xs[:k]

    def shuffle(self, xs):
        for i in range(len(xs) - 1, 0, -1):
            j = self.below(i + 1)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def weighted(self, pairs):
        t = sum(w for _, w in pairs)
        x = self.next() / 2.0 ** 64 * t
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]


class SimError(Exception):
    """The simulator itself failed: not a statement about clazy"""


class SimTimeout(SimError):
    pass


class Result:
    def __init__(self):
        self.status = None  # exit code, or -signal
        self.out = ''
        self.err = ''
        self.res = {}
        self.files = {}

    @property
    def end(self):
        return self.res.get('end', '')

    def digest(self):
        return digest(self.status, self.out, self.err, {k: v for k, v in self.res.items()}, self.files)


class Runner:
    """One simulator zygote: every run is a fresh fork of it. Also counts."""

    def __init__(self, exe, scratch):
        self.exe = exe
        self.scratch = scratch
        self.n = 0
        self.z = None
        self.cache = {}
        self.cache_order = []
        self.stats = {'runs': 0, 'steps': 0, 'yields': 0, 'switches': 0, 'static_accesses': 0, 'cached': 0, 'faults': {}, 'killed': 0,
                      'kinds': {}}
        self.sched_hashes = set()
        self.outcomes = set()
        self.trace_sigs = set()
        os.makedirs(scratch, exist_ok=True)

    def start(self):
        env = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'LANG': 'C.UTF-8', 'TMPDIR': '/nonexistent'}
        self.z = subprocess.Popen([self.exe, 'zygote'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def stop(self):
        if self.z:
            self.z.stdin.close()
            self.z.wait()
            self.z = None
        shutil.rmtree(self.scratch, ignore_errors=True)

    def rundir(self):
        # always of the same length: the heap of the process under test holds the path
        return '%s/%s' % (self.scratch, str(self.n).zfill(79 - len(self.scratch)))

    def prepare(self, spec, d):
        s = dict(spec)
        s.update(result=d + '/result.json', real=d + '/r', virtual=V, stdout=d + '/out', stderr=d + '/err')
        s.setdefault('cwd', V)
        s.setdefault('timeout', 30)
        s.setdefault('max_steps', 600000000)
        os.makedirs(d + '/r')
        with open(d + '/spec.json', 'w') as f:
            json.dump(s, f)
        return d + '/spec.json'

    def collect(self, d, status, want):
        r = Result()
        if os.WIFSIGNALED(status):
            r.status = -os.WTERMSIG(status)
        else:
            r.status = os.WEXITSTATUS(status)
        r.out = slurp(d + '/out')
        r.err = slurp(d + '/err')
        if os.path.exists(d + '/result.json'):
            try:
                r.res = json.loads(slurp(d + '/result.json'))
            except ValueError:
                raise SimError('bad result file')
        if 94 <= (r.status or 0) <= 99:
            raise SimError('simulator failure %d: %s' % (r.status, r.err[:500]))
        for root, _, fs in os.walk(d + '/r'):
            for f in fs:
                p = os.path.join(root, f)
                v = V + p[len(d) + 2:]
                if want(v) and os.path.exists(p):
                    try:
                        r.files[v] = slurp(p)
                    except OSError:
                        r.files[v] = None
        return r

    def timed_out(self, spec, r):
        """out of wall-clock time below the step budget: libclang itself does not come to an end (it does for some broken sources)"""
        if r.status == -signal.SIGALRM and not spec.get('allow_timeout'):
            self.stats['timeouts'] = self.stats.get('timeouts', 0) + 1
            raise SimTimeout('no end within %s s' % spec.get('timeout', 30))

    def account(self, spec, r, faults_fired=True):
        st = self.stats
        st['runs'] += 1
        k = spec['kind']
        st['kinds'][k] = st['kinds'].get(k, 0) + 1
        for x in ('steps', 'yields', 'switches', 'static_accesses'):
            st[x] += r.res.get(x, 0)
        if r.status == 77:
            st['killed'] += 1
        for f, n in zip(spec.get('faults') or [], r.res.get('fired') or []):
            if n:
                key = '%s:%s' % (f['op'], f['act'])
                st['faults'][key] = st['faults'].get(key, 0) + n
        if r.status == 77:
            for f in spec.get('faults') or []:
                if f['act'] in ('killbefore', 'killafter', 'torn'):
                    key = '%s:%s' % (f['op'], f['act'])
                    st['faults'][key] = st['faults'].get(key, 0) + 1
        if r.res.get('switches'):
            self.sched_hashes.add(r.res.get('hash'))
        if r.res.get('ops'):
            self.trace_sigs.add(digest([[o[0], o[4]] for o in r.res['ops']]))
        self.outcomes.add(digest(r.status, r.err, [t for t in (r.res.get('threads') or [])], r.res.get('tidy'), r.files))

    def run(self, spec, want=None, cached=False):
        """cached: this exact specification may be answered from memory (reference runs)"""
        if want is None:
            want = lambda v: v.endswith('.yaml')
        key = None
        if cached:
            key = digest(spec)
            if key in self.cache:
                self.stats['cached'] += 1
                return self.cache[key]
        if self.z is None:
            self.start()
        self.n += 1
        d = self.rundir()
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            p = self.prepare(spec, d)
            self.z.stdin.write(p.encode() + b'\n')
            self.z.stdin.flush()
            line = self.z.stdout.readline()
            if not line:
                self.z = None
                raise SimError('zygote died')
            r = self.collect(d, int(line), want)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.timed_out(spec, r)
        self.account(spec, r)
        if key:
            self.cache[key] = r
            self.cache_order.append(key)
            if len(self.cache_order) > 3000:
                for k in self.cache_order[:1000]:
                    self.cache.pop(k, None)
                del self.cache_order[:1000]
        return r

    def run_fresh(self, spec, want=None):
        """in a process of its own, started from scratch"""
        if want is None:
            want = lambda v: v.endswith('.yaml')
        self.n += 1
        d = self.rundir()
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            p = self.prepare(spec, d)
            env = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'LANG': 'C.UTF-8', 'TMPDIR': '/nonexistent'}
            pr = subprocess.run([self.exe, 'zygote'], env=env, input=p.encode() + b'\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            if not pr.stdout:
                raise SimError('zygote died')
            r = self.collect(d, int(pr.stdout), want)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.timed_out(spec, r)
        self.account(spec, r)
        return r


class Multi:
    """several simulated processes over one file system; a conductor performs their file operations one at a time"""

    def __init__(self, R, files, specs):
        self.R = R
        R.n += 1
        self.d = R.rundir()
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d + '/r')
        for f, t in files.items():
            p = self.d + '/r' + f[len(V):]
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as o:
                o.write(t.encode('utf-8', 'surrogateescape'))
        self.ps = []
        env = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'LANG': 'C.UTF-8', 'TMPDIR': '/nonexistent'}
        for i, spec in enumerate(specs):
            s = dict(spec)
            pd = '%s/p%d' % (self.d, i)
            os.makedirs(pd)
            gi, go = os.pipe(), os.pipe()  # conductor -> process, process -> conductor
            s.update(result=pd + '/result.json', real=self.d + '/r', virtual=V, stdout=pd + '/out', stderr=pd + '/err', gate_in=gi[0], gate_out=go[1], files={})
            s.setdefault('cwd', V)
            s.setdefault('timeout', 60)
            s.setdefault('max_steps', 600000000)
            with open(pd + '/spec.json', 'w') as f:
                json.dump(s, f)
            pr = subprocess.Popen([R.exe, 'run', pd + '/spec.json'], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  pass_fds=(gi[0], go[1]))
            os.close(gi[0])
            os.close(go[1])
            self.ps.append({'spec': s, 'proc': pr, 'to': gi[1], 'from': os.fdopen(go[0], 'rb'), 'dir': pd, 'pending': None, 'done': False})
            self.advance(i)

    def advance(self, i):
        """until process i is about to perform its next operation, or has ended"""
        p = self.ps[i]
        line = p['from'].readline()
        if not line:
            p['done'] = True
            p['pending'] = None
            return
        op, _, path = line.decode('utf-8', 'surrogateescape').rstrip('\n').partition(' ')
        p['pending'] = (op, path)

    def step(self, i, kill=False):
        p = self.ps[i]
        try:
            os.write(p['to'], b'k' if kill else b'g')
        except OSError:
            pass
        self.advance(i)

    def read(self, path):
        p = self.d + '/r' + path[len(V):]
        return slurp(p) if os.path.exists(p) else None

    def finish(self):
        rs = []
        for p in self.ps:
            p['from'].close()
            os.close(p['to'])
            st = p['proc'].wait()
            r = self.R.collect(p['dir'], (st << 8) if st >= 0 else -st, lambda v: False) if os.path.isdir(p['dir'] + '/r') else None
            if r is None:
                os.makedirs(p['dir'] + '/r')
                r = self.R.collect(p['dir'], (st << 8) if st >= 0 else -st, lambda v: False)
            self.R.timed_out(p['spec'], r)
            self.R.account(p['spec'], r)
            rs.append(r)
        return rs

    def close(self):
        for p in self.ps:
            if p['proc'].poll() is None:
                p['proc'].kill()
                p['proc'].wait()
        shutil.rmtree(self.d, ignore_errors=True)


def slurp(p):
    try:
        with open(p, 'rb') as f:
            return f.read().decode('utf-8', 'surrogateescape')
    except OSError:
        return ''


def crashed(r):
    """a description of an abnormal end, or None"""
    if r.status is not None and r.status < 0:
        return 'killed by signal %d' % -r.status
    if r.status == 78:
        return 'never finishes (%s)' % r.end
    return None
