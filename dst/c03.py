"""C03: concurrent plugin sessions are isolated, race-free and never deadlock.

A scenario is 2-4 threads with 1-3 sessions each, run under one seeded schedule (every access to static storage, every mutex, guard and
once, every library write to a shared container is a scheduling point). Oracles: each session in a fresh process alone; a happens-before
race detector over all the memory the instrumented code touches; deadlock and starvation detection by the scheduler."""
import json
import subprocess

from . import sessions as S
from . import text
from . import workload as W
from .base import Outcome, ddmin_lists
from .core import V, crashed, digest

BUDGET = {'quick': (900, 65), 'thorough': (60000, 1700)}
LEVEL = 'exploration'
RULE = ('One scenario is one seeded set of sessions on 2-4 threads plus one seeded schedule (uniform random preemption at several rates, or random priorities with change '
        'points). Non-trivial: there were context switches and sessions of at least two threads produced clazy diagnostics. Distinct: by schedule hash and output.')
ASSUMPTIONS = ['The code of libclang and LLVM runs uninstrumented: no preemption inside it and no race detection for its own memory',
               'The message about unknown names in CLAZY_CHECKS is printed once per process by design and not compared']


def gen_sched(rng):
    k = rng.weighted([('random', 5), ('pct', 4)])
    s = {'seed': rng.below(1 << 40), 'races': True}
    if k == 'random':
        s.update(strategy=0, pstatic=rng.choice([30, 200, 1000, 5000, 30000]), pother=rng.choice([0, 0, 1, 5]))
    else:
        s.update(strategy=1, nchange=rng.choice([1, 2, 3, 5, 10]), horizon=rng.choice([300, 2000, 20000, 200000]))
    return s


def generate(rng, tier, i):
    nt = rng.weighted([(2, 4), (3, 2), (4, 1)])
    threads = []
    same = rng.chance(0.6)
    base = None
    pargs = S.plugin_args(rng)
    for t in range(nt):
        n = rng.weighted([(1, 4), (2, 2), (3, 1)])
        if base is not None and same:
            # the same code in every thread: the same functions run at the same time
            seq = []
            for s in base:
                old, new = S_dir(s), '%s/t%d' % (V, t)
                c = json.loads(json.dumps(s))
                c['files'] = {new + k[len(old):]: x for k, x in s['files'].items()}
                c['main'] = new + s['main'][len(old):]
                if rng.chance(0.5) and isinstance(c['files'].get(c['main']), str):
                    c['files'][c['main']] = W.mutate(rng, c['files'][c['main']], rng.rng(1, 2))
                if rng.chance(0.3):
                    c['pargs'] = S.plugin_args(rng)
                seq.append(c)
            if rng.chance(0.3):
                rng.shuffle(seq)
        else:
            seq = S.sequence(rng, n, 't%dx' % t, p_bad=0.1, ndocs=1)
            for s in seq:
                # one directory per thread
                old, new = S_dir(s), '%s/t%d' % (V, t)
                s['files'] = {new + k[len(old):]: x for k, x in s['files'].items()}
                s['main'] = new + s['main'][len(old):]
            base = seq
        threads.append(seq)
    return {'threads': threads, 'shared': W.SHARED_H % ('' if rng.chance(0.5) else W.suppression(rng).replace('clazy:skip', '')), 'env': W.env_swarm(rng),
            'env_seed': rng.below(1 << 30), 'sched': gen_sched(rng)}


def S_dir(s):
    return s['main'].rsplit('/', s['main'].count('/') - 2)[0] if s['main'].count('/') > 2 else s['main'].rsplit('/', 1)[0]


_syms = {}


def where(R, pc):
    if pc not in _syms:
        r = subprocess.run(['addr2line', '-f', '-C', '-e', R.exe, hex(pc)], capture_output=True, text=True)
        _syms[pc] = (r.stdout.split('\n') or ['?'])[0].split('(')[0] or '?'
    return _syms[pc]


def evaluate(sc, R):
    o = Outcome()
    th = [t for t in sc['threads'] if t]
    if not th:
        return o
    run = R.run(S.spec(th, sc['shared'], sc['env'], sc['env_seed'], sched=sc['sched']))
    ref = [[R.run(S.spec([[s]], sc['shared'], sc['env'], 1), cached=True) for s in t] for t in th]
    o.count('threads', len(th))
    o.count('sessions', sum(len(t) for t in th))
    o.run = run
    for x in run.res.get('races') or []:
        a, b = sorted([where(R, x['pc1']), where(R, x['pc2'])])
        o.bad('race:%s|%s' % (a, b), 'threads %d and %d access the same %s memory without synchronisation (%s) in %s and %s'
              % (x['t1'], x['t2'], 'static' if x['static'] else 'heap', x['kind'], where(R, x['pc1']), where(R, x['pc2'])))
    c = crashed(run)
    rc = [crashed(r) for t in ref for r in t]
    if c or any(rc):
        if c and not any(rc):
            o.bad('crash:' + (run.end or 'signal'), 'the concurrent run %s although no session alone does\n%s' % (c, run.err[-1500:]))
        else:
            o.count('crashing_sessions')
        return o
    expected_yaml = {}
    with_diags = 0
    for ti, t in enumerate(th):
        some = False
        for k, s in enumerate(t):
            j, r = run.res['threads'][ti][k], ref[ti][k]
            a = r.res['threads'][0][0]
            o.count('diagnostics', len(text.clazy_diags(j['diag'])))
            some = some or bool(text.CHECK.search(j['diag']))
            if j['diag'] != a['diag']:
                o.bad('differs:' + text.diff_checks(a['diag'], j['diag']), 'session %d of thread %d (%s %s) reports something else than alone:\n%s'
                      % (k + 1, ti, s['unit'], ' '.join(s['pargs'])[:200], text.diff(a['diag'], j['diag'])))
            if j['ok'] != a['ok']:
                o.bad('status', 'session %d of thread %d (%s) ends with %s instead of %s' % (k + 1, ti, s['unit'], j['ok'], a['ok']))
            if S.yaml_of(s) in r.files:
                expected_yaml[S.yaml_of(s)] = r.files[S.yaml_of(s)]
        with_diags += some
    el, gl = sorted(sum((S.lines_of(r.err) for t in ref for r in t), [])), S.lines_of(run.err)
    # lines are written in pieces: under concurrency only the characters are comparable
    if sorted(''.join(el)) != sorted(''.join(gl)):
        o.bad('stderr', 'the text printed directly differs:\n' + text.diff('\n'.join(el), '\n'.join(gl)))
    if run.files != expected_yaml:
        o.bad('exported', 'the exported fixes differ:\n' + text.diff(json.dumps(expected_yaml, indent=0, sort_keys=True), json.dumps(run.files, indent=0, sort_keys=True)))
    o.nontrivial = with_diags >= 2 and run.res.get('switches', 0) > 0
    o.sig = digest(run.res.get('hash'), [[j['diag'] for j in t] for t in run.res['threads']])
    o.sample = {'threads': [[[s['unit'], s['mode'], ' '.join(s['pargs'])[:80]] for s in t] for t in th], 'sched': sc['sched'],
                'switches': run.res.get('switches'), 'yields': run.res.get('yields')}
    return o


def concretise(sc, R):
    """the same execution with its preemptions written down"""
    if sc['sched'].get('strategy') == 2:
        return sc
    o = evaluate(sc, R)
    c = json.loads(json.dumps(sc))
    c['sched'] = {'seed': 1, 'strategy': 2, 'races': sc['sched'].get('races', True), 'replay': o.run.res.get('preemptions') or []}
    return c


def shrink(sc):
    yield from ddmin_lists(sc, ['threads'])
    for t in range(len(sc['threads'])):
        if len(sc['threads'][t]) > 1:
            yield from ddmin_lists(sc, ['threads', t])
    if sc['sched'].get('replay'):
        yield from ddmin_lists(sc, ['sched', 'replay'])
    yield from S.shrink_env(sc)
    for t in range(len(sc['threads'])):
        for k, s in enumerate(sc['threads'][t]):
            yield from S.shrink_session(sc, ['threads', t, k], s)
