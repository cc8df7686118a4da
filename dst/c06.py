"""C06: each plugin session exports exactly its own fixes.

A scenario is sequences of exporting and non-exporting sessions on 1-3 threads of one process (failing, rejected, silent and re-run sessions
among them), optionally with a file system that refuses the export of some documents. Oracles: the fixes files at the end are those left by
fresh processes, session by session; what a fresh process exports is what it prints; no other file is touched."""
import json

from . import c03
from . import sessions as S
from . import text
from . import workload as W
from .base import Outcome, ddmin_lists
from .core import V, crashed, digest

BUDGET = {'quick': (800, 60), 'thorough': (40000, 1500)}
LEVEL = 'exploration'
RULE = ('One scenario is one seeded set of plugin sessions with fix exporting on 1-3 threads. Non-trivial: at least two sessions export something. '
        'Distinct: by the exported files.')
ASSUMPTIONS = ['A session without any warning may leave the file of an earlier session of the same document alone or leave none']


def generate(rng, tier, i):
    nt = rng.weighted([(1, 5), (2, 3), (3, 1)])
    threads = []
    for t in range(nt):
        seq = S.sequence(rng, rng.rng(1, 3) if nt > 1 else rng.rng(2, 7), 't%dx' % t, p_bad=0.18, ndocs=rng.rng(1, 3))
        for s in seq:
            if rng.chance(0.85) and 'export-fixes' not in s['pargs'] and len(s['pargs']) < 5:
                s['pargs'] = s['pargs'] + ['export-fixes']
            s['cc1'] = ['-fdiagnostics-parseable-fixits']
        threads.append(seq)
    env = W.env_swarm(rng)
    if rng.chance(0.7):
        env.pop('CLAZY_CHECKS_AS_ERRORS', None)
    if rng.chance(0.1):
        env['CLAZY_EXPORT_FIXES'] = '1'
    mains = sorted({s['main'] for t in threads for s in t})
    faults = []
    if rng.chance(0.2):
        faults = [{'op': 'create', 'path': '*' + rng.choice(mains) + '.clazy.yaml', 'times': -1, 'act': rng.choice(['ENOSPC', 'EROFS', 'EMFILE'])}]
    old = {m + '.clazy.yaml': '---\nMainSourceFile: old\n...\n' for m in mains if rng.chance(0.2)}
    return {'threads': threads, 'shared': W.SHARED_H % ('' if rng.chance(0.5) else W.suppression(rng).replace('clazy:skip', '')), 'env': env,
            'env_seed': rng.below(1 << 30), 'sched': c03.gen_sched(rng) if nt > 1 else None, 'faults': faults, 'old': old}


def evaluate(sc, R):
    o = Outcome()
    th = [t for t in sc['threads'] if t]
    if not th:
        return o
    allfiles = lambda v: True
    sp = S.spec(th, sc['shared'], sc['env'], sc['env_seed'], sched=sc['sched'] and dict(sc['sched'], races=False), faults=sc['faults'])
    sp['files'].update(sc['old'])
    run = R.run(sp, want=allfiles)
    o.run = run
    ref = [[R.run(S.spec([[s]], sc['shared'], sc['env'], 1, faults=sc['faults']), cached=True) for s in t] for t in th]
    c, rc = crashed(run), [crashed(r) for t in ref for r in t]
    o.count('sessions', len(rc))
    if c or any(rc):
        if c and not any(rc):
            o.bad('crash', 'the run %s although no session alone does\n%s' % (c, run.err[-1500:]))
        else:
            o.count('crashing_sessions')
        return o
    expected = dict(sc['old'])
    inputs = {V + '/shared.h': sc['shared']}
    outputs = set()
    exporting = 0
    for t, rs in zip(th, ref):
        for k, (s, r) in enumerate(zip(t, rs)):
            inputs.update({f: x if isinstance(x, str) else None for f, x in s['files'].items()})
            if s['mode'] in ('llvm', 'obj'):
                outputs.add(s['main'] + ('.ll' if s['mode'] == 'llvm' else '.o'))
            a = r.res['threads'][0][0]
            y = S.yaml_of(s)
            refused = any(f['path'].endswith(y) for f in sc['faults'])
            got = r.files.get(y)
            if (('export-fixes' in s['pargs'] or 'CLAZY_EXPORT_FIXES' in sc['env']) and not refused
                    and not any(p in s['pargs'] for p in ('help',)) and 'unknown argument' not in a['diag'] and 'file not found' not in a['diag'][:200]):
                known = {f: x for f, x in s['files'].items() if isinstance(x, str)}
                known[V + '/shared.h'] = sc['shared']
                if got is not None or text.yaml_entries(got or '') is not None:
                    for p in text.export_problems(a['diag'], got, known):
                        o.bad('alone-export:' + p.split(' ')[0], 'session %d (%s %s) alone: %s' % (k + 1, s['unit'], ' '.join(s['pargs'])[:150], p))
                elif text.clazy_diags(a['diag']) and [d for d in text.clazy_diags(a['diag']) if d[3] == 'warning'] and a['ok']:
                    o.bad('alone-missing', 'session %d (%s %s) alone prints warnings but exports nothing' % (k + 1, s['unit'], ' '.join(s['pargs'])[:150]))
            if got is not None:
                expected[y] = got
                exporting += 1
                e = text.yaml_entries(got)
                o.count('exported_diagnostics', len(e or []))
    got = {f: t for f, t in run.files.items() if f not in inputs and f not in outputs}
    for f in sorted(set(expected) | set(got)):
        if expected.get(f) != got.get(f):
            o.bad('differs', 'the fixes file %s is not what its session left in a fresh process:\n%s' % (f, text.diff(expected.get(f) or '(none)', got.get(f) or '(none)')))
            break
    last = {}
    for t in th:
        for s in t:
            for f, x in s['files'].items():
                last[f] = x
    for f, x in last.items():
        if isinstance(x, str) and run.files.get(f) != x:
            o.bad('source-touched', 'the source file %s was changed' % f)
    o.nontrivial = exporting >= 2
    o.sig = digest(got)
    o.sample = {'threads': [[[s['unit'], s['mode'], ' '.join(s['pargs'])[:80]] for s in t] for t in th], 'faults': sc['faults'],
                'exported': {f: len(text.yaml_entries(t) or []) for f, t in got.items()}}
    return o



def shrink(sc):
    yield from ddmin_lists(sc, ['threads'])
    for t in range(len(sc['threads'])):
        if len(sc['threads'][t]) > 1:
            yield from ddmin_lists(sc, ['threads', t])
    for k, v in (('faults', []), ('old', {}), ('sched', None)):
        if sc[k] and (k != 'sched' or len(sc['threads']) == 1):
            yield dict(json.loads(json.dumps(sc)), **{k: v})
    yield from S.shrink_env(sc)
    for t in range(len(sc['threads'])):
        for k, s in enumerate(sc['threads'][t]):
            yield from S.shrink_session(sc, ['threads', t, k], s)
