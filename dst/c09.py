"""C09: output is a function of the input, not of memory.

A scenario is one workload (batch, session sequence or clang-tidy run) executed several times under different simulated heaps (sequential,
random placement, eager or no reuse of freed blocks; fresh and freed heap memory and dead stack memory left alone, filled with a byte or with noise), clocks and random
numbers. Oracle: the runs give the same text, files and status. The concurrent variant lives in C03."""
import json

from . import c01, c02
from . import sessions as S
from . import text
from . import workload as W
from .base import Outcome, ddmin_lists
from .core import V, crashed, digest

BUDGET = {'quick': (1500, 60), 'thorough': (60000, 1500)}
LEVEL = 'exploration'
RULE = ('One scenario is one seeded workload executed under 3 (thorough: 6) different simulated heaps and environments. Non-trivial: it produced clazy diagnostics '
        'and the heaps really placed objects differently. Distinct: by the output and the heap configurations.')
ASSUMPTIONS = ['Heap fills and placement reach the memory of clazy and of the libraries alike; dead stack memory is filled when a function of clazy is entered']


def generate(rng, tier, i):
    n = 2 if tier == 'quick' else 5
    heaps = [W.gen_alloc(rng) for _ in range(n)]
    kind = rng.weighted([('standalone', 3), ('plugin', 4), ('tidy', 1)])
    sc = {'kind': kind, 'heaps': heaps, 'seeds': [rng.below(1 << 30) for _ in heaps], 'env': W.env_swarm(rng), 'shared': W.SHARED_H % ''}
    if kind == 'standalone':
        ms = c01.gen_members(rng, rng.weighted([(1, 3), (2, 2), (4, 1)]), p_bad=0.15)
        flags = W.variant(rng, ['-std=c++17'])
        for m in ms:
            m['flags'] = flags
        sc.update(mode='args', members=ms, opts=W.standalone_opts(rng), export=rng.chance(0.4))
    elif kind == 'plugin':
        sc.update(sessions=S.sequence(rng, rng.weighted([(1, 3), (2, 2), (4, 1)]), p_bad=0.15))
    else:
        ms = c01.gen_members(rng, rng.rng(1, 3), p_bad=0.15)
        for m in ms:
            m['fault'] = None
        sc.update(members=ms, order=list(range(len(ms))), checks=c02.tidy_checks(rng), flags=W.variant(rng, ['-std=c++17']))
    return sc


def spec(sc, alloc, seed):
    if sc['kind'] == 'standalone':
        sp = c01.spec_for(sc, range(len(sc['members'])), ['--export-fixes=' + V + '/fixes.yaml'] if sc['export'] else [])
    elif sc['kind'] == 'plugin':
        sp = S.spec([sc['sessions']], sc['shared'], sc['env'], 1)
    else:
        sp = c02.spec(sc, [c02.run_of(sc, sc['order'])], 1)
    sp['env_seed'] = seed
    if alloc:
        sp['alloc'] = alloc
    return sp


def seen(r):
    """everything a user sees"""
    return {'status': r.status, 'stdout': r.out, 'stderr': r.err, 'sessions': [[j['diag'], j['ok']] for t in r.res.get('threads') or [] for j in t], 'tidy': r.res.get('tidy'), 'files': r.files}


def evaluate(sc, R):
    o = Outcome()
    if not (sc.get('members') or sc.get('sessions')) or (sc['kind'] == 'tidy' and (not sc['order'] or max(sc['order']) >= len(sc['members']))):
        return o
    a = R.run(spec(sc, None, 1))
    base = seen(a)
    o.sig = digest(base, sc['heaps'])
    all_text = a.err + ''.join(j[0] for j in base['sessions']) + json.dumps(base['tidy'])
    n = len(text.CHECK.findall(all_text)) + len([d for t in (base['tidy'] or []) for d in t['diags'] if d['check'].startswith('clazy')])
    o.count('diagnostics', n)
    o.nontrivial = n > 0 and bool(sc['heaps'])
    for h, s in zip(sc['heaps'], sc['seeds']):
        b = R.run(spec(sc, h, s))
        o.count('heaps_mode_%d' % h['mode'])
        got = seen(b)
        ca, cb = crashed(a), crashed(b)
        if ca or cb:
            if bool(ca) != bool(cb):
                o.bad('crash', 'under one heap the run %s, under another it ends normally (heap %s)\n%s' % (ca or cb, h, (b if cb else a).err[-1000:]))
            continue
        for k in base:
            if got[k] != base[k]:
                x, y = (v if isinstance(v, str) else json.dumps(v, indent=0, sort_keys=True) for v in (base[k], got[k]))
                if k == 'sessions':
                    x, y = ('\n'.join(d for d, _ in v[k]) for v in (base, got))
                o.bad('%s:%s' % (k, text.diff_checks(x, y)), 'two runs of the same input differ in %s (heap %s):\n%s' % (k, h, text.diff(x, y)))
                break
    o.sample = {'kind': sc['kind'], 'heaps': sc['heaps'], 'diagnostics': n,
                'units': [m['unit'] for m in sc.get('members', [])] or [s['unit'] for s in sc['sessions']]}
    return o


def shrink(sc):
    if len(sc['heaps']) > 1:
        for k in range(len(sc['heaps'])):
            c = json.loads(json.dumps(sc))
            c['heaps'], c['seeds'] = [sc['heaps'][k]], [sc['seeds'][k]]
            yield c
    if sc['kind'] == 'plugin':
        yield from ddmin_lists(sc, ['sessions'])
        yield from S.shrink_env(sc)
        for k, s in enumerate(sc['sessions']):
            yield from S.shrink_session(sc, ['sessions', k], s)
    elif sc['kind'] == 'standalone':
        yield from c01.shrink(sc)
    else:
        yield from ddmin_lists(sc, ['order'])
        for j in sorted(set(sc['order'])):
            t = sc['members'][j]['files'].get(sc['members'][j]['main'])
            if isinstance(t, str):
                yield from c01.shrink_text(sc, ['members', j, 'files', sc['members'][j]['main']], t)
