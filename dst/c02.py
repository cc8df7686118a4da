"""C02: with the clang-tidy module every file gets its full set of warnings.

A scenario is one process that runs clang-tidy once or several times, each time over several files (failing ones, duplicates, any selection
of checks, any order). Oracle: each file of each run as the only file of a fresh process."""
import json

from . import c01
from . import workload as W
from .base import Outcome, ddmin_lists
from .core import V, crashed, digest

BUDGET = {'quick': (800, 60), 'thorough': (40000, 1500)}
LEVEL = 'exploration'
RULE = ('One scenario is one process with 1-3 clang-tidy runs over 1-8 seeded files each (mutations, copies under other names, duplicates, shared headers, failing members, '
        'check selections and their order). Non-trivial: at least two files of one run got clazy diagnostics of their own. Distinct: by all the diagnostics.')
ASSUMPTIONS = ['Diagnostics are compared as sets: clang-tidy itself sorts and merges equal ones, for instance of a header included by several files',
               'clang-tidy drops fix-its that conflict across files, so fix-its in shared headers are not compared']


def tidy_checks(rng):
    c = _tidy_checks(rng)
    theme = getattr(rng, 'theme', None)
    return c + ',clazy-' + theme if theme and rng.chance(0.8) else c


def _tidy_checks(rng):
    cs = ['clazy-' + c for c in W.all_checks()]
    k = rng.weighted([('all', 3), ('some', 4), ('glob', 1.5), ('minus', 1), ('one', 1.5)])
    if k == 'all':
        return '-*,clazy-*'
    if k == 'some':
        return '-*,' + ','.join(rng.sample(cs, rng.rng(2, len(cs))))
    if k == 'glob':
        return '-*,' + ','.join('clazy-%s*' % rng.choice('abcdefghijlmnopqrstuvw') for _ in range(rng.rng(1, 6)))
    if k == 'minus':
        return '-*,clazy-*,' + ','.join('-' + c for c in rng.sample(cs, rng.rng(1, 40)))
    return '-*,' + rng.choice(cs)


def generate(rng, tier, i):
    runs = []
    nr = rng.weighted([(1, 5), (2, 3), (3, 1)])
    shared = W.SHARED_H % ('' if rng.chance(0.6) else W.suppression(rng).replace('clazy:skip', ''))
    first = None
    for k in range(nr):
        n = rng.weighted([(1, 1 if nr > 1 else 0.01), (2, 3), (3, 2), (5, 2), (8, 0.7)])
        if first and rng.chance(0.5):
            # the same files again after an edit, as an IDE or a watcher would
            ms = json.loads(json.dumps(first))
            for m in ms:
                if rng.chance(0.5) and isinstance(m['files'].get(m['main']), str):
                    m['files'][m['main']] = W.mutate(rng, m['files'][m['main']], rng.rng(1, 2))
        else:
            ms = c01.gen_members(rng, n, p_bad=0.15)
        for m in ms:
            m['fault'] = None
        order = list(range(len(ms)))
        rng.shuffle(order)
        if rng.chance(0.15):
            order.append(rng.choice(order))
        first = first or ms
        flags = W.variant(rng, [rng.choice(['-std=c++17', '-std=c++20'])])
        runs.append({'members': ms, 'order': order, 'checks': tidy_checks(rng), 'flags': flags})
    return {'runs': runs, 'shared': shared, 'env_seed': rng.below(1 << 30), 'env': W.env_swarm(rng) if rng.chance(0.3) else {}}


def run_of(r, which):
    files = {}
    for m in r['members']:
        files.update(m['files'])
        if m['main'] not in m['files']:
            files[m['main']] = {'remove': True}
    return {'checks': r['checks'], 'args': W.QTFLAGS + r['flags'], 'dir': V, 'srcs': [r['members'][k]['main'] for k in which], 'files': files}


def spec(sc, runs, env_seed):
    return {'kind': 'tidy', 'runs': runs, 'files': {V + '/shared.h': sc['shared']}, 'env': sc['env'], 'env_seed': env_seed}


def private(path, dirs):
    return any(path.startswith(d + '/') for d in dirs)


def notes(d):
    """without clang-tidy's remarks on fix-its of different diagnostics that touch the same text"""
    return [n[:3] for n in d['notes'] if not n[2].startswith(('this fix will not be applied because', 'cannot apply fix-it because'))]


def keys(diags, dirs):
    """the diagnostics as a set; fix-its only where no other file takes part"""
    full, bare = set(), set()
    for d in diags:
        if not d['check'].startswith('clazy-'):
            continue  # the compiler's own: clang-tidy merges those as it likes
        b = (d['check'], d['file'], d['offset'], d['msg'], d['level'], tuple(map(tuple, notes(d))))
        bare.add(b)
        fx = sorted(map(tuple, d['fixes'])) + sorted(tuple(f) for n in d['notes'] for f in n[3])
        full.add((b, tuple(fx) if private(d['file'], dirs) and all(private(f[0], dirs) for f in fx) else None))
    return full, bare


def evaluate(sc, R):
    o = Outcome()
    rs = [r for r in sc['runs'] if r['order'] and r['members'] and max(r['order']) < len(r['members'])]
    if not rs:
        return o
    run = R.run(spec(sc, [run_of(r, r['order']) for r in rs], sc['env_seed']))
    refs = []
    for r in rs:
        ks = sorted(set(r['order']))
        refs.append({k: R.run(spec(sc, [run_of(r, [k])], 1), cached=True) for k in ks})
    c, rc = crashed(run), [crashed(x) for d in refs for x in d.values()]
    if c or any(rc):
        if c and not any(rc):
            o.bad('crash', 'the clang-tidy process %s although no file alone makes it\n%s' % (c, run.err[-1500:]))
        else:
            o.count('crashing_members')
        return o
    interesting = 0
    for q, (r, got, alone) in enumerate(zip(rs, run.res['tidy'], refs)):
        dirs = [m['dir'] for m in r['members']]
        exp = [d for k in sorted(alone) for d in alone[k].res['tidy'][0]['diags']]
        ef, eb = keys(exp, dirs)
        gf, gb = keys(got['diags'], dirs)
        o.count('files', len(r['order']))
        o.count('diagnostics', len(got['diags']))
        if eb != gb:
            only_e, only_g = sorted(eb - gb), sorted(gb - eb)
            cs = sorted({x[0].replace('clazy-', '') for x in only_e + only_g})
            o.bad('differs:' + '+'.join(cs[:3]), 'run %d over %d files (checks %s): %d diagnostics missing, %d unexpected; missing %s unexpected %s'
                  % (q + 1, len(r['order']), r['checks'][:100], len(only_e), len(only_g), [x[:4] for x in only_e[:3]], [x[:4] for x in only_g[:3]]))
        else:
            drop = {b for b, fx in ef | gf if fx is None}
            a, b = {x for x in ef if x[0] not in drop}, {x for x in gf if x[0] not in drop}
            if a != b:
                o.bad('fixes:' + '+'.join(sorted({x[0][0] for x in a ^ b})[:3]), 'run %d: fix-its differ: alone %s, together %s' % (q + 1, sorted(a - b)[:2], sorted(b - a)[:2]))
        per = {}
        for d in got['diags']:
            if d['check'].startswith('clazy-') and private(d['file'], dirs):
                per[[x for x in dirs if d['file'].startswith(x + '/')][0]] = 1
        interesting = max(interesting, len(per))
    o.nontrivial = interesting >= 2
    o.sig = digest(run.res['tidy'])
    o.sample = {'runs': [{'checks': r['checks'][:100], 'files': [r['members'][k]['unit'] for k in r['order']], 'diagnostics': len(t['diags'])} for r, t in zip(rs, run.res['tidy'])]}
    return o


def shrink(sc):
    yield from ddmin_lists(sc, ['runs'])
    for k in range(len(sc['runs'])):
        r = sc['runs'][k]
        yield from ddmin_lists(sc, ['runs', k, 'order'])
        for x in sc['env']:
            c = json.loads(json.dumps(sc))
            del c['env'][x]
            yield c
        if ',' in r['checks'][3:]:
            cs = r['checks'].split(',')[1:]
            for part in (cs[:len(cs) // 2], cs[len(cs) // 2:]):
                c = json.loads(json.dumps(sc))
                c['runs'][k]['checks'] = '-*,' + ','.join(part)
                yield c
        for j in sorted(set(r['order'])):
            t = r['members'][j]['files'].get(r['members'][j]['main'])
            if isinstance(t, str):
                yield from c01.shrink_text(sc, ['runs', k, 'members', j, 'files', r['members'][j]['main']], t)
