"""C01: what clazy-standalone says about a translation unit does not depend on its batch.

A scenario is a batch: members (corpus units, mutated, duplicated, broken, missing, unreadable), their order, the options
and the environment. Oracle: each member analysed alone by a fresh process with the same options."""
import json

from . import text
from . import workload as W
from .base import Outcome, ddmin_lists
from .core import QT, V, crashed, digest

BUDGET = {'quick': (640, 75), 'thorough': (30000, 1500)}
LEVEL = 'exploration'
RULE = ('One scenario is one seeded batch (2-12 translation units with mutations, duplicates, shared headers, failing members, order, options, environment) '
        'run through clazy-standalone and compared member by member with fresh single runs. Non-trivial: at least two members produced clazy diagnostics '
        'in the batch. Distinct: by the text of the whole batch output.')
ASSUMPTIONS = ['Members do not share files other than shared.h, so a failing file belongs to one member',
               'The message about unknown names in CLAZY_CHECKS is printed once per process by design and not compared']


def gen_members(rng, n, p_bad=0.2, shared=None, cmds=False):
    ms = []
    shared = rng.chance(0.5) if shared is None else shared
    ablate = n > 1 and rng.chance(0.2)
    for i in range(n):
        if ms and ablate:
            # the first one again, one declaration less
            src, new = ms[0], V + '/d%d' % i
            old = src['dir']
            m = {'unit': src['unit'], 'dir': new, 'main': new + src['main'][len(old):], 'flags': list(src['flags']),
                 'files': {new + k[len(old):]: t for k, t in src['files'].items()}, 'fault': None}
            if m['main'] in m['files']:
                m['files'][m['main']] = W.drop_declaration(rng, m['files'][m['main']])
            ms.append(m)
            continue
        if ms and rng.chance(0.3):
            # the same file again under another name, perhaps edited: same class names, same positions
            src = rng.choice(ms)
            old = src['dir']
            new = W.place(rng, 'd%d' % i)
            flags = list(src['flags']) if rng.chance(0.7) else W.variant(rng, [f for f in src['flags'] if not f.startswith('-D')])
            m = {'unit': src['unit'], 'dir': new, 'main': new + src['main'][len(old):], 'flags': flags,
                 'files': {new + k[len(old):]: t for k, t in src['files'].items()}, 'fault': None}
            if rng.chance(0.7) and m['main'] in m['files']:
                m['files'][m['main']] = W.mutate(rng, m['files'][m['main']], rng.rng(1, 3))
        else:
            m = W.member(rng, i, shared=shared and rng.chance(0.6))
            m['fault'] = None
        if rng.chance(p_bad) and m['main'] in m['files']:
            k = rng.below(6)
            main = m['main']
            if k == 0:
                del m['files'][main]
            elif k == 1:
                m['fault'] = {'op': 'open', 'path': main, 'times': -1, 'act': rng.choice(['EACCES', 'EIO', 'EMFILE', 'ENOENT'])}
            elif k == 2:
                m['files'][main] = m['files'][main] + '\nclass Broken { int a; undeclared x; \n'
            elif k == 3:
                m['files'][main] = '#include "not_there.h"\n' + m['files'][main]
            elif k == 4:
                m['files'][main] = ''
            else:
                m['files'][main] = m['files'][main][:rng.below(len(m['files'][main]) + 1)]
        ms.append(m)
    return ms


def generate(rng, tier, i):
    n = rng.weighted([(2, 2), (3, 2), (4, 2), (6, 2), (8, 1), (12, 0.6)])
    sc = {'mode': rng.choice(['args', 'db', 'db']), 'members': gen_members(rng, n), 'opts': W.standalone_opts(rng), 'env': W.env_swarm(rng),
          'shared': W.SHARED_H % ('' if rng.chance(0.5) else W.suppression(rng).replace('clazy:skip', '')), 'env_seed': rng.below(1 << 30), 'alloc': W.gen_alloc(rng) if rng.chance(0.4) else None}
    if sc['mode'] == 'args':
        # one command line for all
        flags = W.variant(rng, [rng.choice(['-std=c++17', '-std=c++20'])])
        for m in sc['members']:
            m['flags'] = flags
    else:
        for m in sc['members']:
            if rng.chance(0.12):
                m['flags2'] = [f for f in m['flags'] if not f.startswith('-D')] + rng.choice([['-DMINIQT5'], ['-DQT_NAMESPACE=Second'], ['-DOTHER']])
            if rng.chance(0.06):
                m['flags'] = m['flags'] + ['-Werror']
        if rng.chance(0.1):
            sc['members'].append(dict(json.loads(json.dumps(rng.choice(sc['members'])))))  # named twice on the command line
    return sc


def spec_for(sc, which, extra_opts=(), record=False):
    files = {V + '/shared.h': sc['shared']}
    faults = []
    for m in sc['members']:
        files.update(m['files'])
        if m['fault'] and m['fault'] not in faults:
            faults.append(m['fault'])
    argv = ['clazy-standalone'] + sc['opts'] + list(extra_opts)
    srcs = [sc['members'][k]['main'] for k in which]
    if sc['mode'] == 'args':
        argv += srcs + ['--'] + W.compile_flags(sc['members'][0])
    else:
        db = []
        seen = set()
        for m in sc['members']:
            if m['main'] in seen:
                continue
            seen.add(m['main'])
            for fl in [m['flags']] + ([m['flags2']] if m.get('flags2') else []):
                db.append({'directory': V, 'file': m['main'], 'arguments': ['clang++'] + W.QTFLAGS + fl + ['-c', m['main']]})
        files[V + '/compile_commands.json'] = json.dumps(db)
        argv += ['-p', V] + srcs
    return {'kind': 'standalone', 'argv': argv, 'files': files, 'faults': faults, 'env': sc['env'], 'env_seed': sc.get('env_seed', 1), 'record': record}


def ncommands(sc, m):
    if sc['mode'] == 'args':
        return 1
    first = [x for x in sc['members'] if x['main'] == m['main']][0]
    return 2 if first.get('flags2') else 1


def strip_once(t):
    return '\n'.join(l for l in t.split('\n') if l and not text.PROC.match(l) and not l.startswith('Invalid check'))


def evaluate(sc, R):
    o = Outcome()
    n = len(sc['members'])
    if n == 0:
        return o
    batch = R.run(dict(spec_for(sc, range(n)), **({'alloc': sc['alloc']} if sc.get('alloc') else {})))
    c = crashed(batch)
    alone = [R.run(spec_for(sc, [k]), cached=True) for k in range(n)]
    alone_crash = [crashed(a) for a in alone]
    o.count('members', n)
    if c:
        if not any(alone_crash):
            o.bad('batch-crash', 'the batch run was %s although no member alone is\n%s' % (c, batch.err[-1500:]))
        else:
            o.count('crashing_members')
        return o
    if any(alone_crash):
        o.bad('alone-crash', 'a member alone ends abnormally (%s) but not in the batch' % [a for a in alone_crash if a][0])
        return o
    if n == 1:
        segs = [(sc['members'][0]['main'], batch.err.strip('\n'))]
        pre = ''
    else:
        pre, segs = text.segments(batch.err)
    withdiags = 0
    # one segment per compile command; a file has as many as the database says
    wanted = [m['main'] for m in sc['members'] for _ in range(ncommands(sc, m))]
    names = [s[0] for s in segs]
    if n > 1 and names != wanted:
        o.bad('members-skipped', 'processed %s instead of %s' % (names, wanted))
        return o
    if n > 1:
        it = iter(segs)
        segs = [(m['main'], '\n'.join(x for x in (next(it)[1] for _ in range(ncommands(sc, m))) if x)) for m in sc['members']]
    if sum(bool(strip_once(a.err)) for a in alone) and strip_once(pre):
        o.bad('preamble', 'unexpected output before the first file: ' + pre[:500])
    for k, (f, got) in enumerate(segs):
        expected = strip_once(alone[k].err)
        got = strip_once(got)
        if text.CHECK.search(got):
            withdiags += 1
        o.count('diagnostics', len(text.clazy_diags(got)))
        if got != expected:
            o.bad('differs:' + text.diff_checks(expected, got), 'member %d (%s, %s) of the batch is reported differently than alone:\n%s'
                  % (k + 1, f, sc['members'][k]['unit'], text.diff(expected, got)))
    o.count('failing_members', sum(1 for a in alone if a.status))
    o.nontrivial = withdiags >= 2
    o.sig = digest(batch.err)
    o.sample = {'mode': sc['mode'], 'opts': [x[:120] for x in sc['opts']], 'env': sc['env'],
                'members': ['%s%s' % (m['unit'], ' (%s)' % m['fault']['act'] if m['fault'] else '') for m in sc['members']],
                'diagnostics_per_member': [len(text.clazy_diags(t)) for _, t in segs], 'exit': batch.status}
    return o


def shrink(sc):
    yield from ddmin_lists(sc, ['members'])
    if sc.get('alloc'):
        yield dict(sc, alloc=None)
    if sc['env']:
        for k in sorted(sc['env']):
            c = json.loads(json.dumps(sc))
            del c['env'][k]
            yield c
    for i, op in enumerate(sc['opts']):
        c = json.loads(json.dumps(sc))
        del c['opts'][i]
        yield c
    for i, op in enumerate(sc['opts']):
        if op.startswith('--checks=') and ',' in op:
            cs = op[9:].split(',')
            for part in (cs[:len(cs) // 2], cs[len(cs) // 2:]):
                c = json.loads(json.dumps(sc))
                c['opts'][i] = '--checks=' + ','.join(part)
                yield c
    # shorter texts
    for k, m in enumerate(sc['members']):
        t = m['files'].get(m['main'])
        if t is None:
            continue
        yield from shrink_text(sc, ['members', k, 'files', m['main']], t)


def shrink_text(sc, path, t):
    lines = t.split('\n')
    n = len(lines)
    size = n // 2
    while size >= max(1, n // 16):
        for s in range(0, n, size):
            c = json.loads(json.dumps(sc))
            x = c
            for p in path[:-1]:
                x = x[p]
            x[path[-1]] = '\n'.join(lines[:s] + lines[s + size:])
            yield c
        size //= 2
