"""C08: a reader of the fixes file never sees a torn one.

Scenarios: (crash) one exporting process is killed at a seeded operation on the fixes file, before, after or in the middle of it, possibly with
short writes; (race) two or three exporting processes write to the same path, a seeded conductor performs their file operations one at a
time, may kill some, and reads the file after every operation. Oracle: the files written by undisturbed runs, and the old file."""
import json

from . import c01
from . import sessions as S
from . import text
from . import workload as W
from .base import Outcome, ddmin_lists
from .core import Multi, Rng, V, crashed, digest

BUDGET = {'quick': (3000, 55), 'thorough': (100000, 1500)}
LEVEL = 'exploration'
RULE = ('One scenario is one export killed at one seeded point, or 2-3 exporting processes whose file operations are interleaved by a seeded conductor, the file being '
        'read after each operation. Non-trivial: the kill happened on the way of the fixes file, or operations of two processes on it were interleaved. '
        'Distinct: by the sequence of operations and the state of the file after each.')
ASSUMPTIONS = ['The file system performs each single operation (create, write, rename, ...) completely or not at all, except writes, which may be torn',
               'A crash is the death of the process, not of the operating system: what was written is readable afterwards']
OUT = V + '/fixes.yaml'


def small_members(rng):
    for _ in range(20):
        ms = c01.gen_members(rng, rng.rng(1, 2), p_bad=0.0, shared=True)
        if all(m['main'] in m['files'] for m in ms):
            break
    for m in ms:
        m['flags'] = ['-std=c++17']
    return ms


def generate(rng, tier, i):
    old = rng.choice([None, '---\nMainSourceFile: old\nDiagnostics:\n...\n', 'old contents of another run\n' * rng.rng(1, 400)])
    kind = rng.weighted([('standalone', 4), ('plugin', 4), ('race', 2.2)])
    if kind == 'standalone' or kind == 'plugin':
        f = {'op': rng.choice(['mutate', 'mutate', 'create', 'write', 'close', 'rename', 'unlink', 'stat']), 'path': '*fixes.yaml' if kind == 'standalone' else '*.clazy.yaml',
             'pick': rng.below(1 << 20), 'times': 1, 'act': rng.choice(['killbefore', 'killafter'])}
        fs = [f]
        if rng.chance(0.4):
            f['op'], f['act'], f['arg'] = 'write', 'torn', rng.rng(0, 255)
        if rng.chance(0.35):
            fs.insert(0, {'op': 'write', 'path': f['path'], 'nth': 0, 'times': rng.choice([1, 2, 5]), 'act': 'short', 'arg': rng.choice([1, 10, 100, 0])})
        if kind == 'standalone':
            return {'kind': kind, 'mode': 'args', 'members': small_members(rng), 'opts': ['--checks=' + rng.choice(['level0,level1,level2,manual', 'level1'])],
                    'env': {}, 'shared': W.SHARED_H % '', 'env_seed': rng.below(1 << 30), 'old': old, 'faults': fs, 'symlink': rng.chance(0.15)}
        ss = S.sequence(rng, rng.weighted([(1, 3), (2, 2), (3, 1)]), p_bad=0.0, ndocs=rng.rng(1, 2))
        for s in ss:
            s['pargs'] = [rng.choice(['level0,level1,level2,manual', 'level1']), 'export-fixes']
        return {'kind': kind, 'sessions': ss, 'env': {}, 'shared': W.SHARED_H % '', 'env_seed': rng.below(1 << 30), 'old': old, 'faults': fs}
    runs = []
    n = rng.weighted([(2, 4), (3, 1)])
    first = None
    for k in range(n):
        ms = small_members(rng) if first is None or rng.chance(0.7) else json.loads(json.dumps(first))
        for m in ms:
            d = m['dir'] + '/p%d' % k
            m['files'] = {d + f[len(m['dir']):]: t for f, t in m['files'].items()}
            m['main'] = d + m['main'][len(m['dir']):]
            m['dir'] = d
        first = first or ms
        runs.append({'members': ms, 'opts': ['--checks=' + rng.choice(['level0,level1,level2,manual', 'level1', 'level0'])],
                     'faults': [{'op': 'write', 'path': '*fixes.yaml', 'nth': 0, 'times': 3, 'act': 'short', 'arg': rng.choice([1, 50, 0])}] if rng.chance(0.4) else []})
    return {'kind': 'race', 'mode': 'args', 'runs': runs, 'env': {}, 'shared': W.SHARED_H % '', 'env_seed': rng.below(1 << 30), 'old': old, 'choice_seed': rng.below(1 << 40),
            'choices': None, 'kill': rng.choice([0, 0, 0, 0.05])}


def placed(faults, ops):
    """the faults with the kill at one of the operations an undisturbed run performs"""
    r = []
    for f in faults:
        if 'pick' in f:
            f = dict(f)
            n = sum(1 for op in ops if f['path'][1:] in op[1] and (op[0] == f['op'] or f['op'] == 'mutate' and op[0] in ('create', 'write', 'close', 'rename', 'unlink', 'sync')))
            f['nth'] = f.pop('pick') % max(n, 1)
        r.append(f)
    return r


def evaluate(sc, R):
    return {'standalone': standalone, 'plugin': plugin, 'race': race}[sc['kind']](sc, R)


def kill_label(sc):
    return ', '.join('%s:%s' % (f['op'], f['act']) for f in sc['faults'])


def standalone(sc, R):
    o = Outcome()
    if not sc['members']:
        return o
    path = V + '/link.fixes.yaml' if sc['symlink'] else OUT
    sp = c01.spec_for(sc, range(len(sc['members'])), ['--export-fixes=' + path])
    if sc['old'] is not None:
        sp['files'][OUT] = sc['old']
    if sc['symlink']:
        sp['files'][path] = {'symlink': OUT}
    want = lambda v: v == path
    clean = R.run(sp, want=want, cached=True)
    if crashed(clean) or clean.files.get(path) in (None, sc['old']):
        return o
    dry = R.run(dict(sp, faults=sp['faults'] + [f for f in sc['faults'] if 'pick' not in f], record=True, env_seed=sc['env_seed'] + 1), want=want)
    sp = dict(sp, faults=sp['faults'] + placed(sc['faults'], dry.res.get('ops', [])), record=True, env_seed=sc['env_seed'] + 1)
    run = R.run(sp, want=want)
    o.count('exports')
    killed = run.status == 77
    new, got = clean.files.get(path), run.files.get(path)
    if got not in (sc['old'], new):
        o.bad('torn', 'after a crash (%s) the fixes file is neither the old nor the complete new one, it has %d of %d bytes:\n%s'
              % (kill_label(sc), len(got or ''), len(new or ''), (got or '(none)')[-300:]))
    if not killed and got != new:
        o.bad('incomplete', 'without a crash the fixes file is not complete')
    o.nontrivial = killed
    if killed:
        o.count('killed')
    o.sig = digest('s', sc['faults'], digest(new), got == new, sc['old'] is None)
    o.sample = {'entry': 'standalone', 'faults': sc['faults'], 'killed': killed, 'file': 'new' if got == new else 'old', 'bytes': len(new or '')}
    return o


def plugin(sc, R):
    o = Outcome()
    ss = sc['sessions']
    if not ss:
        return o
    olds = {S.yaml_of(s): sc['old'] for s in ss if sc['old'] is not None}
    ref = [R.run(S.spec([[s]], sc['shared'], sc['env'], 1), cached=True) for s in ss]
    if any(crashed(r) for r in ref):
        return o
    dry = R.run(S.spec([ss], sc['shared'], sc['env'], sc['env_seed'], faults=[f for f in sc['faults'] if 'pick' not in f], record=True))
    sp = S.spec([ss], sc['shared'], sc['env'], sc['env_seed'], faults=placed(sc['faults'], dry.res.get('ops', [])), record=True)
    sp['files'].update(olds)
    run = R.run(sp)
    o.count('exports', len(ss))
    allowed = {}
    for s, r in zip(ss, ref):
        y = S.yaml_of(s)
        allowed.setdefault(y, [sc['old']])
        if y in r.files:
            allowed[y].append(r.files[y])
    killed = run.status == 77
    for y, a in sorted(allowed.items()):
        got = run.files.get(y)
        if got not in a:
            o.bad('torn', 'after a crash (%s) the fixes file of a session is neither an earlier nor a complete new one, it has %d bytes:\n%s'
                  % (kill_label(sc), len(got or ''), (got or '(none)')[-300:]))
        if not killed and got != a[-1]:
            o.bad('incomplete', 'without a crash the fixes file is not complete')
    o.nontrivial = killed
    if killed:
        o.count('killed')
    o.sig = digest('p', sc['faults'], [digest(r.files) for r in ref], run.files)
    o.sample = {'entry': 'plugin', 'faults': sc['faults'], 'killed': killed, 'sessions': len(ss)}
    return o


def race(sc, R):
    o = Outcome()
    runs = sc['runs']
    specs, allowed = [], [sc['old']]
    files = {V + '/shared.h': sc['shared']}
    if sc['old'] is not None:
        files[OUT] = sc['old']
    for k, r in enumerate(runs):
        one = {'mode': 'args', 'members': r['members'], 'opts': r['opts'], 'env': sc['env'], 'shared': sc['shared'], 'env_seed': 1}
        if not r['members']:
            return o
        sp = c01.spec_for(one, range(len(r['members'])), ['--export-fixes=' + OUT])
        clean = R.run(sp, want=lambda v: v == OUT, cached=True)
        if crashed(clean):
            return o
        allowed.append(clean.files.get(OUT))
        files.update(sp['files'])
        specs.append(dict(sp, faults=r['faults'], env_seed=sc['env_seed'] + 77 * k))
    m = Multi(R, files, specs)
    rng = Rng('conductor', sc['choice_seed'])
    trace, states, made = [], [], []
    try:
        last = None
        fresh_choice = 0
        while True:
            live = [i for i, p in enumerate(m.ps) if not p['done']]
            if not live:
                break
            # operations elsewhere do not interact
            quiet = [i for i in live if 'fixes.yaml' not in m.ps[i]['pending'][1]]
            if quiet:
                m.step(quiet[0])
                continue
            if sc['choices'] is not None:
                i, kill = sc['choices'][fresh_choice] if fresh_choice < len(sc['choices']) else (live[0], False)
                fresh_choice += 1
                if i not in live:
                    i = live[0]
            else:
                i = last if last in live and rng.chance(0.4) else rng.choice(live)
                kill = rng.chance(sc['kill'])
            made.append([i, kill])
            op = m.ps[i]['pending']
            trace.append('%d:%s%s' % (i, op[0], '!' if kill else ''))
            m.step(i, kill)
            last = i
            got = m.read(OUT)
            states.append(digest(got)[:4])
            if got not in allowed:
                o.bad('torn', 'while %d processes export to the same path a reader sees a file that none of them wrote (%d bytes, the complete ones have %s) after %s:\n%s'
                      % (len(runs), len(got or ''), [len(a) if a else 0 for a in allowed], ' '.join(trace[-12:]), (got or '(none)')[:200]))
                break
        if not o.violations:
            rs = m.finish()
            for r in rs:
                c = crashed(r)
                if c:
                    o.bad('crash', 'a process exporting next to another %s' % c)
            if not any(k for _, k in made) and m.read(OUT) not in allowed[1:] and any(a is not None and a != sc['old'] for a in allowed[1:]):
                o.bad('lost', 'no process left its fixes')
    finally:
        m.close()
    o.made = made
    o.count('races')
    o.count('conducted_operations', len(trace))
    who = [t.split(':')[0] for t in trace]
    o.nontrivial = any(who[i] != who[i + 1] and who[i] in who[i + 2:] for i in range(len(who) - 2))
    o.sig = digest('r', trace, states)
    o.sample = {'entry': 'race', 'operations': ' '.join(trace)[:600]}
    return o


def concretise(sc, R):
    if sc['kind'] != 'race' or sc['choices'] is not None:
        return sc
    o = evaluate(sc, R)
    return dict(json.loads(json.dumps(sc)), choices=o.made)


def shrink(sc):
    if sc['kind'] == 'standalone':
        yield from ddmin_lists(sc, ['faults'])
        yield from c01.shrink(sc)
    elif sc['kind'] == 'plugin':
        yield from ddmin_lists(sc, ['faults'])
        yield from ddmin_lists(sc, ['sessions'])
        for k, s in enumerate(sc['sessions']):
            yield from S.shrink_session(sc, ['sessions', k], s)
    else:
        if sc['choices']:
            yield from ddmin_lists(sc, ['choices'])
        if len(sc['runs']) > 2:
            yield from ddmin_lists(sc, ['runs'])
        for k in range(len(sc['runs'])):
            if len(sc['runs'][k]['members']) > 1:
                yield from ddmin_lists(sc, ['runs', k, 'members'])
            if sc['runs'][k]['faults']:
                yield from ddmin_lists(sc, ['runs', k, 'faults'])
