"""C12: torn or changing input never crashes, hangs or poisons the analysis.

A scenario is a session sequence, a batch or a clang-tidy run in which one or more inputs are torn (cut at any byte, a tail of zeros,
two versions mixed) or fail while being read, between healthy ones. Oracles: the compiler without clazy on the same torn input (status,
and whether it ends at all), and every healthy member alone in a fresh process."""
import json

from . import c01
from . import sessions as S
from . import text
from . import workload as W
from .base import Outcome, ddmin_lists
from .core import QT, V, crashed, digest

BUDGET = {'quick': (3000, 60), 'thorough': (120000, 1700)}
LEVEL = 'exploration'
RULE = ('One scenario is one seeded sequence of 2-8 analyses in one simulated process, most of them of torn inputs (cut at a seeded byte, optionally with the open brackets '
        'closed; a zeroed tail; two versions mixed; read faults). Non-trivial: at least one torn input was analysed and did not compile, or gave another output than the whole one. '
        'Distinct: by everything that was reported.')
ASSUMPTIONS = ['An input on which the compiler itself crashes or does not end is not judged',
               'Torn files belong to one member of a batch: what is done to a shared header is not an accident of one member']


def close_brackets(t):
    """what a recovering editor would leave: open brackets closed (comments and literals are skipped roughly)"""
    st = []
    i, n = 0, len(t)
    while i < n:
        c = t[i]
        if t.startswith('//', i):
            j = t.find('\n', i)
            if j < 0:
                t += '\n'
                break
            i = j
        elif t.startswith('/*', i):
            j = t.find('*/', i)
            if j < 0:
                t += '*/\n'
                break
            i = j + 1
        elif c in '"\'':
            j = i + 1
            while j < n and t[j] != c and t[j] != '\n':
                j += 2 if t[j] == '\\' else 1
            if j >= n:
                t += c
            i = j
        elif c in '([{':
            st.append(c)
        elif c in ')]}' and st:
            st.pop()
        i += 1
    out = ''
    for c in reversed(st):
        out += {'(': ')', '[': ']', '{': ';}'}[c]
    return t + out + ';\n'


def tear(rng, t):
    n = len(t)
    k = rng.weighted([('cut', 3), ('line', 2), ('closed', 5), ('zeros', 0.7), ('mixed', 1.5), ('hole', 2), ('eol', 0.4)])
    at = rng.below(n + 1)
    if k == 'cut':
        return t[:at]
    if k == 'line':
        return t[:t.rfind('\n', 0, at) + 1]
    if k == 'closed':
        return close_brackets(t[:at])
    if k == 'zeros':
        return t[:at] + '\0' * min(n - at, rng.choice([1, 7, 512]))
    if k == 'mixed':
        u = W.mutate(rng, t, rng.rng(1, 3))
        return u[:at] + t[at:]
    if k == 'hole':
        # a block is missing in the middle
        return t[:at] + t[at + rng.choice([1, 3, 8, 30, 100, 512]):]
    return t.replace('\n', '\r') if rng.chance(0.3) else t.rstrip('\n')


def read_fault(rng, path):
    return rng.choice([{'op': 'read', 'path': path, 'nth': rng.below(2), 'times': -1, 'act': 'EIO'},
                       {'op': 'open', 'path': path, 'nth': 0, 'times': -1, 'act': rng.choice(['ENOENT', 'EACCES', 'EIO', 'EMFILE'])},
                       {'op': 'read', 'path': path, 'nth': 0, 'times': -1, 'act': 'eof'},
                       {'op': 'read', 'path': path, 'nth': 0, 'times': 1, 'act': 'short', 'arg': rng.rng(1, 400)}])


def generate(rng, tier, i):
    rng.lookalike = 0.3
    kind = rng.weighted([('sessions', 6), ('batch', 3), ('tidy', 1)])
    n = rng.weighted([(2, 1), (4, 3), (6, 2), (8, 1)])
    bias = rng.choice(['all', 'all', 'levels'])
    sc = {'kind': kind, 'members': [], 'shared': W.SHARED_H % '', 'env_seed': rng.below(1 << 30), 'env': {},
          'checks': ','.join(W.all_checks()) if bias == 'all' else W.checks_arg(rng) or 'level2', 'only_qt': rng.chance(0.05), 'export': rng.chance(0.4), 'ignore_included': rng.chance(0.08)}
    if 'manual' == sc['checks']:
        sc['checks'] = 'level2'
    base = None
    for k in range(n):
        if base is None or rng.chance(0.35):
            base = S.doc(rng, 'b%d' % k, shared=rng.chance(0.2), p_mut=0.6)
        d = W.place(rng, 'd%d' % k)
        files = {d + f[len(base['dir']):]: t for f, t in base['files'].items()}
        m = {'unit': base['unit'], 'dir': d, 'main': d + base['main'][len(base['dir']):], 'files': files, 'flags': list(base['flags']), 'fault': None, 'torn': False, 'mode': 'syntax'}
        if rng.chance(0.75):
            m['torn'] = True
            fs = [f for f in sorted(files) if isinstance(files[f], str)]
            f = m['main'] if rng.chance(0.8) else rng.choice(fs)
            if rng.chance(0.1):
                m['fault'] = read_fault(rng, f)
            elif rng.chance(0.25):
                # edited in an unusual way rather than torn
                for _ in range(rng.rng(1, 4)):
                    files[f] = W.reshape(rng, files[f])
            else:
                files[f] = tear(rng, files[f])
        if rng.chance(0.15):
            m['mode'] = 'llvm'
        sc['members'].append(m)
    return sc


def pargs(sc):
    return [sc['checks']] + (['only-qt'] if sc['only_qt'] else []) + (['export-fixes'] if sc['export'] else []) + (['ignore-included-files'] if sc['ignore_included'] else [])


def sess(sc, m):
    return {'main': m['main'], 'files': m['files'], 'flags': m['flags'], 'pargs': pargs(sc), 'mode': m['mode'] if sc['kind'] == 'sessions' else 'syntax', 'unit': m['unit'],
            'cc1': ['-fno-caret-diagnostics']}


def spec(sc, which):
    ms = [sc['members'][k] for k in which]
    faults = [m['fault'] for m in ms if m['fault']]
    if sc['kind'] == 'sessions':
        sp = S.spec([[sess(sc, m) for m in ms]], sc['shared'], sc['env'], sc['env_seed'], faults=faults)
    elif sc['kind'] == 'batch':
        opts = ['--checks=' + sc['checks']] + (['--only-qt'] if sc['only_qt'] else []) + (['--ignore-included-files'] if sc['ignore_included'] else [])
        b = {'mode': 'db', 'members': ms, 'opts': opts, 'shared': sc['shared'], 'env': sc['env'], 'env_seed': sc['env_seed']}
        sp = c01.spec_for(b, range(len(ms)), ['--export-fixes=' + V + '/fixes.yaml'] if sc['export'] else [])
    else:
        runs = []
        files = {V + '/shared.h': sc['shared']}
        for m in ms:
            files.update(m['files'])
            runs.append({'checks': '-*,clazy-*', 'args': W.QTFLAGS + m['flags'], 'dir': V, 'srcs': [m['main']], 'files': {}})
        sp = {'kind': 'tidy', 'runs': runs, 'files': files, 'env': sc['env'], 'env_seed': sc['env_seed'], 'faults': faults, 'record': False}
    sp['allow_timeout'] = True
    sp['timeout'] = 20 if len(which) == 1 else 60
    return sp


def plain(sc, k, R):
    m = sc['members'][k]
    sp = S.spec([[sess(sc, m)]], sc['shared'], {}, 1, plugin=False, faults=[m['fault']] if m['fault'] else [])
    sp['allow_timeout'] = True
    sp['timeout'] = 15
    return R.run(sp, cached=True)


def evaluate(sc, R):
    o = Outcome()
    ms = sc['members']
    if not ms:
        return o
    want = lambda v: v.endswith('.yaml')
    run = R.run(spec(sc, range(len(ms))), want=want)
    c = crashed(run)
    o.count(sc['kind'] + '_runs')
    o.count('torn_inputs', sum(1 for m in ms if m['torn']))
    if c:
        blamed = False
        for k, m in enumerate(ms):
            a = R.run(spec(sc, [k]), want=want, cached=True)
            if crashed(a):
                p = plain(sc, k, R)
                if crashed(p):
                    o.count('compiler_crashes_or_hangs')
                    return o
                blamed = True
                o.bad('crash:' + (a.res.get('where') or m['unit'].split('/')[0]), 'clazy is %s on a torn input (%s, %s) on which the compiler alone ends normally\n%s'
                      % (crashed(a), m['unit'], sc['kind'], a.err[-600:]))
        if not blamed:
            o.bad('sequence-crash', 'the sequence is %s although no member alone is\n%s' % (c, run.err[-800:]))
        return o
    outs = []
    if sc['kind'] == 'sessions':
        jobs = run.res['threads'][0]
        for k, (m, j) in enumerate(zip(ms, jobs)):
            p = plain(sc, k, R)
            if crashed(p):
                continue
            pj = p.res['threads'][0][0]
            outs.append(j['diag'])
            if j['ok'] != pj['ok']:
                o.bad('status', 'session %d (%s) ends with %s, the compiler alone with %s' % (k + 1, m['unit'], j['ok'], pj['ok']))
            mine = [l for l in j['diag'].split('\n') if is_error(l)]
            theirs = [l for l in pj['diag'].split('\n') if is_error(l)]
            if mine != theirs:
                o.bad('errors', 'session %d (%s) does not report the errors of the compiler:\n%s' % (k + 1, m['unit'], text.diff('\n'.join(theirs), '\n'.join(mine))))
            if not pj['ok']:
                o.count('failing_torn_inputs' if m['torn'] else 'failing_members')
                o.nontrivial = o.nontrivial or m['torn']
            a = R.run(spec(sc, [k]), want=want, cached=True)
            if crashed(a):
                o.bad('alone-crash', 'session %d ends abnormally alone but not in the sequence' % (k + 1))
                continue
            if a.res['threads'][0][0]['diag'] != j['diag']:
                o.bad('poisoned', 'session %d (%s, %s) reports something else than alone:\n%s'
                      % (k + 1, m['unit'], 'torn' if m['torn'] else 'whole', text.diff(a.res['threads'][0][0]['diag'], j['diag'])))
            y = m['main'] + '.clazy.yaml'
            if a.files.get(y) != run.files.get(y):
                o.bad('poisoned-export', 'session %d (%s) exports something else than alone:\n%s' % (k + 1, m['unit'], text.diff(a.files.get(y) or '', run.files.get(y) or '')))
            if j['fdleak']:
                o.bad('fdleak', 'session %d (%s) leaves %d file descriptors open' % (k + 1, m['unit'], j['fdleak']))
    elif sc['kind'] == 'batch':
        _, segs = text.segments(run.err)
        if len(ms) == 1:
            segs = [(ms[0]['main'], run.err)]
        got = {}
        for f, t in segs:
            got.setdefault(f, []).append(t)
        bad = False
        for k, m in enumerate(ms):
            p = plain(sc, k, R)
            bad = bad or crashed(p) or not p.res['threads'][0][0]['ok']
            a = R.run(spec(sc, [k]), want=want, cached=True)
            if crashed(a):
                o.bad('alone-crash', 'member %d ends abnormally alone but not in the batch' % (k + 1))
                continue
            outs.append('\n'.join(got.get(m['main'], ['?'])))
            if c01.strip_once(a.err) != c01.strip_once('\n'.join(got.get(m['main'], ['?']))):
                o.bad('poisoned', 'member %d (%s, %s) reports something else than alone:\n%s'
                      % (k + 1, m['unit'], 'torn' if m['torn'] else 'whole', text.diff(c01.strip_once(a.err), c01.strip_once('\n'.join(got.get(m['main'], ['?']))))))
            if not p.res.get('threads') or not p.res['threads'][0][0]['ok']:
                o.count('failing_torn_inputs' if m['torn'] else 'failing_members')
                o.nontrivial = o.nontrivial or m['torn']
        if bad and run.status == 0:
            o.bad('status', 'a batch with members that do not compile ends with status 0')
    else:
        for k, (m, t) in enumerate(zip(ms, run.res.get('tidy') or [])):
            a = R.run(spec(sc, [k]), want=want, cached=True)
            if crashed(a):
                o.bad('alone-crash', 'clang-tidy run %d ends abnormally alone but not in the sequence' % (k + 1))
                continue
            outs.append(json.dumps(t))
            if a.res['tidy'][0] != t:
                o.bad('poisoned', 'clang-tidy run %d (%s) reports something else than alone:\n%s' % (k + 1, m['unit'], text.diff(json.dumps(a.res['tidy'][0], indent=0), json.dumps(t, indent=0))))
            o.nontrivial = o.nontrivial or m['torn']
    o.sig = digest(outs)
    o.sample = {'kind': sc['kind'], 'members': [[m['unit'], m['torn'], m['fault']] for m in ms], 'checks': sc['checks'][:80]}
    return o


def is_error(l):
    m = text.DIAG.match(l)
    return (m and 'error' in m.group(4)) or l.startswith(('error:', 'fatal error:'))


def shrink(sc):
    yield from ddmin_lists(sc, ['members'])
    cs = sc['checks'].split(',')
    if len(cs) > 1:
        for part in (cs[:len(cs) // 2], cs[len(cs) // 2:]):
            yield dict(json.loads(json.dumps(sc)), checks=','.join(part))
    for k in ('only_qt', 'export', 'ignore_included'):
        if sc[k]:
            yield dict(json.loads(json.dumps(sc)), **{k: False})
    for k, m in enumerate(sc['members']):
        if m['fault']:
            c = json.loads(json.dumps(sc))
            c['members'][k]['fault'] = None
            yield c
        for f in sorted(m['files']):
            if isinstance(m['files'][f], str):
                yield from c01.shrink_text(sc, ['members', k, 'files', f], m['files'][f])
