"""Plugin sessions: what an IDE or a compile server does with the plugin inside one process."""
import json

from . import workload as W
from .core import V, crashed, digest

TRIPLE = ['-triple', 'x86_64-unknown-linux-gnu']


def doc(rng, name, shared=False, p_mut=0.3, healthy=False):
    """a document: a source file with its private headers, in a directory of its own"""
    u = W.pick_unit(rng, healthy)
    d = W.place(rng, name)
    files = {d + '/' + n: t for n, t in u.files.items()}
    main = d + '/' + u.main
    if rng.chance(p_mut):
        files[main] = W.mutate(rng, files[main], rng.rng(1, 3))
    if shared:
        files[main] = '#include "%s/shared.h"\n' % V + files[main]
    return {'unit': u.name, 'dir': d, 'main': main, 'files': files, 'flags': W.variant(rng, u.flags, healthy)}


def plugin_args(rng, export=0.3):
    a = []
    c = W.checks_arg(rng)
    if c:
        a.append(c)
        if c not in ('level0', 'level1', 'level2') and rng.chance(0.3):
            a.append(rng.choice(['level0', 'level1', 'level2']))
    if rng.chance(export):
        a.append('export-fixes')
    if rng.chance(0.12):
        a.append('only-qt')
    if rng.chance(0.08):
        a.append('qt-developer')
    if rng.chance(0.08):
        a.append('visit-implicit-code')
    if rng.chance(0.08):
        a.append('ignore-included-files')
    rng.shuffle(a)
    return a


def odd_args(rng):
    """arguments that end in a message instead of an analysis, or add one"""
    return rng.choice([['level0', 'level1'], ['no-such-check'], ['help'], ['level1', 'print-requested-checks'], ['no-such-check,qstring-arg'],
                       ['level0', 'export-fixes', 'level9'], ['export-fixes', 'no-such-check'], ['level7'], [''], ['export-fixes', 'export-fixes']])


def session(rng, d, pargs=None, mode=None):
    s = {'main': d['main'], 'files': dict(d['files']), 'flags': list(d['flags']), 'pargs': plugin_args(rng) if pargs is None else pargs,
         'mode': mode or rng.weighted([('syntax', 5), ('llvm', 1)]), 'unit': d['unit']}
    if rng.chance(0.05):
        s['flags'].append('-Werror')
    return s


def args(s, plugin=True):
    a = list(TRIPLE)
    if s['mode'] == 'llvm':
        a += ['-emit-llvm', '-o', s['main'] + '.ll']
    elif s['mode'] == 'obj':
        a += ['-emit-obj', '-o', s['main'] + '.o']
    else:
        a += ['-fsyntax-only']
    if plugin:
        a += ['-add-plugin', 'clazy']
    if plugin:
        for x in s['pargs']:
            a += ['-plugin-arg-clazy', x]
    a += W.QTFLAGS_CC1 + s['flags'] + s.get('cc1', []) + ['-fcxx-exceptions', '-fexceptions', '-x', 'c++', s['main']]
    return a


def job(s, plugin=True):
    return {'args': args(s, plugin), 'files': s['files']}


def edit(rng, d):
    """the user edits the document"""
    r = rng.below(10)
    if rng.chance(0.06):
        # built for another target
        d['flags'] = W.variant(rng, [f for f in d['flags'] if not f.startswith('-D')])
    if r < 7:
        if isinstance(d['files'].get(d['main']), str):
            d['files'][d['main']] = W.mutate(rng, d['files'][d['main']], rng.rng(1, 3))
    elif r < 8:
        k = rng.choice(sorted(d['files']))
        if isinstance(d['files'][k], str):
            d['files'][k] = W.mutate(rng, d['files'][k], 1)
    elif r < 9:
        # a different document takes this one's place: same path, new contents
        u = W.pick_unit(rng)
        d['files'][d['main']] = u.files[u.main]
        for n, t in u.files.items():
            if n != u.main:
                d['files'][d['dir'] + '/' + n] = t
        d['flags'] = W.variant(rng, u.flags)
        d['unit'] = u.name
    else:
        t = d['files'].get(d['main'])
        if isinstance(t, str):
            d['files'][d['main']] = t + '\n' + W.suppression(rng) + '\n'


def broken(rng, s):
    k = rng.below(7)
    m = s['main']
    t = s['files'].get(m)
    if not isinstance(t, str):
        return
    if k == 0:
        s['files'][m] = {'remove': True}
    elif k == 1:
        s['files'][m] = ''
    elif k == 2:
        s['files'][m] = t[:rng.below(len(t) + 1)]
    elif k == 3:
        s['files'][m] = '#include "not_there.h"\n' + t
    elif k == 4:
        s['files'][m] = t + '\nclass Broken { int a; undeclared x; \n'
    elif k == 5:
        s['pargs'] = odd_args(rng)
    else:
        s['flags'] = s['flags'] + ['-no-such-flag']


def sequence(rng, n, prefix='d', shared=True, p_bad=0.18, ndocs=None, p_less=0.15):
    """n sessions over a few documents"""
    docs = [doc(rng, '%s%d' % (prefix, k), shared=shared and rng.chance(0.4)) for k in range(ndocs or rng.weighted([(1, 3), (2, 3), (3, 2), (4, 1)]))]
    if len(docs) > 1 and rng.chance(0.4):
        # the same source under two names
        a, b = docs[0], docs[1]
        b['files'] = {b['dir'] + k[len(a['dir']):]: t for k, t in a['files'].items()}
        b['main'] = b['dir'] + a['main'][len(a['dir']):]
        b['flags'], b['unit'] = list(a['flags']), a['unit']
        if rng.chance(0.7):
            edit(rng, b)
    r = []
    pargs = plugin_args(rng)
    # now and then what changes is whether something is declared: a first version of the document, then others that lack one declaration each
    first = dict(docs[0]['files']) if n > 1 and rng.chance(p_less) else None
    for i in range(n):
        d = docs[0] if first else rng.choice(docs)
        if first and rng.chance(0.85):
            d['files'] = dict(first)
            if i and isinstance(first.get(d['main']), str):
                d['files'][d['main']] = W.drop_declaration(rng, first[d['main']])
            r.append(session(rng, d, list(pargs), 'syntax'))
            continue
        if i and rng.chance(0.6):
            edit(rng, d)
        if rng.chance(0.4):
            pargs = plugin_args(rng)
        s = session(rng, d, list(pargs))
        if rng.chance(p_bad):
            broken(rng, s)
        r.append(s)
    return r


def spec(threads, shared, env, env_seed, sched=None, faults=(), record=False, plugin=True, alloc=None):
    sp = {'kind': 'plugin', 'threads': [[job(s, plugin) for s in t] for t in threads], 'files': {V + '/shared.h': shared}, 'env': env, 'env_seed': env_seed,
          'faults': list(faults), 'record': record}
    if sched:
        sp['sched'] = sched
    if alloc:
        sp['alloc'] = alloc
    return sp


def yaml_of(s):
    return s['main'] + '.clazy.yaml'


def lines_of(err):
    """what sessions print directly to stderr; the complaint about unknown names in CLAZY_CHECKS comes once per process"""
    return sorted(l for l in err.split('\n') if l and not l.startswith('Invalid check'))


def shrink_session(sc, path, s):
    from .c01 import shrink_text
    c = json.dumps(sc)

    def put(v, *p):
        x = json.loads(c)
        y = x
        for q in path + list(p[:-1]):
            y = y[q]
        y[p[-1]] = v
        return x
    for i, a in enumerate(s['pargs']):
        yield put(s['pargs'][:i] + s['pargs'][i + 1:], 'pargs')
        if ',' in a:
            cs = a.split(',')
            for part in (cs[:len(cs) // 2], cs[len(cs) // 2:]):
                yield put(s['pargs'][:i] + [','.join(part)] + s['pargs'][i + 1:], 'pargs')
    for i, a in enumerate(s['flags']):
        if a.startswith('-D'):
            yield put(s['flags'][:i] + s['flags'][i + 1:], 'flags')
    if s['mode'] != 'syntax':
        yield put('syntax', 'mode')
    for f in sorted(s['files']):
        if isinstance(s['files'][f], str):
            yield from shrink_text(sc, path + ['files', f], s['files'][f])


def shrink_env(sc):
    for k in sorted(sc['env']):
        x = json.loads(json.dumps(sc))
        del x['env'][k]
        yield x
