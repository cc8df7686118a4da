"""C07: failing to write the fixes never costs more than the fixes file.

A scenario is a batch (clazy-standalone) or a sequence of plugin sessions exporting fixes, with one to three faults injected into the operations
on the fixes file: create, write, close, rename, unlink, stat, sync, each with the errors a file system returns, and short or interrupted writes.
Oracle: the same run without faults."""
import json

from . import c01
from . import sessions as S
from . import text
from . import workload as W
from .base import Outcome, ddmin_lists
from .core import V, crashed, digest

BUDGET = {'quick': (2400, 50), 'thorough': (100000, 1200)}
LEVEL = 'exploration'
RULE = ('One scenario is one export (standalone batch of 1-3 members, or 1-4 plugin sessions) under one seeded fault sequence. Non-trivial: a fault fired on the fixes file. '
        'Distinct: by entry point, faults fired and resulting file operations.')
ASSUMPTIONS = ['When the directory refuses new files but the old fixes file is writable, clazy writes it in place: no further fault is injected then']

ACTS = {'create': ['ENOSPC', 'EROFS', 'EACCES', 'EMFILE', 'EIO', 'EDQUOT', 'ENAMETOOLONG', 'ENOENT', 'EINTR', 'EEXIST', 'EPERM'],
        'write': ['ENOSPC', 'EIO', 'EDQUOT', 'EINTR', 'EAGAIN', 'short', 'partfull', 'ENOSPC', 'EIO'],
        'close': ['EIO', 'ENOSPC', 'EDQUOT'],  # no EINTR: LLVM blocks all signals while it closes
        'rename': ['EACCES', 'EIO', 'ENOSPC', 'EROFS', 'EXDEV', 'EBUSY', 'EPERM', 'EDQUOT'],
        'stat': ['EACCES', 'EIO'],
        'sync': ['EIO', 'ENOSPC']}
RETRIED = ('EINTR', 'EAGAIN', 'short', 'EEXIST')


def gen_faults(rng, path):
    fs = []
    for _ in range(rng.weighted([(1, 5), (2, 2), (3, 1)])):
        op = rng.weighted([('create', 3), ('write', 5), ('close', 2), ('rename', 3), ('stat', 0.7), ('sync', 0.4)])
        act = rng.choice(ACTS[op])
        f = {'op': op, 'path': path, 'nth': rng.weighted([(0, 5), (1, 2), (2, 1)]), 'times': 1 if act in RETRIED else rng.choice([1, -1]), 'act': act}
        if act == 'short':
            f['arg'] = rng.choice([1, 2, 7, 100, 0])
            f['times'] = rng.choice([1, 2, 20])
        elif act in ('EINTR', 'EAGAIN'):
            f['times'] = rng.choice([1, 2, 5])
        elif act == 'partfull':
            f['times'] = 1
            fs.append(f)
            f = {'op': 'write', 'path': path, 'nth': f['nth'] + 1, 'times': -1, 'act': 'ENOSPC'}
        fs.append(f)
        if rng.chance(0.15):
            fs.append({'op': 'unlink', 'path': path, 'nth': 0, 'times': -1, 'act': rng.choice(['EIO', 'EACCES', 'EBUSY'])})
    if any(f['act'] in ('EACCES', 'EPERM') and f['op'] == 'create' for f in fs):
        fs = [f for f in fs if f['act'] in ('EACCES', 'EPERM') and f['op'] == 'create'][:1]
    return fs


def generate(rng, tier, i):
    old = rng.choice([None, '---\nMainSourceFile: old\nDiagnostics:\n...\n', 'old contents of another run\n' * 40])
    if rng.chance(0.5):
        n = rng.rng(1, 3)
        ms = c01.gen_members(rng, n, p_bad=0.1, shared=True)
        std = ['-std=c++17']
        for m in ms:
            m['flags'] = std
        where = rng.weighted([('abs', 8), ('rel', 1), ('symlink', 1.5), ('full', 0.3), ('nodir', 0.3), ('isdir', 0.3), ('null', 0.2)])
        sc = {'kind': 'standalone', 'mode': 'args', 'members': ms, 'opts': ['--checks=' + rng.choice(['level0,level1,level2,manual', 'level1', 'level2'])], 'env': {},
              'shared': W.SHARED_H % '', 'env_seed': rng.below(1 << 30), 'old': old, 'where': where,
              'faults': gen_faults(rng, '*fixes.yaml') if where not in ('full', 'nodir', 'isdir', 'null') else []}
    else:
        ss = S.sequence(rng, rng.weighted([(1, 3), (2, 2), (3, 1), (4, 0.5)]), p_bad=0.08, ndocs=rng.rng(1, 2))
        for s in ss:
            if 'export-fixes' not in s['pargs'] and len(s['pargs']) < 5:
                s['pargs'] = s['pargs'] + ['export-fixes']
            if rng.chance(0.7):
                s['pargs'] = ['level0,level1,level2,manual', 'export-fixes']
        sc = {'kind': 'plugin', 'sessions': ss, 'env': {}, 'shared': W.SHARED_H % '', 'env_seed': rng.below(1 << 30), 'old': old,
              'faults': gen_faults(rng, '*' + rng.choice(ss)['main'] + '.clazy.yaml')}
    return sc


def lines(t):
    return [l for l in t.split('\n') if l]


def compare_err(o, clean, got, name, what):
    """-> the lines that came on top; complains when some are gone"""
    a, b = lines(clean), lines(got)
    gone, extra = list(a), []
    for l in b:
        if l in gone:
            gone.remove(l)
        else:
            extra.append(l)
    # what was written without a line end is continued by what comes on top
    for k, l in enumerate(extra):
        while l:
            g = max([g for g in gone if l.startswith(g)], key=len, default=None)
            if g is None:
                break
            gone.remove(g)
            l = l[len(g):]
        extra[k] = l
    extra = [l for l in extra if l]
    if gone:
        o.bad('diagnostics-lost', '%s: %d lines of output are lost when the fixes cannot be written, for example:\n%s' % (what, len(gone), '\n'.join(gone[:4])))
    return extra


def fired(sc, r):
    return [f for f, n in zip(sc['faults'], r.res.get('fired') or []) if n]


def evaluate(sc, R):
    return standalone(sc, R) if sc['kind'] == 'standalone' else plugin(sc, R)


PATHS = {'abs': V + '/fixes.yaml', 'rel': 'fixes.yaml', 'symlink': V + '/link-fixes.yaml', 'full': '/dev/full', 'null': '/dev/null', 'nodir': V + '/not/there/fixes.yaml',
         'isdir': V + '/adir-fixes.yaml'}


def spec_standalone(sc, faults):
    sp = c01.spec_for(sc, range(len(sc['members'])), ['--export-fixes=' + PATHS[sc['where']]], record=True)
    real = V + '/fixes.yaml'
    if sc['old'] is not None:
        sp['files'][real] = sc['old']
    if sc['where'] == 'symlink':
        sp['files'][PATHS['symlink']] = {'symlink': real}
    if sc['where'] == 'isdir':
        sp['files'][PATHS['isdir'] + '/x'] = ''
    sp['faults'] = sp['faults'] + faults
    asked = PATHS[sc['where']] if sc['where'] == 'symlink' else real
    return sp, asked


def standalone(sc, R):
    o = Outcome()
    if not sc['members']:
        return o
    plain = dict(sc, where='abs') if sc['where'] in ('full', 'nodir', 'isdir', 'null') else sc
    sp0, real = spec_standalone(plain, [])
    clean = R.run(sp0, want=lambda v: v == real)
    sp, real2 = spec_standalone(sc, sc['faults'])
    nf = len(sp['faults']) - len(sc['faults'])
    run = R.run(sp, want=lambda v: v == real)
    if crashed(clean):
        o.count('crashing_members')
        return o
    o.count('exports')
    hit = [f for f, n in zip(sc['faults'], (run.res.get('fired') or [])[nf:]) if n]
    what = 'clazy-standalone with %s' % (', '.join('%s:%s' % (f['op'], f['act']) for f in hit) or sc['where'])
    c = crashed(run)
    if c or 'returned' not in run.res:
        o.bad('killed', '%s %s\n%s' % (what, c or 'ends the process instead of returning from the export (exit %s)' % run.status, run.err[-800:]))
        return o
    extra = compare_err(o, clean.err, run.err, 'fixes.yaml', what)
    new, got = clean.files.get(real), run.files.get(real)
    if sc['where'] in ('full', 'nodir', 'isdir'):
        if new is not None and new != sc['old']:
            if not extra:
                o.bad('no-message', '%s: no message although the fixes could not be written' % what)
            if run.status == 0:
                o.bad('status', '%s: exit status 0 although the fixes could not be written' % what)
        o.nontrivial = new is not None
        o.sig = digest(sc['where'], run.err)
        return o
    if sc['where'] == 'null':
        if extra or run.status != clean.status:
            o.bad('devnull', 'exporting to /dev/null: %s, exit %d instead of %d' % (extra[:2], run.status, clean.status))
        return o
    if new is None or new == sc['old']:
        if got != new or run.status != clean.status:
            o.bad('nothing-to-export', '%s: nothing was to be exported, yet the file or status changed' % what)
        return o
    fatal = [f for f in hit if f['act'] not in RETRIED]
    if not fatal:
        if got != new:
            o.bad('incomplete', '%s: the fixes file is not complete:\n%s' % (what, text.diff(new, got or '(none)')))
        if run.status != clean.status:
            o.bad('status', '%s: exit status %d instead of %d although nothing fatal happened' % (what, run.status, clean.status))
        if extra:
            o.bad('message', '%s: unexpected message %s' % (what, extra[:2]))
    elif got != new:
        if not any('fixes' in l for l in extra):
            o.bad('no-message', '%s: no message although the fixes could not be written' % what)
        if run.status == 0:
            o.bad('status', '%s: exit status 0 although the fixes could not be written' % what)
        if got != sc['old']:
            o.bad('old-file', '%s: the fixes file of the earlier run was not kept, there is now:\n%s' % (what, (got if got is not None else '(none)')[:400]))
    elif run.status != clean.status and not extra:
        o.bad('no-message', '%s: exit status %d without a message' % (what, run.status))
    elif run.status == clean.status and extra:
        o.count('harmless_message')
    o.nontrivial = bool(hit)
    o.sig = digest('s', sc['where'], [[f['op'], f['act'], f['nth'], f['times']] for f in hit], [[x[0], x[2] < 0, x[4]] for x in run.res['ops'] if 'fixes' in x[1]])
    o.sample = {'entry': 'standalone', 'faults': ['%s:%s nth %d times %d' % (f['op'], f['act'], f['nth'], f['times']) for f in hit], 'exit': run.status,
                'message': extra[:1], 'file': 'new' if got == new else 'old' if got == sc['old'] else 'other'}
    return o


def plugin(sc, R):
    o = Outcome()
    ss = sc['sessions']
    if not ss:
        return o
    olds = {S.yaml_of(s): sc['old'] for s in ss if sc['old'] is not None}
    sp = S.spec([ss], sc['shared'], sc['env'], sc['env_seed'], faults=sc['faults'], record=True)
    sp['files'].update(olds)
    run = R.run(sp)
    ref = [R.run(S.spec([[s]], sc['shared'], sc['env'], 1), cached=True) for s in ss]
    if any(crashed(r) for r in ref):
        o.count('crashing_sessions')
        return o
    o.count('exports', len(ss))
    hit = fired(sc, run)
    what = 'plugin with %s' % ', '.join('%s:%s' % (f['op'], f['act']) for f in hit)
    c = crashed(run)
    if c or 'threads' not in run.res:
        o.bad('killed', '%s: %s\n%s' % (what, c or 'the host process is ended (exit %s)' % run.status, run.err[-800:]))
        return o
    possible = {}
    final = dict(olds)
    for s, j, r in zip(ss, run.res['threads'][0], ref):
        a = r.res['threads'][0][0]
        if j['diag'] != a['diag']:
            o.bad('diagnostics-lost', '%s: the session on %s reports something else:\n%s' % (what, s['unit'], text.diff(a['diag'], j['diag'])))
        if j['ok'] != a['ok']:
            o.bad('status', '%s: the session on %s ends with %s instead of %s' % (what, s['unit'], j['ok'], a['ok']))
        y = S.yaml_of(s)
        possible.setdefault(y, [sc['old']])
        if y in r.files:
            possible[y].append(r.files[y])
            final[y] = r.files[y]
    clean_err = '\n'.join(sum((S.lines_of(r.err) for r in ref), []))
    extra = compare_err(o, clean_err, '\n'.join(S.lines_of(run.err)), '.clazy.yaml', what)
    fatal = [f for f in hit if f['act'] not in RETRIED]
    if not fatal:
        if run.files != final:
            o.bad('incomplete', '%s: the fixes files are not complete:\n%s' % (what, text.diff(json.dumps(final, indent=0, sort_keys=True), json.dumps(run.files, indent=0, sort_keys=True))))
        if extra:
            o.bad('message', '%s: unexpected message %s' % (what, extra[:2]))
    else:
        for y, p in sorted(possible.items()):
            if run.files.get(y) not in p:
                o.bad('old-file', '%s: %s is neither an earlier file nor a complete new one:\n%s' % (what, y, (run.files.get(y) or '(none)')[:400]))
        target = [y for y in possible if any(f['path'][1:] in y or y.endswith(f['path']) for f in fatal)]
        for y in sorted(possible):
            if y not in target and run.files.get(y) != final.get(y):
                o.bad('other-file', '%s: the fixes file %s, on which no fault was injected, is wrong' % (what, y))
        if any(run.files.get(y) != final.get(y) for y in target) and not any('clazy.yaml' in l for l in extra):
            o.bad('no-message', '%s: no message although the fixes could not be written' % what)
    o.nontrivial = bool(hit)
    o.sig = digest('p', [[f['op'], f['act'], f['nth'], f['times']] for f in hit], [[x[0], x[2] < 0, x[4]] for x in run.res['ops'] if 'clazy.yaml' in x[1]])
    o.sample = {'entry': 'plugin', 'sessions': len(ss), 'faults': ['%s:%s nth %d times %d' % (f['op'], f['act'], f['nth'], f['times']) for f in hit], 'message': extra[:1]}
    return o


def shrink(sc):
    yield from ddmin_lists(sc, ['faults'])
    if sc['kind'] == 'standalone':
        yield from c01.shrink(sc)
    else:
        yield from ddmin_lists(sc, ['sessions'])
        for k, s in enumerate(sc['sessions']):
            yield from S.shrink_session(sc, ['sessions', k], s)
    if sc['old']:
        yield dict(json.loads(json.dumps(sc)), old=None)
