"""C05: the fixes file of a batch is complete.

A scenario is a batch as in C01 with --export-fixes. Oracles: the file of the batch holds exactly the entries of the files that each unit
gives when it is exported alone by a fresh process; and what one unit exports is exactly what was printed for it, fix-its included."""
import json

from . import c01
from . import text
from . import workload as W
from .base import Outcome
from .core import V, crashed, digest

BUDGET = {'quick': (640, 60), 'thorough': (30000, 1500)}
LEVEL = 'exploration'
RULE = ('One scenario is one seeded batch (as in C01) exported to one file. Non-trivial: at least two members export something. Distinct: by the exported file.')
ASSUMPTIONS = ['A batch without any warning may leave the file of an earlier run alone or leave none', 'Members do not share files other than shared.h']
OUT = V + '/fixes.yaml'


def generate(rng, tier, i):
    sc = c01.generate(rng, tier, i)
    sc['old'] = rng.choice([None, None, '', 'old contents\n', '---\nMainSourceFile: old\nDiagnostics:\n  - DiagnosticName: clazy-old\n...\n'])
    sc['env'].pop('CLAZY_CHECKS_AS_ERRORS', None) if rng.chance(0.7) else None
    sc['where'] = rng.weighted([('abs', 4), ('rel', 1), ('symlink', 1), ('dir', 1), ('odd', 0.5)])
    return sc


def spec_for(sc, which, extra=()):
    path = {'abs': OUT, 'rel': 'fixes.yaml', 'symlink': V + '/link.yaml', 'dir': V + '/sub/dir/fixes.yaml', 'odd': V + '/100% of "them": é.yaml'}[sc['where']]
    sp = c01.spec_for(sc, which, ['--export-fixes=' + path] + list(extra))
    real = path if sc['where'] in ('dir', 'odd') else OUT
    if sc['old'] is not None or sc['where'] == 'symlink':
        sp['files'][real] = sc['old'] or ''
    elif sc['where'] == 'dir':
        sp['files'][V + '/sub/dir/readme'] = ''
    if sc['where'] == 'symlink':
        sp['files'][path] = {'symlink': OUT}
    return sp, real


def evaluate(sc, R):
    o = Outcome()
    n = len(sc['members'])
    if n == 0:
        return o
    sp, real = spec_for(sc, range(n))
    batch = R.run(sp, want=lambda v: v == real)
    c = crashed(batch)
    alone, entries = [], []
    want = lambda v: v == OUT
    one = dict(sc, old=None, where='abs')
    for k in range(n):
        s1, _ = spec_for(one, [k], ['--extra-arg=-fdiagnostics-parseable-fixits'])
        a = R.run(s1, want=want, cached=True)
        if crashed(a):
            o.count('crashing_members')
            if not c:
                o.bad('alone-crash', 'member %d alone ends abnormally but not in the batch' % (k + 1))
            return o
        y = a.files.get(OUT)
        for p in text.export_problems(a.err, y, s1['files']):
            o.bad('alone-export:' + p.split(' ')[0], 'member %d (%s) alone: %s' % (k + 1, sc['members'][k]['unit'], p))
        alone.append(a)
        entries.append(text.yaml_entries(y) if y is not None else [])
    if c:
        o.bad('batch-crash', 'the batch run was %s although no member alone is\n%s' % (c, batch.err[-1500:]))
        return o
    if any(e is None for e in entries):
        return o
    expected = sorted(sum(entries, []))
    o.count('members', n)
    o.count('exported_diagnostics', len(expected))
    got = batch.files.get(real)
    if expected:
        g = text.yaml_entries(got) if got is not None else None
        if got is None:
            o.bad('missing', 'no fixes file although the members export %d diagnostics' % len(expected))
        elif g is None:
            o.bad('malformed', 'the fixes file is not one complete document:\n' + got[:600])
        elif sorted(g) != expected:
            o.bad('differs', 'the fixes file of the batch has %d diagnostics, the members exported alone %d:\n%s'
                  % (len(g), len(expected), text.diff('\n'.join(expected), '\n'.join(sorted(g)))))
    else:
        g = text.yaml_entries(got) if got and got != sc['old'] else []
        if g is None or g:
            o.bad('invented', 'nothing was to be exported but the fixes file has\n' + got[:600])
    o.nontrivial = sum(1 for e in entries if e) >= 2
    o.sig = digest(got)
    o.sample = {'mode': sc['mode'], 'opts': [x[:120] for x in sc['opts']], 'where': sc['where'], 'members': [m['unit'] for m in sc['members']],
                'exported_per_member': [len(e) for e in entries], 'exit': batch.status}
    return o


def shrink(sc):
    yield from c01.shrink(sc)
    for k, v in (('old', None), ('where', 'abs')):
        if sc[k] != v:
            yield dict(json.loads(json.dumps(sc)), **{k: v})
