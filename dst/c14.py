"""C14: the plugin is transparent to the compilation it rides on.

A scenario compiles 1-3 seeded sources (some broken) to IR, objects or nothing, one after another in one process, with the plugin under
seeded arguments and seeded export failures. Oracle: the same compilation by a fresh process without the plugin."""
import json
import re

from . import c07
from . import sessions as S
from . import text
from . import workload as W
from .base import Outcome, ddmin_lists
from .core import V, crashed, digest

BUDGET = {'quick': (4000, 55), 'thorough': (120000, 1500)}
LEVEL = 'exploration'
RULE = ('One scenario is 1-3 seeded compilations (IR, object file, syntax only; broken sources, warnings as errors, PCH-free) with the plugin in one process, with seeded arguments '
        'and faults on the fixes file. Non-trivial: the plugin reported something and the compiler produced an output file or a diagnostic of its own. Distinct: by outputs and diagnostics.')
ASSUMPTIONS = ['Where clazy warnings are errors by the user\'s wish (-Werror, CLAZY_CHECKS_AS_ERRORS) and there are some, the compilation has to fail and is not compared further',
               '-Wpadded is left out: clang reports it whenever somebody asks for the layout of a type',
               'Counts of generated warnings and include stacks are not compared']

WARN = ['-Wall', '-Wextra', '-Wshadow', '-Wunused', '-Weverything', '-Wno-unused-value', '-Wconversion', '-pedantic', '-Wdeprecated', '-w', '-Wno-everything', '-Wsystem-headers', '-Wno-error', '-Wfatal-errors']
CODE = ['-O1', '-O2', '-O3', '-disable-llvm-passes', '-debug-info-kind=standalone', '-dwarf-version=4', '-ftrapv', '-fvisibility=hidden', '-mframe-pointer=all']


def generate(rng, tier, i):
    rng.lookalike = 0.15
    env = W.env_swarm(rng)
    ss = S.sequence(rng, rng.weighted([(1, 5), (2, 2), (3, 1)]), p_bad=0.2)
    for s in ss:
        s['mode'] = rng.weighted([('llvm', 4), ('obj', 2), ('syntax', 1.5)])
        if rng.chance(0.6):
            s['flags'] = s['flags'] + rng.sample(WARN, rng.rng(1, 3))
        if '-Weverything' in s['flags']:
            s['flags'] = s['flags'] + ['-Wno-padded', '-Wno-padded-bitfield']
        s['cc1'] = rng.sample(CODE, rng.rng(0, 2)) if s['mode'] != 'syntax' else []
        s['cc1'] += ['-fno-caret-diagnostics', '-ferror-limit']
        # where the user's wish makes errors of clazy's warnings, they count for the limit
        s['cc1'].append('0' if 'CLAZY_CHECKS_AS_ERRORS' in env or any('-Werror' in x for x in s['flags']) else rng.weighted([('0', 4), ('1', 1), ('3', 0.5)]))
        if rng.chance(0.25) and 'export-fixes' not in s['pargs']:
            s['pargs'] = s['pargs'] + ['export-fixes']
    faults = c07.gen_faults(rng, '*' + rng.choice(ss)['main'] + '.clazy.yaml') if rng.chance(0.35) else []
    return {'sessions': ss, 'env': env, 'shared': W.SHARED_H % '', 'env_seed': rng.below(1 << 30), 'faults': faults}


def compiler_lines(t):
    """what the compiler itself said, and whether clazy reported errors"""
    r, keep, last = [], True, False
    clazy_errors = False
    n = 0
    for l in text.joined(t).split('\n'):
        if l.startswith(('In file included from', 'In module')) or re.match(r'^\d+ (warning|error)s?( and \d+ errors?)? generated', l) or not l:
            continue
        m = text.DIAG.match(l) or re.match(r'^()()()(warning|error|fatal error|note): (.*)$', l)
        if m and m.group(4) != 'note':
            clazy = text.is_clazy(m.group(5)) or (m.group(5) == 'Type declared here:' and last)
            last = clazy
            keep = not clazy
            n += clazy
            if clazy and m.group(4) != 'warning':
                clazy_errors = True
        if keep:
            r.append(l)
    return r, clazy_errors, n


def evaluate(sc, R):
    o = Outcome()
    ss = sc['sessions']
    if not ss:
        return o
    outs = lambda v: v.endswith(('.ll', '.o', '.s'))
    run = R.run(S.spec([ss], sc['shared'], sc['env'], sc['env_seed'], faults=sc['faults']), want=outs)
    # the files are those of each session's time; outputs of an earlier session at the same path are replaced or removed
    ref = [R.run(S.spec([[s]], sc['shared'], sc['env'], 1, plugin=False), want=outs, cached=True) for s in ss]
    rc = [crashed(r) for r in ref]
    if any(rc):
        o.count('crashing_compilations')
        return o
    c = crashed(run)
    if c:
        o.bad('crash', 'with the plugin the compiler ends abnormally: %s\n%s' % (c, run.err[-1000:]))
        return o
    produced, reported = 0, 0
    # outputs of an earlier session stay, or are removed by a failing one
    final = R.run(S.spec([ss], sc['shared'], sc['env'], 1, plugin=False), want=outs, cached=True).files
    exempt = set()
    for k, (s, j, r) in enumerate(zip(ss, run.res['threads'][0], ref)):
        a = r.res['threads'][0][0]
        want, _, _ = compiler_lines(a['diag'])
        got, clazy_errors, n = compiler_lines(j['diag'])
        reported += n
        o.count('compilations')
        out = s['main'] + ('.ll' if s['mode'] == 'llvm' else '.o')
        if clazy_errors:
            if not any('-Werror' in x for x in s['flags']) and 'CLAZY_CHECKS_AS_ERRORS' not in sc['env']:
                o.bad('errors', 'the plugin reports errors nobody asked for in compilation %d (%s)' % (k + 1, s['unit']))
            if j['ok']:
                o.bad('status', 'compilation %d (%s) succeeds in spite of clazy errors' % (k + 1, s['unit']))
            exempt.add(out)
            continue
        if s['mode'] != 'syntax':
            if out in r.files:
                exempt.discard(out)
                produced += 1
        what = 'compilation %d (%s %s, plugin arguments %s)' % (k + 1, s['unit'], s['mode'], ' '.join(s['pargs'])[:150])
        if j['ok'] != a['ok']:
            o.bad('status', '%s %s with the plugin but %s without it' % (what, *('succeeds' if x else 'fails' for x in (j['ok'], a['ok']))))
        if want != got:
            o.bad('compiler-diagnostics', '%s: the compiler\'s own diagnostics differ:\n%s' % (what, text.diff('\n'.join(want), '\n'.join(got))))
        produced += bool(want)
    for f in sorted(set(final) | set(run.files)):
        if f in exempt:
            continue
        if final.get(f) != run.files.get(f):
            o.bad('output', 'the output file %s %s' % (f, 'differs from the one compiled without the plugin' if f in final and f in run.files else 'exists only %s the plugin' % ('without' if f in final else 'with')))
    o.count('outputs', len(final))
    o.nontrivial = reported > 0 and produced > 0
    o.sig = digest([j['diag'] for j in run.res['threads'][0]], run.files)
    o.sample = {'sessions': [[s['unit'], s['mode'], ' '.join(s['flags'] + s['cc1']), ' '.join(s['pargs'])[:80]] for s in ss], 'faults': sc['faults'], 'outputs': sorted(final)}
    return o


def shrink(sc):
    yield from ddmin_lists(sc, ['sessions'])
    if sc['faults']:
        yield from ddmin_lists(sc, ['faults'])
    yield from S.shrink_env(sc)
    for k, s in enumerate(sc['sessions']):
        for i in range(len(s['flags'])):
            if s['flags'][i].startswith('-W'):
                c = json.loads(json.dumps(sc))
                del c['sessions'][k]['flags'][i]
                yield c
        yield from S.shrink_session(sc, ['sessions', k], s)
