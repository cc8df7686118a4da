"""C04: repeated plugin sessions in one process do not influence each other.

A scenario is a sequence of sessions (edits, other documents, other arguments, rejected and failing sessions) in one thread of one
process. Oracle: each session run by a fresh process on the same files."""
import json

from . import sessions as S
from . import text
from . import workload as W
from .base import Outcome, ddmin_lists
from .core import V, crashed, digest

BUDGET = {'quick': (2000, 90), 'thorough': (40000, 1500)}
LEVEL = 'exploration'
RULE = ('One scenario is one seeded sequence of 2-10 plugin sessions over 1-4 documents in one simulated process (edits, replaced files, changed arguments, '
        'rejected arguments, missing or broken files), each compared with a fresh process. Non-trivial: at least two sessions produced clazy diagnostics. '
        'Distinct: by all the sessions\' output.')
ASSUMPTIONS = ['The message about unknown names in CLAZY_CHECKS is printed once per process by design and not compared']


def generate(rng, tier, i):
    n = rng.weighted([(2, 2), (3, 3), (4, 2), (6, 1.5), (10, 0.7)])
    return {'sessions': S.sequence(rng, n, p_less=0.35), 'shared': W.SHARED_H % ('' if rng.chance(0.5) else W.suppression(rng).replace('clazy:skip', '')),
            'env': W.env_swarm(rng), 'env_seed': rng.below(1 << 30), 'alloc': W.gen_alloc(rng) if rng.chance(0.4) else None}


def fresh(sc, s, R):
    return R.run(S.spec([[s]], sc['shared'], sc['env'], 1), cached=True)


def evaluate(sc, R):
    o = Outcome()
    ss = sc['sessions']
    if not ss:
        return o
    run = R.run(S.spec([ss], sc['shared'], sc['env'], sc['env_seed'], alloc=sc['alloc']))
    ref = [fresh(sc, s, R) for s in ss]
    o.count('sessions', len(ss))
    c, rc = crashed(run), [crashed(r) for r in ref]
    if c or any(rc):
        if c and not any(rc):
            o.bad('crash', 'the session sequence %s although no session alone does\n%s' % (c, run.err[-1500:]))
        elif not c:
            o.bad('alone-crash', 'a session alone ends abnormally but not in the sequence: %s' % [x for x in rc if x][0])
        else:
            o.count('crashing_sessions')
        return o
    jobs = run.res['threads'][0]
    expected_yaml = {}
    with_diags = 0
    for k, (s, j, r) in enumerate(zip(ss, jobs, ref)):
        a = r.res['threads'][0][0]
        if text.CHECK.search(j['diag']):
            with_diags += 1
        o.count('diagnostics', len(text.clazy_diags(j['diag'])))
        if not a['ok']:
            o.count('failing_sessions')
        if j['diag'] != a['diag']:
            o.bad('differs:' + text.diff_checks(a['diag'], j['diag']), 'session %d (%s %s) reports something else than in a fresh process:\n%s'
                  % (k + 1, s['unit'], ' '.join(s['pargs'])[:200], text.diff(a['diag'], j['diag'])))
        if j['ok'] != a['ok']:
            o.bad('status', 'session %d (%s) ends with %s instead of %s' % (k + 1, s['unit'], j['ok'], a['ok']))
        if j['fdleak'] != a['fdleak'] or j['fdleak'] > 0:
            o.bad('fdleak', 'session %d (%s) leaves %d file descriptors open' % (k + 1, s['unit'], j['fdleak']))
        if S.yaml_of(s) in r.files:
            expected_yaml[S.yaml_of(s)] = r.files[S.yaml_of(s)]
    el, gl = sorted(sum((S.lines_of(r.err) for r in ref), [])), S.lines_of(run.err)
    # the next session goes on in a line left without an end
    if el != gl and sorted(''.join(el)) != sorted(''.join(gl)):
        o.bad('stderr', 'the text printed directly differs:\n' + text.diff('\n'.join(el), '\n'.join(gl)))
    if run.files != expected_yaml:
        o.bad('exported', 'the exported fixes differ:\n' + text.diff(json.dumps(expected_yaml, indent=0, sort_keys=True), json.dumps(run.files, indent=0, sort_keys=True)))
    o.nontrivial = with_diags >= 2
    o.sig = digest([j['diag'] for j in jobs])
    o.sample = {'sessions': [[s['unit'], s['mode'], ' '.join(s['pargs'])[:100], len(text.clazy_diags(j['diag'])), j['ok']] for s, j in zip(ss, jobs)], 'env': sc['env']}
    return o


def shrink(sc):
    yield from ddmin_lists(sc, ['sessions'])
    if sc['alloc']:
        yield dict(sc, alloc=None)
    yield from S.shrink_env(sc)
    for k, s in enumerate(sc['sessions']):
        yield from S.shrink_session(sc, ['sessions', k], s)
