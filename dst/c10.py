"""C10: checks do not interfere with each other.

A scenario is one input (a plugin session, a standalone run or a clang-tidy run) executed with several selections of checks, in several
orders. Oracle: on the checks two runs have in common, and for the compiler itself, they say the same."""
import json
import re

from . import c01, c02
from . import sessions as S
from . import text
from . import workload as W
from .base import Outcome, ddmin_lists
from .core import V, crashed, digest

BUDGET = {'quick': (3000, 55), 'thorough': (100000, 1500)}
LEVEL = 'exploration'
RULE = ('One scenario is one seeded translation unit analysed with 3-6 seeded check selections (all, levels, subsets, single checks, other orders, repeated names). '
        'Non-trivial: a check that reported something was enabled in two runs whose other checks differ. Distinct: by the unit and the selections.')
ASSUMPTIONS = ['The lines saying through which includes a file was reached depend on the diagnostic printed before and are not compared',
               'Where clazy reports errors (warnings are errors by the user\'s wish) clang leaves out some of its own diagnostics: these are not compared']


# clang leaves out the snippet when two diagnostics in a row have the same place
QUIET = ['-fno-caret-diagnostics', '-fdiagnostics-parseable-fixits']


def blocks(t):
    """printed diagnostics with their snippets, fix-its and notes, by check; the compiler's own under ''"""
    r = {}
    cur = last = None
    for l in text.joined(t).split('\n'):
        if l.startswith('In file included from') or re.match(r'^\d+ (warning|error)s?( and \d+ errors?)? generated', l) or re.match(r'^(\[\d+/\d+\] Processing|Error while processing)', l):
            cur = None
            continue
        m = text.DIAG.match(l) or re.match(r'^()()()(warning|error|fatal error): (.*)$', l)
        if m and m.group(4) != 'note':
            c = text.CHECK.search(m.group(5))
            if (m.group(4) == 'warning' or m.group(5) == 'Type declared here:') and last and '[-W' not in m.group(5):
                cur = r[last][-1]  # a further line of the diagnostic before
                cur.append(l)
                continue
            last = c and c.group(1)
            cur = [l]
            r.setdefault(c.group(1) if c else '', []).append(cur)
        elif l and cur is not None:
            cur.append(l)
        elif l:
            r.setdefault('(text)', []).append([l])
    return {k: ['\n'.join(b) for b in v] for k, v in r.items()}


def selection(rng):
    """a value for the check list and the checks it enables"""
    lv = W.checks()
    cs = W.all_checks()
    k = rng.weighted([('all', 2), ('level', 2), ('some', 4), ('pair', 2), ('one', 2), ('minus', 2), ('levelnames', 1)])
    if k == 'level':
        n = rng.rng(0, 2)
        return 'level%d' % n, [c for c in cs if 0 <= lv[c] <= n]
    if k == 'minus':
        n = rng.rng(0, 2)
        names = [c for c in cs if 0 <= lv[c] <= n]
        no = rng.sample(names, rng.rng(1, len(names) // 2 + 1))
        return 'level%d,' % n + ','.join('no-' + c for c in no), [c for c in names if c not in no]
    if k == 'levelnames':
        n = rng.rng(0, 2)
        names = [c for c in cs if 0 <= lv[c] <= n]
    elif k == 'all':
        names = cs
    elif k == 'some':
        names = rng.sample(cs, rng.rng(2, len(cs) - 1))
    elif k == 'pair':
        names = rng.sample(cs, 2)
    else:
        names = [rng.choice(cs)]
    names = list(names)
    if rng.chance(0.7):
        rng.shuffle(names)
    if rng.chance(0.1):
        names.append(rng.choice(names))
    return ','.join(names), sorted(set(names))


def generate(rng, tier, i):
    kind = rng.weighted([('plugin', 6), ('standalone', 1.5), ('tidy', 1.5)])
    n = rng.rng(3, 6)
    u = None
    sels = []
    if kind == 'plugin':
        d = S.doc(rng, 'd0')
        s = S.session(rng, d, [], 'syntax')
        s['flags'] = s['flags'] + QUIET + ['-ferror-limit', '0']
        sc = {'kind': kind, 'session': s, 'extra': [a for a in S.plugin_args(rng) if a in ('qt-developer', 'visit-implicit-code', 'ignore-included-files', 'export-fixes')]}
    else:
        ms = c01.gen_members(rng, 1, p_bad=0.0)
        flags = W.variant(rng, ['-std=c++17'])
        ms[0]['flags'] = flags + ['-ferror-limit=0'] + QUIET
        sc = {'kind': kind, 'members': ms, 'mode': 'args', 'extra': [x for x in W.standalone_opts(rng) if not x.startswith('--checks') and x != '--only-qt'], 'order': [0],
              'flags': flags}
    unit = sc['session']['unit'] if kind == 'plugin' else sc['members'][0]['unit']
    own = [c for x in W.units() if x.name == unit for c in x.checks]
    for k in range(n):
        v, names = selection(rng)
        if own and rng.chance(0.6):
            # the checks this unit is about, with and without company
            w = rng.choice(own)
            if w not in names and 'no-' + w not in v.split(','):
                v, names = (v + ',' + w, names + [w]) if rng.chance(0.5) else (w + ',' + v, [w] + names)
                if v.startswith(w) and 'level' in v:
                    v = ','.join(x for x in v.split(',') if x != w) + ',' + w
        sels.append([v, sorted(set(names))])
    env = {k: x for k, x in W.env_swarm(rng).items() if k != 'CLAZY_CHECKS'}
    sc.update(sels=sels, env=env, shared=W.SHARED_H % ('' if rng.chance(0.6) else W.suppression(rng).replace('clazy:skip', '')), env_seed=rng.below(1 << 30))
    return sc


def one(sc, v, R):
    if sc['kind'] == 'plugin':
        s = dict(sc['session'], pargs=[v] + sc['extra'])
        r = R.run(S.spec([[s]], sc['shared'], sc['env'], sc['env_seed']), cached=True)
        return r, (blocks(r.res['threads'][0][0]['diag']) if not crashed(r) else {}), r.files.get(S.yaml_of(s))
    if sc['kind'] == 'standalone':
        r = R.run(c01.spec_for(dict(sc, opts=['--checks=' + v] + sc['extra']), [0], ['--export-fixes=' + V + '/fixes.yaml']), cached=True)
        return r, blocks(r.err), r.files.get(V + '/fixes.yaml')
    checks = '-*,' + ','.join('clazy-' + c for c in v.split(','))
    r = R.run(c02.spec(sc, [c02.run_of(dict(sc, checks=checks), [0])], sc['env_seed']), cached=True)
    b = {}
    if not crashed(r):
        for d in r.res['tidy'][0]['diags']:
            if d['check'] == 'clang-tidy-nolint':
                continue  # only looked at when there is something to suppress
            for n in [d['check']] + d['aliases']:
                b.setdefault(n[6:] if n.startswith('clazy-') else '', []).append(json.dumps([d['file'], d['offset'], d['level'], d['msg'], c02.notes(d)], sort_keys=True))
    return r, b, None


def evaluate(sc, R):
    o = Outcome()
    if sc['kind'] != 'plugin' and not sc['members']:
        return o
    seen = {}  # check -> (blocks, selection)
    multi = 0
    runs = 0
    for v, names in sc['sels']:
        if sc['kind'] == 'tidy':
            v = ','.join(n for n in dict.fromkeys(x for x in v.split(',') if x in names)) or ','.join(names)
            names = v.split(',')
        r, b, y = one(sc, v, R)
        runs += 1
        if crashed(r):
            o.count('crashing_runs')
            continue
        ye = {}
        if y is not None:
            for e in text.yaml_entries(y) or []:
                f = text.entry_fields(e)
                ye.setdefault((f[0] or '').replace('clazy-', ''), []).append(e)
        # clang leaves out its own analyses of functions once there are errors, also those the user made of clazy's warnings
        errors = any(x.split('\n')[0].find(': error: ') >= 0 for k, v2 in b.items() if k not in ('', '(text)') for x in v2)
        for c in names + ([] if errors else ['']):
            mine = (b.get(c, []), ye.get(c, []) if y is not None else None)
            if c not in seen:
                seen[c] = (mine, v, names)
                continue
            (p, py), pv, pn = seen[c]
            if p and c and set(pn) != set(names):
                multi += 1
            if p != mine[0]:
                o.bad('differs:' + (c or 'compiler'), '%s says something else when the checks are "%s" instead of "%s":\n%s'
                      % (c or 'the compiler', v[:150], pv[:150], text.diff('\n'.join(p), '\n'.join(mine[0]))))
            elif py is not None and mine[1] is not None and py != mine[1] and c:
                o.bad('fixes:' + c, 'the exported fixes of %s differ when the checks are "%s" instead of "%s":\n%s' % (c, v[:150], pv[:150], text.diff('\n'.join(py), '\n'.join(mine[1]))))
        extra = sorted(set(b) - set(names) - {'', '(text)'})
        if extra and sc['kind'] != 'tidy':
            o.bad('uninvited:' + extra[0], 'with the checks "%s" there are diagnostics of %s' % (v[:200], extra))
    o.count('runs', runs)
    o.nontrivial = multi > 0
    o.count('compared_checks_with_diagnostics', multi)
    unit = sc['session']['unit'] if sc['kind'] == 'plugin' else sc['members'][0]['unit']
    o.sig = digest(unit, sc['sels'], sorted((c, x[0]) for c, x in seen.items()))
    o.sample = {'kind': sc['kind'], 'unit': unit, 'selections': [v[:100] for v, _ in sc['sels']], 'checks_reporting': sorted(c for c, x in seen.items() if x[0][0])}
    return o


def shrink(sc):
    if len(sc['sels']) > 2:
        yield from ddmin_lists(sc, ['sels'])
    for i, (v, names) in enumerate(sc['sels']):
        if len(names) > 1:
            for part in (names[:len(names) // 2], names[len(names) // 2:]):
                c = json.loads(json.dumps(sc))
                c['sels'][i] = [','.join(part), part]
                yield c
    for x in sc['env']:
        c = json.loads(json.dumps(sc))
        del c['env'][x]
        yield c
    if sc['kind'] == 'plugin':
        yield from S.shrink_session(sc, ['session'], dict(sc['session'], pargs=[]))
    else:
        t = sc['members'][0]['files'].get(sc['members'][0]['main'])
        if isinstance(t, str):
            yield from c01.shrink_text(sc, ['members', 0, 'files', sc['members'][0]['main']], t)
