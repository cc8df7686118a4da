"""C13: clazy-standalone never reports success for work it did not do.

A scenario is a batch with seeded failing members (missing, unreadable, broken), read faults, a virtual file system
overlay that may be missing, unreadable or malformed, and fixes that may not be exportable, in seeded positions; or with harmless faults only
(interrupted and short reads and writes). Oracle: the plain compiler on every member under the same faults, and the fixes an undisturbed run
exports."""
import json

from . import c01, c07
from . import sessions as S
from . import text
from . import workload as W
from .base import Outcome, ddmin_lists
from .core import V, crashed, digest

BUDGET = {'quick': (2500, 55), 'thorough': (80000, 1500)}
LEVEL = 'exploration'
RULE = ('One scenario is one seeded batch of 1-8 members with 0-3 seeded causes of failure or harmless faults. Non-trivial: a cause of failure or a harmless fault was really met. '
        'Distinct: by the causes, their positions, the options and the outcome.')
ASSUMPTIONS = ['Clazy warnings are not turned into errors here: whether a run with those is a success is not part of the property',
               'Files are read with read(2) (all sources here are small enough): faults of memory mapped files are not simulated']


def generate(rng, tier, i):
    n = rng.weighted([(1, 2), (2, 3), (3, 2), (5, 1.5), (8, 0.5)])
    mode = rng.choice(['args', 'db', 'db'])
    healthy = rng.chance(0.45)
    ms = c01.gen_members(rng, n, p_bad=0.0 if healthy else rng.choice([0.1, 0.3]))
    if healthy:
        for k, m in enumerate(ms):
            # known to compile
            u = W.member(rng, k, p_mut=0.0, healthy=True)
            m.update(unit=u['unit'], dir=u['dir'], main=u['main'], files=u['files'], flags=u['flags'], fault=None)
    std = '-std=c++20' if mode == 'args' and rng.chance(0.4) else '-std=c++17'
    causes = []
    for m in ms:
        if mode == 'args':
            m['flags'] = [std]
        if not isinstance(m['files'].get(m['main']), str):
            continue
        if healthy and rng.chance(0.25):
            m['fault'] = rng.choice([
                {'op': 'open', 'path': m['main'], 'nth': 0, 'times': rng.rng(1, 3), 'act': 'EINTR'},
                {'op': 'read', 'path': m['main'], 'nth': rng.below(2), 'times': rng.rng(1, 4), 'act': 'EINTR'},
                {'op': 'read', 'path': m['main'], 'nth': 0, 'times': rng.choice([1, 5, -1]), 'act': 'short', 'arg': rng.choice([1, 7, 100, 0])},
                {'op': 'closer', 'path': m['main'], 'nth': 0, 'times': -1, 'act': 'EIO'}])
        elif not healthy and rng.chance(0.2):
            f = rng.choice(sorted(x for x in m['files'] if isinstance(m['files'][x], str)))
            m['fault'] = rng.choice([{'op': 'read', 'path': f, 'nth': 0, 'times': -1, 'act': 'EIO'}, {'op': 'open', 'path': f, 'nth': 0, 'times': -1, 'act': rng.choice(['EACCES', 'EIO', 'EMFILE', 'ENOENT'])},
                                     {'op': 'read', 'path': f, 'nth': 0, 'times': -1, 'act': 'eof'}])
    sc = {'mode': mode, 'members': ms, 'opts': [x for x in W.standalone_opts(rng)], 'env': {}, 'shared': W.SHARED_H % '', 'env_seed': rng.below(1 << 30), 'overlay': None,
          'export': False, 'faults': []}
    if not healthy and rng.chance(0.06):
        sc['opts'] = [x for x in sc['opts'] if not x.startswith('--checks')] + ['--checks=' + rng.choice(['no-such-check', 'levle1', 'manual', 'no-such-check,level7', 'no-no-such-check', 'fix-no-such-check', 'level1,', ' '])]
    if rng.chance(0.25):
        sc['overlay'] = rng.choice(['good', 'good', 'used', 'used']) if healthy else rng.choice(['missing', 'empty', 'malformed', 'badtarget', 'dir', 'good', 'EIO', 'EACCES', 'eof'])
    if rng.chance(0.4):
        sc['export'] = True
        if not healthy or rng.chance(0.3):
            sc['faults'] = c07.gen_faults(rng, '*fixes.yaml')
            if healthy:
                sc['faults'] = [f for f in sc['faults'] if f['act'] in ('EINTR', 'short')]
    return sc


OV = V + '/overlay.yaml'


def overlay(sc):
    """-> files, faults"""
    k = sc['overlay']
    good = json.dumps({'version': 0, 'roots': [{'name': V + '/virtual', 'type': 'directory', 'contents': [{'name': 'inoverlay.h', 'type': 'file', 'external-contents': V + '/real.h'}]}]})
    files = {V + '/real.h': '#pragma once\nstruct FromOverlay {};\n', OV: good}
    faults = []
    if k == 'missing':
        del files[OV]
    elif k == 'empty':
        files[OV] = ''
    elif k == 'malformed':
        files[OV] = good[:len(good) // 2]
    elif k == 'badtarget':
        files[OV] = good.replace('real.h', 'nothere.h')
    elif k == 'dir':
        del files[OV]
        files[OV + '/x'] = ''
    elif k in ('EIO', 'EACCES'):
        faults.append({'op': 'open' if k == 'EACCES' else 'read', 'path': OV, 'nth': 0, 'times': -1, 'act': k})
    elif k == 'eof':
        faults.append({'op': 'read', 'path': OV, 'nth': 0, 'times': -1, 'act': 'eof'})
    return files, faults


def with_overlay(sc):
    if not sc['overlay']:
        return sc
    c = json.loads(json.dumps(sc))
    if sc['overlay'] in ('used', 'badtarget', 'malformed', 'EIO'):
        for m in c['members']:
            if isinstance(m['files'].get(m['main']), str):
                m['files'][m['main']] = '#include "%s/virtual/inoverlay.h"\n' % V + m['files'][m['main']]
    return c


def spec(sc, faults=True):
    extra = []
    if sc['overlay']:
        extra.append('--vfsoverlay=' + OV)
    if sc['export']:
        extra.append('--export-fixes=' + V + '/fixes.yaml')
    sp = c01.spec_for(sc, range(len(sc['members'])), extra)
    if sc['overlay']:
        f, fa = overlay(sc)
        sp['files'].update(f)
        sp['faults'] = sp['faults'] + fa
    if faults:
        sp['faults'] = sp['faults'] + sc['faults']
    return sp


def requested(sc):
    """is any valid check requested?"""
    for x in sc['opts']:
        if x.startswith('--checks='):
            return any(c in W.checks() or c in ('level0', 'level1', 'level2') or c in W.fixits() or c[:3] == 'no-' and c[3:] in W.checks() for c in x[9:].split(','))
    return True


def plain(sc, m, flags, R):
    """does the compiler itself accept the member, under the same faults?"""
    s = {'main': m['main'], 'files': m['files'], 'flags': flags, 'pargs': [], 'mode': 'syntax', 'unit': m['unit'], 'cc1': []}
    faults = [m['fault']] if m['fault'] else []
    more = {}
    if sc['overlay']:
        s['cc1'] = ['-ivfsoverlay', OV]
        more, fa = overlay(sc)
        faults = faults + fa
    sp = S.spec([[s]], sc['shared'], {}, 1, plugin=False, faults=faults)
    sp['files'].update(more)
    if m['main'] not in m['files']:
        return False
    r = R.run(sp, cached=True)
    if crashed(r):
        return None
    return r.res['threads'][0][0]['ok']


def evaluate(sc, R):
    o = Outcome()
    if not sc['members']:
        return o
    sc = with_overlay(sc)
    sp = spec(sc)
    run = R.run(sp, want=lambda v: v.endswith('fixes.yaml'))
    c = crashed(run)
    if c:
        o.count('crashing')
        return o
    causes, met = [], 0
    for k, m in enumerate(sc['members']):
        fls = [m['flags']] + ([m['flags2']] if m.get('flags2') and sc['mode'] == 'db' else [])
        oks = [plain(sc, m, f, R) for f in (fls if sc['mode'] == 'db' else [sc['members'][0]['flags']])]
        if None in oks:
            o.count('crashing')
            return o
        if not all(oks):
            causes.append('member %d (%s) %s' % (k + 1, m['unit'], 'is missing' if m['main'] not in m['files'] else 'does not compile'))
    if not requested(sc):
        causes.append('no valid check is requested')
    fired = run.res.get('fired') or []
    met = sum(1 for x in fired if x)
    if sc['overlay']:
        o.count('overlays_' + sc['overlay'])
    judged = True
    if sc['export'] and not causes:
        clean = R.run(spec(sc, False), want=lambda v: v.endswith('fixes.yaml'), cached=True)
        want, got = clean.files.get(V + '/fixes.yaml'), run.files.get(V + '/fixes.yaml')
        if want != got:
            causes.append('the fixes were not exported')
        elif any(f['act'] not in c07.RETRIED and n for f, n in zip(sp['faults'], fired)):
            judged = False  # complete all the same: a complaint is allowed
        o.count('exports')
    what = 'a batch of %d (%s)' % (len(sc['members']), ', '.join(causes) or 'nothing is wrong with it')
    if causes and run.status == 0:
        o.bad('false-success', '%s ends with exit status 0\n%s' % (what, run.err[-800:]))
    if not causes and run.status != 0 and judged:
        o.bad('false-failure', '%s ends with exit status %s\n%s' % (what, run.status, run.err[-800:]))
    o.count('failing_batches' if causes else 'good_batches')
    o.nontrivial = bool(causes) or met > 0
    o.sig = digest(causes, sc['opts'], [m['unit'] for m in sc['members']], [m['fault'] and (m['fault']['op'], m['fault']['act']) for m in sc['members']], run.status, sc['overlay'])
    o.sample = {'members': len(sc['members']), 'causes': causes, 'overlay': sc['overlay'], 'faults_fired': met, 'exit': run.status}
    return o


def shrink(sc):
    if sc['overlay'] is not None:
        yield dict(json.loads(json.dumps(sc)), overlay=None)
    if sc['export']:
        yield dict(json.loads(json.dumps(sc)), export=False, faults=[])
    if sc['faults']:
        yield from ddmin_lists(sc, ['faults'])
    yield from c01.shrink(sc)
