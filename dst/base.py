"""What every property's check has in common: seeded search over scenarios, gating, minimising, replay, evidence."""
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import time
import traceback

from . import workload as W
from .core import Rng, Runner, SimError, SimTimeout, VERIF, digest

KNOWN = VERIF + '/known_findings.txt'


class Outcome:
    def __init__(self):
        self.violations = []  # (signature, text)
        self.nontrivial = False
        self.sig = ''  # distinct scenarios are counted by this
        self.counts = {}
        self.sample = None

    def bad(self, signature, text):
        self.violations.append((signature, text))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def prop(pid):
    return importlib.import_module('dst.' + pid.lower())


def scratch_root():
    for base in ('/dev/shm', '/tmp'):
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize > 600 << 20:
                d = '%s/clazydst.%d' % (base, os.getpid())
                os.makedirs(d, exist_ok=True)
                return d
        except OSError:
            pass
    d = '/tmp/clazydst.%d' % os.getpid()
    os.makedirs(d, exist_ok=True)
    return d


def themed(rng, seed, i):
    """most scenarios are about one check: sources that it reports in, selections that contain it; every check gets its turn"""
    rng.theme = None
    if rng.chance(0.65):
        ts = W.themes()
        rng.theme = ts[(i + seed * 29) % len(ts)]
    return rng


def worker(pid, exe, scratch, wid, nworkers, seed, tier, total, deadline, q):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    R = Runner(exe, '%s/%d' % (scratch, wid))
    mod = prop(pid)
    try:
        i = wid
        done = 0
        while i < total and time.time() < deadline:
            t0 = time.time()
            try:
                sc = mod.generate(themed(Rng(pid, seed, i), seed, i), tier, i)
                o = mod.evaluate(sc, R)
            except SimTimeout as e:
                q.put(('timeout', i))
                i += nworkers
                continue
            except SimError as e:
                q.put(('failed', wid, str(e), i))
                i += nworkers
                continue
            except Exception:
                q.put(('failed', wid, traceback.format_exc(), i))
                i += nworkers
                continue
            q.put(('run', i, o.nontrivial, o.sig, o.counts, o.sample if done < 2 else None, time.time() - t0))
            if o.violations:
                q.put(('bad', i, sc, o.violations))
            done += 1
            i += nworkers
        q.put(('end', wid, R.stats, sorted(R.sched_hashes), sorted(R.outcomes), sorted(R.trace_sigs)))
    except Exception:
        q.put(('error', wid, traceback.format_exc(), i))
    finally:
        R.stop()


def confirm(pid, sc, R, signature=None):
    """the violation is there again, exactly, in fresh runs: the same seed is the same execution"""
    mod = prop(pid)
    R.cache.clear()
    a = mod.evaluate(sc, R)
    R.cache.clear()
    R2 = Fresh(R)
    b = mod.evaluate(sc, R2)
    sa, sb = [v[0] for v in a.violations], [v[0] for v in b.violations]
    if not sa or sa != sb:
        return None
    if signature is not None and signature not in sa:
        return None
    if [v[1] for v in a.violations] != [v[1] for v in b.violations]:
        return None
    return a


class Fresh:
    """a runner without any reuse: every simulation in a newly started process"""

    def __init__(self, R):
        self.R = R

    def run(self, spec, want=None, cached=False):
        return self.R.run_fresh(spec, want)

    def __getattr__(self, n):
        return getattr(self.R, n)


def minimise(pid, sc, signature, R, budget):
    mod = prop(pid)
    end = time.time() + budget
    steps = 0
    progress = True
    if hasattr(mod, 'concretise'):
        try:
            c = mod.concretise(sc, R)
            if any(v[0] == signature for v in mod.evaluate(c, R).violations):
                sc = c
        except SimError:
            pass
    while progress and time.time() < end:
        progress = False
        for cand in mod.shrink(sc):
            if time.time() > end:
                break
            steps += 1
            try:
                o = mod.evaluate(cand, R)
            except SimError:
                continue
            if any(v[0] == signature for v in o.violations):
                sc = cand
                progress = True
                break
    return sc, steps


def known_findings(pid):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                sig, _, what = rest.partition(' ')
                r.append((sig, what))
    return r


def ddmin_lists(sc, path):
    """candidates with chunks of the list at sc[path...] removed"""
    lst = sc
    for p in path:
        lst = lst[p]
    n = len(lst)
    size = n
    while size >= 1:
        for s in range(0, n, size):
            if n - min(size, n - s) < 0:
                continue
            c = json.loads(json.dumps(sc))
            l = c
            for p in path[:-1]:
                l = l[p]
            l[path[-1]] = lst[:s] + lst[s + size:]
            yield c
        if size == 1:
            break
        size //= 2


def run_check(pid, exe, tier, seed, log):
    mod = prop(pid)
    t0 = time.time()
    nworkers = max(2, min(8, os.cpu_count() or 8))
    total, limit = mod.BUDGET[tier]
    scratch = scratch_root()
    deadline = t0 + limit
    q = multiprocessing.Queue()
    ps = [multiprocessing.Process(target=worker, args=(pid, exe, scratch, w, nworkers, seed, tier, total, deadline, q)) for w in range(nworkers)]
    for p in ps:
        p.start()
    agg = {'runs': 0, 'steps': 0, 'yields': 0, 'switches': 0, 'static_accesses': 0, 'cached': 0, 'killed': 0, 'faults': {}, 'kinds': {}}
    scheds, outcomes, traces, sigs, counts, samples, bads, errors = set(), set(), set(), set(), {}, [], [], []
    evaluated = nontrivial = ended = 0
    fatal = False
    timeouts = 0
    slowest = (0, -1)
    while ended < nworkers:
        try:
            m = q.get(timeout=10)
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
            if time.time() > deadline + 600:
                break
            continue
        if m[0] == 'run':
            evaluated += 1
            slowest = max(slowest, (m[6], m[1]))
            if m[2]:
                nontrivial += 1
                sigs.add(m[3])
            for k, v in m[4].items():
                counts[k] = counts.get(k, 0) + v
            if m[5] is not None and len(samples) < 3:
                samples.append(m[5])
        elif m[0] == 'bad':
            bads.append(m[1:])
        elif m[0] == 'end':
            ended += 1
            for k, v in m[2].items():
                if isinstance(v, dict):
                    for a, b in v.items():
                        agg[k][a] = agg[k].get(a, 0) + b
                else:
                    agg[k] = agg.get(k, 0) + v
            scheds.update(m[3])
            outcomes.update(m[4])
            traces.update(m[5])
        elif m[0] == 'timeout':
            timeouts += 1
        elif m[0] == 'failed':
            errors.append(m)
        else:
            ended += 1
            fatal = True
            errors.append(m)
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.terminate()
    explored_s = time.time() - t0
    known = known_findings(pid)
    reported, seen_known, unconfirmed = [], {}, 0
    # one report per signature
    bads.sort(key=lambda b: b[0])
    first = {}
    for i, sc, vs in bads:
        for s, t in vs:
            first.setdefault(s, (i, sc, t))
    R = Runner(exe, scratch + '/confirm')
    min_budget = 40 if tier == 'quick' else 400
    try:
        for s, (i, sc, t) in first.items():
            if len(reported) >= 3:
                break
            k = [w for sig, w in known if sig == s]
            try:
                a = confirm(pid, sc, R, s)
            except SimError as e:
                errors.append(('simerror', -1, str(e), i))
                continue
            if not a:
                unconfirmed += 1
                log('not reproducible, dropped: %s (scenario %d)' % (s, i))
                continue
            if k:
                seen_known[s] = k[0]
                continue
            t1 = time.time()
            small, steps = minimise(pid, sc, s, R, min_budget)
            min_budget = max(0, min_budget - (time.time() - t1))
            b = confirm(pid, small, R, s)
            if not b:
                small, b = sc, a
            text = [x[1] for x in b.violations if x[0] == s][0]
            os.makedirs(VERIF + '/replays', exist_ok=True)
            path = '%s/replays/%s-%s.json' % (VERIF, pid, digest(small)[:12])
            with open(path, 'w') as f:
                json.dump({'property': pid, 'seed': seed, 'scenario_index': i, 'signature': s, 'violation': text, 'minimisation_steps': steps,
                           'scenario': small}, f, indent=1)
            reported.append((s, text, path))
    finally:
        R.stop()
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    cov = {
        'evaluations': evaluated,
        'distinct_nontrivial': len(sigs),
        'rule': mod.RULE,
        'samples': samples or [{'note': 'no scenario finished'}],
        'simulated_runs': agg['runs'],
        'reference_runs_answered_from_memory': agg['cached'],
        'scenarios_requested': total,
        'nontrivial_scenarios': nontrivial,
        'scenarios_per_hour': int(evaluated / max(explored_s, 1e-3) * 3600),
        'simulated_runs_per_hour': int(agg['runs'] / max(explored_s, 1e-3) * 3600),
        'simulated_time': {'instrumented_steps': agg['steps'], 'scheduling_points': agg['yields'], 'note': 'the simulated clock advances 1 ns per step and about 1.5 us per query'},
        'accesses_to_static_storage_while_scheduled': agg['static_accesses'],
        'context_switches': agg['switches'],
        'distinct_interleavings': len(scheds),
        'distinct_outcomes': len(outcomes),
        'distinct_io_traces': len(traces),
        'runs_by_entry_point': agg['kinds'],
        'faults_fired': agg['faults'],
        'runs_killed_by_injected_crash': agg['killed'],
        'counts': counts,
        'components': {'real': ['all sources of /repo/src, instrumented', 'libclang-cpp / libLLVM 20', 'clang-tidy libraries', 'libstdc++'],
                       'simulated': ['thread scheduling, mutexes, once, guards', 'heap allocator', 'files below the scratch root (faults, crashes)', 'clock, sleep, random numbers'],
                       'stub': ['Qt and the C++ standard library headers (workload/qt): declarations only']},
        'scenarios_dropped_because_clang_does_not_end': timeouts,
        'unconfirmed_alarms_dropped': unconfirmed,
        'known_findings_seen': len(seen_known),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov, 'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2),
          'violations': len(reported)}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (VERIF, pid), 'w') as f:
        json.dump(ev, f, indent=1)
    log('%s: %d scenarios (%d distinct non-trivial), %d simulated runs, %.1f s (exploring %.1f s, slowest scenario %d: %.1f s)'
        % (pid, evaluated, len(sigs), agg['runs'], wall, explored_s, slowest[1], slowest[0]))
    if timeouts:
        log('%d scenarios dropped: clang does not come to an end on them' % timeouts)
    for s, w in known:
        if s in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, w))
        else:
            print('KNOWN-FINDING: property=%s %s (not met in this run)' % (pid, w))
    for s, text, path in reported:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  ' + text.replace('\n', '\n  ')[:3000])
    for e in errors[:5]:
        log('ERROR in worker %s, scenario %s: %s' % (e[1], e[3], e[2]))
    if reported:
        return 1
    if errors and (fatal or len(errors) > max(3, evaluated // 10)):
        print('ERROR: %d scenarios could not be simulated: %s' % (len(errors), errors[0][2][-1500:]))
        return 3
    if evaluated == 0:
        print('ERROR: nothing was explored')
        return 3
    return 0


def replay(path, exe):
    with open(path) as f:
        rep = json.load(f)
    pid = rep['property']
    scratch = scratch_root()
    R = Runner(exe, scratch)
    try:
        o = prop(pid).evaluate(rep['scenario'], Fresh(R))
    finally:
        R.stop()
        shutil.rmtree(scratch, ignore_errors=True)
    hit = [v for v in o.violations if v[0] == rep['signature']]
    if hit:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  ' + hit[0][1].replace('\n', '\n  '))
        print('identical to the recorded violation' if hit[0][1] == rep['violation'] else 'the description differs from the recorded one')
        return 1
    print('not reproduced on this tree: property=%s %s' % (pid, rep['signature']))
    return 0
