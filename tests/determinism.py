#!/usr/bin/env python3
"""determinism.py [SCENARIOS_PER_PROPERTY] [Cnn...]: every scenario three times - in 8 zygotes, in 3 zygotes, and with every simulation in a
process of its own - with the digest of everything observable of every simulated run compared."""
import multiprocessing
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/sim')
import build  # noqa: E402
from dst import base, core  # noqa: E402


class Rec(core.Runner):
    fresh = False

    def run(self, spec, want=None, cached=False):
        r = super().run_fresh(spec, want) if self.fresh else super().run(spec, want, cached)
        self.log.append(r.digest())
        return r


def work(a):
    exe, pid, ids, fresh, d = a
    R = Rec(exe, d)
    R.fresh = fresh
    out = {}
    mod = base.prop(pid)
    for i in ids:
        R.log = []
        R.cache.clear()
        try:
            o = mod.evaluate(mod.generate(base.themed(core.Rng(pid, 7, i)), 'quick', i), R)
            out[i] = core.digest(o.sig, o.violations, o.counts, R.log)
        except core.SimTimeout:
            out[i] = None
    R.stop()
    return out


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    pids = sys.argv[2:] or ['C%02d' % k for k in range(1, 15)]
    exe = build.build()
    root = base.scratch_root()
    bad = 0
    for pid in pids:
        res = []
        for rnd, (w, fresh) in enumerate([(8, False), (3, False), (8, True)]):
            jobs = [(exe, pid, list(range(k, n, w)), fresh, '%s/%s.%d.%d' % (root, pid, rnd, k)) for k in range(w)]
            with multiprocessing.Pool(w) as p:
                m = {}
                for r in p.map(work, jobs):
                    m.update(r)
                res.append(m)
        diff = [i for i in range(n) if len({m[i] for m in res if m[i] is not None}) > 1]
        print('%s: %d scenarios x %d, %d diverge %s' % (pid, n, len(res), len(diff), diff[:10]), flush=True)
        bad += len(diff)
    shutil.rmtree(root, ignore_errors=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
