"""C11: suppression comments silence all the warnings they cover, always.

A scenario analyses several documents - the same sources under different seeded sets of suppression comments, often under the same path -
one after another in one process (plugin sessions, batch, clang-tidy) or in concurrently scheduled threads. Oracle: a reference model of
the documented comments, applied to what the same text with the comments made meaningless reports in a fresh process."""
import json
import re

from . import c01, c02, c03
from . import sessions as S
from . import text
from . import workload as W
from .base import Outcome, ddmin_lists
from .core import Rng, V, crashed, digest

BUDGET = {'quick': (3000, 60), 'thorough': (100000, 1500)}
LEVEL = 'exploration'
RULE = ('One scenario is 1-4 documents with seeded suppression comments (all documented forms, several per line, nested ranges, globs, headers, end of file, CRLF) analysed in '
        'one process. Non-trivial: comments covered at least one and left at least one diagnostic. Distinct: by comments and output.')
ASSUMPTIONS = ['Diagnostics inside macro expansions, and on the very lines of NOLINTBEGIN and NOLINTEND, are not judged: the documentation does not say which line counts',
               'Untagged follow-up lines of a diagnostic are not judged']


def hostable(line):
    """can a comment be put at the end of this line without changing anything else?"""
    if '//' in line or '/*' in line or '*/' in line or line.rstrip().endswith('\\') or 'R"' in line:
        return False
    return not line.lstrip().startswith('#') or line.lstrip().startswith('#include')


def host_lines(t):
    lines = t.split('\n')
    r, inside = [], False
    for i, l in enumerate(lines):
        cont = i and lines[i - 1].rstrip().endswith('\\')
        if not inside and not cont and hostable(l):
            r.append(i + 1)
        for m in re.finditer(r'/\*|\*/|//', l):
            if m.group(0) == '//' and not inside:
                break
            if m.group(0) == '/*':
                inside = True
            elif m.group(0) == '*/':
                inside = False
    return r


def lines_with_ranges_allowed(t):
    return 'NOLINTBEGIN' not in t and 'NOLINTEND' not in t


def gen_comments(rng, files, diags):
    """files: {path: text}, diags: [(file, line, check)] of the undisturbed run"""
    cs = []
    diags = [d for d in diags if d[0] in files]
    hosts = {f: set(host_lines(t)) for f, t in files.items()}
    n = rng.weighted([(1, 3), (2, 3), (4, 3), (8, 1)])
    every = sorted({d[2] for d in diags}) or ['qstring-arg']

    def names(check, style):
        k = rng.below(10)
        l = [check] if k < 7 else []
        if k >= 4:
            l += rng.sample(every if rng.chance(0.5) else W.all_checks(), rng.rng(1, 4))
        l = list(dict.fromkeys(l))
        rng.shuffle(l)
        if style == 'nolint':
            return ['clazy-' + (x if rng.chance(0.8) else x[:rng.rng(1, len(x))] + '*') for x in l] + (['clazy-*'] if rng.chance(0.07) else []) + (['other-check'] if rng.chance(0.1) else [])
        return l
    ranges = {}
    for _ in range(n):
        if not diags:
            break
        f, line, check = rng.choice(diags)
        k = rng.weighted([('exclude', 4), ('next', 3), ('nolint', 3), ('nolintnext', 3), ('nolint0', 1.5), ('nolintnext0', 1.5), ('excludeall', 1.5), ('skip', 0.5), ('range', 2)])
        at = line
        if k in ('next', 'nolintnext', 'nolintnext0'):
            at = line - 1
        if k in ('excludeall', 'skip'):
            at = rng.choice(sorted(hosts[f]) or [0])
        if rng.chance(0.15):
            at += rng.choice([-1, 1, 2])
        if k == 'range':
            if not lines_with_ranges_allowed(files[f]) or len(hosts[f]) < 4:
                continue
            hs = sorted(hosts[f])
            a = [h for h in hs if h < line][-rng.rng(1, 6):][:1]
            b = [h for h in hs if h > line][:rng.rng(1, 6)][-1:]
            if not a or not b:
                continue
            # ranges of one file are nested or apart
            if any(not (b[0] < x or y < a[0] or (x < a[0] and b[0] < y) or (a[0] < x and y < b[0])) for x, y in ranges.get(f, [])):
                continue
            ranges.setdefault(f, []).append((a[0], b[0]))
            cs.append([f, a[0], 'range', names(check, 'nolint') if rng.chance(0.7) else [], b[0]])
            continue
        if at not in hosts[f]:
            continue
        cs.append([f, at, k, names(check, 'nolint' if k.startswith('nolint') else 'clazy') if k not in ('nolint0', 'nolintnext0', 'skip') else []])
    return cs


def comment_text(c):
    l = ','.join(c[3])
    return {'exclude': 'clazy:exclude=' + l, 'next': 'clazy:exclude-next-line=' + l, 'excludeall': 'clazy:excludeall=' + l, 'skip': 'clazy:skip', 'nolint': 'NOLINT(%s)' % l,
            'nolintnext': 'NOLINTNEXTLINE(%s)' % l, 'nolint0': 'NOLINT', 'nolintnext0': 'NOLINTNEXTLINE'}[c[2]]


def render(files, comments, neutral=False, crlf=False, eof=False, style=0):
    r = {}
    for f, t in files.items():
        lines = t.split('\n')
        per = {}
        mine = [c for c in comments if c[0] == f]
        for c in mine:
            if c[2] == 'range':
                l = '(%s)' % ','.join(c[3]) if c[3] else ''
                per.setdefault(c[1], []).append('NOLINTBEGIN' + l)
                per.setdefault(c[4], []).append('NOLINTEND' + l)
            else:
                per.setdefault(c[1], []).append(comment_text(c))
        for n, cs in per.items():
            if n < 1 or n > len(lines):
                continue
            if neutral:
                cs = [x.replace('clazy:', 'clazy;').replace('NOLINT', 'NOTHIN') for x in cs]
            if len(cs) == 1 and (n + style) % 3:
                lines[n - 1] += ' // ' + cs[0]
            else:
                lines[n - 1] += ''.join(' /* %s */' % x for x in cs)
        if eof and mine:
            last = max(per)
            while len(lines) > last and not lines[-1].strip():
                lines.pop()
        r[f] = ('\r\n' if crlf else '\n').join(lines)
    return r


def glob(p, s):
    return re.match('^' + '.*'.join(map(re.escape, p.split('*'))) + '$', s) is not None


def covered(comments, f, line, check):
    """True, False, or None where the documentation leaves it open"""
    maybe = False
    for c in comments:
        if c[0] != f:
            continue
        k = c[2]
        nolint = lambda: any(glob(p, 'clazy-' + check) for p in c[3])
        if k == 'skip':
            return True
        if k == 'excludeall' and check in c[3]:
            return True
        if k == 'exclude' and line == c[1] and check in c[3]:
            return True
        if k == 'next' and line == c[1] + 1 and check in c[3]:
            return True
        if k == 'nolint' and line == c[1] and nolint():
            return True
        if k == 'nolintnext' and line == c[1] + 1 and nolint():
            return True
        if k == 'nolint0' and line == c[1] or k == 'nolintnext0' and line == c[1] + 1:
            return True
        if k == 'range' and c[1] <= line <= c[4] and (not c[3] or nolint()):
            if c[1] < line < c[4]:
                return True
            maybe = True
    return None if maybe else False


def tagged(t):
    """[(file, line, col, check, message, judged)] of printed clazy diagnostics"""
    r = []
    for l in text.joined(t).split('\n'):
        m = text.DIAG.match(l)
        if not m:
            continue
        f, ln, col, level, msg = m.groups()
        if level == 'note':
            if 'expanded from macro' in msg and r:
                r[-1] = r[-1][:5] + (False,)
            continue
        c = text.CHECK.search(msg)
        r.append((f, int(ln), int(col), c.group(1) if c else '', re.sub(r' \[-W.*', '', msg), bool(c)))
    return r


MACROISH = re.compile(r'\b(Q_[A-Z_0-9]+|[A-Z][A-Z0-9_]{2,}|foreach|forever|emit|signals|slots|assert|MACRO\w*|\w*macro\w*)\b')


def tidy_tagged(diags, files):
    r = []
    for d in diags:
        t = files.get(d['file'])
        if not d['check'].startswith('clazy-') or not isinstance(t, str):
            continue
        b = t.encode('utf-8', 'surrogateescape')
        ln = b[:d['offset']].count(b'\n') + 1
        line = t.split('\n')[ln - 1] if ln <= t.count('\n') + 1 else ''
        for c in [d['check']] + d['aliases']:
            r.append((d['file'], ln, d['offset'], c[6:], d['msg'], not MACROISH.search(line)))
    return r


def generate(rng, tier, i):
    kind = rng.weighted([('plugin', 6), ('standalone', 2), ('tidy', 1.2), ('threads', 1)])
    n = rng.weighted([(1, 3), (2, 4), (3, 2), (4, 1)])
    if kind == 'threads':
        n = rng.rng(2, 3)
    docs = []
    for k in range(n):
        if docs and rng.chance(0.65):
            src = rng.choice(docs)
            samepath = kind == 'plugin' and rng.chance(0.7)
            d = W.place(rng, 'd%d' % k)
            new = src['dir'] if samepath else d
            m = {'unit': src['unit'], 'dir': new, 'main': new + src['main'][len(src['dir']):], 'files': {new + p[len(src['dir']):]: t for p, t in src['files'].items()}}
        else:
            u = W.member(rng, k, p_mut=0.2, shared=False)
            m = {'unit': u['unit'], 'dir': u['dir'], 'main': u['main'], 'files': u['files']}
        # warnings are to be found by their real lines
        m['files'] = {p: re.sub(r'(?m)^[ \t]*#[ \t]*(line\b|\d).*$', '', t) if isinstance(t, str) else t for p, t in m['files'].items()}
        m.update(comments=None, place_seed=rng.below(1 << 40), crlf=rng.chance(0.04), eof=rng.chance(0.12), style=rng.below(3))
        docs.append(m)
    checks = rng.choice(['level0,level1,level2,manual', ','.join(W.all_checks()), ','.join(W.all_checks()), 'level1', W.checks_arg(rng) or 'level1'])
    if kind == 'tidy':
        checks = '-*,clazy-*' if rng.chance(0.6) else c02.tidy_checks(rng)
    sc = {'kind': kind, 'docs': docs, 'checks': checks, 'env_seed': rng.below(1 << 30), 'std': rng.choice(['-std=c++17', '-std=c++20']),
          'env': {'CLAZY_CHECKS_AS_ERRORS': ','.join(rng.sample(W.all_checks(), 10))} if rng.chance(0.1) else {}, 'export': rng.chance(0.15)}
    if kind == 'threads':
        sc['sched'] = dict(c03.gen_sched(rng), races=False)
    return sc


FL = ['-fno-caret-diagnostics', '-ferror-limit=0']


def member(d, files):
    return {'unit': d['unit'], 'dir': d['dir'], 'main': d['main'], 'files': files, 'flags': [], 'fault': None}


def flags(sc):
    return [sc['std']] + (['-fno-caret-diagnostics', '-ferror-limit=0'] if sc['kind'] == 'standalone' else ['-fno-caret-diagnostics', '-ferror-limit', '0'] if sc['kind'] != 'tidy' else [])


def session(sc, d, files):
    return {'main': d['main'], 'files': files, 'flags': flags(sc), 'pargs': [sc['checks']] + (['export-fixes'] if sc['export'] else []), 'mode': 'syntax', 'unit': d['unit']}


def run_all(sc, R, texts, cached=False):
    """what each of the documents gets, analysed together: [[tagged]]; None after an abnormal end"""
    docs = sc['docs']
    if sc['kind'] in ('plugin', 'threads'):
        ss = [session(sc, d, t) for d, t in zip(docs, texts)]
        th = [[s] for s in ss] if sc['kind'] == 'threads' else [ss]
        r = R.run(S.spec(th, W.SHARED_H % '', sc['env'], sc['env_seed'], sched=sc.get('sched') if len(th) > 1 else None), cached=cached)
        if crashed(r):
            return None, r
        return [tagged(j['diag']) for t in r.res['threads'] for j in t], r
    if sc['kind'] == 'standalone':
        ms = [member(d, t) for d, t in zip(docs, texts)]
        for m in ms:
            m['flags'] = flags(sc)
        one = {'mode': 'args', 'members': ms, 'opts': ['--checks=' + sc['checks']], 'env': sc['env'], 'shared': W.SHARED_H % '', 'env_seed': sc['env_seed']}
        r = R.run(c01.spec_for(one, range(len(ms)), ['--export-fixes=' + V + '/fixes.yaml'] if sc['export'] else []), cached=cached)
        if crashed(r):
            return None, r
        if len(ms) == 1:
            return [tagged(r.err)], r
        _, segs = text.segments(r.err)
        return [tagged(x) for _, x in segs], r
    ms = [member(d, t) for d, t in zip(docs, texts)]
    r = R.run(c02.spec({'shared': W.SHARED_H % '', 'env': sc['env']}, [c02.run_of({'members': ms, 'checks': sc['checks'], 'flags': flags(sc)}, range(len(ms)))], sc['env_seed']), cached=cached)
    if crashed(r):
        return None, r
    ds = r.res['tidy'][0]['diags']
    return [tidy_tagged([x for x in ds if x['file'].startswith(d['dir'] + '/')], t) for d, t in zip(docs, texts)], r


def comments_of(sc, d, R):
    if d['comments'] is not None:
        return d['comments']
    got, _ = run_all(dict(sc, docs=[d], kind='plugin' if sc['kind'] == 'threads' else sc['kind']), R, [d['files']], cached=True)
    ds = [(x[0], x[1], x[3]) for x in (got or [[]])[0] if x[3]]
    return gen_comments(Rng('place', d['place_seed']), {f: t for f, t in d['files'].items() if isinstance(t, str)}, ds)


def evaluate(sc, R):
    o = Outcome()
    docs = sc['docs']
    if not docs:
        return o
    alone_kind = 'plugin' if sc['kind'] == 'threads' else sc['kind']
    cs, bases = [], []
    for d in docs:
        c = comments_of(sc, d, R)
        c = [x for x in c if x[0] in d['files']]
        cs.append(c)
        t = render(d['files'], c, True, d['crlf'], d['eof'], d['style'])
        got, r = run_all(dict(sc, docs=[d], kind=alone_kind), R, [t], cached=True)
        if got is None:
            o.count('crashing')
            return o
        bases.append((got[0] if got else []))
    got, run = run_all(sc, R, [render(d['files'], c, False, d['crlf'], d['eof'], d['style']) for d, c in zip(docs, cs)])
    o.made = cs
    if got is None:
        o.bad('crash', 'with suppression comments the process ends abnormally: %s\n%s' % (crashed(run), run.err[-1000:]))
        return o
    if len(got) != len(docs):
        return o
    ncov = nleft = 0
    for k, (d, c, base, mine) in enumerate(zip(docs, cs, bases, got)):
        o.count('comments', len(c))
        for x in c:
            o.count('form_' + x[2])
        left = {}
        for x in mine:
            left.setdefault(x[:5], []).append(x[5])
        suppressed_checks = {x[3] for x in base if x[3] and covered(c, x[0], x[1], x[3]) is not False}
        b = {}
        for x in base:
            b.setdefault(x[:5], []).append(x[5])
        for key in sorted(set(b) | set(left)):
            f, ln, col, check, msg = key
            judged = all(b.get(key, [True])) and all(left.get(key, [True]))
            if not check or not judged:
                continue
            cov = covered(c, f, ln, check)
            n, m = len(b.get(key, [])), len(left.get(key, []))
            what = 'document %d of %d (%s): %s:%d %s "%s"; comments of the file: %s' % (k + 1, len(docs), d['unit'], f, ln, check, msg,
                                                                                     ['%d: %s' % (x[1], comment_text(x) if x[2] != 'range' else 'NOLINTBEGIN..%d(%s)' % (x[4], ','.join(x[3]))) for x in c if x[0] == f][:6])
            if cov:
                ncov += n > 0
                if m:
                    o.bad('not-silenced:' + check, 'a covered warning is reported: ' + what)
            elif cov is False:
                nleft += m > 0
                if m < n and not (check in suppressed_checks and msg.startswith('FixIt failed')):
                    o.bad('silenced:' + check, 'a warning no comment covers is missing: ' + what)
                elif m > n:
                    o.bad('invented:' + check, 'a warning appears that is not there without suppression comments: ' + what)
    o.count('covered_diagnostics', ncov)
    o.count('remaining_diagnostics', nleft)
    o.nontrivial = ncov > 0 and nleft > 0
    o.sig = digest(cs, got)
    o.sample = {'kind': sc['kind'], 'units': [d['unit'] for d in docs], 'comments': [[(x[1], x[2], x[3][:3]) for x in c][:4] for c in cs], 'covered': ncov, 'remaining': nleft}
    return o


def concretise(sc, R):
    o = evaluate(sc, R)
    c = json.loads(json.dumps(sc))
    for d, m in zip(c['docs'], o.made):
        d['comments'] = m
    if sc['kind'] == 'threads' and sc['sched'].get('strategy') != 2:
        pass
    return c


def shrink(sc):
    yield from ddmin_lists(sc, ['docs'])
    for k, d in enumerate(sc['docs']):
        if d['comments']:
            yield from ddmin_lists(sc, ['docs', k, 'comments'])
            for i, x in enumerate(d['comments']):
                if len(x[3]) > 1:
                    for part in (x[3][:len(x[3]) // 2], x[3][len(x[3]) // 2:]):
                        c = json.loads(json.dumps(sc))
                        c['docs'][k]['comments'][i][3] = part
                        yield c
        for f in ('crlf', 'eof', 'style'):
            if d[f]:
                c = json.loads(json.dumps(sc))
                c['docs'][k][f] = 0
                yield c
        # drop text behind and between, keeping the line numbers
        for f in sorted(d['files']):
            t = d['files'][f]
            if not isinstance(t, str):
                continue
            lines = t.split('\n')
            n = len(lines)
            size = n // 2
            while size >= max(1, n // 8):
                for s in range(0, n, size):
                    if any(l for l in lines[s:s + size]):
                        c = json.loads(json.dumps(sc))
                        c['docs'][k]['files'][f] = '\n'.join(lines[:s] + [''] * len(lines[s:s + size]) + lines[s + size:])
                        yield c
                size //= 2
    if ',' in sc['checks']:
        l = sc['checks'].split(',')
        for part in (l[:len(l) // 2], l[len(l) // 2:]):
            yield dict(json.loads(json.dumps(sc)), checks=('-*,' if sc['kind'] == 'tidy' and '-*' not in part else '') + ','.join(part))
