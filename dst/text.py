"""Reading what clazy prints"""
import difflib
import re

CHECK = re.compile(r'\[-W(?:error,-W)?clazy-([\w-]+)')
DIAG = re.compile(r'^(\S[^:\n]*):(\d+):(\d+): (warning|error|fatal error|note): (.*)$')
PROC = re.compile(r'^\[(\d+)/(\d+)\] Processing file (.*)\.$')


def joined(t):
    """with the tags on the line of their message, which may end in a line break"""
    return re.sub(r'\n+ \[-W', ' [-W', t)


def segments(err):
    """stderr of clazy-standalone -> (preamble, [(file, text)])"""
    pre, segs, cur = [], [], None
    for l in re.sub(r'(?<=.)(\[\d+/\d+\] Processing file )', r'\n\1', err).split('\n'):
        m = PROC.match(l)
        if m:
            cur = (m.group(3), [])
            segs.append(cur)
        elif cur is None:
            pre.append(l)
        else:
            cur[1].append(l)
    return '\n'.join(pre).strip('\n'), [(f, '\n'.join(t).strip('\n')) for f, t in segs]


def diags(text):
    """(file, line, col, level, message) with clazy's and the compiler's"""
    return [m.groups() for m in (DIAG.match(l) for l in text.split('\n')) if m]


def clazy_diags(text):
    return [d for d in diags(text) if CHECK.search(d[4])]


def is_clazy(msg):
    return bool(CHECK.search(msg))


def diff(expected, got, n=12):
    d = [l for l in difflib.unified_diff(expected.split('\n'), got.split('\n'), 'expected', 'got', lineterm='', n=0)][2:]
    d = [l for l in d if not l.startswith('@@')]
    return '\n'.join(x[:240] for x in d[:n])


def diff_checks(expected, got):
    """which checks' diagnostics differ"""
    d = [l for l in difflib.ndiff(expected.split('\n'), got.split('\n')) if l[:2] in ('- ', '+ ')]
    cs = sorted({m for l in d for m in CHECK.findall(l)})
    return '+'.join(cs[:4]) if cs else 'other'


# ---------------------------------------------------------------------------------------------- exported fixes
ENTRY = re.compile(r'^  - DiagnosticName:', re.M)


def yaml_entries(t):
    """an exported file -> the texts of its diagnostics, or None if it is not one complete document"""
    if not isinstance(t, str) or not t.startswith('---\n') or not t.endswith('\n...\n'):
        return None
    body = t[4:-4]
    if '\n---\n' in body or '\n...\n' in body or not body.startswith('MainSourceFile:'):
        return None
    i = body.find('\nDiagnostics:')
    if i < 0:
        return None
    body = body[i + len('\nDiagnostics:'):]
    starts = [m.start() for m in ENTRY.finditer(body)]
    if not starts:
        return [] if body.strip() in ('', '[]') else None
    return [body[a:b].rstrip('\n') for a, b in zip(starts, starts[1:] + [len(body)])]


def scalar(s):
    s = s.strip()
    if len(s) >= 2 and s[0] == "'" and s[-1] == "'":
        return s[1:-1].replace("''", "'")
    if len(s) >= 2 and s[0] == '"' and s[-1] == '"':
        return re.sub(r'\\(x[0-9A-Fa-f]{2}|.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r', '"': '"', '\\': '\\', '0': '\0'}.get(
            m.group(1), chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == 'x' and len(m.group(1)) == 3 else m.group(1)), s[1:-1])
    return s


def entry_fields(e):
    """one exported diagnostic -> (name, message, file, offset, [(file, offset, length, text)])"""
    lines = e.split('\n')
    name = scalar(lines[0].split(':', 1)[1])
    msg = path = None
    off = None
    reps, cur = [], None
    i = 1
    inrep = False
    while i < len(lines):
        l = lines[i]
        m = re.match(r'^\s*(?:- )?(\w+):(.*)$', l)
        i += 1
        if not m:
            continue
        k, v = m.group(1), m.group(2)
        # folded scalars go on over several lines
        sv = v.strip()
        if sv and sv[0] in '\'"':
            q = sv[0]

            def closed(x):
                if len(x) < 2 or x[-1] != q:
                    return False
                if q == "'":
                    return (len(x) - len(x.rstrip("'"))) % 2 == 1 if x.strip("'") else len(x) % 2 == 0
                return (len(x) - 1 - len(x[:-1].rstrip('\\'))) % 2 == 0
            nl = 0
            while not closed(sv) and i < len(lines):
                t = lines[i].strip()
                i += 1
                if t == '':
                    nl += 1
                    sv += '\n'
                else:
                    sv += ('' if nl else ' ') + t
                    nl = 0
        v = scalar(sv)
        if k == 'Replacements':
            inrep = True
        elif k == 'Level' or k == 'BuildDirectory':
            inrep = False
        elif not inrep:
            if k == 'Message':
                msg = v
            elif k == 'FilePath':
                path = v
            elif k == 'FileOffset':
                off = int(v)
        else:
            if k == 'FilePath':
                cur = [v, 0, 0, '']
                reps.append(cur)
            elif k == 'Offset':
                cur[1] = int(v)
            elif k == 'Length':
                cur[2] = int(v)
            elif k == 'ReplacementText':
                cur[3] = v
    return name, msg, path, off, [tuple(r) for r in reps]


FIXIT = re.compile(r'^fix-it:"(.*)":\{(\d+):(\d+)-(\d+):(\d+)\}:"(.*)"$')


def unescape(s):
    return re.sub(r'\\([0-7]{3}|.)', lambda m: {'n': '\n', 't': '\t', '"': '"', '\\': '\\'}.get(m.group(1), chr(int(m.group(1), 8)) if len(m.group(1)) == 3 else m.group(1)), s)


def printed_warnings(t):
    """stderr with -fdiagnostics-parseable-fixits -> [(file, line, col, message, [fix-its])] of the warnings"""
    r = []
    cur = None
    for l in t.split('\n'):
        m = DIAG.match(l)
        if m:
            f, ln, col, level, msg = m.groups()
            if level == 'warning':
                cur = (f, int(ln), int(col), msg, [])
                r.append(cur)
            elif level != 'note':
                cur = None
            else:
                cur = cur and (cur[0], cur[1], cur[2], cur[3], []) if False else None
            continue
        if re.match(r'^warning: ', l):
            cur = ('', 0, 0, l[9:], [])
            r.append(cur)
            continue
        m = FIXIT.match(l)
        if m and cur:
            g = m.groups()
            cur[4].append((unescape(g[0]), int(g[1]), int(g[2]), int(g[3]), int(g[4]), unescape(g[5])))
    return r


def offset_of(content, line, col):
    """byte offset of a printed position, columns being counted in bytes"""
    b = content.encode('utf-8', 'surrogateescape')
    pos = 0
    for _ in range(line - 1):
        n = b.find(b'\n', pos)
        if n < 0:
            return None
        pos = n + 1
    return pos + col - 1


def in_define(content, line):
    ls = content.split('\n')
    i = line - 1
    while 0 < i < len(ls) and ls[i - 1].endswith('\\'):
        i -= 1
    return 0 <= i < len(ls) and ls[i].lstrip().startswith('#')


def before_macros(reps, files):
    """an insertion in front of a macro's first argument is, as the printer sees it, one in front of the macro"""
    macros = set(m.encode() for t in files.values() if isinstance(t, str) for m in re.findall(r'#[ \t]*define[ \t]+(\w+)\(', t))
    r = []
    for f, a, n, t in reps:
        b = files[f].encode('utf-8', 'surrogateescape')
        while not n:
            m = re.search(rb'(\w+)\s*\(\s*$', b[max(0, a - 200):a])
            if not m or m.group(1) not in macros:
                break
            a -= len(m.group(0))
        r.append((f, a, n, t))
    return sorted(r)


def applied(reps, files):
    r = {}
    for f, a, n, t in reversed(reps):
        b = r.get(f)
        if b is None:
            b = files[f].encode('utf-8', 'surrogateescape')
        r[f] = b[:a] + t.encode('utf-8', 'surrogateescape') + b[a + n:]
    # the printer also removes blanks around removed text
    return {f: b''.join(t.split()) for f, t in r.items()}


def export_problems(err, yaml, files):
    """does the exported file hold exactly the warnings and fix-its that were printed?
    err: printed with -fdiagnostics-parseable-fixits; files: the contents by path"""
    printed = printed_warnings(err)
    if yaml is None:
        return ['nothing was exported although %d warnings were printed' % len(printed)] if printed else []
    es = yaml_entries(yaml)
    if es is None:
        return ['the exported file is not one complete document']
    got = [entry_fields(e) for e in es]
    bad = []
    pm = [re.sub(r' \[-W[^\]]*\]$', '', p[3]) for p in printed]
    gm = [g[1] or '' for g in got]
    squash = lambda s: re.sub(r'\s+', ' ', s).strip()
    if sorted(map(squash, pm)) != sorted(map(squash, gm)):
        a, b = sorted(map(squash, pm)), sorted(map(squash, gm))
        return ['printed and exported warnings differ: only printed %s, only exported %s' % ([x for x in a if a.count(x) > b.count(x)][:3], [x for x in b if b.count(x) > a.count(x)][:3])]
    # fix-its, where they are printed and unambiguous
    for k, p in enumerate(printed):
        if not p[4]:
            continue
        want = set()
        ok = True
        for f, l1, c1, l2, c2, t in p[4]:
            if not isinstance(files.get(f), str):
                ok = False
                break
            a, b = offset_of(files[f], l1, c1), offset_of(files[f], l2, c2)
            if a is None or b is None:
                ok = False
                break
            want.add((f, a, b - a, t))
        w = sorted(want)
        # fix-its inside macros are mapped differently by the printer: compared between batch and alone only
        here = [(p[0], p[1])] + [(f, files[f].encode('utf-8', 'surrogateescape')[:a].count(b'\n') + 1) for g, m in zip(got, gm) if squash(m) == squash(pm[k])
                                 for f, a, _, _ in g[4] if isinstance(files.get(f), str)]
        cand = [g for g, m in zip(got, gm) if squash(m) == squash(pm[k])]
        if any(not isinstance(files.get(f), str) for g in cand for f, _, _, _ in g[4]):
            continue
        if any(isinstance(files.get(f), str) and in_define(files[f], ln) for f, ln in here):
            continue
        # overlapping edits have no single meaning
        if not ok or any(x[0] == y[0] and x[1] + x[2] > y[1] for x, y in zip(w, w[1:])) or len(w) != len(p[4]):
            continue
        wanted = applied(before_macros(w, files), files)
        if not any(applied(before_macros(g[4], files), files) == wanted for g in cand):
            bad.append('the fix-its of "%s" at %s:%d:%d are exported as %s instead of %s' % (pm[k], p[0], p[1], p[2], [g[4] for g in cand][:3], w))
    return bad
