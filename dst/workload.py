"""The workload: translation units made from the sources under workload/, their mutations, and option swarms."""
import json
import os
import re

from .core import QT, QTMOD, V, VERIF

WL = VERIF + '/workload'
QTFLAGS = ['-nostdinc', '-isystem', QT, '-isystem', QTMOD]
QTFLAGS_CC1 = ['-nostdsysteminc', '-nobuiltininc', '-isystem', QT, '-isystem', QTMOD]


class Unit:
    def __init__(self, name, main, files, flags, ok=True, checks=()):
        self.name, self.main, self.files, self.flags, self.ok = name, main, files, flags, ok
        self.checks = checks


def _read(p):
    with open(p, encoding='utf-8', errors='replace') as f:
        return f.read()


def load():
    """all units, by name; ordered the same way everywhere"""
    units = []
    for sub in ('corpus', 'snippets'):
        base = '%s/%s' % (WL, sub)
        if not os.path.exists(base + '/index.json'):
            continue
        idx = json.loads(_read(base + '/index.json'))
        for name in sorted(idx):
            d, main = name.split('/', 1)
            files = {}
            text = _read('%s/%s' % (base, name))
            files[main] = text
            # the local headers it needs, transitively
            todo = [text]
            while todo:
                t = todo.pop()
                for m in re.findall(r'#\s*include\s+["<]([^">]+)[">]', t):
                    p = '%s/%s/%s' % (base, d, m)
                    if m not in files and os.path.isfile(p):
                        files[m] = _read(p)
                        todo.append(files[m])
            units.append(Unit(sub[0] + ':' + name, main, files, idx[name]['flags'], idx[name]['ok'], tuple(idx[name].get('checks', ()))))
    return units


_units = None


def units():
    global _units
    if _units is None:
        _units = load()
    return _units


_lookalikes = None


def lookalikes():
    """self-contained units made by workload/make_lookalike.py: the names of Qt, but not the declarations the checks expect"""
    global _lookalikes
    if _lookalikes is None:
        d = WL + '/lookalike'
        _lookalikes = [Unit('l:' + n, 'main.cpp', {'main.cpp': _read(d + '/' + n)}, ['-std=c++17'], True, ()) for n in sorted(os.listdir(d))]
    return _lookalikes


_checks = None


def checks():
    """name -> level, from the repository's own metadata"""
    global _checks
    if _checks is None:
        repo = os.environ.get('CLAZY_REPO', '/repo')
        _checks = {c['name']: c['level'] for c in json.loads(_read(repo + '/checks.json'))['checks']}
    return _checks


_fixits = None


def fixits():
    """the names of the fix-its select their check"""
    global _fixits
    if _fixits is None:
        repo = os.environ.get('CLAZY_REPO', '/repo')
        _fixits = sorted({f['name'] for c in json.loads(_read(repo + '/checks.json'))['checks'] for f in c.get('fixits', [])})
        _fixits = ['fix-' + f if not f.startswith('fix-') else f for f in _fixits] or all_checks()
    return _fixits


def all_checks():
    return sorted(checks())


# ---------------------------------------------------------------------------------------------- mutations
SUBST = [('QString', 'QByteArray'), ('QByteArray', 'QString'), ('QList', 'QVector'), ('QVector', 'QList'), ('QMap', 'QHash'), ('QHash', 'QMap'),
         ('const ', ''), ('virtual ', ''), (' &', ' '), ('int ', 'double '), ('int ', 'short '), ('QObject', 'QThread'), ('struct ', 'class '),
         ('public:', 'private:'), ('static ', ''), ('QStringList', 'QVector<QString>'), ('override', ''), ('signals:', 'public:'), ('public slots:', 'public:'),
         ('explicit ', ''), ('.at(', '['), ('foo', 'bar'), ('bar', 'foo'), ('Test', 'MyObj'), ('MyObj', 'Test'), ('return ', 'if (1) return '), ('true', 'false'), ('inline ', '__inline '),
         ('auto ', 'const auto &'), ('void ', 'auto '), ('class ', 'struct '), ('->', '.'), ('(int', '(long'), (' = ', ' = {}; auto zz = '), ('SLOT(', 'SIGNAL('), ('emit ', 'Q_EMIT ')]


ODD_DIRECTIVES = ['#define QT_NAMESPACE 5', '#define QT_NAMESPACE', '#define QT_NAMESPACE A B', '#ifndef FOO\n#define FOOO\n#endif', '#ifdef Q_OS_WINDOWS\n#endif',
                  '#if defined(Q_OS_WINDOWS) || defined Q_OS_MAC\n#endif', '#undef signals', '#undef Q_OBJECT\n#define Q_OBJECT', '#define emit', '#pragma once', '#line 5 "other.cpp"',
                  '#line 40', '#undef QT_VERSION_MAJOR\n#define QT_VERSION_MAJOR', '#if QT_VERSION_MAJOR\n#endif', '#if 1 > 2\n#elif 1\n#else\n#endif', '#define Q_FOREACH(a, b) for (a : b)',
                  '#define QT_BEGIN_NAMESPACE namespace {\nQT_BEGIN_NAMESPACE\n}', '#include <qglobal.h>', '#define slots Q_SLOTS', '#pragma clang system_header', '#include __FILE__x', '#define SLOT(a) #a',
                  '#define QT_NO_KEYWORDS\n#ifdef QT_NO_KEYWORDS\n#endif', '#error stop', '#warning careful', '_Pragma("once")', '/*', '*/']


def reshape(rng, text):
    """the same things said in an unusual way: macros, templates, namespaces, comments and continued lines within expressions"""
    lines = text.split('\n')
    code = [i for i, l in enumerate(lines) if l.strip() and not l.lstrip().startswith('#') and '//' not in l and '*/' not in l and not l.endswith('\\')]
    if not code:
        return text
    i = rng.choice(code)
    l = lines[i]
    k = rng.below(13)
    if k == 0:
        # a call or a name through a macro
        ms = [m for m in re.finditer(r'[A-Za-z_]\w*', l)]
        m = rng.choice(ms) if ms else None
        if m:
            lines[i] = l[:m.start()] + 'WRAP_(' + m.group(0) + ')' + l[m.end():]
            lines.insert(0, '#define WRAP_(...) __VA_ARGS__')
    elif k == 1:
        # a whole statement through a macro
        if l.rstrip().endswith(';'):
            lines[i] = 'WRAP_(' + l + ')'
            lines.insert(0, '#define WRAP_(...) __VA_ARGS__')
    elif k == 2:
        # the end of a body in a macro
        lines[i] = l.replace('}', 'END_').replace('{', 'BEGIN_')
        lines.insert(0, '#define END_ }\n#define BEGIN_ {')
    elif k == 3:
        first = next((j for j, x in enumerate(lines) if x.strip() and not x.lstrip().startswith(('#', '//', '/*', '*'))), 0)
        last = max((j for j, x in enumerate(lines) if x.lstrip().startswith('#')), default=-1)
        at = max(first, last + 1)
        head = rng.choice(['namespace N_ {', 'inline namespace V1 {', 'namespace {', 'namespace A_::B_ {', 'extern "C++" {'])
        lines.insert(at, head)
        lines.append('}')
    elif k == 4:
        lines[i] = re.sub(r'\b(void|int|bool|QString)\b (?=\w+\()', lambda m: rng.choice(['template <typename T_> ', 'constexpr ', 'inline ', '__inline ', '[[nodiscard]] ', 'static ', 'explicit ', 'virtual ']) + m.group(0), l, count=1)
    elif k == 5:
        # comments between the tokens
        c = rng.choice(["/* don't */", '/* a */ /* b */', '/**/', '/* " */', '/*\n*/', '\\\n', '\n', '\t  ', '/* clazy:exclude=x */', '/* NOLINT */'])
        ps = [m.start() for m in re.finditer(r'[(){};,.=<> ]', l)]
        if ps:
            p = rng.choice(ps)
            lines[i] = l[:p] + c + l[p:]
    elif k == 6:
        # another argument
        lines[i] = re.sub(r'([(,] *)([^(),]+)(?=[,)])', lambda m: m.group(1) + rng.choice(['{}', '0', 'nullptr', '*this', '500 / 0', '-1', '""', 'QString()', '[] { return 1; }()', '(0, 1)', 'true ? 1 : 2', '1 << 40', 'this']), l, count=1)
    elif k == 7:
        lines[i] = re.sub(r'([(=] *)([^()=;]+)(?=[;)])', lambda m: m.group(1) + '(' + m.group(2) + ')', l, count=1)
    elif k == 8:
        lines[i:i + 1] = [l] * rng.rng(2, 4)
    elif k == 9:
        # one line
        j = min(len(lines), i + rng.rng(2, 8))
        if not any(x.lstrip().startswith('#') or '//' in x or x.endswith('\\') for x in lines[i:j]):
            lines[i:j] = [' '.join(lines[i:j])]
    elif k == 10:
        lines[i] = rng.choice(['if constexpr (sizeof(int) == 4) ', 'if (auto z_ = 1; z_) ', 'for (;;) ', 'do ', 'switch (1) default: ', 'while (0) ', '[&]() mutable ', 'label_: ', 'return ']) + l
    elif k == 11:
        lines[i] = re.sub(r'\b[a-z]\w+(?=\()', lambda m: rng.choice(['(*&%s)', '::%s', 'this->%s', 'operator()', '%s<int>', '(%s)', '~%s']).replace('%s', m.group(0)), l, count=1)
    else:
        lines[i] = re.sub(r'"([^"\\]*)"', lambda m: rng.choice(['u"%s"', 'R"x(%s)x"', '"%s" "%s"', 'u8"%s"', '"%%%s\\n"', 'L"%s"', '""', "'a'"]).replace('%s', m.group(1)), l, count=1)
    return '\n'.join(lines)


HOLES = ['auto &&hN_ = E;', 'bool hN_ = E;', 'auto hN_ = (E);', 'struct H%N_ { bool b = E; };', 'struct H%N_ { decltype(E) b{E}; H%N_() {} };', 'void hN_(bool = E);',
         'auto hN_ = [x = E] { return x; };', 'template <typename T_> bool hN_ = E; bool iN_ = hN_<int>;', 'static int hN_[] = { 0, (E, 1) };', 'enum { hN_ = (E, 1) };',
         'static_assert((E, true), "");', 'decltype(E) *hN_ = nullptr;', 'struct H%N_ { H%N_() : v(E) {} int v; };', 'struct H%N_ { H%N_() try : v(!(E)) { } catch (...) { } bool v; };',
         'int hN_ = [] { for (;E;) {} return 1; }();', 'int hN_ = [] { if (auto x = E; x) return 1; return 0; }();', 'int hN_ = [] { while (E) ; return 1; }();',
         'int hN_ = [] { switch (E) { default: E; } return 1; }();', 'auto hN_ = [] { return E; };', 'auto hN_ = [] { return [] { return [] { E; }; }; };',
         'int hN_ = [] { label_: E; goto label_; return 1; }();', 'int hN_ = [] { try { E; } catch (...) { throw E; } return 1; }();', 'template <typename T_> auto hN_(T_ t) { return E; } auto iN_ = hN_(1);',
         'const auto hN_ = E ? E : E;', 'void hN_() noexcept(noexcept(E));', 'int hN_ = sizeof(E);', 'auto hN_ = ({ E; });', 'auto hN_ = new auto(E);', 'int hN_ = [] { do E; while (0); return 1; }();',
         'int hN_ = [] { for (auto x : E) (void)x; return 1; }();', 'template <typename T_> concept HN_ = requires { E; };', 'auto hN_ = [](auto... a) { (E, ..., a); };', 'auto [aN_, bN_] = E;']


def hoist(rng, text):
    """the statements of a function put elsewhere: initialisers of globals and members, default arguments, templates, nested lambdas"""
    ms = [m for m in re.finditer(r'(?m)^[ \t]*[A-Za-z_][\w:<>,&*~ \t]*\([^;{}()]*\)[ \t]*(?:const)?\s*\{', text)]
    if not ms:
        return text
    m = rng.choice(ms)
    depth, i = 1, m.end()
    start, parts = i, []
    while i < len(text) and depth:
        c = text[i]
        if c in '{(':
            depth += 1
        elif c in '})':
            depth -= 1
            if depth == 1 and c == '}' and not re.match(r'\s*([;,).}(\[=]|else\b|while\b|catch\b)', text[i + 1:i + 40]):
                parts.append(text[start:i + 1])
                start = i + 1
        elif c == ';' and depth == 1:
            parts.append(text[start:i + 1])
            start = i + 1
        i += 1
    if depth or not parts or len(parts) > 200:
        return text
    out = []
    only = rng.below(len(parts)) if rng.chance(0.85) else -1     # one statement, or all
    holes = [rng.choice(HOLES)] if rng.chance(0.5) else HOLES[:8] if rng.chance(0.5) else HOLES
    n = 0
    for k, part in enumerate(parts):
        st = re.sub(r'//[^\n]*|/\*.*?\*/', '', part).strip()
        if not st or '#' in st:
            out.append(part)
            continue
        d = re.match(r'^(?:const )?(?:static )?[A-Za-z_][\w:<>, ]*[ &*]+(\w+)(?:\s*=\s*(.*))?;$', st, re.S)
        e = None
        if d and not st.startswith(('return', 'emit ', 'delete ', 'throw ')):
            out.append('\n' + st)                                # a declaration stays one
            e = d.group(2)
        elif re.match(r'(?:if|while|switch) *\(([^{};]+)\)', st) and rng.chance(0.6):
            e = re.match(r'(?:if|while|switch) *\(([^{};]+)\)', st).group(1)
        elif st.endswith('}') and not st.endswith('};'):
            out.append('\nint hb%d_ = [] { %s return 1; }();' % (k, st))
            continue
        else:
            e = re.sub(r'^(return|emit|Q_EMIT)\b', '', st).rstrip(';').strip()
        if e and only in (-1, k):
            n += 1
            out.append('\n' + rng.choice(holes).replace('H%N_', 'H%d_' % k).replace('N_', '%d_' % k).replace('E', e, 99) if len(e) < 2000 else '')
    whole = ''.join(out) + '\n'
    if rng.chance(0.3):
        # before the function instead of in its place
        return text[:m.start()] + '\n' + whole + text[m.start():]
    return text[:m.start()] + '\n' + whole + text[i:]


def blank(rng, text):
    """a macro or a keyword less, everything else at the same place"""
    ms = list(re.finditer(r'\b(?:Q_[A-Z_]+|QT_[A-Z_]+|[A-Z]{3,}_[A-Z_]+)\b(?:\([^()]*\))?', text)) if rng.chance(0.7) else []
    ms = ms or list(re.finditer(r'\b(?:const|virtual|override|explicit|static|emit|public|struct|inline|template *<>|using namespace|typedef|signals|slots|noexcept|mutable|(?:\w+::)+|this->)(?=\W)|&(?=\w)|!|\*(?=\w)', text))
    if not ms:
        return text
    m = rng.choice(ms)
    t = m.group(0)
    return text[:m.start()] + (' ' * len(t) if len(t) < 5 or rng.chance(0.6) else '/*' + 'x' * (len(t) - 4) + '*/') + text[m.end():]


def drop_declaration(rng, text):
    """one whole declaration less: the same names, declared differently in two translation units"""
    lines = text.split('\n')
    found = []
    i = 0
    while i < len(lines):
        l = lines[i]
        if not re.match(r'[A-Za-z_]', l):
            i += 1
            continue
        depth, j = 0, i
        while j < len(lines):
            t = lines[j].split('//')[0]
            depth += t.count('{') - t.count('}')
            if depth <= 0 and t.rstrip().endswith((';', '}', ')')):
                break
            j += 1
        if j < len(lines):
            found += [(i, j + 1)] * (6 if re.match(r'Q_[A-Z_]+\(|template *< *>|Q_DECLARE|using |typedef ', l) else 1)
        i = j + 1
    if not found:
        return text
    i, j = rng.choice(found)
    del lines[i:j]
    return '\n'.join(lines)


def mutate(rng, text, n=1):
    """a few small edits, the kind an editor makes between two runs; most results still parse"""
    for _ in range(n):
        lines = text.split('\n')
        k = rng.below(17)
        if k == 16:
            text = hoist(rng, text)
            continue
        if k == 15:
            text = blank(rng, text)
            continue
        if k >= 13:
            text = drop_declaration(rng, text)
            continue
        if k >= 10:
            text = reshape(rng, text)
            continue
        if k == 9:
            i = rng.below(len(lines))
            lines[i:i] = rng.choice(ODD_DIRECTIVES).split('\n')
        elif k == 0:
            i = rng.below(len(lines))
            lines[i:i] = [''] * rng.rng(1, 3)
        elif k == 1:
            i = rng.below(len(lines))
            del lines[i:i + 1]
        elif k in (2, 3, 4):
            cand = [(a, b) for a, b in SUBST if a in text]
            if cand:
                a, b = rng.choice(cand)
                where = [m.start() for m in re.finditer(re.escape(a), text)]
                p = rng.choice(where)
                text = text[:p] + b + text[p + len(a):]
            continue
        elif k == 5:
            # everywhere
            cand = [(a, b) for a, b in SUBST if a in text]
            if cand:
                a, b = rng.choice(cand)
                body = text.split('\n')
                text = '\n'.join(l if l.lstrip().startswith('#') else l.replace(a, b) for l in body)
            continue
        elif k == 6:
            # same length, different content: what a cache keyed by size or position would miss
            ids = [m for m in re.finditer(r'\b[a-z]\w{2,}\b', text)]
            if ids:
                m = rng.choice(ids)
                s = m.group(0)
                t = ''.join(chr((ord(c) - 97 + 1) % 26 + 97) if 'a' <= c <= 'z' else c for c in s)
                text = re.sub(r'\b%s\b' % re.escape(s), t, text) if rng.chance(0.5) else text[:m.start()] + t + text[m.end():]
            continue
        elif k == 7:
            # swap two blocks separated by blank lines
            blocks = re.split(r'\n\s*\n', text)
            if len(blocks) > 3:
                i = rng.rng(1, len(blocks) - 2)
                blocks[i], blocks[i + 1] = blocks[i + 1], blocks[i]
                text = '\n\n'.join(blocks)
            continue
        else:
            i = rng.below(len(lines))
            lines[i] = lines[i] + ' ' + suppression(rng)
        text = '\n'.join(lines)
    return text


def suppression(rng):
    cs = all_checks()
    k = rng.below(8)
    c = rng.choice(cs)
    if k == 0:
        return '// clazy:exclude=' + ','.join(rng.sample(cs, rng.rng(1, 20)))
    if k == 1:
        return '// clazy:exclude-next-line=' + ','.join(rng.sample(cs, rng.rng(1, 20)))
    if k == 2:
        return '// clazy:excludeall=' + ','.join(rng.sample(cs, rng.rng(1, 3)))
    if k == 3:
        return '// NOLINT'
    if k == 4:
        return '// NOLINTNEXTLINE'
    if k == 5:
        return '// NOLINT(clazy-%s)' % c
    if k == 6:
        return '// NOLINT(clazy-*)'
    return '// clazy:skip' if rng.chance(0.2) else '// NOLINTBEGIN(clazy-%s*)' % c[:3]


# ---------------------------------------------------------------------------------------------- members of a batch
SHARED_H = '''#ifndef SHARED_H
#define SHARED_H
#include <QtCore/QString>
#include <QtCore/QObject>
#include <QtCore/QList>
class Shared : public QObject
{
public:
    virtual void f(QString s);
    QString name() { return QString("shared"); }
    QList<QString> all() { for (QString s : m_l) { s.size(); } return m_l; }
%s
private:
    QList<QString> m_l;
};
#endif
'''


_themes = None


def themes():
    """the checks that have sources of their own"""
    global _themes
    if _themes is None:
        _themes = sorted({c for u in units() for c in u.checks} & set(all_checks()))
    return _themes


def pick_unit(rng, healthy=False):
    us = units()
    own = [u for u in us if u.name.startswith('s:')]
    theme = getattr(rng, 'theme', None)
    if not healthy and rng.chance(getattr(rng, 'lookalike', 0.05)):
        return rng.choice(lookalikes())
    if theme and rng.chance(0.7):
        ts = [u for u in us if theme in u.checks and (u.ok or not healthy)]
        if ts:
            return rng.choice(ts)
    while True:
        u = rng.choice(own) if rng.chance(0.2) else rng.choice(us)
        if u.ok or not healthy:
            return u


def variant(rng, flags, healthy=False):
    """the flags of a translation unit: what differs between the targets of one project or between two projects"""
    flags = list(flags)
    if rng.chance(0.3):
        flags.append('-DQT_CORE_LIB')
    if rng.chance(0.22):
        flags.append('-DQT_NAMESPACE=' + rng.choice(['MyQt', 'MyQt', 'Other']))
    if rng.chance(0.03):
        flags.append('-DQT_BOOTSTRAPPED')
    if healthy:
        return flags
    if rng.chance(0.1):
        flags.append('-DQT_NO_KEYWORDS')
    if rng.chance(0.04):
        flags.append(rng.choice(['-DQT_NAMESPACE', '-DQT_NAMESPACE=', '-DQT_NAMESPACE=A::B', '-DQT_NAMESPACE="x"', '-DQT_NO_KEYWORDS=0', '-DQT_CORE_LIB=0', '-DQT_VERSION_MAJOR=',
                                 '-UQT_CORE_LIB', '-DQ_OBJECT=', '-fno-rtti', '-fms-extensions', '-DQT_VERSION_MINOR=x']))
    if not any('MINIQT' in f for f in flags):
        flags += rng.weighted([([], 8), (['-DMINIQT5'], 1.5), (['-DMINIQT5OLD'], 0.6), (['-DMINIQTNOVERSION'], 0.7)])
    if rng.chance(0.1):
        other = rng.weighted([('-std=c++20', 4), ('-std=c++14', 2), ('-std=c++23', 1), ('-std=gnu++17', 0.5)])
        flags = [other if f == '-std=c++17' else f for f in flags]
    return flags


def place(rng, name):
    """a directory of the virtual tree; some have names that matter to somebody: generated QML caches, blanks, quotes, letters beyond ASCII"""
    if rng.chance(0.82):
        return V + '/' + name
    return V + '/' + name + rng.choice(['/.rcc/qmlcache', '/.rcc/qmlcache', '/.rcc', '/a b', " 'q'", '/%41%', '/é', '/"x"', '/#', '/a&b', '/x.cpp', '/{}', '/- y', '/.moc', '/[0]', '/c++'])


def member(rng, i, shared=False, p_mut=0.45, healthy=False, dirs=True):
    """one translation unit placed in the virtual tree"""
    u = pick_unit(rng, healthy)
    d = place(rng, 'd%d' % i) if dirs else V + '/src'
    files = {d + '/' + n: t for n, t in u.files.items()}
    main = d + '/' + u.main
    if rng.chance(p_mut):
        which = main if rng.chance(0.85) or len(files) == 1 else rng.choice(sorted(files))
        files[which] = mutate(rng, files[which], rng.rng(1, 4))
    if shared:
        files[main] = '#include "%s/shared.h"\n' % V + files[main]
    return {'unit': u.name, 'dir': d, 'main': main, 'files': files, 'flags': variant(rng, u.flags, healthy)}


def checks_arg(rng):
    c = _checks_arg(rng)
    theme = getattr(rng, 'theme', None)
    if theme and rng.chance(0.8) and theme not in c.split(','):
        c = c + ',' + theme if c else theme
    return c


def _checks_arg(rng):
    cs = all_checks()
    k = rng.weighted([('all', 3), ('some', 3), ('level', 3), ('mixed', 1), ('one', 1), ('default', 0.7), ('without', 0.6), ('fixits', 0.4)])
    if k == 'without':
        return ','.join('no-' + c for c in rng.sample(cs, rng.rng(1, 12)))
    if k == 'fixits':
        return ','.join(rng.sample(fixits(), rng.rng(1, 4)) + rng.sample(cs, rng.rng(0, 4)))
    if k == 'all':
        return ','.join(cs)
    if k == 'some':
        return ','.join(rng.sample(cs, rng.rng(2, len(cs))))
    if k == 'level':
        return rng.choice(['level0', 'level1', 'level2', 'manual', 'level0,level1,level2,manual'])
    if k == 'mixed':
        return rng.choice(['level1', 'level2']) + ',' + ','.join(('no-' if rng.chance(0.3) else '') + c for c in rng.sample(cs, rng.rng(2, 30)))
    if k == 'one':
        return rng.choice(cs)
    return ''


def gen_alloc(rng):
    return {'mode': rng.choice([0, 1, 1, 2, 3]), 'seed': rng.below(1 << 40), 'new': rng.choice([-1, 0, 0xff, 0x41, 256, 256, 1]),
            'freed': rng.choice([-1, 0, 0xff, 0xdd, 256]), 'stack': rng.choice([-1, 0, 0xff, 1, 256, 256])}


def env_swarm(rng):
    env = {}
    if rng.chance(0.15):
        env['CLAZY_EXTRA_OPTIONS'] = ','.join(rng.sample(
            ['unused-non-trivial-variable-no-whitelist', 'writing-to-temporary-widen-criteria', 'qstring-arg-fillChar-overloads',
             'function-args-by-value-warn-for-overridden-methods', 'qstring-allocations-no-msvc-compat', 'implicit-casts-bool-to-int',
             'unneeded-cast-prefer-dynamic-cast-over-qobject', 'nonsense'], rng.rng(1, 3)))
    if rng.chance(0.15):
        env['CLAZY_CHECKS_AS_ERRORS'] = ','.join(rng.sample(all_checks(), rng.rng(1, 20)))
    if rng.chance(0.05):
        env['CLAZY_NO_WERROR'] = '1'
    if rng.chance(0.08):
        env['CLAZY_HEADER_FILTER'] = rng.choice(['.*', 'shared', '/w/d[0-3]/.*', 'nothing'])
    if rng.chance(0.08):
        env['CLAZY_IGNORE_DIRS'] = rng.choice(['/w/d1', '/w/d[02]/', 'src', 'nothing'])
    if rng.chance(0.05):
        env['CLAZY_UNUSED_NON_TRIVIAL_VARIABLE_WHITELIST'] = 'MyObj,Test,Foo'
    if rng.chance(0.05):
        env['CLAZY_UNUSED_NON_TRIVIAL_VARIABLE_BLACKLIST'] = 'QString,QList'
    if rng.chance(0.05):
        env['CLAZY_ACCESSSPECIFIER_NON_QOBJECT'] = '1'
    if rng.chance(0.06):
        env['CLAZY_CHECKS'] = checks_arg(rng)
    return env


def standalone_opts(rng):
    o = []
    c = checks_arg(rng)
    if c:
        o.append('--checks=' + c)
    if rng.chance(0.12):
        o.append('--only-qt')
    if rng.chance(0.08):
        o.append('--qt-developer')
    if rng.chance(0.1):
        o.append('--visit-implicit-code')
    if rng.chance(0.08):
        o.append('--ignore-included-files')
    if rng.chance(0.08):
        o.append('--header-filter=' + rng.choice(['.*', 'shared', '/w/d[0-3]/.*', 'nothing']))
    if rng.chance(0.08):
        o.append('--ignore-dirs=' + rng.choice(['/w/d1', '/w/d[02]/', 'src', 'nothing']))
    if rng.chance(0.06):
        o.append('--line-filter=' + json.dumps([{'name': rng.choice(['main.cpp', 'shared.h', '/w/d1/main.cpp']), 'lines': [[1, rng.rng(5, 60)]]}]))
    return o


def compile_flags(m, rng=None):
    return QTFLAGS + m['flags']
