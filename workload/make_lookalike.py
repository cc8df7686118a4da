"""Translation units that look like Qt code but aren't what the checks expect: the same names with other signatures, arities, templates and bases.

They compile, as a rule, so that everything of clazy runs over them. Many of them are what other versions of Qt, forks of it or code that merely
reuses its names look like."""

import os
import re
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst.core import Rng  # noqa: E402

CLASSES = """QObject QString QList QVector QMap QHash QSet QVariant QTimer QWidget QMenu QColor QDateTime QUrl QByteArray QRegularExpression QRegularExpressionMatch QRegExp
QFile QFileInfo QDir QLatin1String QLatin1StringView QStringRef QStringView QChar QEvent QChildEvent QKeyEvent QMouseEvent QThread QMutex QMutexLocker QReadWriteLock QReadLocker
QPointer QSharedPointer QScopedPointer QSharedDataPointer QWeakPointer QPair QModelIndex QPersistentModelIndex QMetaObject QMetaType QMetaMethod QDebug QTextStream
QJsonObject QJsonArray QJsonValue QCoreApplication QApplication QAndroidJniObject QJniObject QDBusInterface QDBusMessage QSignalSpy QState QImage QFont QPen QBrush QRect QPoint
QLinkedList QMultiMap QMultiHash QStack QQueue QVarLengthArray QStringList QStringBuilder QStringLiteral QForeachContainer QTypeInfo QQmlProperty QGlobalStatic QLoggingCategory
QListIterator QMapIterator QSetIterator QTextCursor QIcon QPalette QSizePolicy QDomElement QSslCertificate QMimeData QAbstractItemView QItemSelection QBasicMutex
QDataBuffer QUuid QTime QDate QStringListIterator QLocale QCollator QScopeGuard QSignalBlocker weak_ptr vector Qt QtPrivate""".split()
METHODS = """begin end cbegin cend rbegin crend constBegin constEnd insert find constFind lines iterator erase value count upperBound lowerBound size length lastIndexOf insertMulti
indexOf fromLatin1 fromUtf8 eventFilter endsWith startsWith data constData contains constLast constFirst compare append width toInt toUInt toFloat toDouble takeLast takeFirst take swap
removeOne removeAll remove push_back push_front push isNull isEmpty first last fill event dtor base at args values keys lock lockForRead lockForWrite unlock toUcs4 text takeAt sort
signal set scanLine constScanLine right reserve replace removeDuplicates replaceInStrings mid match mask left mid localAwareCompare isRecursive isDestroyed globalMatch front back
fragment enqueue dequeue connect disconnect clear chop childEvent child callStaticObjectMethod callStaticMethod callObjectMethod callMethod bits arg tr sendEvent postEvent
currentDateTime currentDateTimeUtc toMSecsSinceEpoch toSecsSinceEpoch toTime_t toUTC mkdir mkpath rmdir exists setNamedColor setInterval singleShot start addAction addActions open exec
registerHelper installEventFilter reset write addTransition toList toVector toLower toUpper toString trimmed simplified winId keyBegin keyValueBegin addFlag firstItem nextItem next
hasNext timerEvent setRawData split exactMatch indexIn qHash getCmyk currentTime fromString toSet intersect unite subtract objectName setObjectName property setProperty""".split()
FREE = """qgetenv qEnvironmentVariableIntValue qEnvironmentVariableIsSet qDeleteAll qHash qMin qMax qBound qOverload qobject_cast qAsConst i18n tr qMakePair qSwap qRegisterMetaType
qmlRegisterType qmlRegisterUncreatableType qEnvironmentVariable qPrintable qDebug qVariantFromValue move as_const min max qMakeForeachContainer qMakeStringPrivate getenv setenv""".split()
FIELDS = ['m_a', 'm_list', 'd', 'm_x', 'a', 'lastDecl', 'm_timer']
PARAMS = ['a', 'b', 's', 'value', 'sender', 'signal', 'receiver', 'method', 'slot', 'type', 'interval', 'timerType', 'text', 'shortcut', 'fieldWidth', 'fillChar', 'base', 'width', 'mask', 'other', 'base64', '']
LITERALS = ['0', '1', '500', '1000', '60000', '-1', '0x7fffffff', '3', '100 * 2', "'x'", 'true', '42u', '1 << 4']
STRINGS = ['""', '"x"', '"%1 %2"', '"1somesignal(int)"', '"2f(const QString &)"', '"#ff00ff"', '"red"', '"(I)V"', '"[a-z]+"', '"é"', '"a\\0b"', '"%99 %1 %100"', '"QObject"', 'u8"x"', '__FILE__']


TMPL = [('', ''), ('template <typename T> ', '<int>'), ('template <typename T, typename U = int> ', '<int, int>'), ('template <int N> ', '<3>'), ('template <int N, typename T> ', '<77, char>'),
        ('template <template <typename> class C, typename T> ', '<Tt, int>'), ('template <typename... T> ', '<int, char>'), ('template <typename T, bool... N> ', '<Tt<int> *, true, false>')]


class Cls:
    def __init__(self, name):
        self.name, self.tmpl, self.bases, self.methods, self.fields, self.ctors, self.ns = name, False, [], [], [], [], ''


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.classes = []
        self.free = []
        self.out = []
        self.depth = 0

    # types: ('int',) ('bool',) ('cstr',) ('void',) ('dbl',) ('c', cls, kind) with kind in val cref ref ptr rref; ('any',) a template parameter
    def simple(self, void=False, tmpl=True):
        r = self.r
        k = r.weighted([('int', 4), ('cls', 6 if self.classes else 0.01), ('cstr', 2), ('bool', 1), ('dbl', 0.6), ('void', 2 if void else 0.001), ('any', 1 if tmpl else 0.001), ('char', 0.4)])
        if k == 'cls' and self.classes:
            return ('c', r.choice(self.classes), r.weighted([('val', 3), ('cref', 4), ('ptr', 4), ('ref', 1 if void else 0.5), ('rref', 0.2), ('cptr', 0.5)]))
        if k in ('cls', 'any') and (k == 'cls' or not tmpl):
            return ('int',)
        return ('int',) if k == 'void' and not void else (k,)

    def spell(self, t):
        if t[0] == 'c':
            n = self.cname(t[1])
            return {'val': n, 'cref': 'const %s &' % n, 'ref': n + ' &', 'ptr': n + ' *', 'cptr': 'const %s *' % n, 'rref': n + ' &&'}[t[2]]
        return {'int': 'int', 'bool': 'bool', 'cstr': 'const char *', 'void': 'void', 'dbl': 'double', 'any': 'Any', 'char': 'char'}[t[0]]

    def cname(self, c):
        return c.ns + c.name + TMPL[c.tmpl][1]

    def params(self, n=None, tmpl=True):
        r = self.r
        n = r.weighted([(0, 3), (1, 4), (2, 3), (3, 2), (4, 1), (5, 0.6), (6, 0.3)]) if n is None else n
        ps = []
        dflt = False
        for i in range(n):
            t = self.simple(tmpl=tmpl)
            if dflt or r.chance(0.15):
                dflt = t[0] in ('int', 'bool', 'dbl', 'char', 'cstr') or t[0] == 'c' and t[2] in ('ptr', 'cptr', 'cref', 'val')
                if not dflt:
                    ps = [(a, b, None) for a, b, c in ps]
            ps.append((t, r.choice(PARAMS), self.default(t) if dflt else None))
        names = set()
        q = []
        for t, n, d in ps:
            n = '' if n in names else n
            names.add(n)
            q.append((t, n, d))
        return q

    def default(self, t):
        if t[0] == 'c':
            return 'nullptr' if t[2] in ('ptr', 'cptr') else self.cname(t[1]) + '()'
        return {'int': '0', 'bool': 'false', 'dbl': '0.5', 'char': "' '", 'cstr': '"d"'}[t[0]]

    def spell_params(self, ps, names=True, defaults=True):
        return ', '.join((self.spell(t) + ' ' + (n if names else '')).strip() + (' = ' + d if d and defaults else '') for t, n, d in ps)

    # ---- expressions
    def expr(self, t, scope, d=0):
        r = self.r
        if t[0] == 'any':
            t = self.simple(tmpl=False)
            if r.chance(0.35):
                return r.choice(['[] {}', '[=] { return 1; }', '[&](int x) { return x; }', 'nullptr', '&freeFunction', self.pmf()])
        cs = []
        want = t[:2] if t[0] == 'c' else t
        if d < 4 and r.chance(0.65):
            for n, vt in scope:
                if t[0] != 'c' and vt == t:
                    cs.append(n)
                elif t[0] == 'c' and vt[0] == 'c' and vt[1] is t[1]:
                    isptr = vt[2] in ('ptr', 'cptr')
                    const = vt[2] in ('cref', 'cptr')
                    if t[2] in ('ptr', 'cptr') and not isptr and (t[2] == 'cptr' or not const):
                        cs.append('&' + n)
                    elif t[2] in ('ptr', 'cptr') and isptr and (t[2] == 'cptr' or not const):
                        cs.append(n)
                    elif t[2] in ('val', 'cref') or t[2] == 'ref' and not const:
                        cs.append('*' + n if isptr else n)
            for _ in range(3):
                e = self.call(scope, t, d + 1)
                if e:
                    cs.append(e)
            if cs:
                return r.choice(cs)
        if t[0] == 'c':
            n = self.cname(t[1])
            if t[2] in ('ptr', 'cptr'):
                return r.choice(['nullptr', 'new %s()' % n, 'new %s()' % n, 'static_cast<%s *>(nullptr)' % n])
            if t[2] == 'ref':
                return '*new %s()' % n
            ct = [c for c in t[1].ctors if c]
            if ct and d < 3 and r.chance(0.5):
                return '%s(%s)' % (n, ', '.join(self.expr(p[0], scope, d + 1) for p in r.choice(ct)))
            return r.choice(['%s()' % n, '%s{}' % n])
        if t[0] == 'int':
            return r.choice(LITERALS) if d > 2 or r.chance(0.7) else '(%s %s %s)' % (self.expr(t, scope, d + 1), r.choice(['+', '-', '*', '<', '==', '&']), self.expr(t, scope, d + 1))
        if t[0] == 'bool':
            return r.choice(['true', 'false', '!(%s)' % self.expr(('int',), scope, d + 1) if d < 3 else 'true'])
        if t[0] == 'dbl':
            return r.choice(['0.5', '1e9', '(double)1'])
        if t[0] == 'char':
            return r.choice(["'a'", "'%'", "' '"])
        return r.choice(STRINGS[:-2])

    def pmf(self):
        ms = [(c, m) for c in self.classes if not c.tmpl for m in c.methods if not m['static'] and not m['any'] and sum(1 for x in c.methods if x['name'] == m['name']) == 1]
        if not ms:
            return '0'
        c, m = self.r.choice(ms)
        return '&%s::%s' % (self.cname(c), m['name'])

    def args(self, ps, scope, d):
        r = self.r
        k = len(ps)
        while k and ps[k - 1][2] and r.chance(0.6):
            k -= 1
        return ', '.join(self.expr(p[0], scope, d + 1) for p in ps[:k])

    def call(self, scope, want, d=0):
        """a call of something, returning the wanted type, or None"""
        r = self.r
        if d > 4:
            return None

        def fits(rt):
            if want is None:
                return True
            if rt[0] != want[0]:
                return rt[0] in ('int', 'bool', 'char') and want[0] in ('int', 'bool', 'dbl')
            if rt[0] != 'c':
                return True
            if rt[1] is not want[1]:
                return False
            a, b = rt[2], want[2]
            return a == b or b == 'cref' and a in ('val', 'ref') or b == 'val' and a in ('cref', 'ref') or b == 'cptr' and a == 'ptr' or b == 'rref' and a == 'val'
        fs = [f for f in self.free if fits(f['ret'])]
        if fs and r.chance(0.25):
            f = r.choice(fs)
            return '%s(%s)' % (f['name'], self.args(f['params'], scope, d))
        cands = []
        for c in self.classes:
            for m in c.methods:
                if fits(m['ret']):
                    cands.append((c, m))
        if not cands:
            return None
        c, m = r.choice(cands)
        if m['static'] and r.chance(0.8):
            return '%s::%s(%s)' % (self.cname(c), m['name'], self.args(m['params'], scope, d))
        objs = [(n, t) for n, t in scope if t[0] == 'c' and t[1] is c and (m['const'] or m['static'] or t[2] not in ('cref', 'cptr'))]
        if objs and r.chance(0.7):
            n, t = r.choice(objs)
            o = n + ('->' if t[2] in ('ptr', 'cptr') else '.')
        else:
            o = '(%s).' % self.expr(('c', c, r.choice(['val', 'val', 'cref']) if m['const'] else 'val'), scope, d + 1)
            if o.startswith('(*') or o.startswith('(&'):
                o = '%s().' % self.cname(c)
        if m['op']:
            return self.opcall(m, o, scope, d)
        return '%s%s(%s)' % (o, m['name'], self.args(m['params'], scope, d))

    def opcall(self, m, o, scope, d):
        obj = ('*' + o[:-2]) if o.endswith('->') else o[:-1]
        a = [self.expr(p[0], scope, d + 1) for p in m['params']]
        op = m['name'][8:].strip()
        if op == '[]' or op == '()':
            return '(%s)%s%s%s' % (obj, op[0], ', '.join(a), op[1])
        if not a:
            return '(%s(%s))' % (op, obj) if op not in ('->',) else '(%s).operator->()' % obj
        return '((%s) %s %s)' % (obj, op, a[0])

    # ---- statements
    def stmts(self, scope, n, ind, ret, loop=False, d=0):
        r = self.r
        scope = list(scope)
        o = []
        p = '    ' * ind
        for i in range(n):
            k = r.weighted([('decl', 4), ('call', 6), ('if', 1.5), ('for', 1), ('range', 1.5), ('while', 0.4), ('ret', 0.3), ('lambda', 0.6), ('static', 0.4), ('assign', 1.2),
                            ('switch', 0.3), ('delete', 0.3), ('cast', 1.2), ('auto', 1), ('cond', 0.6), ('foreach', 0.7), ('connect', 1), ('block', 0.2), ('class', 0.1)])
            if d > 2 and k in ('if', 'for', 'range', 'while', 'lambda', 'switch', 'foreach', 'block'):
                k = 'call'
            v = 'v%d' % self.depth
            self.depth += 1
            if k == 'decl':
                t = self.simple(tmpl=False)
                if t[0] == 'c' and t[2] in ('ref', 'rref'):
                    t = ('c', t[1], 'val')
                o.append('%s%s %s%s;' % (p, self.spell(t), v, r.weighted([(' = ' + self.expr(t, scope), 6), ('', 2 if t[0] != 'c' or t[2] != 'cref' else 0.0001)]) if not (t[0] == 'c' and t[2] == 'cref')
                                          else ' = ' + self.expr(t, scope)))
                scope.append((v, t))
            elif k == 'call':
                o.append(p + (self.call(scope, None) or ';') + ';')
            elif k == 'if':
                o.append('%sif (%s) {' % (p, self.expr(('bool',), scope)))
                o += self.stmts(scope, r.rng(0, 3), ind + 1, ret, loop, d + 1)
                o.append(p + ('} else {' if r.chance(0.3) else '}'))
                if o[-1].endswith('{'):
                    o += self.stmts(scope, r.rng(0, 2), ind + 1, ret, loop, d + 1)
                    o.append(p + '}')
            elif k == 'for':
                o.append('%sfor (int %s = 0; %s < %s; ++%s)%s' % (p, v, v, self.expr(('int',), scope), v, ' {' if r.chance(0.8) else ''))
                if o[-1].endswith('{'):
                    o += self.stmts(scope + [(v, ('int',))], r.rng(0, 4), ind + 1, ret, True, d + 1) + [p + '}']
                else:
                    o.append(p + '    ' + (self.call(scope, None) or ';') + ';')
            elif k in ('range', 'foreach'):
                cs = [c for c in self.classes if c.iter]
                if not cs:
                    continue
                c = r.choice(cs)
                e = self.expr(('c', c, r.choice(['val', 'cref', 'ref'])), scope)
                if k == 'foreach':
                    o.append('%s%s (%s, %s) {' % (p, r.choice(['foreach', 'Q_FOREACH']), r.choice(['auto ', 'const auto &', 'int ']) + v, e))
                else:
                    o.append('%sfor (%s%s : %s) {' % (p, r.choice(['auto ', 'auto &&', 'const auto &', 'const auto ']), v, e))
                o += self.stmts(scope, r.rng(0, 3), ind + 1, ret, True, d + 1) + [p + '}']
            elif k == 'while':
                o.append('%swhile (%s) {' % (p, self.expr(('bool',), scope)))
                o += self.stmts(scope, r.rng(0, 2), ind + 1, ret, True, d + 1) + [p + '    break;', p + '}']
            elif k == 'ret':
                o.append(p + self.ret(ret, scope))
            elif k == 'lambda':
                ps = self.params(r.below(3), tmpl=False)
                o.append('%sauto %s = [%s](%s)%s {' % (p, v, r.choice(['&', '=', '']) if r.chance(0.6) else '&', self.spell_params(ps, defaults=False), r.choice(['', '', ' mutable'])))
                o += self.stmts([], r.rng(0, 2), ind + 1, ('void',), False, d + 1) + [p + '};', p + '(void)%s;' % v]
            elif k == 'static':
                c = self.r.choice(self.classes)
                o.append('%sstatic %s%s %s;' % (p, r.choice(['', 'const ']), self.cname(c), v + '{}'))
            elif k == 'assign':
                vs = [(n2, t) for n2, t in scope if not (t[0] == 'c' and t[2] in ('cref', 'rref'))]
                if vs:
                    n2, t = r.choice(vs)
                    o.append('%s%s = %s;' % (p, n2, self.expr(('c', t[1], 'val') if t[0] == 'c' and t[2] == 'ref' else t, scope)))
            elif k == 'switch':
                o += ['%sswitch (%s) {' % (p, self.expr(('int',), scope)), p + 'case 7:', p + '  {'] + self.stmts([], r.rng(0, 1), ind + 1, ret, False, 3) + [p + '    break;', p + '  }', p + 'default:', p + '    break;', p + '}']
            elif k == 'delete':
                vs = [n2 for n2, t in scope if t[0] == 'c' and t[2] == 'ptr']
                if vs:
                    o.append('%sdelete %s;' % (p, r.choice(vs)))
            elif k == 'cast':
                c, e = r.choice(self.classes), r.choice(self.classes)
                cast = r.choice(['(%s *)' % self.cname(c), 'reinterpret_cast<%s *>' % self.cname(c), 'qobject_cast<%s *>' % self.cname(c), 'dynamic_cast<%s *>' % self.cname(c), 'static_cast<%s *>' % self.cname(c)])
                if cast.startswith('static') and c is not e or cast.startswith('dyn') and not e.virt:
                    cast = '(%s *)' % self.cname(c)
                o.append('%sauto %s = %s(%s);' % (p, v, cast, self.expr(('c', e, 'ptr'), scope)))
                scope.append((v, ('c', c, 'ptr')))
            elif k == 'auto':
                c = r.choice(self.classes)
                o.append('%s%s%s = %s;' % (p, r.choice(['auto ', 'const auto ', 'const auto &', 'auto &&']), v, self.expr(('c', c, 'val'), scope)))
            elif k == 'cond':
                t = r.choice([('int',), ('cstr',), ('c', r.choice(self.classes), 'val')])
                t2 = self.spell(t)
                o.append('%s%s %s = %s ? %s(%s) : %s(%s);' % ((p, t2, v, self.expr(('bool',), scope)) + (('static_cast<const char *>', self.expr(t, scope), '', self.expr(t, scope)) if t[0] == 'cstr'
                                                             else (t2, self.expr(t, scope), t2, self.expr(t, scope)))))
                scope.append((v, t))
            elif k == 'connect':
                o.append(p + self.connect(scope) + ';')
            elif k == 'block':
                o += [p + '{'] + self.stmts(scope, r.rng(0, 2), ind + 1, ret, loop, d + 1) + [p + '}']
            elif k == 'class':
                o.append('%sstruct Local%s : %s { int x; } %s;' % (p, v, self.cname(r.choice(self.classes)), v))
        return o

    def connect(self, scope):
        r = self.r
        n = r.weighted([(0, 0.4), (1, 0.5), (2, 1), (3, 3), (4, 5), (5, 2), (6, 0.5)])
        a = []
        for i in range(n):
            a.append(r.choice(['SIGNAL(destroyed())', 'SLOT(deleteLater())', 'SIGNAL( f( const int &) )', 'SIGNAL()', '"2x()"', '[] {}', '[this_] { (void)this_; }', self.pmf(), self.pmf(), 'nullptr', 'Qt_UniqueConnection',
                               self.expr(('c', r.choice(self.classes), 'ptr'), scope, 2), self.expr(('c', r.choice(self.classes), 'ptr'), scope, 2), 'qOverload<int>(%s)' % self.pmf(), self.expr(('int',), scope, 3)]))
        a = [x if 'this_' not in x else '[] { return 0; }' for x in a]
        return '%s(%s)' % (r.choice(['Conn::connect', 'Conn::disconnect', 'Conn::singleShot', 'Conn::addAction', 'varConnect', 'Conn::postEvent', 'Conn::tr', 'Conn::callMethod']), ', '.join(a))

    def ret(self, t, scope):
        return 'return;' if t[0] == 'void' else 'return %s;' % self.expr(t if t[0] != 'any' else ('int',), scope)

    # ---- declarations
    def method(self, c):
        r = self.r
        m = {'op': False, 'static': r.chance(0.2), 'const': r.chance(0.5), 'virtual': r.chance(0.2), 'any': False}
        m['name'] = r.choice(METHODS)
        if r.chance(0.1):
            ops = [('[]', 1), ('()', None), ('<<', 1), ('+', 1), ('==', 1), ('=', 1), ('+=', 1), ('!', 0), ('*', 0), ('->', 0), ('<', 1), ('%', 1)]
            op, n = r.choice(ops)
            m.update(op=True, name='operator' + op, static=False)
            m['params'] = self.params(n, tmpl=False)
            m['params'] = [(t, n2, None) for t, n2, d in m['params']]
            if op == '=':
                m['const'] = False
        else:
            m['params'] = self.params(tmpl=not c.tmpl)
        m['any'] = any(p[0][0] == 'any' for p in m['params'])
        if m['any']:
            m['virtual'] = False
        m['ret'] = self.simple(void=True, tmpl=False)
        if m['op'] and m['name'] == 'operator->':
            m['ret'] = ('c', c, 'ptr')
        if m['ret'][0] == 'c' and m['ret'][2] == 'rref':
            m['ret'] = ('c', m['ret'][1], 'val')
        if m['static'] or m['op']:
            m['virtual'] = False
        if m['static']:
            m['const'] = False
        return m

    def cls(self, name, tmpl=None):
        r = self.r
        c = Cls(name)
        c.tmpl = r.weighted([(0, 5), (1, 1.2), (2, 0.4), (3, 0.5), (4, 0.5), (5, 0.4), (6, 0.3), (7, 0.2)]) if tmpl is None else tmpl
        c.iter = False
        c.virt = False
        o = []
        bs = [b for b in self.classes if not b.final]
        if bs and r.chance(0.35):
            c.bases = [r.choice(bs)]
            if r.chance(0.1) and len(bs) > 1:
                c.bases = r.sample(bs, 2)
        c.final = r.chance(0.05)
        c.virt = r.chance(0.4) or any(b.virt for b in c.bases)
        self.classes.append(c)
        qobj = r.chance(0.35)
        head = TMPL[c.tmpl][0] + r.choice(['class ', 'struct ']) + c.name + (' final' if c.final else '')
        if c.bases:
            head += ' : ' + ', '.join(r.choice(['public ', 'public ', 'public ', 'virtual public ']) + self.cname(b) for b in c.bases)
        o += [head, '{']
        if qobj:
            o.append('    ' + r.choice(['Q_OBJECT', 'Q_OBJECT', 'Q_GADGET']))
            if r.chance(0.4):
                o.append('    Q_PROPERTY(%s)' % r.choice(['int x READ x', 'QString s READ s WRITE setS NOTIFY sChanged', 'int m MEMBER m_a', 'QList<int> l READ l CONSTANT', 'x', '', 'int', 'int a READ', 'QMap<QString, int> m READ m']))
            if r.chance(0.1):
                o.append('    Q_ENUMS(E)')
        o.append('public:')
        o.append('    ' + r.choice(['', 'enum E { A, B };', 'enum class E { A };', 'using iterator = int *; using const_iterator = const int *;', 'typedef int Key;', 'struct Data { int a; }; friend struct Data;']))
        # constructors
        dflt = r.choice(['%s();', '%s() {}', '%s() = default;', '%s();'])
        o.append('    ' + dflt % c.name)
        if r.chance(0.75):
            for _ in range(r.weighted([(0, 3), (1, 3), (2, 1)])):
                ps = self.params(r.rng(1, 3), tmpl=False)
                ps = [(t, n, None) for t, n, d in ps]
                if len(ps) == 1 and ps[0][0][0] == 'c' and ps[0][0][1] is c:
                    continue
                c.ctors.append([p for p in ps])
                o.append('    %s%s(%s)%s' % (r.choice(['', 'explicit ', 'explicit ']), c.name, self.spell_params(ps), r.choice([';', ' {}'])))
        if r.chance(0.25):
            o += ['    %s(const %s &)%s;' % (c.name, c.name, r.choice(['', ' = default'])), '    %s &operator=(const %s &)%s;' % (c.name, c.name, r.choice(['', ' = default']))]
        if c.virt or r.chance(0.3):
            o.append('    %s~%s()%s;' % ('virtual ' if c.virt else '', c.name, r.choice(['', ' = default'])))
        seen = set()
        defs = []
        for _ in range(r.rng(1, 7)):
            m = self.method(c)
            # the same name and the same parameters only once; no clash of static with other methods
            key = (m['name'], tuple(self.spell(p[0]).replace('const ', '') for p in m['params']))
            if key in seen or any(x['name'] == m['name'] and (x['static'] != m['static'] or any(p[2] for p in x['params'] + m['params']) or m['op']) for x in c.methods):
                continue
            if any(x['name'] == m['name'] for b in c.bases for x in b.methods):
                if r.chance(0.5):
                    continue
            seen.add(key)
            c.methods.append(m)
        if r.chance(0.35) and not any(m['name'] in ('begin', 'end') for m in c.methods) and not any(m['name'] in ('begin', 'end') for b in c.bases for m in b.methods):
            c.iter = True
            o += r.choice([['    int *begin();', '    int *end();', '    const int *begin() const;', '    const int *end() const;', '    void detach();'],
                           ['    const int *begin() const;', '    const int *end() const;']])
        for b in c.bases:
            c.iter = c.iter or False
        access = 'public'
        for m in c.methods:
            if qobj and r.chance(0.2):
                o.append(r.choice(['public slots:', 'signals:', 'Q_SIGNALS:', 'public Q_SLOTS:', 'public:']))
            inline = r.chance(0.3) and not c.tmpl or r.chance(0.15)
            sig = '%s%s%s%s(%s)%s' % ('template <typename Any> ' if m['any'] else '',
                                      'static ' if m['static'] else ('virtual ' if m['virtual'] else ''), self.spell(m['ret']) + ' ', m['name'], self.spell_params(m['params']), ' const' if m['const'] else '')
            if m['any'] and sig.count('Any ') > 1 and False:
                pass
            if inline:
                o.append('    ' + sig + ' {')
                sc = [(n, t) for t, n, d in m['params'] if n and t[0] != 'any']
                o += self.stmts(sc, r.rng(0, 3), 2, m['ret'], d=1)
                o += ['        ' + self.ret(m['ret'], sc), '    }']
            else:
                o.append('    ' + sig + ';')
                if not c.tmpl and not m['any'] and r.chance(0.4):
                    defs.append(m)
        o.append(r.choice(['private:', 'public:', 'protected:']))
        for f in self.r.sample(FIELDS, r.rng(0, 3)):
            t = self.simple(tmpl=False)
            if t[0] == 'c' and (t[2] in ('cref', 'ref', 'rref') or t[1] is c and t[2] == 'val'):
                t = ('int',)
            o.append('    %s %s%s;' % (self.spell(t), f, r.choice(['', '', '{}']) if t[0] != 'c' else ''))
        o += ['};']
        self.out += o
        for m in defs:
            sc = [(n, t) for t, n, d in m['params'] if n and t[0] != 'any']
            self.out += ['%s %s::%s(%s)%s' % (self.spell(m['ret']), c.name, m['name'], self.spell_params(m['params'], defaults=False), ' const' if m['const'] else ''), '{']
            self.out += self.stmts(sc, r.rng(0, 5), 1, m['ret']) + ['    ' + self.ret(m['ret'], sc), '}']
        return c

    def function(self, name, body=True):
        r = self.r
        f = {'name': name, 'params': self.params(), 'ret': self.simple(void=True, tmpl=False)}
        if f['ret'][0] == 'c' and f['ret'][2] == 'rref':
            f['ret'] = ('c', f['ret'][1], 'val')
        tm = 'template <typename Any> ' if any(p[0][0] == 'any' for p in f['params']) else ''
        sc = [(n, t) for t, n, d in f['params'] if n and t[0] != 'any']
        if body:
            self.out += ['%s%s%s %s(%s)' % (tm, r.choice(['', 'static ', 'inline ']) if True else '', self.spell(f['ret']), name, self.spell_params(f['params'])), '{']
            self.out += self.stmts(sc, r.rng(1, 6), 1, f['ret']) + ['    ' + self.ret(f['ret'], sc), '}']
        else:
            self.out.append('%s%s %s(%s);' % (tm, self.spell(f['ret']), name, self.spell_params(f['params'])))
        self.free.append(f)

    def unit(self):
        r = self.r
        head = ['#define Q_OBJECT', '#define Q_GADGET', '#define Q_PROPERTY(...)', '#define Q_ENUMS(x)', '#define signals public', '#define slots', '#define Q_SIGNALS public', '#define Q_SLOTS',
                '#define emit', '#define SIGNAL(...) "2" #__VA_ARGS__', '#define SLOT(...) "1" #__VA_ARGS__', '#define foreach(v, ...) for (v : __VA_ARGS__)', '#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)', '#define Q_INVOKABLE', '#define QStringLiteral_(x) x']
        for k, v in (('QT_VERSION_MAJOR', r.choice([4, 5, 5, 6, 6])), ('QT_VERSION_MINOR', r.choice([0, 4, 7, 15])), ('QT_VERSION_PATCH', r.below(9))):
            head.append('#define %s %d' % (k, v))
        if r.chance(0.8):
            head += ['#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH', '#endif']
        self.out = head
        self.out += ['void freeFunction();', 'template <typename T> T qobject_cast(const void *) { return nullptr; }', 'template <typename A, typename B> B qOverload(B b) { return b; }',
                     'enum { Qt_UniqueConnection };', 'template <typename T> struct Tt { T t; enum E { A }; };', 'template <typename... A> int varConnect(A...) { return 0; }']
        names = r.sample(CLASSES, r.rng(1, 4))
        if 'QObject' not in names and r.chance(0.5):
            names.insert(0, 'QObject')
        # what every name in connect() goes through
        host = r.choice(['QObject', 'QTimer', 'QMenu', 'QWidget', 'QCoreApplication', 'QAndroidJniObject'])
        style = r.below(4)
        ms = ['connect', 'disconnect', 'singleShot', 'addAction', 'postEvent', 'tr', 'callMethod']
        if host in names:
            self.out += ['class Conn', '{', 'public:'] + ['    template <typename... A> static int %s(A...);' % m for m in ms] + ['};']
        else:
            self.out += ['class %s' % host, '{', 'public:']
            for m in ms:
                if style == 0:
                    self.out.append('    template <typename... A> static int %s(A... args) { return 0; }' % m)
                elif style == 1:
                    self.out += ['    static int %s();' % m] + ['    template <%s> static int %s(%s);' % (', '.join('typename A%d' % i for i in range(k)), m, ', '.join(
                        'A%d %s' % (i, x) for i, x in enumerate(r.choice([['sender', 'signal', 'receiver', 'method', 'type', 'x'], ['interval', 'slot', 'timerType', 'a', 'b', 'c'],
                                                                          ['interval', 'timerType', 'slot', 'd', 'e', 'f'], ['text', 'slot', 'shortcut', '', 'g', 'h'], ['', '', '', '', '', '']])[:k]))) for k in range(1, 7)]
                else:
                    self.out.append('    static int %s(...);' % m)
            self.out += ['};', 'using Conn = %s;' % host]
        for n in names:
            if n == 'QForeachContainer' or r.chance(0.03):
                pass
            self.cls(n, tmpl=0 if n in ('QObject', 'QWidget', 'QTimer', 'QMenu') and r.chance(0.8) else None)
            if r.chance(0.3):
                self.cls(r.choice(['My', 'Foo', 'Private', 'WidgetPrivate', 'Test', 'Event']) + str(len(self.classes)))
            if r.chance(0.25):
                self.function(r.choice(FREE) if r.chance(0.8) else 'fn%d' % len(self.free), body=r.chance(0.4))
                if sum(1 for f in self.free if f['name'] == self.free[-1]['name']) > 1:
                    self.free.pop()
                    # overloads may be ambiguous: not called
        for i in range(r.rng(1, 3)):
            self.function('use%d' % i)
        if r.chance(0.3):
            c = r.choice(self.classes)
            self.out.append('%s %s global;' % (r.choice(['static', 'static const', '']), self.cname(c)))
        return '\n'.join(self.out) + '\n'


def unit(rng):
    for _ in range(50):
        try:
            return Gen(rng).unit()
        except RecursionError:
            continue
    return 'int x;\n'


def repaired(rng):
    """a unit that compiles: the statements the compiler complains about are taken out; None if that does not help"""
    t = unit(rng).split('\n')
    for _ in range(9):
        r = subprocess.run(['clang++-20', '-fsyntax-only', '-w', '-std=c++17', '-ferror-limit=0', '-xc++', '-'], input='\n'.join(t), capture_output=True, text=True, encoding='utf8', errors='replace')
        if r.returncode == 0:
            return '\n'.join(l for i, l in enumerate(t) if l.strip() or i and t[i - 1].strip())
        changed = False
        for l in sorted({int(x) for x in re.findall(r'^<stdin>:(\d+):\d+: error:', r.stderr, re.M)}):
            x = t[l - 1]
            if x.strip().endswith(';') and not x.strip().startswith('}') or re.match(r'\s*(if|while|for|switch|foreach|Q_FOREACH) \(.*\)$', x):
                t[l - 1] = ''
                changed = True
            elif re.match(r'\s*(if|while|for|switch|foreach|Q_FOREACH) \(.*\{$', x):
                n = re.sub(r'^(\s*)(\w+) .*', lambda m: m.group(1) + {'if': 'if (true)', 'while': 'while (true)', 'switch': 'switch (0)'}.get(m.group(2), '') + ' {', x)
                changed = changed or n != x
                t[l - 1] = n
        if not changed:
            return None


if __name__ == '__main__':
    # make_lookalike.py DIR FIRST LAST: one file per seed
    for i in range(int(sys.argv[2]), int(sys.argv[3])):
        t = repaired(Rng(i))
        if t:
            with open('%s/%d.cpp' % (sys.argv[1], i), 'w') as f:
                f.write(t)
