#ifndef MINIQT_H
#define MINIQT_H
// A stand-in for the parts of Qt the workload uses: same names and shapes as far as the checks can see.
#include "ministd.h"
#ifdef MINIQT5OLD
#define MINIQT5
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 8
#define QT_VERSION_PATCH 0
#define QT_VERSION 0x050800
#define QT_VERSION_STR "5.8.0"
#elif defined(MINIQT5)
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 2
#define QT_VERSION 0x050f02
#define QT_VERSION_STR "5.15.2"
#else
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 2
#define QT_VERSION 0x060402
#define QT_VERSION_STR "6.4.2"
#endif
#define QT_VERSION_CHECK(a, b, c) ((a << 16) | (b << 8) | (c))
#ifdef MINIQTNOVERSION // whoever includes this never expands the version's macros
#elif QT_VERSION != (QT_VERSION_MAJOR * 0x10000 + QT_VERSION_MINOR * 0x100 + QT_VERSION_PATCH)
#error version
#endif
#define Q_OS_LINUX
#define Q_OS_UNIX
#ifdef QT_NAMESPACE
#define QT_BEGIN_NAMESPACE namespace QT_NAMESPACE {
#define QT_END_NAMESPACE }
#define QT_USE_NAMESPACE using namespace ::QT_NAMESPACE;
#define QT_PREPEND_NAMESPACE(x) ::QT_NAMESPACE::x
#else
#define QT_BEGIN_NAMESPACE
#define QT_END_NAMESPACE
#define QT_USE_NAMESPACE
#define QT_PREPEND_NAMESPACE(x) ::x
#endif
#define Q_CORE_EXPORT
#define Q_DECL_EXPORT
#define Q_DECL_OVERRIDE override
#define Q_DECL_FINAL final
#define Q_DECL_EQ_DELETE = delete
#define Q_DECL_NOEXCEPT noexcept
#define Q_DECL_CONSTEXPR constexpr
#define Q_NULLPTR nullptr
#define Q_UNUSED(x) (void)x;
#define Q_REQUIRED_RESULT [[nodiscard]]
#define Q_DECL_UNUSED
#define Q_LIKELY(x) (x)
#define Q_UNLIKELY(x) (x)
typedef signed char qint8; typedef unsigned char quint8; typedef short qint16; typedef unsigned short quint16;
typedef int qint32; typedef unsigned int quint32; typedef long long qint64; typedef unsigned long long quint64;
typedef long long qlonglong; typedef unsigned long long qulonglong; typedef double qreal; typedef long qptrdiff; typedef unsigned long quintptr;
typedef long long qsizetype;
typedef unsigned char uchar; typedef unsigned short ushort; typedef unsigned int uint; typedef unsigned long ulong;
#define Q_DISABLE_COPY(C) C(const C &) = delete; C &operator=(const C &) = delete;
#define Q_DISABLE_COPY_MOVE(C) Q_DISABLE_COPY(C)
#define Q_DISABLE_MOVE(C) C(C &&) = delete; C &operator=(C &&) = delete;
#define Q_DECLARE_PRIVATE(C) C##Private *d_func();
#define Q_DECLARE_PUBLIC(C) C *q_func();
#define Q_D(C) C##Private *const d = d_func()
#define Q_Q(C) C *const q = q_func()
void qt_assert(const char *, const char *, int);
#define Q_ASSERT(c) ((c) ? static_cast<void>(0) : qt_assert(#c, __FILE__, __LINE__))
#define Q_ASSERT_X(c, w, t) ((c) ? static_cast<void>(0) : qt_assert(#c, __FILE__, __LINE__))
#define Q_CHECK_PTR(p) Q_ASSERT(p)
#define Q_INLINE_TEMPLATE inline

QT_BEGIN_NAMESPACE
class QString; class QObject; class QByteArray; class QVariant; class QStringList_; struct QMetaObject; class QDebug; class QLatin1String; class QEvent; class QChar;
// ---------------------------------------------------------------- object macros
#define QT_ANNOTATE_FUNCTION(x) __attribute__((annotate(#x)))
#define Q_SIGNALS public
#define Q_SLOTS
#define Q_SIGNAL
#define Q_SLOT
#define Q_EMIT
#ifndef QT_NO_KEYWORDS
#ifdef MINIQT5
#include "qobjectdefs.h"
#else
#include "qtmetamacros.h"
#endif
#endif
#define Q_INVOKABLE
#define Q_SCRIPTABLE
#define Q_PRIVATE_SLOT(d, s)
#define Q_OBJECT public: static const QMetaObject staticMetaObject; virtual const QMetaObject *metaObject() const; virtual void *qt_metacast(const char *); virtual int qt_metacall(int, int, void **); static QString tr(const char *s, const char *c = nullptr, int n = -1); static QString trUtf8(const char *s, const char *c = nullptr, int n = -1); private: static void qt_static_metacall(QObject *, int, int, void **);
#define Q_GADGET public: static const QMetaObject staticMetaObject; private:
#define Q_NAMESPACE extern const QMetaObject staticMetaObject;
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define Q_ENUM(x)
#define Q_ENUM_NS(x)
#define Q_FLAGS(x)
#define Q_FLAG(x)
#define Q_FLAG_NS(x)
#define Q_INTERFACES(x)
#define Q_CLASSINFO(a, b)
#define Q_PLUGIN_METADATA(x)
#define Q_MOC_INCLUDE(x)
#define QML_ELEMENT
#define QML_NAMED_ELEMENT(x)
#define Q_DECLARE_METATYPE(x)
#define Q_DECLARE_INTERFACE(a, b)
const char *qFlagLocation(const char *);
#define QT_STRINGIFY2(x) #x
#define QT_STRINGIFY(x) QT_STRINGIFY2(x)
#define QLOCATION "\0" __FILE__ ":" QT_STRINGIFY(__LINE__)
#undef METHOD
#define METHOD(a) qFlagLocation("0" #a QLOCATION)
#define SLOT(a) qFlagLocation("1" #a QLOCATION)
#define SIGNAL(a) qFlagLocation("2" #a QLOCATION)

enum QtMsgType_ { };
namespace Qt {
enum ConnectionType { AutoConnection, DirectConnection, QueuedConnection, BlockingQueuedConnection, UniqueConnection = 0x80, SingleShotConnection = 0x100 };
enum CaseSensitivity { CaseInsensitive, CaseSensitive };
enum SplitBehaviorFlags { KeepEmptyParts, SkipEmptyParts };
enum TimerType { PreciseTimer, CoarseTimer };
enum TimeSpec { LocalTime, UTC };
enum GlobalColor { white, black, red, green };
enum Orientation { Horizontal, Vertical };
enum AlignmentFlag { AlignLeft = 1, AlignRight = 2 };
enum DateFormat { TextDate, ISODate };
enum Initialization { Uninitialized };
enum ItemDataRole { DisplayRole, UserRole = 256 };
enum WindowType { Widget, Window };
}
template<typename E> class QFlags { public: QFlags(); QFlags(E); QFlags operator|(E) const; operator int() const; };
#define Q_DECLARE_FLAGS(F, E) typedef QFlags<E> F;
#define Q_DECLARE_OPERATORS_FOR_FLAGS(F)
namespace Qt { typedef QFlags<AlignmentFlag> Alignment; typedef QFlags<WindowType> WindowFlags; typedef QFlags<SplitBehaviorFlags> SplitBehavior; }
enum { Q_COMPLEX_TYPE, Q_PRIMITIVE_TYPE = 1, Q_STATIC_TYPE = 0, Q_MOVABLE_TYPE = 2, Q_RELOCATABLE_TYPE = 2 };
template<typename T> class QTypeInfo { public: enum { isPointer = false, isComplex = true, isStatic = true, isRelocatable = false, sizeOf = sizeof(T), isLarge = (sizeof(T) > sizeof(void *)) }; };
template<typename T> class QTypeInfo<T *> { public: enum { isPointer = true, isComplex = false }; };
template<typename T, typename... E> class QTypeInfoMerger {};
template<typename... T> struct QTypeInfoQuery {};
#define Q_DECLARE_TYPEINFO_BODY(T, F) public: enum { isComplex = (((F) & Q_PRIMITIVE_TYPE) == 0), isRelocatable = true, isPointer = false }; static inline const char *name() { return #T; } };
#define Q_DECLARE_TYPEINFO(T, F) template<> class QTypeInfo<T> { public: enum { isComplex = (((F) & Q_PRIMITIVE_TYPE) == 0), isStatic = 0, isRelocatable = true, isPointer = false }; static inline const char *name() { return #T; } }

// ---------------------------------------------------------------- strings
#define Q_FOREVER for(;;)
#define forever Q_FOREVER
template<typename T> class QForeachContainer { public: QForeachContainer(const T &t) : c(t), i(c.begin()), e(c.end()), control(1) {} const T c; typename T::const_iterator i, e; int control; };
template<typename T> QForeachContainer<T> qMakeForeachContainer(const T &t) { return QForeachContainer<T>(t); }
#define Q_FOREACH(variable, container) for (QForeachContainer<__typeof__((container))> _container_((container)); _container_.control && _container_.i != _container_.e; ++_container_.i, _container_.control ^= 1) for (variable = *_container_.i; _container_.control; _container_.control = 0)
#ifndef QT_NO_FOREACH
#ifndef QT_NO_KEYWORDS
#include "qforeach.h"
#endif
#endif
class QLatin1Char { public: constexpr explicit QLatin1Char(char c) : ch(c) {} char toLatin1() const; ushort unicode() const; private: char ch; };
class QChar { public: enum SpecialCharacter { Null, Nbsp = 0xa0 }; constexpr QChar() : u(0) {} constexpr QChar(ushort c) : u(c) {} QChar(short); constexpr QChar(int c) : u(c) {} constexpr QChar(uint c) : u(c) {} QChar(SpecialCharacter); constexpr QChar(QLatin1Char) : u(0) {} constexpr QChar(char16_t c) : u(c) {}
    explicit QChar(char); explicit QChar(uchar);
    bool isNull() const; bool isDigit() const; bool isSpace() const; bool isLetter() const; QChar toLower() const; QChar toUpper() const; char toLatin1() const; ushort unicode() const; int digitValue() const; static QChar fromLatin1(char); int cell() const;
    ushort u; };
bool operator==(QChar, QChar) noexcept; bool operator!=(QChar, QChar) noexcept; bool operator<(QChar, QChar) noexcept;
class QLatin1String { public: constexpr QLatin1String() : n(0), d(nullptr) {} constexpr explicit QLatin1String(const char *s) : n(0), d(s) {} constexpr explicit QLatin1String(const char *s, int l) : n(l), d(s) {} explicit QLatin1String(const QByteArray &); const char *latin1() const; const char *data() const; int size() const; QLatin1Char at(int) const; bool startsWith(const QString &) const; QLatin1String left(int) const; QLatin1String mid(int, int = -1) const; QString toString() const; template<typename... A> QString arg(A &&...) const; 
    bool operator==(const QString &) const; bool operator!=(const QString &) const; bool operator==(const char *) const; bool operator==(const QByteArray &) const; int n; const char *d; };
typedef QLatin1String QLatin1StringView;
bool operator==(QLatin1String, QLatin1String); 
class QStringView { public: QStringView(); QStringView(const QString &); QStringView(const char16_t *); QString toString() const; int toInt(bool * = nullptr, int = 10) const; int size() const; int length() const; bool isEmpty() const; QStringView mid(int, int = -1) const; QStringView left(int) const; QChar at(int) const; bool startsWith(QStringView) const; int count() const; };
class QAnyStringView { public: template<typename T> QAnyStringView(const T &); };
class QByteArrayView { public: QByteArrayView(const char *); QByteArrayView(const QByteArray &); };
class QStringRef { public: QStringRef(); QStringRef(const QString *); QString toString() const; int toInt(bool * = nullptr, int = 10) const; uint toUInt() const; double toDouble() const; int size() const; bool isEmpty() const; QStringRef mid(int, int = -1) const; QStringRef left(int) const; bool startsWith(const QString &) const; int indexOf(const QString &, int = 0, Qt::CaseSensitivity = Qt::CaseSensitive) const; bool contains(const QString &, Qt::CaseSensitivity = Qt::CaseSensitive) const; int compare(const QString &, Qt::CaseSensitivity = Qt::CaseSensitive) const; QByteArray toLatin1() const; QByteArray toUtf8() const; int count() const; bool operator==(const QString &) const; QChar at(int) const; };
class QByteArray { public:
    typedef char *iterator; typedef const char *const_iterator; typedef char value_type;
    QByteArray(); QByteArray(const char *, int = -1); QByteArray(int, char); QByteArray(const QByteArray &); QByteArray(QByteArray &&); ~QByteArray(); QByteArray &operator=(const QByteArray &); QByteArray &operator=(const char *);
    operator const char *() const; operator const void *() const; const char *constData() const; char *data(); const char *data() const; int size() const; int length() const; int count() const; int count(char) const; bool isEmpty() const; bool isNull() const; 
    iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; const_iterator cbegin() const; const_iterator cend() const; const_iterator constBegin() const; const_iterator constEnd() const;
    QByteArray &append(const QByteArray &); QByteArray &append(const char *); QByteArray &append(char); QByteArray &prepend(char); QByteArray left(int) const; QByteArray mid(int, int = -1) const; QByteArray right(int) const; bool startsWith(const char *) const; bool contains(const char *) const; int indexOf(const char *) const; QByteArray toHex() const; QByteArray toBase64() const; QByteArray trimmed() const; QByteArray toLower() const; QByteArray toUpper() const; QByteArray simplified() const; int toInt(bool * = nullptr, int = 10) const; double toDouble() const; char at(int) const; char &operator[](int); char operator[](int) const; void clear(); void resize(int); void reserve(int); void squeeze(); int capacity() const; QByteArray &remove(int, int); QByteArray &replace(const char *, const char *); QByteArray &insert(int, char); QByteArray &setNum(int); QByteArray &fill(char); void swap(QByteArray &); static QByteArray fromRawData(const char *, int); static QByteArray number(int); static QByteArray fromHex(const QByteArray &); QByteArray &operator+=(const QByteArray &); QByteArray &operator+=(char); void chop(int); void truncate(int); void push_back(char); char front() const; char back() const; char &front(); char &back(); static QByteArray fromStdString(const std::string &); std::string toStdString() const;
    bool operator==(const QString &) const; };
const QByteArray operator+(const QByteArray &, const QByteArray &); const QByteArray operator+(const QByteArray &, const char *); const QByteArray operator+(const QByteArray &, char);
bool operator==(const QByteArray &, const QByteArray &); bool operator==(const QByteArray &, const char *); bool operator!=(const QByteArray &, const QByteArray &); bool operator<(const QByteArray &, const QByteArray &);
struct QStringDataPtr { void *p; }; template<typename T> struct QArrayDataPointer_ { void *p; };
template<int N> struct QStaticStringData { int h; char16_t d[N + 1]; };
class QRegExp; class QRegularExpression; class QRegularExpressionMatch; class QStringList; template<typename T> class QList;
class QString { public:
    typedef QChar *iterator; typedef const QChar *const_iterator; typedef QChar value_type; enum SectionFlag { SectionDefault }; enum SplitBehavior { KeepEmptyParts, SkipEmptyParts }; enum NormalizationForm { NormalizationForm_D };
    QString(); QString(const QChar *, int = -1); QString(QChar); QString(int, QChar); QString(QLatin1String); QString(const QString &); QString(QString &&) noexcept; QString(QStringDataPtr); ~QString(); QString(int, Qt::Initialization);
    inline QString(const char *s) : d(nullptr) { (void)s; } inline QString(const QByteArray &a) : d(nullptr) { (void)a; }
    QString &operator=(const QString &); QString &operator=(QString &&); QString &operator=(QLatin1String); QString &operator=(QChar); QString &operator=(const char *); QString &operator=(const QByteArray &);
    int size() const; int count() const; int count(QChar) const; int count(const QString &) const; int length() const; bool isEmpty() const; bool isNull() const; void resize(int); void reserve(int); void squeeze(); int capacity() const; void clear(); void truncate(int); void chop(int); QString &fill(QChar, int = -1);
    const QChar at(int) const; const QChar operator[](int) const; QChar &operator[](int); QChar front() const; QChar &front(); QChar back() const; QChar &back();
    QString arg(qlonglong, int = 0, int = 10, QChar = QLatin1Char(' ')) const; QString arg(qulonglong, int = 0, int = 10, QChar = QLatin1Char(' ')) const; QString arg(long, int = 0, int = 10, QChar = QLatin1Char(' ')) const; QString arg(ulong, int = 0, int = 10, QChar = QLatin1Char(' ')) const; QString arg(int, int = 0, int = 10, QChar = QLatin1Char(' ')) const; QString arg(uint, int = 0, int = 10, QChar = QLatin1Char(' ')) const; QString arg(short, int = 0, int = 10, QChar = QLatin1Char(' ')) const; QString arg(double, int = 0, char = 'g', int = -1, QChar = QLatin1Char(' ')) const; QString arg(char, int = 0, QChar = QLatin1Char(' ')) const; QString arg(QChar, int = 0, QChar = QLatin1Char(' ')) const; QString arg(const QString &, int = 0, QChar = QLatin1Char(' ')) const; QString arg(QLatin1String, int = 0, QChar = QLatin1Char(' ')) const; QString arg(QStringView, int = 0, QChar = QLatin1Char(' ')) const; QString arg(const QString &, const QString &) const; QString arg(const QString &, const QString &, const QString &) const; QString arg(const QString &, const QString &, const QString &, const QString &) const; 
    QString arg(const QString &, const QString &, const QString &, const QString &, const QString &) const; QString arg(const QString &, const QString &, const QString &, const QString &, const QString &, const QString &) const; QString arg(const QString &, const QString &, const QString &, const QString &, const QString &, const QString &, const QString &) const; QString arg(const QString &, const QString &, const QString &, const QString &, const QString &, const QString &, const QString &, const QString &) const; QString arg(const QString &, const QString &, const QString &, const QString &, const QString &, const QString &, const QString &, const QString &, const QString &) const;
    QString &vsprintf(const char *, ...); QString &sprintf(const char *, ...); static QString asprintf(const char *, ...);
    int indexOf(QChar, int = 0, Qt::CaseSensitivity = Qt::CaseSensitive) const; int indexOf(const QString &, int = 0, Qt::CaseSensitivity = Qt::CaseSensitive) const; int indexOf(QLatin1String, int = 0, Qt::CaseSensitivity = Qt::CaseSensitive) const; int indexOf(const QRegularExpression &, int = 0, QRegularExpressionMatch * = nullptr) const; int lastIndexOf(QChar, int = -1, Qt::CaseSensitivity = Qt::CaseSensitive) const; int lastIndexOf(const QString &, int = -1, Qt::CaseSensitivity = Qt::CaseSensitive) const; int lastIndexOf(const QRegularExpression &, int = -1, QRegularExpressionMatch * = nullptr) const; int lastIndexOf(QLatin1String, int = -1, Qt::CaseSensitivity = Qt::CaseSensitive) const;
    int count(const QRegularExpression &) const; bool contains(QChar, Qt::CaseSensitivity = Qt::CaseSensitive) const; bool contains(const QString &, Qt::CaseSensitivity = Qt::CaseSensitive) const; bool contains(QLatin1String, Qt::CaseSensitivity = Qt::CaseSensitive) const; bool contains(const QRegExp &) const; bool contains(const QRegularExpression &, QRegularExpressionMatch * = nullptr) const;
    bool startsWith(const QString &, Qt::CaseSensitivity = Qt::CaseSensitive) const; bool startsWith(QLatin1String, Qt::CaseSensitivity = Qt::CaseSensitive) const; bool startsWith(QChar, Qt::CaseSensitivity = Qt::CaseSensitive) const; bool endsWith(const QString &, Qt::CaseSensitivity = Qt::CaseSensitive) const; bool endsWith(QLatin1String, Qt::CaseSensitivity = Qt::CaseSensitive) const; bool endsWith(QChar, Qt::CaseSensitivity = Qt::CaseSensitive) const;
    QString left(int) const; QString right(int) const; QString mid(int, int = -1) const; QString chopped(int) const; QStringRef leftRef(int) const; QStringRef rightRef(int) const; QStringRef midRef(int, int = -1) const; QString section(QChar, int, int = -1) const; QString section(const QString &, int, int = -1) const; QString section(const QRegularExpression &, int, int = -1) const;
    QString toLower() const; QString toUpper() const; QString toCaseFolded() const; QString trimmed() const; QString simplified() const; QString toHtmlEscaped() const; QString repeated(int) const; QString normalized(NormalizationForm) const; QString leftJustified(int, QChar = QLatin1Char(' ')) const; QString rightJustified(int, QChar = QLatin1Char(' ')) const;
    QString &insert(int, QChar); QString &insert(int, const QString &); QString &insert(int, QLatin1String); QString &append(QChar); QString &append(const QString &); QString &append(QLatin1String); QString &append(const char *); QString &append(const QByteArray &); QString &prepend(QChar); QString &prepend(const QString &); QString &prepend(QLatin1String); QString &operator+=(QChar); QString &operator+=(const QString &); QString &operator+=(QLatin1String); QString &operator+=(const char *); QString &operator+=(char); QString &remove(int, int); QString &remove(QChar); QString &remove(const QString &, Qt::CaseSensitivity = Qt::CaseSensitive); QString &remove(QLatin1String, Qt::CaseSensitivity = Qt::CaseSensitive); QString &remove(const QRegularExpression &); QString &remove(const QRegExp &); QString &replace(int, int, const QString &); QString &replace(QChar, QChar); QString &replace(const QString &, const QString &, Qt::CaseSensitivity = Qt::CaseSensitive); QString &replace(QChar, const QString &, Qt::CaseSensitivity = Qt::CaseSensitive); QString &replace(QLatin1String, QLatin1String, Qt::CaseSensitivity = Qt::CaseSensitive); QString &replace(QLatin1String, const QString &, Qt::CaseSensitivity = Qt::CaseSensitive); QString &replace(const QString &, QLatin1String, Qt::CaseSensitivity = Qt::CaseSensitive); QString &replace(QChar, QLatin1String, Qt::CaseSensitivity = Qt::CaseSensitive); QString &replace(const QRegularExpression &, const QString &); QString &replace(const QRegExp &, const QString &);
    QStringList split(const QString &, Qt::SplitBehaviorFlags = Qt::KeepEmptyParts, Qt::CaseSensitivity = Qt::CaseSensitive) const; QStringList split(QChar, Qt::SplitBehaviorFlags = Qt::KeepEmptyParts, Qt::CaseSensitivity = Qt::CaseSensitive) const; QStringList split(const QRegularExpression &, Qt::SplitBehaviorFlags = Qt::KeepEmptyParts) const; QStringList split(const QString &, SplitBehavior) const; QStringList split(QChar, SplitBehavior) const; QList<QStringRef> splitRef(const QString &) const; QList<QStringRef> splitRef(const QRegularExpression &) const; QList<QStringRef> splitRef(QChar) const;
    const ushort *utf16() const; QByteArray toLatin1() const; QByteArray toUtf8() const; QByteArray toLocal8Bit() const; QByteArray toAscii() const; std::string toStdString() const; const QChar *constData() const; QChar *data(); const QChar *data() const; const QChar *unicode() const; QList<uint> toUcs4() const;
    static QString fromLatin1(const char *, int = -1); static QString fromLatin1(const QByteArray &); static QString fromUtf8(const char *, int = -1); static QString fromUtf8(const QByteArray &); static QString fromLocal8Bit(const char *, int = -1); static QString fromLocal8Bit(const QByteArray &); static QString fromAscii(const char *); static QString fromUtf16(const ushort *, int = -1); static QString fromRawData(const QChar *, int); static QString fromStdString(const std::string &); static QString number(int, int = 10); static QString number(double, char = 'g', int = 6); static QString number(qulonglong, int = 10);
    int compare(const QString &, Qt::CaseSensitivity = Qt::CaseSensitive) const; int compare(QLatin1String, Qt::CaseSensitivity = Qt::CaseSensitive) const; int compare(QChar, Qt::CaseSensitivity = Qt::CaseSensitive) const; static int compare(const QString &, const QString &, Qt::CaseSensitivity = Qt::CaseSensitive); static int compare(const QString &, QLatin1String, Qt::CaseSensitivity = Qt::CaseSensitive); int localeAwareCompare(const QString &) const; 
    short toShort(bool * = nullptr, int = 10) const; int toInt(bool * = nullptr, int = 10) const; uint toUInt(bool * = nullptr, int = 10) const; long toLong(bool * = nullptr, int = 10) const; ulong toULong(bool * = nullptr, int = 10) const; qlonglong toLongLong(bool * = nullptr, int = 10) const; qulonglong toULongLong(bool * = nullptr, int = 10) const; float toFloat(bool * = nullptr) const; double toDouble(bool * = nullptr) const; ushort toUShort(bool * = nullptr, int = 10) const; QString &setNum(int, int = 10);
    iterator begin(); const_iterator begin() const; iterator end(); const_iterator end() const; const_iterator cbegin() const; const_iterator cend() const; const_iterator constBegin() const; const_iterator constEnd() const; void push_back(QChar); void push_back(const QString &); void push_front(QChar); QChar first() const; QChar last() const; void swap(QString &);
    bool operator==(QLatin1String) const; bool operator<(QLatin1String) const; bool operator!=(QLatin1String) const; inline bool operator==(const char *s) const { (void)s; return true; } inline bool operator!=(const char *s) const { (void)s; return true; } inline bool operator<(const char *) const; bool operator==(const QByteArray &) const;
    static QString vasprintf(const char *, ...);
    void *d; };
bool operator==(const QString &, const QString &); bool operator!=(const QString &, const QString &); bool operator<(const QString &, const QString &); bool operator>(const QString &, const QString &); bool operator==(const char *, const QString &); 
inline bool operator==(QChar, const QString &); inline bool operator==(const QString &, QChar);
bool operator==(const QString &, const QStringRef &); bool operator==(const QStringRef &, const QStringRef &); bool operator==(QStringView, QStringView);
#ifndef QT_USE_QSTRINGBUILDER
const QString operator+(const QString &, const QString &); const QString operator+(const QString &, QChar); const QString operator+(QChar, const QString &); const QString operator+(const QString &, const char *); const QString operator+(const char *, const QString &); const QString operator+(const QString &, const QByteArray &); const QString operator+(const QString &, QLatin1String); const QString operator+(QLatin1String, const QString &); const QString operator+(const QString &, char);
const QString operator+(const QString &, QStringView);
#else
template<typename A, typename B> class QStringBuilder { public: QStringBuilder(const A &, const B &); QStringBuilder(const QStringBuilder &); operator QString() const; const A &a; const B &b; int size() const; QString toLower() const; };
template<typename A, typename B> QStringBuilder<A, B> operator%(const A &a, const B &b);
inline QStringBuilder<QString, QString> operator+(const QString &a, const QString &b) { return QStringBuilder<QString, QString>(a, b); }
inline QStringBuilder<QString, QLatin1String> operator+(const QString &a, const QLatin1String &b) { return QStringBuilder<QString, QLatin1String>(a, b); }
inline QStringBuilder<QString, const char *> operator+(const QString &a, const char *const &b) { return QStringBuilder<QString, const char *>(a, b); }
#endif
#define QT_UNICODE_LITERAL(str) u"" str
#ifdef MINIQT5
#define QStringLiteral(str) ([]() noexcept -> QString { enum { Size = sizeof(QT_UNICODE_LITERAL(str)) / 2 - 1 }; static const QStaticStringData<Size> qstring_literal = {Size, QT_UNICODE_LITERAL(str)}; QStringDataPtr holder = {(void *)&qstring_literal}; const QString qstring_literal_temp(holder); return qstring_literal_temp; }())
#else
namespace QtPrivate { template<unsigned long N> QString qMakeStringPrivate(const char16_t (&)[N]); }
#define QStringLiteral(str) (QString(QtPrivate::qMakeStringPrivate(QT_UNICODE_LITERAL(str))))
#endif
#define QByteArrayLiteral(str) ([]() -> QByteArray { return QByteArray::fromRawData(str, sizeof(str) - 1); }())
namespace Qt { inline namespace Literals { inline namespace StringLiterals { QString operator""_s(const char16_t *, size_t); QLatin1String operator""_L1(const char *, size_t); QByteArray operator""_ba(const char *, size_t); } } }
QString operator""_qs(const char16_t *, size_t);
char *qstrdup(const char *); int qstrcmp(const char *, const char *); uint qstrlen(const char *);
#define qUtf8Printable(s) QString(s).toUtf8().constData()
#define qPrintable(s) QString(s).toLocal8Bit().constData()
QByteArray qgetenv(const char *); bool qputenv(const char *, const QByteArray &); bool qEnvironmentVariableIsEmpty(const char *) noexcept; bool qEnvironmentVariableIsSet(const char *) noexcept; int qEnvironmentVariableIntValue(const char *, bool * = nullptr) noexcept; bool qunsetenv(const char *); QString qEnvironmentVariable(const char *);
template<typename T> constexpr const T &qMin(const T &a, const T &b) { return a < b ? a : b; } template<typename T> constexpr const T &qMax(const T &a, const T &b) { return a < b ? b : a; } template<typename T> constexpr const T &qBound(const T &a, const T &b, const T &c) { return b; } template<typename T> constexpr T qAbs(const T &t) { return t; } int qRound(double); template<typename T> void qSwap(T &, T &); template<typename T> constexpr const T &qAsConst(T &t) noexcept { return t; } template<typename T> void qAsConst(const T &&) = delete; bool qFuzzyCompare(double, double); bool qIsNull(double);
typedef uint qHashSeedType_;
// ---------------------------------------------------------------- containers
#ifdef MINIQT5
template<typename T> class QVector;
#else
template<typename T> using QVector = QList<T>;
#endif
template<typename T> class QSet;
template<typename T> struct QListSpecialMethods_ {};
#define MINIQT_SEQ(C) \
    typedef T value_type; typedef T &reference; typedef const T &const_reference; typedef int size_type; \
    class const_iterator; class iterator { public: T *i; iterator(); T &operator*() const; T *operator->() const; T &operator[](int) const; iterator &operator++(); iterator operator++(int); iterator &operator--(); iterator operator+(int) const; iterator operator-(int) const; int operator-(iterator) const; bool operator==(const iterator &) const; bool operator!=(const iterator &) const; bool operator==(const const_iterator &) const; bool operator!=(const const_iterator &) const; bool operator<(const iterator &) const; }; \
    class const_iterator { public: const T *i; const_iterator(); const_iterator(const iterator &); const T &operator*() const; const T *operator->() const; const_iterator &operator++(); const_iterator operator++(int); const_iterator operator+(int) const; int operator-(const_iterator) const; bool operator==(const const_iterator &) const; bool operator!=(const const_iterator &) const; bool operator<(const const_iterator &) const; }; \
    typedef iterator Iterator; typedef const_iterator ConstIterator; typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator; \
    C(); C(const C &); C(C &&); C(std::initializer_list<T>); template<typename It> C(It, It); explicit C(int); C(int, const T &); ~C(); C &operator=(const C &); C &operator=(C &&); \
    iterator begin(); const_iterator begin() const; const_iterator cbegin() const; const_iterator constBegin() const; iterator end(); const_iterator end() const; const_iterator cend() const; const_iterator constEnd() const; reverse_iterator rbegin(); reverse_iterator rend(); const_reverse_iterator rbegin() const; const_reverse_iterator rend() const; const_reverse_iterator crbegin() const; \
    T &operator[](int); const T &operator[](int) const; const T &at(int) const; T &first(); const T &first() const; const T &constFirst() const; T &last(); const T &last() const; const T &constLast() const; T &front(); const T &front() const; T &back(); const T &back() const; T value(int) const; T value(int, const T &) const; T *data(); const T *data() const; const T *constData() const; \
    void append(const T &); void append(const C &); void prepend(const T &); void push_back(const T &); void push_front(const T &); void insert(int, const T &); iterator insert(iterator, const T &); void replace(int, const T &); iterator erase(iterator); iterator erase(iterator, iterator); void removeAt(int); int removeAll(const T &); bool removeOne(const T &); void remove(int); void remove(int, int); void removeFirst(); void removeLast(); T takeAt(int); T takeFirst(); T takeLast(); void move(int, int); void swap(int, int); void swap(C &); C mid(int, int = -1) const; bool contains(const T &) const; int indexOf(const T &, int = 0) const; int lastIndexOf(const T &, int = -1) const; int count() const; int count(const T &) const; int size() const; int length() const; bool isEmpty() const; bool empty() const; void clear(); void reserve(int); void resize(int); int capacity() const; void squeeze(); C &fill(const T &, int = -1); bool startsWith(const T &) const; template<typename... X> void emplace_back(X &&...); template<typename P> int removeIf(P); \
    C &operator<<(const T &); C &operator<<(const C &); C &operator+=(const T &); C &operator+=(const C &); C operator+(const C &) const; bool operator==(const C &) const; bool operator!=(const C &) const; \
    QList<T> toList() const; QVector<T> toVector() const; QSet<T> toSet() const; static C<T> fromList(const QList<T> &); static C<T> fromVector(const QVector<T> &); static C<T> fromStdVector(const std::vector<T> &); std::vector<T> toStdVector() const; static C<T> fromSet(const QSet<T> &); std::list<T> toStdList() const;
#ifdef MINIQT5
template<typename T> class QVector { public: MINIQT_SEQ(QVector) };
template<typename T> class QList { public: MINIQT_SEQ(QList) };
#else
template<typename T> class QList { public: MINIQT_SEQ(QList) };
#endif

#ifdef MINIQT5
class QStringList : public QList<QString> { public: QStringList(); QStringList(const QString &); QStringList(const QList<QString> &); QStringList(std::initializer_list<QString>); QStringList(QStringList &&); QStringList(const QStringList &); QStringList &operator=(const QStringList &); QStringList filter(const QString &) const; QStringList filter(const QRegularExpression &) const; QString join(const QString &) const; QString join(QLatin1String) const; QString join(QChar) const; bool contains(const QString &, Qt::CaseSensitivity = Qt::CaseSensitive) const; bool contains(QLatin1String, Qt::CaseSensitivity = Qt::CaseSensitive) const; int indexOf(const QString &) const; int indexOf(const QRegularExpression &) const; int lastIndexOf(const QRegularExpression &) const; QStringList &replaceInStrings(const QString &, const QString &); QStringList &replaceInStrings(const QRegularExpression &, const QString &); QStringList operator+(const QStringList &) const; QStringList &operator<<(const QString &); QStringList &operator<<(const QStringList &); void sort(); int removeDuplicates(); };
#else
class QStringListBase_ { public: QList<QString> filter(const QString &) const; };
template<> class QList<QString> { public: typedef QString T; MINIQT_SEQ(QList)
 QList(const QString &); QList filter(const QString &) const; QList filter(const QRegularExpression &) const; QString join(const QString &) const; QString join(QLatin1String) const; QString join(QChar) const; bool contains(QLatin1String, Qt::CaseSensitivity) const; bool contains(const QString &, Qt::CaseSensitivity) const; int indexOf(const QRegularExpression &) const; int lastIndexOf(const QRegularExpression &) const; QList &replaceInStrings(const QString &, const QString &); QList &replaceInStrings(const QRegularExpression &, const QString &); void sort(); int removeDuplicates(); };
class QStringList : public QList<QString> { public: using QList<QString>::QList; QStringList(const QList<QString> &); QStringList(); };
#endif
template<typename T> class QQueue : public QList<T> { public: using QList<T>::QList; void enqueue(const T &); T dequeue(); T &head(); const T &head() const; };
template<typename T> class QStack : public QVector<T> { public: using QVector<T>::QVector; void push(const T &); T pop(); T &top(); const T &top() const; };
template<typename T> class QLinkedList { public: MINIQT_SEQ(QLinkedList) };
template<typename T, int N = 256> class QVarLengthArray { public: typedef T *iterator; typedef const T *const_iterator; typedef T value_type; QVarLengthArray(); QVarLengthArray(int); QVarLengthArray(std::initializer_list<T>); ~QVarLengthArray(); iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; const_iterator cbegin() const; const_iterator cend() const; iterator erase(const_iterator); iterator erase(const_iterator, const_iterator); T &operator[](int); const T &operator[](int) const; T &first(); T &last(); void append(const T &); void push_back(const T &); int size() const; int count() const; bool isEmpty() const; void reserve(int); void resize(int); T *data(); const T *data() const; const T *constData() const; QVarLengthArray &operator<<(const T &); };
template<typename A, typename B> struct QPair { A first; B second; QPair(); QPair(const A &, const B &); bool operator<(const QPair &) const; bool operator==(const QPair &) const; };
template<typename A, typename B> QPair<A, B> qMakePair(const A &, const B &);
struct QKeyValueBase_ {};
#define MINIQT_MAP(C) \
    typedef V mapped_type; typedef K key_type; typedef V value_type; \
    class const_iterator; class iterator { public: V *i; iterator(); const K &key() const; V &value() const; V &operator*() const; V *operator->() const; iterator &operator++(); iterator operator++(int); iterator operator+(int) const; bool operator==(const iterator &) const; bool operator!=(const iterator &) const; bool operator==(const const_iterator &) const; bool operator!=(const const_iterator &) const; }; \
    class const_iterator { public: const V *i; const_iterator(); const_iterator(const iterator &); const K &key() const; const V &value() const; const V &operator*() const; const V *operator->() const; const_iterator &operator++(); const_iterator operator++(int); bool operator==(const const_iterator &) const; bool operator!=(const const_iterator &) const; }; \
    typedef const_iterator ConstIterator; typedef iterator Iterator; class key_value_iterator {}; \
    C(); C(const C &); C(C &&); C(std::initializer_list<std::pair<K, V>>); ~C(); C &operator=(const C &); \
    iterator begin(); const_iterator begin() const; const_iterator cbegin() const; const_iterator constBegin() const; iterator end(); const_iterator end() const; const_iterator cend() const; const_iterator constEnd() const; \
    iterator find(const K &); const_iterator find(const K &) const; const_iterator constFind(const K &) const; iterator insert(const K &, const V &); iterator insertMulti(const K &, const V &); iterator erase(iterator); iterator erase(const_iterator); int remove(const K &); V take(const K &); bool contains(const K &) const; int count() const; int count(const K &) const; int size() const; bool isEmpty() const; bool empty() const; void clear(); void reserve(int); void squeeze(); V &operator[](const K &); const V operator[](const K &) const; V value(const K &) const; V value(const K &, const V &) const; const K key(const V &) const; QList<K> keys() const; QList<K> keys(const V &) const; QList<V> values() const; QList<V> values(const K &) const; QList<K> uniqueKeys() const; C &unite(const C &); void swap(C &); bool operator==(const C &) const; int capacity() const; \
    iterator lowerBound(const K &); const_iterator lowerBound(const K &) const; iterator upperBound(const K &); V &first(); const V &first() const; V &last(); const V &last() const; const K &firstKey() const; const K &lastKey() const; key_value_iterator keyValueBegin();
template<typename K, typename V> class QMap { public: MINIQT_MAP(QMap) };
template<typename K, typename V> class QHash { public: MINIQT_MAP(QHash) };
template<typename K, typename V> class QMultiMap : public QMap<K, V> { public: using QMap<K, V>::QMap; };
template<typename K, typename V> class QMultiHash : public QHash<K, V> { public: using QHash<K, V>::QHash; };
template<typename K, typename V> class QCache { public: bool insert(const K &, V *); V *object(const K &) const; };
template<typename T> class QSet { public: typedef T value_type; class const_iterator; class iterator { public: const T *i; const T &operator*() const; iterator &operator++(); bool operator==(const iterator &) const; bool operator!=(const iterator &) const; bool operator==(const const_iterator &) const; bool operator!=(const const_iterator &) const; };
 class const_iterator { public: const T *i; const_iterator(); const_iterator(const iterator &); const T &operator*() const; const_iterator &operator++(); bool operator==(const const_iterator &) const; bool operator!=(const const_iterator &) const; };
 QSet(); QSet(const QSet &); QSet(std::initializer_list<T>); template<typename It> QSet(It, It); ~QSet(); QSet &operator=(const QSet &); iterator begin(); const_iterator begin() const; const_iterator cbegin() const; const_iterator constBegin() const; iterator end(); const_iterator end() const; const_iterator cend() const; const_iterator constEnd() const; iterator find(const T &); const_iterator find(const T &) const; const_iterator constFind(const T &) const; iterator insert(const T &); iterator erase(iterator); bool remove(const T &); bool contains(const T &) const; int count() const; int size() const; bool isEmpty() const; void clear(); void reserve(int); QList<T> toList() const; QList<T> values() const; QSet &unite(const QSet &); QSet &intersect(const QSet &); QSet &operator<<(const T &); QSet &operator+=(const T &); static QSet<T> fromList(const QList<T> &); bool intersects(const QSet &) const; int capacity() const; };
template<typename T> void qDeleteAll(T b, T e); template<typename C> void qDeleteAll(const C &c); template<typename C> void qSort(C &); template<typename T> T *q_check_ptr(T *);
uint qHash(const QString &, uint = 0); unsigned long qHashBits(const void *, unsigned long, unsigned long = 0); template<typename It> unsigned long qHashRange(It, It, unsigned long = 0); template<typename It> unsigned long qHashRangeCommutative(It, It, unsigned long = 0); uint qHash(int, uint = 0);
template<typename T> class QVectorIterator { public: QVectorIterator(const QVector<T> &); bool hasNext() const; const T &next(); };
template<typename T> class QListIterator { public: QListIterator(const QList<T> &); bool hasNext() const; const T &next(); };
template<typename T> class QMutableListIterator { public: QMutableListIterator(QList<T> &); bool hasNext() const; T &next(); void remove(); };
template<typename K, typename V> class QMapIterator { public: QMapIterator(const QMap<K, V> &); bool hasNext() const; };
// ---------------------------------------------------------------- pointers
template<typename T> class QScopedPointer { public: explicit QScopedPointer(T * = nullptr); ~QScopedPointer(); T *data() const; T *get() const; T *operator->() const; T &operator*() const; operator bool() const; T *take(); void reset(T * = nullptr); bool isNull() const; private: QScopedPointer(const QScopedPointer &); T *d; };
template<typename T> class QSharedPointer { public: QSharedPointer(); template<typename X> explicit QSharedPointer(X *); QSharedPointer(const QSharedPointer &); template<typename X> QSharedPointer(const QSharedPointer<X> &); ~QSharedPointer(); QSharedPointer &operator=(const QSharedPointer &); T *data() const; T *get() const; T *operator->() const; T &operator*() const; operator bool() const; void reset(); bool isNull() const; void clear(); template<typename... A> static QSharedPointer create(A &&...); template<typename X> QSharedPointer<X> staticCast() const; template<typename X> QSharedPointer<X> objectCast() const; };
template<typename T> class QWeakPointer { public: QWeakPointer(); QSharedPointer<T> toStrongRef() const; QSharedPointer<T> lock() const; T *data() const; bool isNull() const; };
template<typename T> class QPointer { public: QPointer(); QPointer(T *); ~QPointer(); T *data() const; T *operator->() const; T &operator*() const; operator T *() const; bool isNull() const; void clear(); QPointer &operator=(T *); };
class QSharedData { public: QSharedData(); int ref; };
template<typename T> class QSharedDataPointer { public: QSharedDataPointer(); explicit QSharedDataPointer(T *); ~QSharedDataPointer(); T *data(); const T *data() const; const T *constData() const; T *operator->(); const T *operator->() const; };
template<typename T> class QExplicitlySharedDataPointer { public: QExplicitlySharedDataPointer(); T *data() const; T *operator->() const; };
template<typename T> class QAtomicInteger { public: QAtomicInteger(T = 0); T load() const; }; typedef QAtomicInteger<int> QAtomicInt;
template<typename T> class QGlobalStatic { public: T *operator->(); T *operator()(); bool exists() const; bool isDestroyed() const; operator T *(); T &operator*(); };
#define Q_GLOBAL_STATIC(TYPE, NAME) namespace Q_QGS_##NAME { typedef TYPE Type; inline Type *innerFunction() { struct HolderBase { }; static struct Holder : public HolderBase { Type value; } holder; return &holder.value; } } static QGlobalStatic<TYPE> NAME;
#define Q_GLOBAL_STATIC_WITH_ARGS(TYPE, NAME, ARGS) namespace Q_QGS_##NAME { typedef TYPE Type; inline Type *innerFunction() { static struct Holder { Type value; Holder() : value ARGS {} } holder; return &holder.value; } } static QGlobalStatic<TYPE> NAME;
// ---------------------------------------------------------------- debugging, meta
class QDebug { public: QDebug(); ~QDebug(); QDebug &operator<<(int); QDebug &operator<<(const char *); QDebug &operator<<(const QString &); QDebug &operator<<(QLatin1String); QDebug &operator<<(const QByteArray &); QDebug &operator<<(double); QDebug &operator<<(bool); QDebug &operator<<(QChar); QDebug &operator<<(const void *); QDebug &operator<<(uint); QDebug &operator<<(qint64); template<typename T> QDebug &operator<<(const QList<T> &); QDebug &nospace(); QDebug &noquote(); };
class QMessageLogger { public: QMessageLogger(const char *, int, const char *); QDebug debug() const; void debug(const char *, ...) const; QDebug warning() const; void warning(const char *, ...) const; QDebug critical() const; void fatal(const char *, ...) const; QDebug info() const; };
#define qDebug QMessageLogger(__FILE__, __LINE__, __func__).debug
#define qWarning QMessageLogger(__FILE__, __LINE__, __func__).warning
#define qCritical QMessageLogger(__FILE__, __LINE__, __func__).critical
#define qInfo QMessageLogger(__FILE__, __LINE__, __func__).info
#define qFatal QMessageLogger(__FILE__, __LINE__, __func__).fatal
#define Q_FUNC_INFO __PRETTY_FUNCTION__
struct QMetaMethod { static QMetaMethod fromSignal(void *); template<typename F> static QMetaMethod fromSignal(F f); const char *name() const; };
class QGenericArgument { public: QGenericArgument(const char * = nullptr, const void * = nullptr); };
#define Q_ARG(t, d) QGenericArgument(#t, (void *)&d)
struct QMetaObject { struct Connection { Connection(); Connection(void *); operator bool() const; }; const char *className() const; static const char *normalizedSignature_(const char *); static QByteArray normalizedSignature(const char *); int indexOfMethod(const char *) const; static bool invokeMethod(QObject *, const char *, Qt::ConnectionType = Qt::AutoConnection, QGenericArgument = QGenericArgument()); static void activate(QObject *, const QMetaObject *, int, void **); static void connectSlotsByName(QObject *); QMetaMethod method(int) const; int indexOfSignal(const char *) const; int indexOfSlot(const char *) const; static bool checkConnectArgs(const char *, const char *); int methodCount() const; };
template<typename T> int qRegisterMetaType(const char *); template<typename T> int qRegisterMetaType(); template<typename T> int qMetaTypeId();
#define qmlRegister_
template<typename T> int qmlRegisterType(const char *, int, int, const char *); template<typename T> int qmlRegisterUncreatableType(const char *, int, int, const char *, const QString &); template<typename T> int qmlRegisterSingletonType(const char *, int, int, const char *); 
template<typename... Args> struct QOverload { template<typename R, typename T> constexpr auto operator()(R (T::*ptr)(Args...)) const -> decltype(ptr) { return ptr; } template<typename R, typename T> constexpr auto operator()(R (T::*ptr)(Args...) const) const -> decltype(ptr) { return ptr; } template<typename R, typename T> static constexpr auto of(R (T::*ptr)(Args...)) -> decltype(ptr) { return ptr; } template<typename R, typename T> static constexpr auto of(R (T::*ptr)(Args...) const) -> decltype(ptr) { return ptr; } template<typename R> constexpr auto operator()(R (*ptr)(Args...)) const -> decltype(ptr) { return ptr; } };
template<typename... Args> struct QNonConstOverload { template<typename R, typename T> constexpr auto operator()(R (T::*ptr)(Args...)) const -> decltype(ptr) { return ptr; } template<typename R, typename T> static constexpr auto of(R (T::*ptr)(Args...)) -> decltype(ptr) { return ptr; } };
template<typename... Args> struct QConstOverload { template<typename R, typename T> constexpr auto operator()(R (T::*ptr)(Args...) const) const -> decltype(ptr) { return ptr; } };
template<typename... Args> constexpr QOverload<Args...> qOverload = {};
template<typename... Args> constexpr QConstOverload<Args...> qConstOverload = {};
template<typename... Args> constexpr QNonConstOverload<Args...> qNonConstOverload = {};
namespace QtPrivate { template<typename F> struct FunctionPointer { enum { ArgumentCount = -1, IsPointerToMemberFunction = false }; typedef QObject Object; }; template<class O, typename R, typename... A> struct FunctionPointer<R (O::*)(A...)> { typedef O Object; enum { ArgumentCount = sizeof...(A), IsPointerToMemberFunction = true }; }; template<typename R, typename... A> struct FunctionPointer<R (*)(A...)> { typedef QObject Object; enum { ArgumentCount = -1, IsPointerToMemberFunction = false }; }; template<class O, typename R, typename... A> struct FunctionPointer<R (O::*)(A...) const> { typedef O Object; enum { ArgumentCount = sizeof...(A), IsPointerToMemberFunction = true }; };
 struct QPrivateSignal_ {}; }
class QVariant { public: QRegularExpression toRegularExpression() const;  enum Type { Invalid, Int, String }; QVariant(); QVariant(Type); QVariant(int); QVariant(uint); QVariant(bool); QVariant(double); QVariant(const QString &); QVariant(const char *); QVariant(QLatin1String); QVariant(const QByteArray &); QVariant(const QStringList &); QVariant(qlonglong); QVariant(const QVariant &); template<typename T> QVariant(const QList<T> &); template<typename K, typename V> QVariant(const QMap<K, V> &); ~QVariant(); QVariant &operator=(const QVariant &); bool isValid() const; bool isNull() const; template<typename T> T value() const; template<typename T> bool canConvert() const; bool canConvert(int) const; template<typename T> static QVariant fromValue(const T &); template<typename T> void setValue(const T &); QString toString() const; int toInt(bool * = nullptr) const; uint toUInt() const; bool toBool() const; double toDouble() const; QByteArray toByteArray() const; QStringList toStringList() const; QList<QVariant> toList() const; QMap<QString, QVariant> toMap() const; QChar toChar() const; Type type() const; int userType() const; bool convert(int); bool operator==(const QVariant &) const; qlonglong toLongLong() const; class QUrl toUrl() const; class QDateTime toDateTime() const; QHash<QString, QVariant> toHash() const; class QModelIndex toModelIndex() const; float toFloat() const; };
typedef QList<QVariant> QVariantList; typedef QMap<QString, QVariant> QVariantMap; typedef QHash<QString, QVariant> QVariantHash;
template<typename T> T qvariant_cast(const QVariant &);
class QEvent { public: enum Type { None, Timer, MouseButtonPress, MouseButtonRelease, MouseMove, KeyPress, KeyRelease, Resize, Close, Paint, ChildAdded, ChildRemoved, ChildPolished, DragEnter, Drop, Wheel, ToolTip, User = 1000, Gesture, GestureOverride, FocusIn, Show, Hide, UpdateRequest, DynamicPropertyChange, MetaCall, HoverEnter, ShortcutOverride }; explicit QEvent(Type); virtual ~QEvent(); Type type() const; void accept(); void ignore(); bool isAccepted() const; static int registerEventType(int = -1); };
class QTimerEvent : public QEvent { public: explicit QTimerEvent(int); int timerId() const; };
class QChildEvent : public QEvent { public: QChildEvent(Type, QObject *); QObject *child() const; bool added() const; };
class QDynamicPropertyChangeEvent : public QEvent { public: QDynamicPropertyChangeEvent(const QByteArray &); QByteArray propertyName() const; };
class QPoint { public: constexpr QPoint() : xp(0), yp(0) {} constexpr QPoint(int x, int y) : xp(x), yp(y) {} int x() const; int y() const; void setX(int); bool isNull() const; int &rx(); int manhattanLength() const; private: int xp, yp; };
class QPointF { public: constexpr QPointF() : xp(0), yp(0) {} constexpr QPointF(double x, double y) : xp(x), yp(y) {} double x() const; double y() const; QPoint toPoint() const; double xp, yp; };
class QSize { public: constexpr QSize() : w(0), h(0) {} constexpr QSize(int a, int b) : w(a), h(b) {} int width() const; int height() const; QSize &operator*=(double); void scale(int, int, int); void transpose(); void setWidth(int); private: int w, h; };
class QRect { public: constexpr QRect() : a(0), b(0), c(0), d(0) {} constexpr QRect(int x, int y, int w, int h) : a(x), b(y), c(w), d(h) {} QRect(const QPoint &, const QSize &); QPoint topLeft() const; QPoint center() const; QSize size() const; int width() const; int x() const; void setX(int); void setTop(int); void setWidth(int); void translate(int, int); QRect translated(int, int) const; bool contains(const QPoint &) const; int a, b, c, d; };
class QRectF { public: constexpr QRectF() : a(0), b(0), c(0), d(0) {} QRectF(double, double, double, double); double a, b, c, d; };
class QModelIndex { public: QModelIndex(); int row() const; int column() const; QVariant data(int = 0) const; bool isValid() const; QModelIndex parent() const; const void *m; int r, c; };
class QKeyEvent : public QEvent { public: QKeyEvent(Type, int, int); int key() const; QString text() const; };
class QMouseEvent : public QEvent { public: QMouseEvent(Type, const QPointF &); QPoint pos() const; };
class QResizeEvent : public QEvent { public: QResizeEvent(const QSize &, const QSize &); QSize size() const; };
class QPaintEvent : public QEvent { public: QPaintEvent(const QRect &); QRect rect() const; };
class QCloseEvent : public QEvent { public: QCloseEvent(); };
class QWheelEvent : public QEvent { public: QWheelEvent(); };
class QDropEvent : public QEvent { public: QDropEvent(); };
class QFocusEvent : public QEvent { public: QFocusEvent(); };
class QShowEvent : public QEvent { public: QShowEvent(); };
// ---------------------------------------------------------------- objects
class QThread;
class QObjectPrivate; struct QSignalBlocker_; class QObjectData { public: virtual ~QObjectData() = 0; };
class QObject { Q_OBJECT
    Q_PROPERTY(QString objectName READ objectName WRITE setObjectName NOTIFY objectNameChanged)
public:
    explicit QObject(QObject *parent = nullptr); virtual ~QObject();
    virtual bool event(QEvent *event); virtual bool eventFilter(QObject *watched, QEvent *event);
    QString objectName() const; void setObjectName(const QString &name); bool isWidgetType() const; QThread *thread() const; void moveToThread(QThread *thread); int startTimer(int interval, Qt::TimerType = Qt::CoarseTimer); int startTimer(std::chrono::milliseconds, Qt::TimerType = Qt::CoarseTimer); void killTimer(int id); 
    template<typename T> T findChild(const QString &name = QString()) const; template<typename T> QList<T> findChildren(const QString &name = QString()) const; const QList<QObject *> &children() const; void setParent(QObject *parent); void installEventFilter(QObject *filterObj); void removeEventFilter(QObject *obj); bool blockSignals(bool b); bool signalsBlocked() const;
    static QMetaObject::Connection connect(const QObject *sender, const char *signal, const QObject *receiver, const char *member, Qt::ConnectionType = Qt::AutoConnection);
    static QMetaObject::Connection connect(const QObject *sender, const QMetaMethod &signal, const QObject *receiver, const QMetaMethod &method, Qt::ConnectionType = Qt::AutoConnection);
    QMetaObject::Connection connect(const QObject *sender, const char *signal, const char *member, Qt::ConnectionType = Qt::AutoConnection) const;
    template<typename F1, typename F2> static QMetaObject::Connection connect(const typename QtPrivate::FunctionPointer<F1>::Object *sender, F1 signal, const typename QtPrivate::FunctionPointer<F2>::Object *receiver, F2 slot, Qt::ConnectionType type = Qt::AutoConnection) { return QMetaObject::Connection(); }
    template<typename F1, typename F2> static typename std::enable_if<int(QtPrivate::FunctionPointer<F2>::ArgumentCount) == -1, QMetaObject::Connection>::type connect(const typename QtPrivate::FunctionPointer<F1>::Object *sender, F1 signal, F2 slot) { return QMetaObject::Connection(); }
    template<typename F1, typename F2> static typename std::enable_if<int(QtPrivate::FunctionPointer<F2>::ArgumentCount) == -1, QMetaObject::Connection>::type connect(const typename QtPrivate::FunctionPointer<F1>::Object *sender, F1 signal, const QObject *context, F2 slot, Qt::ConnectionType type = Qt::AutoConnection) { return QMetaObject::Connection(); }
    static bool disconnect(const QObject *sender, const char *signal, const QObject *receiver, const char *member); static bool disconnect(const QMetaObject::Connection &); bool disconnect(const char *signal = nullptr, const QObject *receiver = nullptr, const char *member = nullptr) const; bool disconnect(const QObject *receiver, const char *member = nullptr) const;
    template<typename F1, typename F2> static bool disconnect(const typename QtPrivate::FunctionPointer<F1>::Object *sender, F1 signal, const typename QtPrivate::FunctionPointer<F2>::Object *receiver, F2 slot) { return true; }
    bool setProperty(const char *name, const QVariant &value); QVariant property(const char *name) const; QObject *parent() const; bool inherits(const char *classname) const; QObject *sender() const;
Q_SIGNALS:
    void destroyed(QObject * = nullptr); void objectNameChanged(const QString &objectName);
public Q_SLOTS:
    void deleteLater();
protected:
    virtual void timerEvent(QTimerEvent *event); virtual void childEvent(QChildEvent *event); virtual void customEvent(QEvent *event); virtual void connectNotify(const QMetaMethod &signal); int receivers(const char *signal) const;
};
template<class T> T qobject_cast(QObject *object) { return static_cast<T>(object); }
template<class T> T qobject_cast(const QObject *object) { return static_cast<T>(const_cast<QObject *>(object)); }
class QSignalBlocker { public: explicit QSignalBlocker(QObject *); ~QSignalBlocker(); void unblock(); };
class QCoreApplication : public QObject { Q_OBJECT
public: QCoreApplication(int &, char **); static int exec(); static void postEvent(QObject *, QEvent *, int = 0); static bool sendEvent(QObject *, QEvent *); static QString translate(const char *, const char *, const char * = nullptr, int = -1); static QCoreApplication *instance(); static QString applicationDirPath(); static void processEvents(); static void quit(); static QStringList arguments(); virtual bool notify(QObject *, QEvent *); };
#define qApp (static_cast<QApplication *>(QCoreApplication::instance()))
class QTimer : public QObject { Q_OBJECT
public: explicit QTimer(QObject *parent = nullptr); void setInterval(int); void setInterval(std::chrono::milliseconds); void setSingleShot(bool); bool isActive() const; int interval() const; static void singleShot(int, const QObject *, const char *); static void singleShot(int, Qt::TimerType, const QObject *, const char *); template<typename F> static void singleShot(int, F f) {} template<typename F> static void singleShot(int, const QObject *, F f) {} template<typename F> static void singleShot(int, Qt::TimerType, F f) {} template<typename F> static void singleShot(int, Qt::TimerType, const QObject *, F f) {} template<typename F> static void singleShot(std::chrono::milliseconds, Qt::TimerType, const QObject *, F f) {} template<typename F> static void singleShot(std::chrono::milliseconds, const QObject *, F f) {} template<typename F> static void singleShot(std::chrono::milliseconds, F f) {}
public Q_SLOTS: void start(int msec); void start(); void start(std::chrono::milliseconds); void stop();
Q_SIGNALS: void timeout(); protected: void timerEvent(QTimerEvent *) override; };
class QThread : public QObject { Q_OBJECT
public: enum Priority { Normal }; explicit QThread(QObject *parent = nullptr); ~QThread(); static QThread *currentThread(); bool isRunning() const; bool wait(unsigned long = 0); 
public Q_SLOTS: void start(Priority = Normal); void terminate(); void quit(); void requestInterruption();
Q_SIGNALS: void started(); void finished(); protected: virtual void run(); int exec(); static void sleep(unsigned long); static void msleep(unsigned long); };
class QRunnable { public: virtual void run() = 0; virtual ~QRunnable(); void setAutoDelete(bool); };
class QMutex { public: QMutex(); ~QMutex(); void lock(); void unlock(); bool tryLock(int = 0); }; class QRecursiveMutex : public QMutex {};
template<typename M = QMutex> class QMutexLocker_ {};
class QMutexLocker { public: explicit QMutexLocker(QMutex *); ~QMutexLocker(); void unlock(); };
class QReadWriteLock { public: QReadWriteLock(); ~QReadWriteLock(); void lockForRead(); void lockForWrite(); void unlock(); };
class QReadLocker { public: QReadLocker(QReadWriteLock *); ~QReadLocker(); void unlock(); void relock(); };
class QWriteLocker { public: QWriteLocker(QReadWriteLock *); ~QWriteLocker(); };
class QRegExp { public: QRegExp(); explicit QRegExp(const QString &, Qt::CaseSensitivity = Qt::CaseSensitive); QRegExp(const QRegExp &); ~QRegExp(); int indexIn(const QString &, int = 0) const; bool exactMatch(const QString &) const; QString cap(int = 0) const; QStringList capturedTexts() const; };
class QRegularExpressionMatch { public: QRegularExpressionMatch(); ~QRegularExpressionMatch(); bool hasMatch() const; QString captured(int = 0) const; QStringRef capturedRef(int = 0) const; QStringView capturedView(int = 0) const; QStringList capturedTexts() const; };
class QRegularExpressionMatchIterator { public: bool hasNext() const; QRegularExpressionMatch next(); };
class QRegularExpression { public: enum PatternOption { NoPatternOption, CaseInsensitiveOption }; QRegularExpression(); explicit QRegularExpression(const QString &, PatternOption = NoPatternOption); QRegularExpression(const QRegularExpression &); ~QRegularExpression(); QRegularExpression &operator=(const QRegularExpression &); QString pattern() const; void setPattern(const QString &); bool isValid() const; QRegularExpressionMatch match(const QString &, int = 0) const; QRegularExpressionMatchIterator globalMatch(const QString &, int = 0) const; static QString escape(const QString &); static QString wildcardToRegularExpression(const QString &); static QString anchoredPattern(const QString &); void optimize() const; };
class QIODevice : public QObject { Q_OBJECT
public: enum OpenModeFlag { ReadOnly = 1, WriteOnly = 2, Text = 16 }; typedef QFlags<OpenModeFlag> OpenMode; virtual bool open(OpenMode); virtual void close(); QByteArray readAll(); QByteArray readLine(qint64 = 0); QByteArray read(qint64); qint64 write(const QByteArray &); qint64 write(const char *); bool atEnd() const; bool isOpen() const; virtual qint64 size() const;
Q_SIGNALS: void readyRead(); void aboutToClose(); };
class QFileDevice : public QIODevice { Q_OBJECT };
class QFile : public QFileDevice { Q_OBJECT
public: QFile(); explicit QFile(const QString &); QFile(const QString &, QObject *); ~QFile(); static QByteArray encodeName(const QString &); static QString decodeName(const QByteArray &); static bool exists(const QString &); bool exists() const; static bool remove(const QString &); bool remove(); static bool rename(const QString &, const QString &); static bool copy(const QString &, const QString &); QString fileName() const; bool open(OpenMode) override; };
class QTemporaryFile : public QFile { Q_OBJECT };
class QSaveFile : public QFileDevice { Q_OBJECT };
class QFileInfo { public: QFileInfo(); explicit QFileInfo(const QString &); QFileInfo(const QFile &); QFileInfo(const class QDir &, const QString &); QFileInfo(const QFileInfo &); ~QFileInfo(); bool exists() const; static bool exists(const QString &); bool isDir() const; QString fileName() const; QString filePath() const; QString absolutePath() const; QString absoluteFilePath() const; QString baseName() const; qint64 size() const; QDir dir() const; };
class QDir { public: QDir(const QString & = QString()); QDir(const QDir &); ~QDir(); static QString homePath(); static QDir current(); static QString currentPath(); static QDir home(); bool exists() const; bool exists(const QString &) const; QString path() const; QString filePath(const QString &) const; QString absolutePath() const; bool mkpath(const QString &) const; bool mkdir(const QString &) const; QStringList entryList() const; static QString rootPath(); static QString cleanPath(const QString &); static QString toNativeSeparators(const QString &); static void addResourceSearchPath(const QString &); };
class QUrl { public: QUrl(); QUrl(const QString &); QUrl(const QUrl &); ~QUrl(); QUrl &operator=(const QString &); static QUrl fromLocalFile(const QString &); QString toString() const; QString path() const; void setPath(const QString &); QString topLevelDomain() const; void setHost(const QString &); QString toLocalFile() const; };
class QTextStream { public: QTextStream(); explicit QTextStream(QIODevice *); QTextStream(QString *); ~QTextStream(); QTextStream &operator<<(const QString &); QTextStream &operator<<(const char *); QTextStream &operator<<(int); QTextStream &operator<<(QChar); QTextStream &operator<<(QTextStream &(*)(QTextStream &)); QTextStream &operator>>(QString &); QString readLine(); QString readAll(); bool atEnd() const; };
QTextStream &endl(QTextStream &); namespace Qt { using QT_PREPEND_NAMESPACE(endl); QTextStream &flush(QTextStream &); QTextStream &hex(QTextStream &); }
class QDataStream { public: QDataStream(); QDataStream(QIODevice *); QDataStream(QByteArray *, QIODevice::OpenMode); QDataStream &operator<<(int); QDataStream &operator>>(int &); };
class QDate { public: QDate(); QDate(int, int, int); static QDate currentDate(); int day() const; QString toString() const; QString toString(const QString &) const; QDate addDays(int) const; bool isValid() const; private: qint64 jd; };
class QTime { public: QTime(); QTime(int, int, int = 0); static QTime currentTime(); int hour() const; QString toString() const; void start(); int elapsed() const; private: int mds; };
class QTimeZone { public: static QTimeZone utc(); };
class QDateTime { public: QDateTime(); QDateTime(const QDate &, const QTime &); QDateTime(const QDateTime &); ~QDateTime(); QDateTime &operator=(const QDateTime &); static QDateTime currentDateTime(); static QDateTime currentDateTimeUtc(); static qint64 currentMSecsSinceEpoch(); QDateTime addYears(int) const; QDateTime addDays(int) const; QDateTime addMonths(int) const; QDateTime toLocalTime() const; bool operator<(const QDateTime &) const; static qint64 currentSecsSinceEpoch(); QDateTime toUTC() const; QDateTime toTimeSpec(Qt::TimeSpec) const; qint64 toMSecsSinceEpoch() const; qint64 toSecsSinceEpoch() const; uint toTime_t() const; static QDateTime fromMSecsSinceEpoch(qint64); QString toString() const; QString toString(const QString &) const; QDate date() const; QTime time() const; bool isValid() const; void setDate(const QDate &); QDateTime addSecs(int) const; };
class QLocale { public: QLocale(); static QLocale c(); QString toString(int) const; };
class QUuid { public: QUuid(); static QUuid createUuid(); QString toString() const; uint d1; };
class QElapsedTimer { public: void start(); qint64 elapsed() const; };
class QBasicTimer { public: void start(int, QObject *); void stop(); };
class QDeadlineTimer { public: QDeadlineTimer(int); };
class QBitArray { public: QBitArray(int); QBitArray(); ~QBitArray(); };
class QCryptographicHash { public: enum Algorithm { Md5 }; static QByteArray hash(const QByteArray &, Algorithm); };
class QJsonValue { public: QJsonValue(); QJsonValue(const QString &); QJsonValue(int); QJsonValue(QLatin1String); ~QJsonValue(); QString toString() const; int toInt() const; QVariant toVariant() const; bool isNull() const; };
class QJsonArray { public: class iterator { public: bool operator!=(const iterator &) const; iterator &operator++(); QJsonValue operator*() const; }; typedef iterator const_iterator; QJsonArray(); iterator begin(); iterator end(); const_iterator begin() const; const_iterator end() const; const_iterator constBegin() const; void append(const QJsonValue &); QJsonValue at(int) const; int size() const; };
class QJsonObject { public:  class iterator { public: bool operator==(const iterator &) const; bool operator!=(const iterator &) const; iterator &operator++(); QJsonValue value() const; QString key() const; QJsonValue operator*() const; }; typedef iterator const_iterator; const_iterator constEnd() const; const_iterator constBegin() const;  iterator find(const QString &); const_iterator find(const QString &) const; const_iterator constFind(const QString &) const; const_iterator begin() const; const_iterator end() const; QJsonObject(); QJsonObject(std::initializer_list<QPair<QString, QJsonValue>>); ~QJsonObject(); QJsonValue operator[](const QString &) const; QJsonValue &operator[](const QString &); QJsonValue operator[](QLatin1String) const; QJsonValue &operator[](QLatin1String); QJsonValue value(const QString &) const; bool contains(const QString &) const; iterator insert(const QString &, const QJsonValue &); iterator begin(); iterator end(); QStringList keys() const; };
class QJsonDocument { public: static QJsonDocument fromJson(const QByteArray &); QJsonObject object() const; QByteArray toJson() const; };
class QSettings : public QObject { Q_OBJECT
public: QSettings(QObject * = nullptr); QVariant value(const QString &, const QVariant & = QVariant()) const; void setValue(const QString &, const QVariant &); };
class QProcess : public QIODevice { Q_OBJECT
public: enum ExitStatus { NormalExit, CrashExit }; enum ProcessError { FailedToStart }; explicit QProcess(QObject * = nullptr); void start(const QString &, const QStringList &); void start(const QString &); static int execute(const QString &, const QStringList &); static bool startDetached(const QString &, const QStringList &); 
Q_SIGNALS: void finished(int); void finished(int, ExitStatus); void error(ProcessError); void errorOccurred(ProcessError); };
class QAbstractItemModel : public QObject { Q_OBJECT
public: explicit QAbstractItemModel(QObject * = nullptr); virtual QVariant data(const QModelIndex &, int = 0) const; virtual int rowCount(const QModelIndex & = QModelIndex()) const; virtual QHash<int, QByteArray> roleNames() const; virtual QModelIndex index(int, int, const QModelIndex & = QModelIndex()) const;
Q_SIGNALS: void dataChanged(const QModelIndex &, const QModelIndex &); void modelReset(); };
class QAbstractListModel : public QAbstractItemModel { Q_OBJECT };
class QSortFilterProxyModel : public QAbstractItemModel { Q_OBJECT };
class QStringListModel : public QAbstractListModel { Q_OBJECT
public: void setStringList(const QStringList &); };
class QState : public QObject { Q_OBJECT
public: explicit QState(QState * = nullptr); void addTransition(const QObject *, const char *, QState *); };
class QStateMachine : public QState { Q_OBJECT };
class QSignalMapper : public QObject { Q_OBJECT
public: explicit QSignalMapper(QObject * = nullptr); void setMapping(QObject *, int);
Q_SIGNALS: void mapped(int); void mapped(const QString &); public Q_SLOTS: void map(); };
class QSignalSpy : public QObject, public QList<QList<QVariant>> { public: explicit QSignalSpy(const QObject *, const char *); template<typename F> QSignalSpy(const typename QtPrivate::FunctionPointer<F>::Object *, F); bool wait(int = 5000); bool isValid() const; };
class QSequentialIterable { public: struct const_iterator { QVariant operator*() const; bool operator!=(const const_iterator &) const; const_iterator &operator++(); }; const_iterator begin() const; const_iterator end() const; };
class QAssociativeIterable { public: struct const_iterator { QVariant operator*() const; bool operator!=(const const_iterator &) const; const_iterator &operator++(); }; const_iterator begin() const; const_iterator end() const; };
template<typename T> class QFuture { public: T result() const; void waitForFinished(); };
template<typename T> class QFutureWatcher : public QObject { public: QFutureWatcher(QObject * = nullptr); void setFuture(const QFuture<T> &); };
class QAndroidJniObject { public: QAndroidJniObject(const char *); QAndroidJniObject(const char *, const char *); template<typename... A> static QAndroidJniObject callStaticObjectMethod(const char *, const char *, const char *, A...); template<typename R, typename... A> static R callStaticMethod(const char *, const char *, const char *, A...); template<typename R, typename... A> R callMethod(const char *, const char *, A...) const; template<typename R> R callMethod(const char *) const; template<typename... A> QAndroidJniObject callObjectMethod(const char *, const char *, A...) const; template<typename R> R getField(const char *) const; QAndroidJniObject getObjectField(const char *, const char *) const; template<typename R> static R getStaticField(const char *, const char *); };
typedef QAndroidJniObject QJniObject_;
// ---------------------------------------------------------------- gui
class QColor { public: QColor toCmyk() const; QColor toRgb() const;  QColor(); QColor(int, int, int, int = 255); QColor(const QString &); QColor(const char *); QColor(QLatin1String); QColor(Qt::GlobalColor); QColor(uint); void setNamedColor(const QString &); void setNamedColor(QLatin1String); static QColor fromString(const QString &); static QColor fromRgb(int, int, int); static QColor fromRgba(uint); QColor lighter(int = 150) const; QString name() const; int red() const; bool isValid() const; QColor &operator=(Qt::GlobalColor); QColor &operator=(const QColor &); QColor(const QColor &); private: ushort s, a; int d[4]; };
typedef unsigned int QRgb; QRgb qRgb(int, int, int); QRgb qRgba(int, int, int, int);
class QBrush { public: QBrush(); QBrush(const QColor &); ~QBrush(); }; class QPen { public: QPen(); QPen(const QColor &); ~QPen(); void setColor(const QColor &); };
class QFont { public: QFont(); QFont(const QString &); ~QFont(); }; class QIcon { public: QIcon(); explicit QIcon(const QString &); ~QIcon(); }; class QPixmap { public: QPixmap(); QPixmap(const QString &); ~QPixmap(); }; class QImage { public: QImage(); ~QImage(); }; class QKeySequence { public: QKeySequence(const QString &); QKeySequence(int); ~QKeySequence(); }; class QCursor { public: QCursor(); ~QCursor(); }; class QTransform { public: QTransform(); }; class QRegion { public: QRegion(); QRegion(const QRegion &); QRegion(const QRect &); ~QRegion(); QVector<QRect> rects() const; const QRect *begin() const; const QRect *end() const; }; class QPolygon : public QVector<QPoint> { public: QPolygon(); }; class QPainterPath { public: QPainterPath(); ~QPainterPath(); }; class QPalette { public: enum ColorRole { Text }; const QColor &color(ColorRole) const; void setColor(ColorRole, const QColor &); };
class QPaintDevice { public: virtual ~QPaintDevice(); };
class QPainter { public: QPainter(); explicit QPainter(QPaintDevice *); ~QPainter(); void drawLine(int, int, int, int); void setPen(const QColor &); };
class QVector2D { public: float x, y; }; class QMatrix4x4 { public: QMatrix4x4(); float m[16]; };
class QTextCursor { public: QTextCursor(); ~QTextCursor(); }; class QTextTableCell { public: int firstCursorPosition() const; QTextCursor firstCursor() const; };
class QValidator : public QObject { Q_OBJECT }; class QIntValidator : public QValidator { Q_OBJECT }; class QRegularExpressionValidator : public QValidator { Q_OBJECT public: QRegularExpressionValidator(const QRegularExpression &, QObject * = nullptr); };
class QGuiApplication : public QCoreApplication { Q_OBJECT
public: static int x_(); };
// ---------------------------------------------------------------- widgets
class QLayout; class QAction;
class QWidget : public QObject, public QPaintDevice { Q_OBJECT
public: explicit QWidget(QWidget *parent = nullptr, Qt::WindowFlags = Qt::WindowFlags()); ~QWidget(); QWidget *parentWidget() const; void setLayout(QLayout *); QSize size() const; QRect rect() const; QPoint pos() const; int width() const; void setToolTip(const QString &); void setEnabled(bool); void resize(int, int); void setObjectName_(int); void setVisible(bool); void setWindowTitle(const QString &); void addAction(QAction *); QPoint mapToGlobal(const QPoint &) const; void setStyleSheet(const QString &); virtual QSize sizeHint() const; const QPalette &palette() const;
public Q_SLOTS: void show(); void hide(); void update(); void close();
protected: bool event(QEvent *) override; virtual void mousePressEvent(QMouseEvent *); virtual void keyPressEvent(QKeyEvent *); virtual void paintEvent(QPaintEvent *); virtual void resizeEvent(QResizeEvent *); virtual void closeEvent(QCloseEvent *); virtual void wheelEvent(QWheelEvent *); virtual void dropEvent(QDropEvent *); virtual void focusInEvent(QFocusEvent *); virtual void showEvent(QShowEvent *); virtual void mouseMoveEvent(QMouseEvent *); virtual void changeEvent(QEvent *);
Q_SIGNALS: void customContextMenuRequested(const QPoint &); };
class QLayout : public QObject { Q_OBJECT public: void addWidget(QWidget *); }; class QBoxLayout : public QLayout { Q_OBJECT }; class QVBoxLayout : public QBoxLayout { Q_OBJECT public: explicit QVBoxLayout(QWidget * = nullptr); }; class QHBoxLayout : public QBoxLayout { Q_OBJECT public: explicit QHBoxLayout(QWidget * = nullptr); };
class QApplication : public QGuiApplication { Q_OBJECT
public: QApplication(int &, char **); static int exec(); static QWidget *activeWindow(); static void setStyle(const QString &); bool notify(QObject *, QEvent *) override; };
class QFrame : public QWidget { Q_OBJECT public: explicit QFrame(QWidget * = nullptr); }; class QAbstractScrollArea : public QFrame { Q_OBJECT public: explicit QAbstractScrollArea(QWidget * = nullptr); }; class QLabel : public QFrame { Q_OBJECT public: explicit QLabel(QWidget * = nullptr); explicit QLabel(const QString &, QWidget * = nullptr); void setText(const QString &); };
class QAbstractButton : public QWidget { Q_OBJECT
public: explicit QAbstractButton(QWidget * = nullptr); QString text() const; void setText(const QString &); void setShortcut(const QKeySequence &);
Q_SIGNALS: void clicked(bool = false); void pressed(); void toggled(bool); public Q_SLOTS: void click(); void toggle(); };
class QPushButton : public QAbstractButton { Q_OBJECT public: explicit QPushButton(QWidget * = nullptr); explicit QPushButton(const QString &, QWidget * = nullptr); }; class QCheckBox : public QAbstractButton { Q_OBJECT public: explicit QCheckBox(QWidget * = nullptr); }; class QToolButton : public QAbstractButton { Q_OBJECT };
class QAction : public QObject { Q_OBJECT
public: explicit QAction(QObject * = nullptr); QAction(const QString &, QObject * = nullptr); 
Q_SIGNALS: void triggered(bool = false); void toggled(bool); };
class QMenu : public QWidget { Q_OBJECT
public: explicit QMenu(QWidget * = nullptr); QAction *addAction(const QString &); QAction *addAction(const QString &, const QObject *, const char *, const QKeySequence & = 0); using QWidget::addAction; template<typename F> QAction *addAction(const QString &, const QObject *, F f, const QKeySequence & = 0) { return nullptr; } template<typename F> QAction *addAction(const QString &, F f, const QKeySequence & = 0) { return nullptr; } template<typename F> QAction *addAction(const QIcon &, const QString &, F f, const QKeySequence & = 0) { return nullptr; } template<typename F> QAction *addAction(const QIcon &, const QString &, const QObject *, F f, const QKeySequence & = 0) { return nullptr; } QMenu *addMenu(const QString &); };
class QComboBox : public QWidget { Q_OBJECT
public: explicit QComboBox(QWidget * = nullptr); int currentIndex() const; QString currentText() const; void addItem(const QString &); 
Q_SIGNALS: void currentIndexChanged(int); void currentIndexChanged(const QString &); void activated(int); void activated(const QString &); void highlighted(int); };
class QAbstractSpinBox : public QWidget { Q_OBJECT }; class QSpinBox : public QAbstractSpinBox { Q_OBJECT
public: explicit QSpinBox(QWidget * = nullptr); int value() const; 
Q_SIGNALS: void valueChanged(int); void valueChanged(const QString &); void textChanged(const QString &); public Q_SLOTS: void setValue(int); };
class QLineEdit : public QWidget { Q_OBJECT
public: explicit QLineEdit(QWidget * = nullptr); explicit QLineEdit(const QString &, QWidget * = nullptr); QString text() const; 
public Q_SLOTS: void setText(const QString &); void clear(); Q_SIGNALS: void textChanged(const QString &); void returnPressed(); void editingFinished(); };
class QTextEdit : public QAbstractScrollArea { Q_OBJECT public: explicit QTextEdit(QWidget * = nullptr); QString toPlainText() const; Q_SIGNALS: void textChanged(); }; class QTextBrowser : public QTextEdit { Q_OBJECT public: explicit QTextBrowser(QWidget * = nullptr); };
class QDialog : public QWidget { Q_OBJECT public: explicit QDialog(QWidget * = nullptr); virtual int exec(); public Q_SLOTS: virtual void accept(); virtual void reject(); Q_SIGNALS: void accepted(); void finished(int); };
class QMessageBox : public QDialog { Q_OBJECT public: explicit QMessageBox(QWidget * = nullptr); static int information(QWidget *, const QString &, const QString &); static int warning(QWidget *, const QString &, const QString &); static int question(QWidget *, const QString &, const QString &); void open(QObject *, const char *); };
class QMainWindow : public QWidget { Q_OBJECT public: explicit QMainWindow(QWidget * = nullptr); }; class QTabWidget : public QWidget { Q_OBJECT Q_SIGNALS: void currentChanged(int); }; class QGroupBox : public QWidget { Q_OBJECT }; class QSlider : public QWidget { Q_OBJECT Q_SIGNALS: void valueChanged(int); }; class QAbstractItemView : public QAbstractScrollArea { Q_OBJECT Q_SIGNALS: void entered(const QModelIndex &); void clicked(const QModelIndex &); }; class QTreeWidgetItem { public: virtual ~QTreeWidgetItem(); QString text(int) const; }; class QTreeWidget : public QAbstractItemView { Q_OBJECT public: QList<QTreeWidgetItem *> selectedItems() const; Q_SIGNALS: void itemClicked(QTreeWidgetItem *, int); }; class QListWidget : public QAbstractScrollArea { Q_OBJECT }; class QButtonGroup : public QObject { Q_OBJECT Q_SIGNALS: void buttonClicked(int); void buttonClicked(QAbstractButton *); }; class QStyle : public QObject { Q_OBJECT }; class QGraphicsItem { public: virtual ~QGraphicsItem(); }; class QGraphicsView : public QAbstractScrollArea { Q_OBJECT public: QList<QGraphicsItem *> items() const; };
class QQmlEngine : public QObject { Q_OBJECT }; class QQuickItem : public QObject { Q_OBJECT public: explicit QQuickItem(QQuickItem * = nullptr); };
class QTcpSocket : public QIODevice { Q_OBJECT Q_SIGNALS: void connected(); void error(int); public: int error() const; }; class QNetworkReply : public QIODevice { Q_OBJECT public: int error() const; Q_SIGNALS: void error(int); void finished(); };
class QDomNode { public: void setPrefix(const QString &);  QDomNode(); ~QDomNode(); QDomNode firstChild() const; class QDomElement toElement() const; bool isNull() const; }; class QDomElement : public QDomNode { public: QString attribute(const QString &, const QString & = QString()) const; };
class QDBusInterface : public QObject { Q_OBJECT public: QDBusInterface(const QString &, const QString &); }; template<typename T> class QDBusReply { public: T value() const; };
namespace QTest { void qWait(int); }
#define Q_IMPORT_PLUGIN(x)
#define Q_COREAPP_STARTUP_FUNCTION(f) static void f##_ctor_function();
#define QVERIFY(x) do { if (!(x)) return; } while (false)
#define QVERIFY2(x, y) do { if (!(x)) return; } while (false)
#define QCOMPARE(x, y) do { if (!((x) == (y))) return; } while (false)
#define QT_REQUIRE_VERSION(a, b, c)
#define QT_WARNING_PUSH
#define QT_WARNING_POP
#define QT_WARNING_DISABLE_DEPRECATED
class QQmlModuleRegistration { public: template<typename F> QQmlModuleRegistration(const char *, F); };
template<typename F> class QScopeGuard { public: QScopeGuard(F); ~QScopeGuard(); void dismiss(); };
template<typename F> [[nodiscard]] QScopeGuard<F> qScopeGuard(F f);
template<typename T> class QDBusPendingReply { public: QDBusPendingReply(); T value() const; bool isError() const; };
template<typename K, typename V> class QHashIterator { public: QHashIterator(const QHash<K, V> &); bool hasNext() const; void next(); };
class QMacNativeWidget : public QWidget { Q_OBJECT public: explicit QMacNativeWidget(QWidget * = nullptr); }; class QWizard : public QDialog { Q_OBJECT }; class QSplashScreen : public QWidget { Q_OBJECT public: QSplashScreen(const QPixmap &); }; class QProgressDialog : public QDialog { Q_OBJECT public: explicit QProgressDialog(QWidget * = nullptr); Q_SIGNALS: void canceled(); }; class QDockWidget : public QWidget { Q_OBJECT Q_SIGNALS: void topLevelChanged(bool); };  class QTreeView : public QAbstractItemView { Q_OBJECT };
QT_END_NAMESPACE
QT_USE_NAMESPACE
#endif
