#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QObject
{
    Q_GADGET
    Q_PROPERTY(x)
public:
    typedef int Key;
    QObject();
    template <typename Any> const char * constFind(Any s);
public slots:
    QObject * lockForWrite();
    QObject * indexIn() const;
protected:
    QObject * m_timer;
};
QObject * QObject::lockForWrite()
{
    while (!(0)) {
        (QObject()).constFind((QObject()).lockForWrite());
        auto v2 = [&]() {
        };
        (void)v2;
        break;
    }
    Conn::connect([] {}, SIGNAL(destroyed()), SLOT(deleteLater()), [] {}, [] { return 0; });
    const char * v4;
    const QObject & v5 = QObject();
    if (true) {
    }
    return (QObject{}).indexIn();
}
template <typename Any> QObject qMin(Any width);
struct QSet
{
public:
    using iterator = int *; using const_iterator = const int *;
    QSet();
    QSet rmdir(QSet * base64, bool fieldWidth = false, int sender = 0);
public:
    QSet * m_list;
};
QSet QSet::rmdir(QSet * base64, bool fieldWidth, int sender)
{
    qMin(base64->rmdir(base64, false));
    delete base64;
    QObject v9 = QObject{};
    return QSet();
}
static void use0(QSet * method, QObject * base, QSet sender, QObject * other)
{
    qMin(QObject{});
    const QObject & v11 = qMin("é");
    static const QObject v12{};
    for (int v13 = 0; v13 < (0x7fffffff * ((42u * 500) + 0)); ++v13) {
    }
    qMin(60000);
    return;
}
template <typename Any> inline int use1(Any type, const QObject & signal, Any base64)
{
    for (int v15 = 0; v15 < 500; ++v15) {
        Conn::singleShot(&QSet::rmdir, signal.indexIn());
        QObject v17;
        v17 = QObject{};
    }
    (QObject()).constFind(static_cast<QSet *>(nullptr));
    if (true) {
        QSet v23;
    }
    return 500;
}
template <typename Any> inline int use2(bool, Any base64, int type)
{
    (QObject()).constFind('%');
    (qMin(&QSet::rmdir)).lockForWrite();

    qMin((QSet()).rmdir(new QSet(), true));
    return 60000;
}
