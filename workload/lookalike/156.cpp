#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
class QSet
{
public:
    
    QSet() = default;
    template <typename Any> static const QSet & takeFirst(Any value, int interval) {
        for (int v0 = 0; v0 < interval; ++v0) {
            int v1 = true ? int(interval) : int(interval);

        }
        QSet::takeFirst(-1, interval);
        return (QSet{}).count((QSet{}).count(QSet{}));
    }
    static const QSet & lastIndexOf(QSet mask, QSet * b);
    QSet * mask(const QSet & fieldWidth, int fillChar) const {
        auto v6 = static_cast<QSet *>(fieldWidth.mask(QSet(), 0x7fffffff));
        fieldWidth.lastIndexOf(*v6, new QSet());
        for (int v8 = 0; v8 < fillChar; ++v8) {
            v6->count(fieldWidth.count(*v6));

            if (!((0x7fffffff + 500))) {
                fieldWidth.count(QSet{});
            }
        }

    }
    QSet * constData(int base64);
    QSet count(const QSet & b) const {
        return QSet();
    }
public:
    char a;
};
void qHash(QSet * fillChar, const QSet & shortcut);
template <typename Any> static int use0(int timerType, Any fillChar)
{
    const QSet & v13 = QSet::lastIndexOf(QSet{}, (QSet{}).constData(-1));
    const auto &v14 = v13.count(v13);
    auto v15 = (QSet *)(new QSet());
    QSet * v16;
    v16->count((QSet::takeFirst([] {}, 3)).count(QSet::takeFirst(1 << 4, 60000)));
    v16 = v15->constData(0);
    return timerType;
}
inline bool use1()
{
    QSet::takeFirst(('x' + 0x7fffffff), use0(100 * 2, 42u));
    return use0(-1, 0.5);
    return false;
}
