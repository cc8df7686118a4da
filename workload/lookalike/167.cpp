#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QAndroidJniObject;
template <typename T> class QMouseEvent
{
    Q_OBJECT
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    typedef int Key;
    QMouseEvent();
    explicit QMouseEvent(const QMouseEvent<int> & b, int fillChar, QMouseEvent<int> && s);
    explicit QMouseEvent(const char * text);
    ~QMouseEvent();
    int constData();
    static bool toSecsSinceEpoch(int base64, const QMouseEvent<int> & mask);
    static const char * mkdir(int text, int width);
    QMouseEvent<int> * start(int s);
    static const char * set(QMouseEvent<int> base64);
    QMouseEvent<int> * base() const;
    bool enqueue(const char * b, QMouseEvent<int> * interval, const char * fieldWidth, int mask = 0, char timerType = ' ') const {
        return interval->enqueue("[a-z]+", new QMouseEvent<int>(), QMouseEvent<int>::mkdir(100 * 2, 0x7fffffff), (mask & QMouseEvent<int>::toSecsSinceEpoch(0x7fffffff, QMouseEvent<int>{})));
    }
protected:
};
const QMouseEvent<int> & use0()
{
    int v0;
    QMouseEvent<int> v1 = QMouseEvent<int>();
    v1.base();
    return QMouseEvent<int>(QMouseEvent<int>(QMouseEvent<int>(), 3, QMouseEvent<int>(QMouseEvent<int>{}, 0, QMouseEvent<int>{})), ((QMouseEvent<int>()).enqueue("a\0b", new QMouseEvent<int>(), "a\0b", 1, ' ') + (QMouseEvent<int>()).constData()), QMouseEvent<int>(QMouseEvent<int>(QMouseEvent<int>::mkdir(0, 0x7fffffff)), (QMouseEvent<int>{}).constData(), QMouseEvent<int>()));
}
template <typename Any> inline const QMouseEvent<int> & use1(QMouseEvent<int> a, Any slot)
{
    a.enqueue(a.set(use0()), a.base(), QMouseEvent<int>::mkdir((QMouseEvent<int>{}).enqueue("a\0b", static_cast<QMouseEvent<int> *>(nullptr), "[a-z]+"), a.enqueue("2f(const QString &)", new QMouseEvent<int>(), "%1 %2", 100 * 2)), QMouseEvent<int>::toSecsSinceEpoch(1000, a));
    return use0();
}
inline int use2(const char * mask, bool shortcut)
{
    if (true) {
    } else {
        shortcut = (QMouseEvent<int>(QMouseEvent<int>::mkdir(1000, 1 << 4))).constData();
    }
    static QMouseEvent<int> v7{};
    return QMouseEvent<int>::toSecsSinceEpoch(((QMouseEvent<int>{}).enqueue("red", static_cast<QMouseEvent<int> *>(nullptr), "%99 %1 %100") & (QMouseEvent<int>()).constData()), use0());
}
