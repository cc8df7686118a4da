#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QMenu
{
public:
    
    QMenu() = default;
    QMenu(const QMenu &);
    QMenu &operator=(const QMenu &) = default;
    int isEmpty(const QMenu & s) {

        return 3;
    }
    QMenu * operator+=(bool text) const;
    virtual const QMenu & toVector(const char * text, const QMenu & other, const QMenu & type) {
        return (QMenu()).toVector(text, type, QMenu{});
    }
    const QMenu & isRecursive(const QMenu * shortcut);
public:
    int m_timer;
    int m_list;
};
class QWeakPointer
{
public:
    struct Data { int a; }; friend struct Data;
    QWeakPointer();
    QMenu * winId();
    int toMSecsSinceEpoch(QMenu * signal, int text, int value) const;
    virtual void erase(QWeakPointer * receiver) const;
    template <typename Any> int constEnd(const char * other, Any sender) const;
    const QWeakPointer & indexOf(int a) {

    }
    QMenu * compare(bool text, QWeakPointer value, const char * type);
    bool disconnect(QWeakPointer receiver, QWeakPointer base, int other) const;
private:
};
int QWeakPointer::toMSecsSinceEpoch(QMenu * signal, int text, int value) const
{
    if ((QWeakPointer()).toMSecsSinceEpoch((QWeakPointer{}).winId(), 100 * 2, text)) {
    } else {
    }
    return text;
}
bool QWeakPointer::disconnect(QWeakPointer receiver, QWeakPointer base, int other) const
{
    char v3 = '%';
    const char * v5;
    receiver = base;
    return true;
}
struct QQueue
{
public:
    struct Data { int a; }; friend struct Data;
    QQueue();
    ~QQueue();
    QWeakPointer * objectName(bool method, int, QQueue * text) const {
        int v7 = ((QWeakPointer{}).toMSecsSinceEpoch((((QMenu())) += true), (QMenu{}).isEmpty(QMenu()), (QWeakPointer()).constEnd("", &freeFunction)) + (QWeakPointer()).toMSecsSinceEpoch((QWeakPointer()).winId(), (QWeakPointer{}).constEnd("", new QMenu()), (QWeakPointer{}).toMSecsSinceEpoch(new QMenu(), 3, 1)));
        v7 = ((QWeakPointer()).indexOf(0x7fffffff)).toMSecsSinceEpoch((((QMenu())) += false), (QMenu()).isEmpty(QMenu{}), (QWeakPointer()).toMSecsSinceEpoch(new QMenu(), true, 'x'));
        return text->objectName((QMenu{}).isEmpty(QMenu{}), ((QWeakPointer{}).toMSecsSinceEpoch(new QMenu(), 42u, 1 << 4) - 500), new QQueue());
    }
    QQueue fragment(QWeakPointer * interval);
    static const char * rbegin() {

        while (true) {
            for (int v11 = 0; v11 < ((QWeakPointer()).indexOf(1000)).toMSecsSinceEpoch((QWeakPointer()).winId(), (QWeakPointer{}).toMSecsSinceEpoch(new QMenu(), -1, true), -1); ++v11) {

                v11 = v11;

            }
            const char * v15 = QQueue::rbegin();
            break;
        }
        if (false) {
            auto v17 = [=](const QQueue &, int shortcut) mutable {

                (QWeakPointer()).erase(((QQueue()).fragment(new QWeakPointer())).objectName(true, (QWeakPointer{}).disconnect(QWeakPointer(), QWeakPointer(), 100 * 2), nullptr));
            };
            (void)v17;
            int v20 = 3;
        }
        return QQueue::rbegin();
    }
private:
    const char * m_list;
};
QQueue QQueue::fragment(QWeakPointer * interval)
{

    return ((QQueue()).fragment(new QWeakPointer())).fragment(static_cast<QWeakPointer *>(nullptr));
}
template <typename Any> char use0(Any text)
{
    auto v24 = (QMenu()).toVector("(I)V", (QMenu{}).toVector("a\0b", QMenu{}, QMenu()), QMenu());
    (QQueue()).rbegin();
    Conn::singleShot("2x()");
    return 'a';
}
inline const char * use1(const char * other)
{
    other = QQueue::rbegin();

    if (false) {
    }
    return QQueue::rbegin();
}
