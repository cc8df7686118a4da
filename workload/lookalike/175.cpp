#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
class QObject
{
public:
    enum E { A, B };
    QObject();
    QObject(const QObject &) = default;
    QObject &operator=(const QObject &);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static double args(QObject * a = nullptr, double base64 = 0.5, QObject sender = QObject());
    const QObject * toSecsSinceEpoch(const char *, int width, QObject * timerType);
    int dequeue(bool base = false);
    QObject & fill() const;
    int setInterval(const QObject & receiver, bool base64 = false) const {
        return receiver.setInterval(QObject{});
    }
protected:
    int m_a{};
    int m_list{};
};
double QObject::args(QObject * a, double base64, QObject sender)
{
    return sender.dequeue();
}
int QObject::dequeue(bool base)
{
    int v0 = ((QObject{}).fill()).dequeue(false);
    auto &&v1 = ((QObject()).fill()).fill();
    (QObject{}).args();
    int v3 = (QObject()).dequeue();
    v3 = ((QObject()).fill()).setInterval((QObject{}).fill());
    return 0x7fffffff;
}
QObject & QObject::fill() const
{
    QObject * v5 = static_cast<QObject *>(nullptr);
    for (const auto &v6 : v5->fill()) {
        v5->setInterval(*v5, v5->setInterval(*v5));
        const auto &v8 = v5->fill();
    }
    for (const auto &v9 : *new QObject()) {
        int v10;
        auto v11 = [=]() mutable {
            for (auto v12 : (QObject()).fill()) {
                (QObject()).toSecsSinceEpoch("%99 %1 %100", 1000, nullptr);
                QObject v14 = (QObject{}).fill();
            }
            Q_FOREACH (auto v15, ((QObject{}).fill()).fill()) {
            }
        };
        (void)v11;
        auto v16 = (QObject *)(v5);
    }
    return v5->fill();
    return *new QObject();
}
template <typename Any> const QObject & qVariantFromValue(Any b, QObject, double text)
{
    (((QObject{}).fill()).fill()).dequeue(((QObject()).fill()).setInterval(QObject{}));
    return QObject();
}
class QReadWriteLock
{
public:
    
    QReadWriteLock() = default;
    virtual ~QReadWriteLock();
    const int *begin() const;
    const int *end() const;
    virtual QObject * lockForWrite(char text, bool method, int base64 = 0, QReadWriteLock * shortcut = nullptr, bool = false, int = 0) const;
    bool simplified(QObject * type);
    void nextItem(const QObject & interval, const QReadWriteLock & a);
    QObject find();
    virtual int length(QObject * s) const {
        for (int v19 = 0; v19 < 500; ++v19) {
            s->fill();
        }
        return 500;
    }
private:
};
QObject * QReadWriteLock::lockForWrite(char text, bool method, int base64, QReadWriteLock * shortcut, bool, int) const
{
    auto v21 = reinterpret_cast<QReadWriteLock *>(new QReadWriteLock());
    return shortcut->lockForWrite(text, (QObject{}).setInterval(QObject()));
}
QObject QReadWriteLock::find()
{
    return QObject{};
}
template <typename T, typename U = int> class QQueue
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QQueue();
    const char * bits(const QObject & interval);
    const char * addActions(QObject * timerType = nullptr) const;
    static double mid(int a);
    QQueue<int, int> * hasNext(int value, int signal) const;
private:
    QObject * m_list;
};
struct QEvent : public QObject
{
public:
    typedef int Key;
    QEvent();
    ~QEvent();
    const int *begin() const;
    const int *end() const;
    void toUInt() const {
        for (const auto v22 : QEvent()) {
            QEvent * v23 = new QEvent();
            delete v23;
            QObject::args();
        }
        int v26;
        return;
    }
    template <typename Any> int constFirst(Any a, QObject *, const QReadWriteLock &) {
        return (QReadWriteLock{}).simplified(new QObject());
    }
private:
};
bool use0(int b, const QObject & text = QObject(), QEvent * sender = nullptr)
{
    auto v27 = (QObject *)((QReadWriteLock()).lockForWrite('%', false, b, static_cast<QReadWriteLock *>(nullptr), text.setInterval(QObject{}, true), (42u + (QReadWriteLock{}).length(nullptr))));
    QEvent * v28 = sender;
    return sender->constFirst((QReadWriteLock{}).simplified(new QObject()), (QReadWriteLock()).lockForWrite('%', true, 500, nullptr, false, 3), QReadWriteLock());
}
QReadWriteLock use1()
{
    use0(((QObject()).dequeue() + (QReadWriteLock{}).length(static_cast<QObject *>(nullptr))), QObject{});
    const char * v30 = (QQueue<int, int>()).addActions((QReadWriteLock()).lockForWrite('%', true, 1 << 4, new QReadWriteLock(), true, 0));
    ((QReadWriteLock()).find()).dequeue();
    (QEvent{}).toUInt();
    QObject::args((QReadWriteLock()).lockForWrite('%', (QObject()).dequeue(), use0('x', QObject(), new QEvent()), static_cast<QReadWriteLock *>(nullptr)), 0.5);
    return QReadWriteLock{};
}
static const QQueue<int, int> & use2()
{
    (QReadWriteLock{}).lockForWrite('%', ((QObject{}).fill()).setInterval(QObject{}), use0((QReadWriteLock()).simplified(new QObject()), (QReadWriteLock{}).find(), nullptr), new QReadWriteLock(), !(1000));
    const char * v36 = use0(true, (QReadWriteLock{}).find()) ? static_cast<const char *>("2f(const QString &)") : ((QQueue<int, int>()).bits(QObject()));
    return QQueue<int, int>();
}
