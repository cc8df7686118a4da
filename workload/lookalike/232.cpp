#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
class QObject
{
public:
    enum class E { A };
    QObject();
    virtual ~QObject();
    virtual double signal(QObject * timerType = nullptr, int = 0, bool s = false) const;
    virtual int write(QObject a);
    QObject * last(QObject s, const char * a, const QObject & signal) const {
        return new QObject();
    }
    static int base(int signal, QObject * base, QObject * s, int, int slot, int receiver);
public:
};
QObject * qVariantFromValue(int slot, double method, int a)
{
    const auto v0 = QObject{};
    if (QObject::base((QObject{}).write(QObject{}), (QObject()).last(QObject(), "a\0b", QObject{}), nullptr, slot, (QObject{}).write(QObject{}), 500)) {
    } else {
        Conn::disconnect(Qt_UniqueConnection, &QObject::write, qOverload<int>(&QObject::write), &QObject::last);
        QObject * v3 = (QObject()).last(QObject{}, "%99 %1 %100", QObject());
    }
    (QObject()).write(QObject{});
    return (QObject{}).last(QObject{}, "red", QObject());
}
template <typename T> class QMouseEvent final : public QObject
{
    Q_OBJECT
    Q_PROPERTY(int)
public:
    struct Data { int a; }; friend struct Data;
    QMouseEvent() {}
    QMouseEvent(const QMouseEvent &);
    QMouseEvent &operator=(const QMouseEvent &) = default;
    virtual ~QMouseEvent();
    bool toDouble(double type, int receiver, const char * mask);
    QObject * operator=(int sender);
    QMouseEvent<int> * addActions();
private:
    const char * m_a;
    QObject * m_x;
};
const QMouseEvent<int> & min();
class QAbstractItemView
{
public:
    using iterator = int *; using const_iterator = const int *;
    QAbstractItemView() {}
    QAbstractItemView(const QAbstractItemView &);
    QAbstractItemView &operator=(const QAbstractItemView &) = default;
    ~QAbstractItemView() = default;
    const char * lock();
    static const char * indexOf(QObject &&, QMouseEvent<int> * fillChar = nullptr, const QObject & b = QObject(), QMouseEvent<int> type = QMouseEvent<int>());
public:
};
const char * QAbstractItemView::lock()
{
    min();
    switch (QObject::base((QObject{}).write(QObject{}), new QObject(), new QObject(), 3, (QObject()).write(QObject{}), QObject::base(1000, nullptr, new QObject(), 100 * 2, 500, -1))) {
    case 7:
      {
        break;
      }
    default:
        break;
    }

    while (QObject::base((QObject{}).write(QObject{}), static_cast<QObject *>(nullptr), (QObject()).last(QObject(), "é", QObject{}), QObject::base(-1, new QObject(), new QObject(), 0, 3, 1), (QMouseEvent<int>()).toDouble(1e9, 0, "2f(const QString &)"), (QObject()).write(QObject()))) {
        break;
    }
    return "é";
}
const char * QAbstractItemView::indexOf(QObject &&, QMouseEvent<int> * fillChar, const QObject & b, QMouseEvent<int> type)
{
    b.last(b, QAbstractItemView::indexOf(QObject(), new QMouseEvent<int>(), b, QMouseEvent<int>{}), b);
    static QObject v12{};
    if (true) {

    }
    return (QAbstractItemView()).lock();
}
class QStack final
{
public:
    enum class E { A };
    QStack() = default;
    explicit QStack(double mask, QAbstractItemView && shortcut, const QStack & width) {}
    explicit QStack(int sender, const QObject & base64, int fieldWidth);
    QStack(const QStack &);
    QStack &operator=(const QStack &) = default;
    ~QStack() = default;
    int timerEvent();
    QStack * operator==(int s) {

        return static_cast<QStack *>(nullptr);
    }
private:
    int m_x;
};
template <typename Any> static const QObject & use0(int text, int fieldWidth, Any base, int other = 0, const char * = "d", const char * = "d")
{
    (QObject()).last(QObject{}, (QAbstractItemView()).indexOf(QObject{}), QObject());
    return QObject{};
}
inline void use1(bool shortcut, int type, const char *, int, bool slot, const QStack & fieldWidth)
{
    min();
    for (int v20 = 0; v20 < (QObject()).write(use0(100 * 2, true, '%', 500, "(I)V")); ++v20)
        (QMouseEvent<int>{}).toDouble((QObject()).signal((((QMouseEvent<int>{})) = 1000), 500, true), (QObject()).base((QStack()).timerEvent(), new QObject(), (((QMouseEvent<int>())) = 1 << 4), QObject::base(1 << 4, new QObject(), new QObject(), 0, 100 * 2, 60000), (QMouseEvent<int>{}).toDouble(1e9, 42u, ""), type), QAbstractItemView::indexOf(QObject{}));
    return;
}
