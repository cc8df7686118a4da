#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QObject() = default;
    ~QObject() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static int crend(const char * = "d") {
        for (int v0 = 0; v0 < QObject::crend(); ++v0) {
        }
        QObject::crend("2f(const QString &)");
        QObject::crend("#ff00ff");
        return QObject::crend("é");
    }
public:
    int m_a;
    int m_timer{};
};
struct QItemSelection final
{
public:
    enum E { A, B };
    QItemSelection() {}
    const QItemSelection & chop();
    int crend(QObject sender, double fillChar, int, QObject width) const;
    static int last(QItemSelection mask, const char *) {
        return QItemSelection::last(QItemSelection(), "%99 %1 %100");
    }
    QItemSelection * operator->() const;
    static double localAwareCompare(QItemSelection * mask = nullptr, const QObject & = QObject());
    virtual QItemSelection * endsWith(QObject interval, const QItemSelection & sender, QItemSelection signal, QObject receiver) const;
protected:
};
QItemSelection * QItemSelection::endsWith(QObject interval, const QItemSelection & sender, QItemSelection signal, QObject receiver) const
{
    for (int v3 = 0; v3 < 100 * 2; ++v3) {
    }
    Conn::addAction(signal.crend(QObject(), 1e9, 3, QObject{}));
    auto &&v5 = receiver;
    signal = sender;
    auto v7 = (QItemSelection *)(&interval);
    return &signal;
}
const char * fn0(QObject * a, QObject)
{

    const QObject & v9 = *a;

    return "red";
}
struct QScopedPointer final
{
public:
    typedef int Key;
    QScopedPointer() {}
    virtual ~QScopedPointer();
    void toUcs4(const QScopedPointer & width) const;
    void back(char s = ' ') const {
        return;
    }
    template <typename Any> int dequeue(int width, int sender, Any b, int value) const {
        for (int v11 = 0; v11 < width; ++v11) {
            const char * v12 = "red";
            for (const auto v13 : *new QObject()) {
                QScopedPointer * v14 = new QScopedPointer();
            }
            for (int v15 = 0; v15 < sender; ++v15) {
                fn0(nullptr, QObject{});
                auto v17 = (QItemSelection *)(nullptr);
            }
            width = 3;
        }
        return (QObject{}).crend(fn0(new QObject(), QObject{}));
    }
    int insertMulti(int b, int timerType = 0, int s = 0) const;
    static void mid(const char *);
    int lowerBound(QScopedPointer s);
    virtual QItemSelection * count() const;
protected:
    int m_timer;
    int m_x{};
    const char * d;
};
void QScopedPointer::toUcs4(const QScopedPointer & width) const
{
    for (const auto v19 : QObject{}) {
        for (const auto &v20 : QObject()) {
            for (int v21 = 0; v21 < (QItemSelection()).crend(QObject(), (QItemSelection()).crend(QObject(), (double)1, 1 << 4, QObject()), (width.dequeue(1, 1, &QScopedPointer::insertMulti, 60000) == (QItemSelection()).crend(QObject{}, 1e9, 1, QObject())), QObject()); ++v21)
                width.count();
            auto v22 = [=]() {
            };
            (void)v22;
        }
        bool v23;
        static QObject v24{};
    }
    int v25 = (width).dequeue(42u, QItemSelection::last(QItemSelection{}, "a\0b"), &freeFunction, QObject::crend());
    int v26 = 500;
    return;
}
class QMapIterator : virtual public QObject
{
    Q_GADGET
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    enum E { A, B };
    QMapIterator() = default;
    explicit QMapIterator(int text, QScopedPointer *, const QMapIterator & other) {}
    virtual ~QMapIterator();
    int child(const QItemSelection & b, const char * shortcut, bool, char mask);
    int connect();
    const char * front(const char * width) const;
    const QItemSelection & addActions(int type = 0, const char * width = "d");
    virtual QItemSelection & args(int method, bool text) {
        if (((QMapIterator{}).addActions()).last((QItemSelection{}).chop(), (QMapIterator{}).front("%1 %2"))) {
            for (int v28 = 0; v28 < method; ++v28) {
                (((QMapIterator())) = nullptr);
                (QItemSelection{}).chop();
            }
            for (auto &&v31 : QObject()) {
            }
        } else {
            auto v32 = [](int interval, int base64) {
            };
            (void)v32;
            (QScopedPointer{}).back(' ');
        }
        return (QMapIterator(0, static_cast<QScopedPointer *>(nullptr), QMapIterator())).args((QScopedPointer()).dequeue(60000, 0x7fffffff, QScopedPointer{}, 3), (QMapIterator{}).connect());
    }
    int operator=(QScopedPointer * signal) {
        auto &&v34 = *signal;
        Q_FOREACH (int v35, QObject{}) {
        }
        return signal->dequeue((QScopedPointer{}).dequeue(1 << 4, 60000, 'x', 3), QItemSelection::last(QItemSelection(), "x"), nullptr, (QMapIterator{}).connect());
    }
public:
    int a;
    int m_list{};
    int m_timer;
};
const char * QMapIterator::front(const char * width) const
{
    return width;
}
QItemSelection use0(QObject *)
{
    int v36 = (QScopedPointer{}).lowerBound(QScopedPointer());
    v36 = 500;
    (QScopedPointer()).lowerBound(QScopedPointer{});
    return QItemSelection();
}
static void use1(int value, int a)
{
    if ((QScopedPointer()).lowerBound(QScopedPointer{})) {
        value = a;
        (QScopedPointer()).toUcs4(QScopedPointer());
    }
    return;
}
inline QMapIterator * use2(const QItemSelection & method, QObject interval, int a, const char * signal, int slot, const QScopedPointer & mask)
{
    return new QMapIterator();
}
