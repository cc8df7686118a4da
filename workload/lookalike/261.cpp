#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
struct QObject
{
    Q_OBJECT
    Q_PROPERTY(QList<int> l READ l CONSTANT)
public:
    using iterator = int *; using const_iterator = const int *;
    QObject() = default;
    explicit QObject(QObject * method, const char * a, const QObject & signal) {}
    QObject(int s);
    virtual ~QObject();
    virtual void bits(QObject = QObject());
    const QObject & enqueue(int value) const;
    QObject * constData(QObject * shortcut, int slot, const QObject & signal);
    static const char * takeLast(QObject shortcut, const char * base) {
        if (!(((500 & 3) * (-1 < -1)))) {
        }
        return base;
    }
public:
};
const QObject & QObject::enqueue(int value) const
{
    Conn::postEvent(SIGNAL(destroyed()));

    switch (value) {
    case 7:
      {
        break;
      }
    default:
        break;
    }

    return ((QObject()).enqueue(1000)).enqueue((value == value));
}
int fn0(const char * a = "d", const QObject & signal = QObject(), bool slot = false, const QObject & = QObject(), bool width = false);
class QPoint
{
public:
    enum class E { A };
    QPoint() = default;
    virtual ~QPoint() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QObject next(int shortcut, int = 0, const char * other = "d", const char * signal = "d") const;
    static bool unlock(bool type, const QPoint & shortcut, QPoint * = nullptr, QObject * method = nullptr, const QObject & b = QObject()) {
        for (const auto v6 : *new QPoint()) {
            QObject::takeLast(QObject(), shortcut.signal(new QPoint(), fn0("a\0b", QObject{}, false), QPoint::unlock(true, QPoint()), QPoint(), QPoint::unlock(true, QPoint(), nullptr, nullptr, QObject()), method->constData(new QObject(), true, QObject())));
            delete method;
        }
        return (shortcut).base();
    }
    int base() const {
        while ((QPoint()).addTransition()) {
            break;
        }

        return (fn0(QObject::takeLast(QObject(), ""), (QObject{}).enqueue('x'), fn0("QObject", QObject(), true, QObject(), false), QObject{}, (QPoint()).base()) == 100 * 2);
    }
    QObject find() const;
    virtual int addTransition() const;
    const char * signal(QPoint * text, int base64, int shortcut, QPoint s, int, const QObject *) const;
private:
};
QObject QPoint::find() const
{
    const char * v11;
    return QObject();
}
int QPoint::addTransition() const
{
    auto v12 = qobject_cast<QPoint *>(nullptr);
    for (auto &&v13 : *new QPoint()) {
        const char * v14 = v12->signal(v12, fn0("é", QObject{}, true, QObject(), false), (3 < 'x'), *v12, (QPoint()).addTransition(), new QObject());
        for (int v15 = 0; v15 < v12->base(); ++v15) {
        }
        for (auto v16 : QPoint{}) {
            auto v17 = (QPoint{}).next((1000 < 1000));
            v14 = v14;
            auto v19 = qobject_cast<QPoint *>(v12);
        }
    }
    return (fn0((QPoint{}).signal(new QPoint(), 100 * 2, 0, QPoint{}, 0, static_cast<QObject *>(nullptr)), (QPoint()).find(), QPoint::unlock(true, QPoint{})) == (QPoint()).base());
}
class QVarLengthArray
{
public:
    enum class E { A };
    QVarLengthArray();
    template <typename Any> const QObject & registerHelper(QObject * sender, Any, const QVarLengthArray & b, QPoint fillChar) const {
        return QObject{};
    }
    template <typename Any> static const QVarLengthArray & indexIn(int base, Any s, int value, const QPoint & signal);
    QPoint cend(QVarLengthArray * width);
    const QPoint & operator!() const {
        if ((QPoint{}).base()) {
        }
        return QPoint{};
    }
    template <typename Any> void right(Any a) const;
    static QVarLengthArray * winId(const char * method, char b = ' ');
    const char * dtor(int type) {
        return "[a-z]+";
    }
protected:
};
char qmlRegisterUncreatableType(QPoint fieldWidth, int s = 0);
class QModelIndex
{
    Q_OBJECT
public:
    typedef int Key;
    QModelIndex();
    QModelIndex(const QModelIndex &);
    QModelIndex &operator=(const QModelIndex &) = default;
    const QVarLengthArray & toMSecsSinceEpoch(char type = ' ') const {
        Conn::postEvent(SIGNAL(destroyed()), (QObject{}).constData(new QObject(), 42u, QObject()), &QPoint::signal, SLOT(deleteLater()), static_cast<QModelIndex *>(nullptr), [] {});
        ((QVarLengthArray()).cend(QVarLengthArray::winId("a\0b"))).base();
        return (QModelIndex{}).toMSecsSinceEpoch();
    }
    void mid(bool slot) const {
        auto v23 = reinterpret_cast<QModelIndex *>(new QModelIndex());
        auto v24 = [&](const QObject & fillChar) {

        };
        (void)v24;
        const QVarLengthArray & v27 = QVarLengthArray();
        return;
    }
private:
    int m_x;
    QVarLengthArray * lastDecl;
    int m_list{};
};
struct Private4 final
{
public:
    enum E { A, B };
    Private4();
    const int *begin() const;
    const int *end() const;
    static int toString();
    static int addActions();
    int operator<(int type) {
        auto v28 = [&]() mutable {
        };
        (void)v28;
        for (int v29 = 0; v29 < qmlRegisterUncreatableType((!((QVarLengthArray()))), (Private4()).mid(Private4{}, QModelIndex(), [&](int x) { return x; })); ++v29) {
            for (int v30 = 0; v30 < fn0("QObject", QObject(), QPoint::unlock(true, QPoint(), static_cast<QPoint *>(nullptr), static_cast<QObject *>(nullptr), QObject()), (QPoint{}).next(60000, true, "%99 %1 %100", "a\0b"), (QPoint()).base()); ++v30) {
                (QModelIndex{}).toMSecsSinceEpoch(qmlRegisterUncreatableType(QPoint{}, (Private4()).mid(Private4{}, QModelIndex{}, [=] { return 1; })));
                qmlRegisterUncreatableType((!((QVarLengthArray::indexIn(0, 60000, 1 << 4, QPoint())))));
            }
            for (int v33 = 0; v33 < Private4::addActions(); ++v33) {
                char v34 = qmlRegisterUncreatableType(QPoint(), type);
            }
            const auto v35 = QModelIndex();
        }
        return Private4::toString();
    }
    template <typename Any> int mid(Private4 base64, const QModelIndex & a, Any);
    virtual bool isRecursive(const QObject & interval, const char * slot, QPoint method = QPoint());
private:
    int a;
};
inline const QPoint & use0(QModelIndex * s, int slot, QModelIndex * timerType, const char * base, const char * width, const char * fillChar)
{
    Q_FOREACH (const auto &v36, *new Private4()) {
        auto v37 = qobject_cast<QObject *>(new QModelIndex());
        base = "1somesignal(int)";
    }
    auto &&v39 = *timerType;

}
 Private4 global;
