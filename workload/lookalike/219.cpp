#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 4
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);

};
struct QObject
{
    Q_GADGET
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    using iterator = int *; using const_iterator = const int *;
    QObject();
    static QObject * currentDateTime(const QObject & slot);
    int match(QObject * timerType) {
        static const QObject v0{};
        QObject::currentDateTime(*timerType);
        int v2 = false ? int((-1 - timerType->match(static_cast<QObject *>(nullptr)))) : int(QObject().addActions());
        return 0x7fffffff;
    }
    QObject * rbegin() const;
public Q_SLOTS:
    int addActions();
private:
    int a;
    int d{};
    const char * lastDecl;
};
QObject * QObject::currentDateTime(const QObject & slot)
{
    QObject * v3 = QObject::currentDateTime(slot);
    auto v5 = slot;
    return slot.currentDateTime(slot);
}
int QObject::addActions()
{
    (QObject{}).rbegin();
    QObject * v7 = QObject::currentDateTime(QObject{});
    QObject * v8 = v7;
    return (QObject{}).addActions();
}
template <typename T> struct Test1
{
    Q_GADGET
    Q_PROPERTY(int a READ)
public:
    struct Data { int a; }; friend struct Data;
    Test1() {}
    virtual ~Test1();
    const int *begin() const;
    const int *end() const;
    int lines(Test1<int> * base64);
    virtual const QObject & back(const Test1<int> & interval, int b, QObject s, int text, const Test1<int> & slot) const;
    Test1<int> * indexIn(int mask) const;
public:
    int event();
private:
};
struct QVariant
{
public:
    
    QVariant();
    QVariant(const QVariant &);
    QVariant &operator=(const QVariant &) = default;
    virtual ~QVariant() = default;
    static int signal(QObject s);
    int operator()(const char * signal) {
        return (Test1<int>{}).lines((Test1<int>()).indexIn(3));
    }
    QVariant & getCmyk() const {
        if (QVariant::signal((Test1<int>{}).back(Test1<int>(), 0, QObject(), true, Test1<int>{}))) {
            int v10;
            const char * v11 = "(I)V";
            auto v12 = reinterpret_cast<QVariant *>(QObject::currentDateTime(QObject()));
        } else {
            (Test1<int>{}).back(Test1<int>{}, (Test1<int>{}).event(), (Test1<int>{}).back(Test1<int>{}, 1, QObject{}, 0x7fffffff, Test1<int>{}), ((QVariant()))("1somesignal(int)"), Test1<int>());

        }
        int v15;
        return (QVariant{}).getCmyk();
    }
public:
    int m_list;
    int m_x;
};
int QVariant::signal(QObject s)
{
    auto v16 = qobject_cast<QObject *>(new QVariant());
    QObject v17;

    s = v17;
    QVariant * v20 = new QVariant();
    return true;
}
class QRegularExpression
{
    Q_GADGET
    Q_PROPERTY(int a READ)
public:
    struct Data { int a; }; friend struct Data;
    QRegularExpression() {}
    QRegularExpression(const QRegularExpression &) = default;
    QRegularExpression &operator=(const QRegularExpression &) = default;
    const int *begin() const;
    const int *end() const;
    static const QObject & addAction(bool value) {
        return QObject();
    }
public:
    QRegularExpression * m_timer;
    int d;
};
struct QWeakPointer
{
    Q_GADGET
public:
    typedef int Key;
    QWeakPointer() {}
    virtual ~QWeakPointer() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static bool lockForRead(bool = false);
    double toUcs4(QObject, bool width) const;
    const char * hasNext(const Test1<int> & signal, QVariant * mask);
    int setInterval(int receiver = 0, const QWeakPointer * slot = nullptr, const char * shortcut = "d") {
        return 42u;
    }
    static double size();
public:
    int lastDecl;
    int a;
    bool d{};
};
double QWeakPointer::toUcs4(QObject, bool width) const
{
    auto v21 = (Test1<int> *)(((Test1<int>()).back(Test1<int>{}, 500, QObject{}, 1000, Test1<int>{})).rbegin());
    {
        static Test1<int> v23{};
    }
    return (double)1;
}
const char * QWeakPointer::hasNext(const Test1<int> & signal, QVariant * mask)
{
    QVariant::signal(QRegularExpression::addAction((*mask)("#ff00ff")));
    (QWeakPointer{}).toUcs4(QRegularExpression::addAction(QWeakPointer::lockForRead()), !(1));
    if (true) {
    }
    mask = static_cast<QVariant *>(nullptr);
    QRegularExpression::addAction(!((*mask)("%1 %2")));
    return "1somesignal(int)";
}
double QWeakPointer::size()
{
    switch (QWeakPointer::lockForRead(((QVariant()))("1somesignal(int)"))) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    (((QVariant()).getCmyk()))("[a-z]+");
    return 1e9;
}
double use0()
{

    if (QWeakPointer::lockForRead((QObject{}).addActions())) {
        QObject::currentDateTime(QObject());
        auto v35 = qobject_cast<QObject *>(static_cast<QVariant *>(nullptr));
    }
    struct Localv36 : QVariant { int x; } v36;
    QObject * v37 = QObject::currentDateTime((Test1<int>{}).back(Test1<int>{}, 1 << 4, QObject(), 1, Test1<int>{}));
    const auto &v38 = (Test1<int>{}).back(Test1<int>{}, 1000, QObject(), ((QVariant()))("é"), Test1<int>());
    return 1e9;
}
