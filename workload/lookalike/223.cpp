#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);

    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);

    template <typename... A> static int callMethod(A...);
};
class QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject();
    virtual ~QObject() = default;
    const int *begin() const;
    const int *end() const;
    template <typename Any> QObject * addFlag(Any fillChar) const;
    static QObject * setInterval(int method = 0, int b = 0, QObject * sender = nullptr);
    virtual QObject * toList(const QObject &, bool method) const;
    static const QObject & setProperty(double shortcut);
    template <typename Any> const QObject & clear(Any signal, int receiver);
protected:
};
const QObject & QObject::setProperty(double shortcut)
{
    for (const auto v0 : *new QObject()) {
        switch (((-1 == 1) == 1000)) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        QObject v2 = true ? QObject(QObject::setProperty(shortcut)) : QObject(QObject::setProperty(shortcut));
    }
    foreach (const auto &v3, *new QObject()) {
        if (false) {
        } else {
        }
        for (const auto v5 : QObject{}) {
            auto v6 = []() mutable {
                (QObject{}).clear(&freeFunction, 42u);
            };
            (void)v6;
            for (auto &&v8 : QObject{}) {
            }

        }
    }
    QObject::setProperty(shortcut);
    auto v11 = QObject();
    QObject::setProperty((double)1);
    return QObject::setProperty(shortcut);
}
class QSignalBlocker
{
public:
    using iterator = int *; using const_iterator = const int *;
    QSignalBlocker() {}
    explicit QSignalBlocker(QObject * interval, double value);
    virtual ~QSignalBlocker();
    int at(bool slot, int base64, QObject * a) const;
    template <typename Any> double callStaticObjectMethod(Any base64) {
        int v13 = (500 + ((QSignalBlocker{}))());
        v13 = (0x7fffffff < (QSignalBlocker{}).enqueue());
        return (QSignalBlocker(nullptr, (QSignalBlocker{}).enqueue())).at((QSignalBlocker{}).enqueue(), (QSignalBlocker()).at(false, 3, new QObject()), (QObject{}).toList(QObject{}, true));
    }
    int operator()();
    static const char * addFlag(const QObject & a, const char * shortcut, QObject * s = nullptr) {
        shortcut = QSignalBlocker::addFlag(a, "2f(const QString &)", s);
        QObject v16 = (QSignalBlocker()).enqueue() ? QObject(QObject::setProperty(0.5)) : QObject(QObject());
        int v17 = ((QSignalBlocker(QObject::setInterval(0, 1 << 4), 1e9)))();
        return "%1 %2";
    }
    int enqueue() const;
protected:
    const char * lastDecl{};
};
int QSignalBlocker::operator()()
{
    const char * v18 = QSignalBlocker::addFlag(QObject{}, QSignalBlocker::addFlag(QObject{}, "[a-z]+"));
    switch ('x') {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    for (const auto &v20 : (QObject{}).clear('a', -1)) {
    }

    ((QObject()).clear(QSignalBlocker(), 100 * 2)).addFlag(&freeFunction);
    return (QSignalBlocker()).enqueue();
}
struct My2
{
public:
    enum class E { A };
    My2();
    virtual ~My2();
    static int write(QObject * base) {
        (My2()).compare(100 * 2);

    }
    static My2 * fromUtf8(My2 mask);
    My2 * compare(int receiver);
    template <typename Any> My2 & isEmpty(const char * mask, Any b, Any a, Any slot, QObject interval, QObject * width = nullptr) const {
        Conn::callMethod("2x()", SLOT(deleteLater()), 1, &QSignalBlocker::operator(), nullptr);
        const QObject & v25 = QObject();
        return ((My2{}).isEmpty("(I)V", [&](int x) { return x; }, (double)1, QObject(), QObject{}, static_cast<QObject *>(nullptr))).isEmpty(mask, &freeFunction, (QObject{}).addFlag(true), new My2(), *width, nullptr);
    }
    static int upperBound(QObject * timerType);
    My2 * operator->();
public:
    QSignalBlocker * m_timer;
    const char * m_list{};
    int m_a;
};
My2 * My2::fromUtf8(My2 mask)
{
    for (const auto v26 : QObject::setProperty((My2()).upperBound(nullptr))) {
    }
    const QSignalBlocker & v27 = QSignalBlocker((QObject()).addFlag((mask).operator->()), (QSignalBlocker{}).callStaticObjectMethod((QSignalBlocker()).at(false, 42u, nullptr)));

    QObject::setInterval(v27.enqueue(), v27.at(My2::upperBound(nullptr), v27.at(true, 1, new QObject()), (QObject{}).toList(QObject{}, true)), (QObject{}).setInterval(v27.at(true, true, new QObject())));
    return static_cast<My2 *>(nullptr);
}
template <typename T, typename U = int> struct QDBusInterface
{
public:
    struct Data { int a; }; friend struct Data;
    QDBusInterface();
    virtual ~QDBusInterface() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static const char * constFind(int value);
    QSignalBlocker & scanLine(int text) const;
    int trimmed(bool interval, int base) const;
protected:
    int a;
    double m_x;
};
template <typename T, typename U = int> class QVarLengthArray
{
public:
    enum E { A, B };
    QVarLengthArray() {}
    const int *begin() const;
    const int *end() const;
    int toString();
    char currentTime() const;
    static void at(int value, QDBusInterface<int, int> receiver);
    bool insert(int fillChar) const;
    void fromUtf8(int text, My2 * type, int a, const char * base64) const;
private:
    bool m_x{};
};
static const QObject & use0(int text, const My2 & mask, int sender, QSignalBlocker * signal, int other)
{
    QSignalBlocker v30 = (QDBusInterface<int, int>()).scanLine(500);
    (QVarLengthArray<int, int>{}).toString();
    text = My2::upperBound(new QObject());

}
static double use1(int interval, My2 * a, int type)
{
    auto &&v33 = QVarLengthArray<int, int>{};
    bool v34 = true;

    for (auto v36 : *new QDBusInterface<int, int>()) {
        a = a->compare(type);
        auto v38 = (QSignalBlocker *)(static_cast<QDBusInterface<int, int> *>(nullptr));
    }
    (QDBusInterface<int, int>()).scanLine(type);
    return 0.5;
}
