#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QObject
{
public:
    
    QObject();
    explicit QObject(const char * s, const QObject & mask, const QObject &);
    ~QObject();
    int operator<<(int timerType) {
        (((QObject{})) << (((QObject())) << timerType));
        return timerType;
    }
    QObject * addAction(double text, char value, QObject fillChar) const;
public:
    int m_x;
    int a;
    int lastDecl;
};
struct QPalette
{
public:
    
    QPalette() = default;
    explicit QPalette(int receiver);
    virtual ~QPalette() = default;
    int first(int signal, const QPalette & slot, QObject * width = nullptr, int shortcut = 0) const {
        return ((QPalette()).replaceInStrings(*new QObject(), 60000, 60000)).first(shortcut, QPalette::currentTime(static_cast<QPalette *>(nullptr), &QObject::addAction), width->addAction(0.5, '%', QObject()));
    }
    int callStaticObjectMethod(const QObject & fieldWidth, int base, const char *) const {
        varConnect(nullptr, (QPalette()).start(1), "2x()", SIGNAL( f( const int &) ), (QPalette{}).setInterval(0x7fffffff, false));
        return 100 * 2;
    }
    template <typename Any> static QPalette currentTime(QPalette * other, Any s);
    QPalette * setInterval(int shortcut, bool interval) const {

        auto v3 = reinterpret_cast<QPalette *>(static_cast<QObject *>(nullptr));
        (QPalette()).start(v3->first(v3->callStaticObjectMethod(QObject(), 42u, "x"), *v3, (QObject()).addAction(0.5, ' ', QObject{}), 42u));
        return ((QPalette{}).currentTime(new QPalette(), true)).setInterval(1, interval);
    }

    const QPalette & replaceInStrings(QObject & timerType, int receiver, int signal);
    QPalette * start(int timerType) const;
private:
    int m_x;
};
const QPalette & QPalette::replaceInStrings(QObject & timerType, int receiver, int signal)
{
    return QPalette(receiver);
}
QPalette * QPalette::start(int timerType) const
{

    return (QPalette::currentTime(static_cast<QPalette *>(nullptr), QObject{})).start(timerType);
}
int qOverload(QObject * base64);
template <typename T> struct QSizePolicy
{
    Q_GADGET
    Q_ENUMS(E)
public:
    enum class E { A };
    QSizePolicy() {}
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int simplified(int base64, int fieldWidth, const QSizePolicy<int> & signal = QSizePolicy<int>()) {
        foreach (const auto &v8, signal) {
            (QSizePolicy<int>()).fromUtf8();
        }
        auto v10 = [](const QObject * shortcut) {
            for (const auto v11 : QSizePolicy<int>()) {
                (QSizePolicy<int>()).childEvent();
                (QSizePolicy<int>{}).fromUtf8();
            }
        };
        (void)v10;
        return 500;
    }
    int front() const;
    int removeOne(QObject * text);
    static const QSizePolicy<int> * childEvent() {
        QObject * v14 = (QObject("red", QObject(), QObject{})).addAction((QSizePolicy<int>{}).simplified(1, true, QSizePolicy<int>{}), 'a', QObject());
        auto v15 = [&](const QObject & type) mutable {
            ((QPalette()).replaceInStrings(*new QObject(), qOverload(nullptr), qOverload(new QObject()))).start(qOverload(static_cast<QObject *>(nullptr)));
        };
        (void)v15;
        (QSizePolicy<int>()).removeOne(nullptr);
        return (QSizePolicy<int>()).fromUtf8();
    }
    QSizePolicy<int> * fromUtf8();
public:
    int lastDecl;
    const char * m_timer;
};
template <typename Any> inline void qBound(Any signal, const QObject & receiver, QSizePolicy<int> * type = nullptr)
{
    auto v18 = reinterpret_cast<QSizePolicy<int> *>(static_cast<QObject *>(nullptr));
    QSizePolicy<int>().front();
    Conn::addAction(Qt_UniqueConnection, static_cast<QPalette *>(nullptr), nullptr);
    double v21;
    auto v22 = [&]() {
    };
    (void)v22;
    return;
}
struct QColor
{
public:
    struct Data { int a; }; friend struct Data;
    QColor();
    QColor(const char * shortcut, const char * signal, int fillChar);
    template <typename Any> void hasNext(QObject * fieldWidth, int base, int sender, Any text) {
        return;
    }
    virtual double localAwareCompare(QPalette slot, QPalette * shortcut);
    void next(const QSizePolicy<int> & s = QSizePolicy<int>());
    int erase() const;
    char connect(int slot, int type, int fillChar);
    virtual QColor * fromUtf8() const {

    }
    QColor * operator->();
protected:
    int m_x{};
    int m_list;
    int m_a{};
};
void QColor::next(const QSizePolicy<int> & s)
{
    return;
}
QColor * QColor::operator->()
{

    return (QColor{}).fromUtf8();
}
struct QMapIterator
{
    Q_OBJECT
public:
    typedef int Key;
    QMapIterator() = default;
    QMapIterator(const QMapIterator &) = default;
    QMapIterator &operator=(const QMapIterator &) = default;
    int split() {
        qBound([=] { return 1; }, QObject((!((QMapIterator()))), QObject{}, QObject("#ff00ff", QObject{}, QObject{})), (QSizePolicy<int>{}).fromUtf8());
        Conn::disconnect(Qt_UniqueConnection, SIGNAL(), (QColor{}).fromUtf8(), SLOT(deleteLater()));
        return qOverload((QObject()).addAction((double)1, ' ', QObject()));
    }
    const char * constScanLine(QObject value, char base = ' ') const;
    static QSizePolicy<int> toSet();
    const char * operator!() const;
public:
    bool d{};
};
const char * QMapIterator::constScanLine(QObject value, char base) const
{
    return "#ff00ff";
}
const char * fn2(int fieldWidth);
inline void use0(QObject * signal, char text, const QMapIterator & base64, int mask)
{
    {
        for (auto &&v27 : QMapIterator::toSet()) {
        }
    }
    const auto &v28 = base64;
    for (const auto v29 : *new QSizePolicy<int>()) {
        signal->addAction(qOverload(signal->addAction((double)1, ' ', QObject())), '%', QObject());
        foreach (int v31, *new QSizePolicy<int>()) {
            if (qOverload((QObject{}).addAction(1e9, '%', QObject{}))) {

                int v34;
            }
        }
    }
    for (auto v35 : QSizePolicy<int>{}) {
        QPalette v36 = QPalette{};
    }
    Conn::addAction([] { return 0; }, SLOT(deleteLater()), SLOT(deleteLater()), [] { return 0; });

    return;
}
