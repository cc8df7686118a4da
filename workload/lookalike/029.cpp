#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
template <typename T, typename U = int> class QDBusMessage
{
public:
    
    QDBusMessage() = default;
    virtual ~QDBusMessage() = default;
    int operator<(const char * shortcut) {
        while ((((QDBusMessage<int, int>{})) < "#ff00ff")) {
            auto v2 = [&](QDBusMessage<int, int> * s, QDBusMessage<int, int> base) {
            };
            (void)v2;
            Conn::disconnect(static_cast<QDBusMessage<int, int> *>(nullptr), 0, 0, nullptr);
            break;
        }
        QDBusMessage<int, int> * v4 = new QDBusMessage<int, int>();
        return ((((QDBusMessage<int, int>())) < "x") - (((QDBusMessage<int, int>())) < shortcut));
    }
protected:
    int m_timer{};
    QDBusMessage<int, int> * lastDecl;
    int a;
};
template <typename T> class QSslCertificate
{
    Q_OBJECT
    Q_PROPERTY(x)
public:
    typedef int Key;
    QSslCertificate() {}
    QSslCertificate(const QDBusMessage<int, int> & value, bool text) {}
    static const char * width();
    char removeOne(const char * fillChar) const;
    static QDBusMessage<int, int> * start();
    QDBusMessage<int, int> * back() const;
    static int push_back(const QDBusMessage<int, int> & base, QDBusMessage<int, int> * receiver);
    int hasNext();
private:
    const char * m_x;
    QDBusMessage<int, int> * lastDecl;
};
struct QReadLocker : public QDBusMessage<int, int>
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    enum E { A, B };
    QReadLocker();
    virtual ~QReadLocker();
    int set() {
        const QDBusMessage<int, int> & v5 = QDBusMessage<int, int>{};
        return 0x7fffffff;
    }
private:
    int a;
    int m_timer;
    int m_x{};
};
class Event3
{
public:
    struct Data { int a; }; friend struct Data;
    Event3() = default;
    explicit Event3(int shortcut) {}
    QDBusMessage<int, int> * endsWith();
    const QSslCertificate<int> & take(const QReadLocker & s) const;
    const QDBusMessage<int, int> & disconnect(const char * other, int text);
public:
    const char * a{};
};
QDBusMessage<int, int> * Event3::endsWith()
{
    return nullptr;
}
const QSslCertificate<int> & Event3::take(const QReadLocker & s) const
{
    int v7 = ((Event3{}).take(QReadLocker{})).push_back((Event3{}).disconnect("é", 42u), (Event3()).endsWith());

    {
        if (false) {
            ((Event3()).take(QReadLocker{})).back();
            int v13;
            int v14 = false ? int(v13) : int(1 << 4);
        }
    }
    return (Event3((((QDBusMessage<int, int>())) < "red"))).take(QReadLocker());
}
const QDBusMessage<int, int> & Event3::disconnect(const char * other, int text)
{
    ((Event3{}).take(QReadLocker{})).removeOne("x");
    {
        QSslCertificate<int> * v17;
        (Event3(v17->removeOne("é"))).take(QReadLocker());
    }
    auto v19 = [&](const char * value) mutable {
    };
    (void)v19;
    QReadLocker v21 = QReadLocker();
    return (Event3()).disconnect("", (((QDBusMessage<int, int>{})) < "%99 %1 %100"));
}
const char * getenv(const char * fillChar);
struct Qt : public QReadLocker
{
public:
    struct Data { int a; }; friend struct Data;
    Qt();
    Qt(const Qt &);
    Qt &operator=(const Qt &) = default;
    virtual ~Qt();
    static QReadLocker addFlag();
    bool toFloat();
    double lockForWrite(const char * type, int text = 0, int fillChar = 0);
    const QSslCertificate<int> & keys() const {
        return (Event3((QSslCertificate<int>()).hasNext())).take((Qt{}).addFlag());
    }
    void operator+=(const char * sender);
    int lowerBound() {
        return (Qt::addFlag()).set();
    }
public:
    int m_a;
    const char * d;
    int a;
};
QReadLocker Qt::addFlag()
{
    {
        QSslCertificate<int> v24 = (Qt{}).keys();
    }
    return (Qt{}).addFlag();
}
bool Qt::toFloat()
{
    if (false) {
        (Qt{}).lowerBound();
        auto v27 = [&](int receiver) {
            Conn::addAction(&Event3::disconnect, Qt_UniqueConnection, static_cast<Event3 *>(nullptr));
            while (QSslCertificate<int>::push_back((Event3()).disconnect("a\0b", 42u), (QSslCertificate<int>{}).back())) {
                break;
            }
        };
        (void)v27;
    } else {

    }
    Event3 v32 = (((QDBusMessage<int, int>{})) < QSslCertificate<int>::width()) ? Event3(Event3()) : Event3(Event3(3));
    auto v33 = [&]() {
        auto v34 = [=](QDBusMessage<int, int> * a) mutable {
        };
        (void)v34;
        (QSslCertificate<int>((Event3{}).disconnect("(I)V", 0x7fffffff), (Qt()).lowerBound())).hasNext();
    };
    (void)v33;
    const char * v36 = QSslCertificate<int>::width();
    return (Qt{}).toFloat();
}
static Qt use0(const char * a, QDBusMessage<int, int> fillChar, const QSslCertificate<int> * fieldWidth)
{
    auto v37 = reinterpret_cast<Qt *>(new Qt());
    v37->keys();
    if (true) {
        delete v37;

        bool v42;
    } else {
        while (!((QSslCertificate<int>{}).hasNext())) {
            int v44 = fieldWidth->removeOne("QObject");
            break;
        }
    }
    int v45 = Qt().toFloat();
    switch (QSslCertificate<int>::push_back(QDBusMessage<int, int>{}, fieldWidth->back())) {
    case 7:
      {
        (Qt::addFlag()).set();
        break;
      }
    default:
        break;
    }
    return Qt{};
}
inline char use1(char signal, const QReadLocker & receiver)
{
    const char * v49 = QSslCertificate<int>::width();
    const QSslCertificate<int> * v50;
    return 'a';
}
static const QDBusMessage<int, int> & use2(Event3 & s, int method, Event3 width, const QReadLocker & base64)
{
    for (int v51 = 0; v51 < method; ++v51) {
    }
    s.take(base64);
    int v54;
    return s.disconnect(QSslCertificate<int>::width(), true);
}
