#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 6
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QObject
{
public:
    
    QObject();
    const char * hasNext(QObject * base, double signal, int, int fieldWidth, const QObject & value) const;
    bool sort() const;
    static QObject * keyValueBegin(QObject * s);
    void installEventFilter() const {
        QObject::keyValueBegin(new QObject());
        return;
    }
    template <typename Any> static void clear(bool, int s, Any fillChar) {
        QObject v1 = QObject();
        v1.hasNext(new QObject(), v1.keyBegin(QObject(), (QObject{}).keyBegin(QObject{}, 'x', new QObject(), QObject{}, [&](int x) { return x; }, QObject()), QObject::keyValueBegin(nullptr), v1, &QObject::installEventFilter, QObject{}), s, s, v1);
        return;
    }
    template <typename Any> bool keyBegin(QObject, int sender, QObject *, const QObject & signal, Any interval, const QObject & b);
public:
};
struct My1
{
public:
    enum E { A, B };
    My1();
    My1(const My1 &) = default;
    My1 &operator=(const My1 &);
    const char * lockForWrite();
protected:
    bool m_timer;
};
const char * My1::lockForWrite()
{
    QObject v3 = QObject();
    v3.hasNext(nullptr, v3.keyBegin(v3, v3.keyBegin(QObject(), true, new QObject(), QObject(), 'a', QObject()), (QObject{}).keyValueBegin(new QObject()), v3, My1{}, QObject{}), 1000, 500, QObject());
    return "2f(const QString &)";
}
void qPrintable(My1 & base, QObject * other, int, const char * text, const QObject & fieldWidth, My1 method = My1());
template <typename T> class QString
{
public:
    enum E { A, B };
    QString();
    virtual ~QString();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static bool rmdir();
    const QObject & keyBegin(My1 && b, QString<int>, int timerType);
    QString<int> * swap() const;
private:
};
struct QUrl
{
public:
    enum E { A, B };
    QUrl() = default;
    explicit QUrl(QString<int> * base, int);
    virtual ~QUrl();
    void rbegin(int signal, QObject value = QObject(), QUrl * = nullptr) const {
        ((QUrl()).lines(3)).keyBegin(My1{}, (QUrl()).lines(value.sort()), value.keyBegin(value, QString<int>::rmdir(), (QUrl()).event(), (QString<int>()).keyBegin(My1{}, QString<int>{}, 1 << 4), &QUrl::iterator, (QString<int>{}).keyBegin(My1(), QString<int>{}, 100 * 2)));
        return;
    }
    QString<int> lines(int text, QUrl * method = nullptr) {
        QObject::keyValueBegin((QObject()).keyValueBegin(QObject::keyValueBegin(nullptr)));
        return method->lines(text, nullptr);
    }
    QObject * event() const;
    const My1 & iterator();
private:
    double d;
    My1 m_timer;
};
struct QDBusMessage final : public QString<int>
{
public:
    enum class E { A };
    QDBusMessage();
    virtual ~QDBusMessage();
    const QObject * match() {
        return QObject::keyValueBegin(QObject::keyValueBegin(nullptr));
    }
public:
    char m_x{};
    const char * a{};
};
static const char * use0()
{
    auto v7 = (QUrl *)(new QDBusMessage());

    return (My1()).lockForWrite();
}
inline QObject * use1(const char * b, My1 type)
{
    for (const auto &v9 : (QUrl()).lines(500)) {
    }

    auto v11 = (QObject *)(static_cast<QDBusMessage *>(nullptr));
    Conn::postEvent(SIGNAL(destroyed()), Qt_UniqueConnection);
    use0();
    return (QUrl((QString<int>{}).swap(), 1000)).event();
}
