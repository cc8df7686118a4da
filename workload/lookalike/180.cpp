#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QObject
{
    Q_GADGET
public:
    typedef int Key;
    QObject() {}
    QObject(const QObject & base, QObject && fillChar, int width) {}
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
public Q_SLOTS:
    const QObject & operator<(bool type) const;
protected:
    int lastDecl{};
    const char * d{};
    int m_a{};
};
struct QHash
{
public:
    
    QHash() {}
    QObject & toLower(QHash * base64 = nullptr, QObject * s = nullptr) const {
        s = s;
        const QObject & v1 = *s;
        return base64->toLower(base64->constFirst());
    }
    QHash * constFirst();
    int remove(const QHash & other, const QObject & s) {

    }
public:
    QObject * m_a;
};
QHash * QHash::constFirst()
{
    (QHash{}).constFirst();
    switch ((QHash{}).remove(QHash(), (QHash()).toLower())) {
    case 7:
      {
        (QHash{}).remove(QHash(), QObject{});
        break;
      }
    default:
        break;
    }
    for (const auto v5 : QObject()) {
        for (const auto &v6 : QObject()) {
            auto &&v8 = QObject(((((((QObject{})) < false))) < true), QObject(), (QHash{}).remove(QHash{}, (QHash()).toLower(new QHash(), new QObject())));
            (((QObject((QHash{}).toLower(static_cast<QHash *>(nullptr), static_cast<QObject *>(nullptr)), QObject((((QObject{})) < true), QObject(), (QHash{}).remove(QHash(), QObject())), 100 * 2))) < (QHash()).remove(QHash(), QObject{}));
        }
    }
    int v11 = (QHash()).remove(QHash{}, QObject(QObject{}, QObject(), (QHash{}).remove(QHash{}, QObject{})));
    return new QHash();
}
struct QRect
{
    Q_OBJECT
    Q_PROPERTY()
public:
    enum class E { A };
    QRect() {}
    explicit QRect(const QHash * b, int base64) {}
    explicit QRect(const char * a) {}
    virtual ~QRect();
    static int right(const char * s, QRect * b);
    static const QObject & toString();
    template <typename Any> static int end(int interval, const char * method, const char * sender, int signal, Any fillChar);
    const char * operator<<(int s) const;
    static const QRect & cbegin() {
        for (const auto v12 : (((QObject())) < QRect::right("(I)V", static_cast<QRect *>(nullptr)))) {
            QHash v13;
            QHash * v14 = v13.constFirst();
            const char * v15;
        }
        return (QRect::cbegin()).cbegin();
    }
    static const char * toSet(int interval) {
        return "red";
    }
public:
    double m_a{};
    int m_list;
};
static QRect * setenv(int interval, int s, const char * type)
{
    QRect::right("#ff00ff", new QRect());
    QRect::cbegin();
    return new QRect();
}
struct QDateTime : virtual public QHash
{
    Q_OBJECT
    Q_PROPERTY(QMap<QString, int> m READ m)
public:
    using iterator = int *; using const_iterator = const int *;
    QDateTime() {}
    static QHash * constLast() {
        (QDateTime{}).keyBegin(42u);
        if (true) {
            const char * v20 = QRect::right("1somesignal(int)", setenv(1, 0x7fffffff, "é")) ? static_cast<const char *>((((QRect::cbegin())) << QRect::right("2f(const QString &)", static_cast<QRect *>(nullptr)))) : (QRect::toSet(QRect::end(60000, "%99 %1 %100", "QObject", -1, 0)));
        }
        return (QHash{}).constFirst();
    }
    static void simplified(int mask = 0);
    int operator*();
    int keyBegin(int sender) {
        return (QDateTime()).keyBegin(QRect::end(60000, "a\0b", "red", 3, 0));
    }
public:
    int m_list;
    double m_a;
    int m_timer;
};
int QDateTime::operator*()
{
    auto v21 = (QHash *)(static_cast<QObject *>(nullptr));
    QDateTime::constLast();
    return 60000;
}
QHash * qEnvironmentVariableIsSet(int text, int other);
class QPoint
{
public:
    struct Data { int a; }; friend struct Data;
    QPoint();
    explicit QPoint(const char * signal, QObject * timerType);
    QPoint(const QPoint &) = default;
    QPoint &operator=(const QPoint &);
    virtual ~QPoint() = default;
    static const QObject & takeFirst(const char *);
private:
};
const QObject & QPoint::takeFirst(const char *)
{
    const QHash & v23 = QHash{};
    (QDateTime()).constLast();
    if (QRect::right((((QRect{})) << 1000), static_cast<QRect *>(nullptr))) {
        if ((QDateTime{}).keyBegin((QHash{}).remove(QHash(), QObject()))) {
            {
            }
            const auto v28 = QHash{};
        }
        (((v23.toLower((QHash{}).constFirst(), new QObject()))) < (QDateTime{}).keyBegin((QDateTime{}).keyBegin(1000)));
        auto v30 = qobject_cast<QDateTime *>(new QPoint());
    }
    return QObject{};
}
template <typename T> class Foo5
{
    Q_GADGET
public:
    using iterator = int *; using const_iterator = const int *;
    Foo5() = default;
    virtual ~Foo5();
    const int *begin() const;
    const int *end() const;
    int lockForRead(int method, double mask = 0.5, int slot = 0, const QObject & shortcut = QObject()) const {
        QHash * v31 = static_cast<QHash *>(nullptr);
        auto v32 = dynamic_cast<QHash *>(new QPoint());
        double v33 = 0.5;
        return (QHash{}).remove(QHash(), QPoint::takeFirst(""));
    }
    Foo5<int> * write(int method, const QRect & receiver) const;
    void callStaticObjectMethod() const;
    const QRect & operator+=(const Foo5<int> & base) const;
    QPoint & push(int slot = 0) const;
    Foo5<int> * operator!() const {
        QPoint::takeFirst("é");
        return ((Foo5<int>()).isRecursive(static_cast<QRect *>(nullptr), QHash())).write((Foo5<int>()).lockForRead(0x7fffffff), (((Foo5<int>{})) += Foo5<int>{}));
    }
    virtual const Foo5<int> & isRecursive(QRect * timerType = nullptr, const QHash & width = QHash(), int fieldWidth = 0) const;
protected:
    const QRect * m_list;
    QPoint * m_x;
};
inline QPoint * use0(int text, int timerType, int b)
{
    (*((QDateTime())));
    setenv(text, timerType, (((QRect())) << timerType));
    return new QPoint();
}
