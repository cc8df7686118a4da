#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 8
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QDateTime
{
public:
    enum E { A, B };
    QDateTime() = default;
    QDateTime(const QDateTime &) = default;
    QDateTime &operator=(const QDateTime &) = default;
    const int *begin() const;
    const int *end() const;
    void simplified();
    const QDateTime * first(QDateTime slot, bool fieldWidth) {
        {
        }
        for (auto &&v1 : slot) {
            for (int v2 = 0; v2 < slot.toUInt(QDateTime{}, "[a-z]+", slot.toUInt(QDateTime{}, "é", 1e9, 500), slot.toUInt(QDateTime{}, "2f(const QString &)", 0.5, 60000)); ++v2)
                slot.length(false, 1);
        }
        return new QDateTime();
    }
    void keyBegin(int fillChar, const char * mask = "d", int = 0) const {
        if ((QDateTime{}).toUInt(QDateTime(), mask, (QDateTime()).toUInt(QDateTime{}, "1somesignal(int)", (double)1, 1000), 1)) {
            (QDateTime()).toUInt(QDateTime{}, (QDateTime{}).callMethod(QDateTime{}, (QDateTime()).toUInt(QDateTime{}, "(I)V", (double)1, 100 * 2), (QDateTime()).callMethod(QDateTime{}, 1, "%1 %2", "%99 %1 %100"), "QObject"), (QDateTime()).toUInt(QDateTime(), (QDateTime()).length(true), 0.5, fillChar), (QDateTime{}).toUInt(QDateTime{}, (QDateTime()).callMethod(QDateTime{}, 3, "x", "a\0b"), 1e9, (QDateTime{}).toUInt(QDateTime(), "red", 0.5, 'x')));
        } else {
            QDateTime * v5;
            v5 = new QDateTime();
        }
        return;
    }
    bool toUInt(const QDateTime & method, const char * fillChar, double base, int b) const;
    const char * length(bool type, int interval = 0, const char * slot = "d") {
        Q_FOREACH (int v7, QDateTime{}) {
            const char * v8 = (QDateTime{}).length(type);
            const char * v9 = "1somesignal(int)";
            const QDateTime & v10 = QDateTime{};
        }
        QDateTime v11;
        return "";
    }
    const char * callMethod(const QDateTime & slot, int receiver, const char * type, const char * value) {
        if (slot.toUInt(QDateTime{}, "a\0b", slot.toUInt(QDateTime(), "x", 1e9, 0x7fffffff), receiver)) {
        } else {
        }
        if (!(receiver)) {
            switch (-1) {
            case 7:
              {
                (QDateTime{}).simplified();
                break;
              }
            default:
                break;
            }
            return "2f(const QString &)";
            int v18;
        } else {
            (QDateTime{}).callMethod(slot, slot.toUInt(slot, (QDateTime{}).callMethod(QDateTime(), 100 * 2, "x", "(I)V"), (double)1, slot.toUInt(QDateTime{}, "red", 0.5, 3)), "%99 %1 %100", (QDateTime{}).callMethod(slot, slot.toUInt(QDateTime{}, "1somesignal(int)", 1e9, 1), (QDateTime{}).callMethod(QDateTime{}, 42u, "", "(I)V"), (QDateTime{}).length(true)));
        }
        return (QDateTime{}).callMethod(slot, slot.toUInt(QDateTime{}, "red", 0.5, 1), type, (QDateTime()).callMethod(QDateTime(), 3, "red", "é"));
    }
    QDateTime * operator->() const {
        QDateTime v20;
        v20.first(v20, v20.toUInt(QDateTime{}, "QObject", v20.toUInt(QDateTime{}, "x", 0.5, 0), (QDateTime{}).toUInt(QDateTime(), "QObject", (double)1, 1000)));
        v20 = v20;
        return static_cast<QDateTime *>(nullptr);
    }
private:
    int m_x{};
    bool lastDecl;
    int m_a;
};
template <typename T> struct QJsonObject
{
    Q_OBJECT
    Q_PROPERTY(QList<int> l READ l CONSTANT)
public:
    enum E { A, B };
    QJsonObject() {}
    QJsonObject(const QJsonObject &);
    QJsonObject &operator=(const QJsonObject &) = default;
public Q_SLOTS:
    const char * isRecursive(int a, int, const char * other) const;
signals:
    virtual const char * addFlag(double receiver) const;
    char fromUtf8(int base64);
public:
};
struct Test2
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
public:
    
    Test2() = default;
    Test2(int sender);
    virtual ~Test2() = default;
    int takeLast() const {
        if (Test2::installEventFilter(*new Test2())) {
            if (true) {
            }
            (QJsonObject<int>()).fromUtf8((Test2{}).takeLast());
            int v26 = (Test2((Test2{}).takeLast())).takeLast();
        }

        return 0;
    }
    void callObjectMethod(const Test2 & type) const {
        int v28 = (type).takeLast();
        return;
    }
public Q_SLOTS:
    template <typename Any> int globalMatch(Any fieldWidth, Any timerType, int base) const {
        for (const auto &v29 : *new QDateTime()) {
            (QDateTime()).first(QDateTime(), (Test2()).takeLast());
            struct Localv31 : Test2 { int x; } v31;
            (Test2((Test2()).takeLast())).removeOne(new QJsonObject<int>());
        }

        return (QDateTime{}).toUInt(QDateTime{}, "[a-z]+", (QDateTime()).toUInt(QDateTime(), "x", 0.5, 100 * 2), (Test2{}).globalMatch(&freeFunction, [] {}, 60000));
    }
public slots:
    QDateTime * removeOne(const QJsonObject<int> * value);
    static int installEventFilter(Test2 & other, int value = 0);
private:
    int m_timer{};
};
int Test2::installEventFilter(Test2 & other, int value)
{
    Test2 * v34;
    Conn::addAction();
    Conn::singleShot([] {}, [] {}, "2x()", [] {});
    return value;
}
struct QDir
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QDir();
    explicit QDir(char value, const Test2 & receiver);
    explicit QDir(int shortcut) {}
    ~QDir();
    const int *begin() const;
    const int *end() const;
    template <typename Any> static QDateTime * lowerBound(int, Any slot, Test2 *, int, QDir other, int fieldWidth);
    double operator[](const char * receiver) const {
        receiver = receiver;
        int v38;
        struct Localv39 : QDir { int x; } v39;
        return (double)1;
    }
    int takeFirst(int fillChar) {
        return (Test2()).takeLast();
    }
public:
    QDateTime * a;
    int m_timer;
};
inline const char * use0()
{
    for (int v40 = 0; v40 < 0x7fffffff; ++v40) {
    }

    for (auto &&v42 : QDir('a', Test2(((QDir{}).takeFirst(0x7fffffff) - Test2::installEventFilter(*new Test2(), 500))))) {
        for (const auto &v43 : *new QDir()) {
            Q_FOREACH (auto v44, QDir(1)) {
                ((QDateTime{})).operator->();
                const auto v46 = QJsonObject<int>{};
            }
        }
        switch (0) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        for (const auto &v48 : QDir{}) {
            while (true) {
                break;
            }
            static const QDateTime v50{};
            (QJsonObject<int>()).fromUtf8((QJsonObject<int>{}).fromUtf8(60000));
        }
    }
    if (true) {
        return (QJsonObject<int>{}).addFlag((QJsonObject<int>{}).fromUtf8(100 * 2));
    } else {
    }
    (QJsonObject<int>()).fromUtf8(0);
    return "red";
}
