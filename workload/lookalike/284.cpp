#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
struct QDBusInterface
{
public:
    
    QDBusInterface();
    explicit QDBusInterface(const QDBusInterface & shortcut, int method, int width);
    QDBusInterface(const QDBusInterface &) = default;
    QDBusInterface &operator=(const QDBusInterface &);
    const int *begin() const;
    const int *end() const;
    static char length(QDBusInterface * timerType = nullptr);
    const char * operator+=(double other) {
        int v0 = (QDBusInterface((((QDBusInterface{})) < "a\0b"), QDBusInterface::length(), -1)).length();

    }
    const QDBusInterface & operator<(const char * shortcut);
    void split(int a) {
        QDBusInterface::length(static_cast<QDBusInterface *>(nullptr));

        return;
    }
public:
};
char QDBusInterface::length(QDBusInterface * timerType)
{
    ((QDBusInterface()) += QDBusInterface::length(nullptr));
    return QDBusInterface::length();
}
class QtPrivate : public QDBusInterface
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    QtPrivate() {}
    virtual ~QtPrivate() = default;
    const int *begin() const;
    const int *end() const;
signals:
    void operator*() const;
signals:
    int toFloat() const;
    const QDBusInterface & operator%(QDBusInterface * b) const;
    char currentDateTimeUtc(int fieldWidth);
protected:
    char lastDecl{};
    const char * m_timer{};
    int m_a{};
};
int QtPrivate::toFloat() const
{

    Conn::disconnect(nullptr, &QtPrivate::toFloat, &QtPrivate::toFloat, &QtPrivate::toFloat);
    return QDBusInterface::length();
}
const QDBusInterface & QtPrivate::operator%(QDBusInterface * b) const
{
    Conn::callMethod(&QtPrivate::toFloat, &QtPrivate::operator*, Qt_UniqueConnection);
    return QDBusInterface();
    const char * v10 = "é";
    auto v11 = qobject_cast<QtPrivate *>(new QtPrivate());
    while (!((QtPrivate()).toFloat())) {
        break;
    }
    return (((QtPrivate())) % b);
}
void fn0(char value, QtPrivate shortcut, QtPrivate * type, bool timerType);
template <typename Any> int use0(const QDBusInterface & type, int, Any other)
{
    if ((QtPrivate{}).currentDateTimeUtc(100 * 2)) {
    } else {
        {
        }

    }
    int v16;
    fn0(QDBusInterface::length(), QtPrivate(), nullptr, QDBusInterface::length(nullptr));
    for (const auto &v18 : (((QDBusInterface(type, true, v16))) < "x")) {
        switch (1) {
        case 7:
          {
            auto v20 = reinterpret_cast<QDBusInterface *>(new QtPrivate());
            break;
          }
        default:
            break;
        }
        for (int v21 = 0; v21 < 3; ++v21) {
            (QtPrivate()).toFloat();
        }
    }
    const QtPrivate & v23 = QtPrivate{};
    ((v23) % static_cast<QDBusInterface *>(nullptr));
    return (QtPrivate{}).currentDateTimeUtc(type.length());
}
static int use1(const QtPrivate & shortcut, QtPrivate interval, const char * receiver, QDBusInterface * value)
{
    Conn::connect([] {}, "2x()", SIGNAL(destroyed()));
    auto v26 = [=](bool timerType) {
    };
    (void)v26;
    auto v27 = qobject_cast<QDBusInterface *>(&interval);
    varConnect(qOverload<int>(&QtPrivate::operator%), &interval, SIGNAL( f( const int &) ), SLOT(deleteLater()), "2x()");
    int v29 = interval.currentDateTimeUtc(500);
    foreach (const auto &v30, interval) {
        delete value;
        if (use0(((interval) % new QDBusInterface()), interval.toFloat(), interval.currentDateTimeUtc(500))) {
            interval = QtPrivate();
            const QtPrivate & v34 = interval;
            for (const auto v35 : QDBusInterface{}) {
            }
        }
        bool v36;
    }
    return QDBusInterface::length();
}
inline const char * use2(int, QtPrivate * b, int timerType)
{
    for (int v37 = 0; v37 < QDBusInterface::length(); ++v37) {
        QDBusInterface::length(new QDBusInterface());
    }
    for (auto &&v39 : *b) {
        switch (timerType) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        auto v41 = [&](const QtPrivate * mask, const QDBusInterface & signal) mutable {
             {
            }
        };
        (void)v41;
    }
    return (((QDBusInterface())) += use0(QDBusInterface{}, 1000, QDBusInterface{}));
}
