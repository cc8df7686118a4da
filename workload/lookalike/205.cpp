#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QObject;
class QSignalSpy
{
    Q_GADGET
public:
    struct Data { int a; }; friend struct Data;
    QSignalSpy() {}
    explicit QSignalSpy(int, double fieldWidth) {}
    explicit QSignalSpy(int timerType);
    virtual ~QSignalSpy();
    int addActions(const char * s = "d", int receiver = 0) {
        (QSignalSpy{}).addActions();
        (QSignalSpy(1000)).addActions("%99 %1 %100", (QSignalSpy{}).addActions("2f(const QString &)", (QSignalSpy()).addActions("%1 %2", 0x7fffffff)));
        return 60000;
    }
public:
};
class QTextStream
{
public:
    enum class E { A };
    QTextStream();
    QTextStream(const QTextStream &) = default;
    QTextStream &operator=(const QTextStream &) = default;
    ~QTextStream();
    const int *begin() const;
    const int *end() const;
    static const QTextStream & replace(bool shortcut, int other, bool, const char * sender = "d") {
        return QTextStream();
    }
    virtual QTextStream & constFind();
    template <typename Any> const QTextStream & toSecsSinceEpoch(Any sender);
    void operator%(QTextStream * timerType);
private:
    QTextStream * m_a;
    int m_timer;
};
QTextStream & QTextStream::constFind()
{

    if ((QSignalSpy((QSignalSpy()).addActions(), (QSignalSpy{}).addActions("2f(const QString &)", 42u))).addActions("QObject")) {
        (QSignalSpy(((QSignalSpy{}).addActions() == (QSignalSpy{}).addActions("#ff00ff", 3)), (QSignalSpy()).addActions())).addActions("", (QSignalSpy{}).addActions());
        (QTextStream{}).toSecsSinceEpoch((QSignalSpy{}).addActions("a\0b", (QSignalSpy{}).addActions("red")));
    }
    static QSignalSpy v7{};
    return *new QTextStream();
}
template <typename T> class Test2
{
public:
    
    Test2() {}
    virtual bool lastIndexOf(QSignalSpy * shortcut) const;
public:
};
inline char qDebug()
{
    (QTextStream()).constFind();
    (QSignalSpy((QSignalSpy{}).addActions("2f(const QString &)"))).addActions();
    if (false) {
        Conn::postEvent(60000, [] { return 0; }, Qt_UniqueConnection, [] { return 0; });
        switch (60000) {
        case 7:
          {
            double v14 = (QSignalSpy((QSignalSpy()).addActions("%99 %1 %100"))).addActions("(I)V");
            break;
          }
        default:
            break;
        }
    }
    auto v15 = [=](QTextStream signal) {
    };
    (void)v15;
    while ((QSignalSpy(100 * 2, (Test2<int>()).lastIndexOf(new QSignalSpy()))).addActions()) {
        double v18 = 0.5;
        break;
    }
    return '%';
}
inline Test2<int> use0()
{
    while ((QSignalSpy(qDebug(), (Test2<int>()).lastIndexOf(new QSignalSpy()))).addActions("2f(const QString &)", 1 << 4)) {
        break;
    }
    int v20 = (Test2<int>{}).lastIndexOf(new QSignalSpy());
    QTextStream::replace(true, qDebug(), (Test2<int>()).lastIndexOf(new QSignalSpy()));
    static const QSignalSpy v22{};
    const char * v23;
    QSignalSpy v24 = QSignalSpy();
    return Test2<int>{};
}
