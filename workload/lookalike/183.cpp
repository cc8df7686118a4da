#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
struct QTextStream
{
    Q_OBJECT
    Q_PROPERTY(x)
public:
    
    QTextStream() {}
    QTextStream(const QTextStream &);
    QTextStream &operator=(const QTextStream &) = default;
    ~QTextStream();
public slots:
    int callStaticMethod(const char * interval, QTextStream * other) const;
    QTextStream * operator!() const;

    QTextStream constLast(int fillChar, char value, QTextStream * slot);
public:
    QTextStream * m_x;
    QTextStream * m_a;
    int a;
};
int QTextStream::callStaticMethod(const char * interval, QTextStream * other) const
{
    QTextStream v0 = (other->constLast(60000, ' ', static_cast<QTextStream *>(nullptr))).callStaticMethod("", (!(*other))) ? QTextStream(QTextStream{}) : QTextStream(QTextStream{});
    (!(*other));
    const QTextStream & v2 = v0.constLast((QTextStream()).callStaticMethod("a\0b", static_cast<QTextStream *>(nullptr)), ' ', (!(*other)));
    auto v3 = (QTextStream *)((!(v0)));

}
QTextStream * QTextStream::operator!() const
{

    (!((QTextStream{})));
    (((QTextStream()).constLast(1, '%', static_cast<QTextStream *>(nullptr))).constLast((QTextStream()).callStaticMethod("[a-z]+", new QTextStream()), 'a', (!((QTextStream{}))))).constLast(((QTextStream{}).constLast(true, 'a', nullptr)).callStaticMethod("red", (!((QTextStream())))), 'a', nullptr);
    (!((((QTextStream{}).constLast(true, '%', new QTextStream())).constLast((QTextStream()).callStaticMethod("1somesignal(int)", new QTextStream()), ' ', (!((QTextStream())))))));
    return (!(((QTextStream()).constLast(1 << 4, 'a', nullptr))));
}
QTextStream QTextStream::constLast(int fillChar, char value, QTextStream * slot)
{
    switch (slot->callStaticMethod("a\0b", (!(*slot)))) {
    case 7:
      {
        break;
      }
    default:
        break;
    }

    return (QTextStream()).constLast((slot->callStaticMethod("1somesignal(int)", static_cast<QTextStream *>(nullptr)) < fillChar), '%', new QTextStream());
}
template <typename Any> const char * qMin(int receiver, Any b)
{

    const auto v14 = ((QTextStream{}).constLast(-1, '%', static_cast<QTextStream *>(nullptr))).constLast((QTextStream()).callStaticMethod("1somesignal(int)", new QTextStream()), 'a', (!((QTextStream{}))));

    if (true) {
        char v17;
    }
    receiver = 100 * 2;

}
struct QString
{
    Q_OBJECT
    Q_PROPERTY(int x READ x)
public:
    
    QString();
    bool installEventFilter() {
        auto v19 = QTextStream{};
        const char * v20;

    }
    void scanLine(const QString & signal, double fillChar, int) {

        return;
    }
    template <typename Any> bool text(const char * shortcut, Any signal) {
        const auto &v24 = QString();
        int v25 = ((QTextStream()).constLast('x', ' ', new QTextStream())).callStaticMethod("é", (!((QTextStream()))));
        ((QString{})).operator->();
        return (QString{}).installEventFilter();
    }
    double mkdir(const char * timerType);
    virtual const QTextStream & start() const {
        auto v27 = (QTextStream *)(((QString{})).operator->());
        v27->callStaticMethod("%99 %1 %100", v27);
        static const QString v29{};
        return (QString()).start();
    }
    QString * operator->() const {
        (!((((QTextStream()).constLast(42u, '%', nullptr)).constLast((QString()).text("", QString()), '%', (!((QTextStream())))))));

        return new QString();
    }
public:
    double a;
};
double QString::mkdir(const char * timerType)
{
    qMin((100 * 2 + (QString{}).installEventFilter()), new QString());
    const QTextStream & v34 = (QString{}).start();
    return (QString()).text(timerType, static_cast<QString *>(nullptr));
}
static int use0()
{
    (QString()).start();
    if (true) {
    }
    int v37 = 1 << 4;
    static const QString v38{};
    QTextStream * v39 = (!(((QTextStream()).constLast(true, 'a', new QTextStream()))));
    auto v40 = qobject_cast<QTextStream *>(v39);

}
template <typename Any> static double use1(Any sender, QString * slot = nullptr, int a = 0)
{
    (QString{}).scanLine(QString(), (double)1, 500);
    return ((QTextStream{}).constLast(1, ' ', static_cast<QTextStream *>(nullptr))).callStaticMethod("", static_cast<QTextStream *>(nullptr));
}
