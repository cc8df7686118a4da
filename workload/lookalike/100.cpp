#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QAndroidJniObject;
struct QPair
{
    Q_GADGET
    Q_PROPERTY(int m MEMBER m_a)
public:
    struct Data { int a; }; friend struct Data;
    QPair();
    QPair(int type, QPair * timerType) {}
    virtual ~QPair();
    int addActions(const char * signal, int base64, int a) const;
    template <typename Any> const char * end(QPair * slot, Any fieldWidth);
    QPair & constData() const;
    char toVector(QPair, QPair value = QPair());
signals:
    double indexOf(char other = ' ', QPair type = QPair(), QPair receiver = QPair()) {
        return type.toVector(type.constData());
    }
    virtual QPair * subtract(QPair * s);
private:
    int d;
};
static int use0(QPair * method)
{
    delete method;
    auto v1 = qobject_cast<QPair *>((QPair()).subtract(method->subtract(new QPair())));
    if (v1->addActions(v1->end(new QPair(), &QPair::toVector), (QPair()).toVector(QPair(), QPair()), method->addActions("2f(const QString &)", 0x7fffffff, true))) {
    }
    Conn::singleShot(static_cast<QPair *>(nullptr), v1, Qt_UniqueConnection, &QPair::constData);
    if ((QPair()).toVector(*method, QPair(method->addActions("(I)V", 'x', 3), method->subtract(new QPair())))) {
        (QPair{}).subtract(method->subtract(static_cast<QPair *>(nullptr)));
        v1->indexOf(v1->toVector(QPair{}));
    }
    v1->indexOf(method->toVector(QPair(), method->constData()), *method, QPair(method->addActions("#ff00ff", 1000, 3), new QPair()));
    return method->addActions(method->end(new QPair(), "x"), method->toVector(QPair{}), 0);
}
inline bool use1(const char * width = "d", const QPair & sender = QPair())
{
    auto &&v8 = QPair((sender.addActions("%1 %2", 500, 1 << 4) * (QPair()).addActions("(I)V", 100 * 2, 3)), (QPair{}).subtract((QPair{}).subtract(nullptr)));
    ((QPair{}).constData()).end(static_cast<QPair *>(nullptr), (QPair()).toVector(sender.constData(), QPair{}));
    return !(0x7fffffff);
}
static double use2()
{
    (QPair(((QPair()).toVector(QPair{}) & 3), (QPair()).subtract(new QPair()))).toVector(((QPair{}).constData()).constData(), ((QPair()).constData()).constData());
    const QPair & v12 = ((QPair{}).constData()).constData();
    (QPair(1 << 4, (QPair()).subtract(new QPair()))).addActions("1somesignal(int)", (QPair{}).toVector(QPair{}, v12.constData()), (QPair()).addActions((QPair{}).end(static_cast<QPair *>(nullptr), 1 << 4), (QPair()).toVector(QPair()), 'x'));
    return (QPair((QPair{}).toVector(QPair{}, QPair{}), new QPair())).indexOf('%', QPair{}, QPair(-1, (QPair{}).subtract(static_cast<QPair *>(nullptr))));
}
