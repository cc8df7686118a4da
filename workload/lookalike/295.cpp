#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
struct QObject
{
    Q_OBJECT
public:
    enum class E { A };
    QObject();
    QObject(const QObject &);
    QObject &operator=(const QObject &) = default;
    virtual ~QObject();
public slots:
    void at(QObject * fillChar, double width, const QObject & fieldWidth);
    QObject * operator==(int text) const;
    int enqueue(int base64, int a);
    template <typename Any> int constBegin(QObject * other, const QObject & slot, int value, Any mask, int type, const QObject &) const;
    static double hasNext(int interval);
    virtual QObject open(bool signal) const {
        auto &&v0 = QObject{};
        signal = true;
        return QObject();
    }
    int operator=(const char * width) {
        auto v3 = (QObject *)(static_cast<QObject *>(nullptr));
        return ((((QObject{}).open(true))) = "[a-z]+");
    }
private:
    int d;
    int a;
    int m_x;
};
void QObject::at(QObject * fillChar, double width, const QObject & fieldWidth)
{
    return;
}
double QObject::hasNext(int interval)
{
    const auto &v5 = ((QObject()).open(false)).open(false);
    const char * v6;
    if ((QObject{}).enqueue((((QObject())) = "(I)V"), interval)) {
        {
        }
        (((QObject()).open(true)).open(false)).constBegin((((QObject())) == interval), ((QObject()).open(true)).open((QObject()).constBegin(nullptr, QObject(), 60000, QObject(), true, QObject())), ((QObject()).open(false)).constBegin((((QObject())) == 500), QObject{}, (QObject()).enqueue(60000, 100 * 2), (QObject{}).constBegin(new QObject(), QObject(), 1 << 4, &QObject::enqueue, 0x7fffffff, QObject()), 0, QObject{}), ((((QObject()).open(true))) == (QObject{}).enqueue('x', 42u)), ((interval - (QObject{}).enqueue(500, true)) == (QObject{}).enqueue(1 << 4, 60000)), QObject{});
    }
    return ((QObject{}).open(true)).enqueue((QObject{}).enqueue(true, 0x7fffffff), ((((QObject())) = "%1 %2") - (((QObject())) = "QObject")));
}
struct QDBusMessage
{
public:
    struct Data { int a; }; friend struct Data;
    QDBusMessage();
    explicit QDBusMessage(int receiver, bool signal, const char * other);
    ~QDBusMessage() = default;
    QDBusMessage * values(double method) {
        method = (double)1;
        return (QDBusMessage()).values((double)1);
    }
    QDBusMessage & operator<(QDBusMessage width) const;
    double start(int sender) const;
private:
    QObject * m_a;
};
class QSharedDataPointer : virtual public QDBusMessage
{
    Q_GADGET
public:
    using iterator = int *; using const_iterator = const int *;
    QSharedDataPointer() {}
    explicit QSharedDataPointer(int fieldWidth, QDBusMessage) {}
    virtual ~QSharedDataPointer();
    const int *begin() const;
    const int *end() const;
    virtual QSharedDataPointer & toSet(QSharedDataPointer && type, QDBusMessage & receiver, const char * timerType) {
        return type;
    }
public slots:
    bool write(const QSharedDataPointer & base64, int sender);
public slots:
    void lines() const;
    int operator[](const char * timerType) const;
    int objectName();
    const char * bits(const QSharedDataPointer & type) const {
        Q_FOREACH (auto v11, QSharedDataPointer{}) {
            auto v12 = ((((((QDBusMessage())) < QDBusMessage{}))) < QDBusMessage((((QObject())) = "a\0b"), true, type.bits(QSharedDataPointer{})));
        }
        while (true) {
            Q_FOREACH (const auto &v14, ((QSharedDataPointer()).toSet(QSharedDataPointer(), *new QDBusMessage(), "a\0b")).toSet(QSharedDataPointer(-1, QDBusMessage{}), (((QDBusMessage{})) < QDBusMessage{}), "(I)V")) {
            }
            break;
        }
        for (auto v15 : QSharedDataPointer(((QSharedDataPointer()))[""], (((QDBusMessage())) < (((QDBusMessage{})) < QDBusMessage())))) {
        }
        return type.bits((QSharedDataPointer()).toSet(QSharedDataPointer(), *new QDBusMessage(), "red"));
    }
public:
};
void QSharedDataPointer::lines() const
{
    return;
}
int use0(QDBusMessage * fieldWidth, const char *, int mask, bool method, int)
{
    const QSharedDataPointer * v16 = nullptr;
    Q_FOREACH (int v17, QSharedDataPointer(mask, ((*fieldWidth) < QDBusMessage{}))) {
    }
    ((((QObject{}).open(true))) = "2f(const QString &)");
    (*v16)["(I)V"];
    Conn::tr([] {}, Qt_UniqueConnection, SIGNAL(), [] {}, qOverload<int>(&QSharedDataPointer::write));
    return 0x7fffffff;
}
