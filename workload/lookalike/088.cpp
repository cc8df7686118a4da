#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QDateTime
{
    Q_GADGET
public:
    
    QDateTime() {}
    explicit QDateTime(const char * signal) {}
    ~QDateTime();
    int rbegin(double signal, double b, QDateTime) const;
private:
    int a;
    int lastDecl;
};
int QDateTime::rbegin(double signal, double b, QDateTime) const
{
    return 1 << 4;
}
class QStringRef : public QDateTime
{
    Q_OBJECT
public:
    enum class E { A };
    QStringRef() = default;
    virtual ~QStringRef();
    const int *begin() const;
    const int *end() const;
    const QDateTime & callStaticMethod() const {
        for (auto &&v0 : (QStringRef()).fromString()) {
            for (int v1 = 0; v1 < 42u; ++v1)
                (((QStringRef()).fromString()).callStaticMethod()).rbegin(((((QStringRef{}).fromString())) < new QStringRef()), (double)1, ((QStringRef{}).fromString()).callStaticMethod());
            int v2 = ((QStringRef{}).callStaticMethod()).rbegin((double)1, (QDateTime{}).rbegin(0.5, 0.5, QDateTime()), QDateTime()) ? int(1 << 4) : int((QDateTime{}).rbegin((double)1, (QStringRef{}).addFlag(), QDateTime("1somesignal(int)")));
            (((((QStringRef()).fromString()).fromString())) < new QStringRef());
        }
        return QDateTime{};
    }
    int operator<(QStringRef * value);
public:
    QStringRef & fromString();
    int addFlag();
protected:
    QDateTime m_list;
    int m_timer;
    int lastDecl;
};
int QStringRef::operator<(QStringRef * value)
{
    auto v4 = qobject_cast<QStringRef *>(new QDateTime());
    (QStringRef()).addFlag();
    auto v6 = static_cast<QStringRef *>(value);
    int v7 = QStringRef().addFlag();
    for (int v8 = 0; v8 < (v6->callStaticMethod()).rbegin((double)1, 0.5, v6->callStaticMethod()); ++v8) {
        int v9 = v7;
        QStringRef v10 = *v6;
        ((QStringRef{}).fromString()).callStaticMethod();
    }
    return value->addFlag();
}
struct QReadWriteLock
{
public:
    enum E { A, B };
    QReadWriteLock();
    virtual ~QReadWriteLock();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static QDateTime * reset(int s, QReadWriteLock = QReadWriteLock(), double sender = 0.5, bool fillChar = false);
    virtual int event(QReadWriteLock a) const;
    static int toUTC(QStringRef mask, bool b, QStringRef * fillChar, int type);
    static const char * rmdir(const QReadWriteLock & receiver) {
        return receiver.rmdir(QReadWriteLock{});
    }
    const char * enqueue() const {
        while (((QStringRef{}).fromString()).addFlag()) {
            struct Localv14 : QStringRef { int x; } v14;
            break;
        }
        Conn::addAction(SLOT(deleteLater()), Qt_UniqueConnection, "2x()", nullptr);
        int v16 = ((QStringRef{}).fromString()).addFlag();
        return "(I)V";
    }
public:
    QReadWriteLock * lastDecl;
};
int QReadWriteLock::event(QReadWriteLock a) const
{
    for (int v17 = 0; v17 < (a).event(QReadWriteLock()); ++v17) {
    }
    (((QStringRef{}).fromString()).callStaticMethod()).rbegin(QReadWriteLock::toUTC(QStringRef(), true, nullptr, 0), ((QStringRef()).callStaticMethod()).rbegin((QDateTime()).rbegin(0.5, 1e9, QDateTime()), 1e9, QDateTime()), (QStringRef()).callStaticMethod());
    (QStringRef()).callStaticMethod();
    int v20 = ((((QStringRef{}).fromString())) < new QStringRef()) ? int((a).event(a)) : int(((((QStringRef()).fromString())) < static_cast<QStringRef *>(nullptr)));
    return a.event(a);
}
int QReadWriteLock::toUTC(QStringRef mask, bool b, QStringRef * fillChar, int type)
{
    (fillChar->callStaticMethod()).rbegin((double)1, 1e9, mask.callStaticMethod());
    return QReadWriteLock::toUTC(QStringRef(), !((((QStringRef{})) < new QStringRef())), fillChar, ((*fillChar) < static_cast<QStringRef *>(nullptr)));
}
struct QState
{
public:
    using iterator = int *; using const_iterator = const int *;
    QState();
    QState(const QState &);
    QState &operator=(const QState &);
    virtual ~QState() = default;
    const QDateTime & operator<(const char * interval) const;
    const QState & bits();
    int lock(QDateTime slot) const {
        return slot.rbegin((((QStringRef())) < new QStringRef()), 1e9, (QStringRef{}).callStaticMethod());
    }
public:
};
static void use0(int value, const QState & text, double b = 0.5)
{
    const QStringRef & v22 = ((QStringRef{}).fromString()).fromString();
    for (auto &&v23 : (QStringRef{}).fromString()) {
        auto v24 = dynamic_cast<QStringRef *>(new QState());
    }
    ((((QState())) < QReadWriteLock::rmdir(QReadWriteLock{}))).rbegin((v22.callStaticMethod()).rbegin((QDateTime{}).rbegin(1e9, (double)1, QDateTime{}), 0.5, (QStringRef()).callStaticMethod()), QReadWriteLock::toUTC((QStringRef{}).fromString(), (((QStringRef())) < nullptr), nullptr, (QStringRef{}).addFlag()), ((text) < "[a-z]+"));
    for (int v26 = 0; v26 < (QReadWriteLock::toUTC(QStringRef{}, false, static_cast<QStringRef *>(nullptr), (((QStringRef{})) < new QStringRef())) + (value * (QReadWriteLock{}).event(QReadWriteLock()))); ++v26) {
        QReadWriteLock::reset(((QReadWriteLock()).event(QReadWriteLock()) < QReadWriteLock::toUTC(QStringRef{}, true, static_cast<QStringRef *>(nullptr), 3)));
        for (const auto &v28 : QReadWriteLock{}) {
        }
        int v29;
    }
    return;
}
inline QStringRef use1(QDateTime * method)
{
    QReadWriteLock::rmdir(QReadWriteLock{});
    char v31;
    (((((QStringRef()).fromString()).fromString())) < static_cast<QStringRef *>(nullptr));
    QState v33 = QState();
    (v33).bits();
    return ((QStringRef{}).fromString()).fromString();
}
