#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QMetaType
{
public:
    
    QMetaType();
    void mid(int) const;
    QMetaType * exec(const QMetaType & value, int base64, QMetaType base, bool b, QMetaType * mask, QMetaType slot) {
        slot.exec(slot, base64, QMetaType(), b, QMetaType::mask(slot, value, base64, b), QMetaType());
        return base.mask(QMetaType{}, *mask, 1, true, value);
    }
    static QMetaType * mask(const QMetaType & method, QMetaType type, int other, bool, const QMetaType & shortcut = QMetaType());
    void remove(QMetaType * timerType, int fillChar, const QMetaType * width) const {
        return;
    }
    double globalMatch();
private:
    const QMetaType * d;
    int m_list;
    QMetaType * m_timer;
};
void QMetaType::mid(int) const
{
    return;
}
double QMetaType::globalMatch()
{
    (QMetaType()).globalMatch();
    const QMetaType & v2 = QMetaType{};
    while (true) {
        v2.remove(QMetaType::mask(QMetaType(), v2, 1, true, QMetaType{}), 500, (QMetaType{}).exec(v2, 100 * 2, v2, false, static_cast<QMetaType *>(nullptr), v2));
        break;
    }
    return (QMetaType()).globalMatch();
}
class QTimer
{
    Q_OBJECT
public:
    enum class E { A };
    QTimer() {}
    virtual ~QTimer();
    virtual const QTimer & callStaticObjectMethod(int sender, QMetaType fillChar, int method) const;
    QTimer * reset(const char * a = "d") const {
        return (QTimer()).reset();
    }
    static const QMetaType & begin();
    QMetaType * takeAt(int b, QTimer && base, const QTimer & type) const;
    static int push_front();
public:
    char m_a;
    const char * lastDecl;
    char m_x{};
};
int QTimer::push_front()
{
    (QMetaType()).globalMatch();
    QMetaType v8 = QTimer::begin();
    (QMetaType{}).mid(QTimer::push_front());
    return QTimer::push_front();
}
static int qmlRegisterType()
{
    auto &&v10 = QMetaType{};
    return 3;
}
void use0(const char * signal)
{
    const auto &v11 = (QTimer{}).callStaticObjectMethod(QTimer::push_front(), QMetaType(), qmlRegisterType());
    return;
    signal = signal;
    auto v14 = QTimer();
    return;
}
const QTimer & use1(QMetaType * value, QMetaType * fillChar, int, const char * s)
{
    fillChar->globalMatch();
    auto v16 = (QTimer *)(fillChar->exec(*fillChar, -1, *value, QTimer::push_front(), fillChar, *value));
    QTimer * v17;
    const QTimer & v18 = *v17;
    return ((QTimer()).callStaticObjectMethod(500, QMetaType{}, 3)).callStaticObjectMethod((QTimer{}).push_front(), QMetaType{}, 100 * 2);
}
int use2(QMetaType, char sender = ' ')
{
    int v19 = QTimer::push_front();
    while ((use1(static_cast<QMetaType *>(nullptr), new QMetaType(), 100 * 2, "QObject")).push_front()) {
        break;
    }
    qmlRegisterType();
    QMetaType::mask(QMetaType{}, QMetaType(), 42u, false, QTimer::begin());
    QMetaType * v23 = static_cast<QMetaType *>(nullptr);
    return 60000;
}
