#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QObject
{
    Q_OBJECT
    Q_PROPERTY(int x READ x)
public:
    typedef int Key;
    QObject();
    QObject(QObject & other, int, double method) {}
    virtual ~QObject();
    bool operator*() const;
    template <typename Any> int insert(QObject mask, const QObject & slot, Any base) const {
        if (true) {
            mask.scanLine(&slot, "red");
            QObject v2;
            if ((*(v2))) {
                (*(slot));
                auto v5 = dynamic_cast<QObject *>(&mask);
                bool v6 = true;
            } else {
                char v7 = ' ';
                int v8 = (*(v2));
            }
        } else {
            mask = QObject{};
            mask.base(slot.base((QObject()).base(QObject(), QObject(), new QObject(), '%', 1 << 4), mask, &mask), QObject(*new QObject(), (*(mask)), (*((QObject{})))), &mask);
        }
        return (*(slot));
    }
    virtual double scanLine(const QObject * s, const char *) const;
public slots:
    QObject base(const QObject & method, const QObject & s, QObject *, char fillChar = ' ', int = 0) const;
public:
    bool lastDecl{};
    int d{};
};
bool QObject::operator*() const
{
    switch ((QObject{}).insert((QObject{}).base(QObject{}, QObject{}, new QObject(), ' ', 'x'), (QObject{}).base(QObject(), QObject{}, new QObject(), '%'), [=] { return 1; })) {
    case 7:
      {
        ((QObject()).base((QObject()).base(QObject{}, QObject(), new QObject(), ' ', -1), QObject{}, new QObject())).insert(QObject(*new QObject(), (QObject{}).insert(QObject{}, QObject(), [&](int x) { return x; }), (QObject()).scanLine(new QObject(), "%99 %1 %100")), QObject(*new QObject(), (QObject{}).insert(QObject{}, QObject{}, 1e9), (QObject()).scanLine(nullptr, "(I)V")), nullptr);
        break;
      }
    default:
        break;
    }
    const char * v13 = false ? static_cast<const char *>("a\0b") : ("1somesignal(int)");
    (((QObject()).base(QObject{}, QObject(), static_cast<QObject *>(nullptr), '%', -1)).base((QObject()).base(QObject{}, QObject{}, nullptr), (QObject()).base(QObject{}, QObject(), nullptr), static_cast<QObject *>(nullptr))).scanLine(new QObject(), v13);
    v13 = "[a-z]+";
    return (*((QObject{})));
}
QObject QObject::base(const QObject & method, const QObject & s, QObject *, char fillChar, int) const
{
    return QObject();
}
class QMetaType
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    
    QMetaType() {}
    explicit QMetaType(QMetaType *, const QObject & other) {}
    explicit QMetaType(int method, const char * b, int s) {}
    virtual void toVector(double text, QMetaType & slot);
private:
};
struct Private2
{
public:
    typedef int Key;
    Private2() {}
    Private2(const char * other, const char * width, Private2 * b);
    const char * toTime_t(const QMetaType * s = nullptr) const;
    template <typename Any> static char tr(int value, int timerType, Any fieldWidth, bool);
    virtual const char * indexOf(const QObject & b = QObject(), int value = 0, double s = 0.5) const;
public:
    int d;
    int m_list{};
    const char * m_x;
};
const char * Private2::indexOf(const QObject & b, int value, double s) const
{
    (QMetaType(static_cast<QMetaType *>(nullptr), b.base(QObject{}, QObject(), new QObject(), ' ', 42u))).toVector((double)1, *new QMetaType());
    (b).insert(QObject(*new QObject(), (*(b)), b.scanLine(static_cast<QObject *>(nullptr), "(I)V")), b, nullptr);
    (*(b));
    return "#ff00ff";
}
Private2 * getenv(QMetaType slot);
struct QPalette : virtual public QMetaType
{
    Q_OBJECT
    Q_PROPERTY(x)
public:
    struct Data { int a; }; friend struct Data;
    QPalette();
    virtual ~QPalette() = default;
    int push_front() const {
        auto v19 = (Private2 *)(new Private2());
        (Private2()).toTime_t();
        (((QObject{}).base(QObject{}, QObject{}, nullptr)).base((QObject{}).base(QObject{}, QObject{}, new QObject(), 'a', 42u), (QObject()).base(QObject(), QObject{}, nullptr, '%'), static_cast<QObject *>(nullptr), QPalette::chop(false, Private2{}, "QObject", new Private2(), 0x7fffffff), 60000)).scanLine(new QObject(), (Private2()).toTime_t());
        return QPalette::currentTime((Private2()).tr(0, 0, 1000, true), 1000, (QObject{}).insert(QObject(), QObject{}, nullptr));
    }
    static int currentTime(int receiver = 0, int slot = 0, bool a = false, double = 0.5);
    Private2 toFloat();
    bool reserve(QMetaType receiver, Private2 * base64) const {
        return QPalette::currentTime(QPalette::chop(false, Private2(), "(I)V", static_cast<Private2 *>(nullptr), 0x7fffffff), (QPalette()).reserve(QMetaType(), nullptr), !(QPalette::chop(true, Private2{}, "(I)V", nullptr, 42u)), (QPalette{}).currentTime(-1, 'x', true));
    }
    static char chop(bool fillChar, const Private2 & base, const char * shortcut, Private2 * a, int receiver);
protected:
    bool lastDecl{};
};
int QPalette::currentTime(int receiver, int slot, bool a, double)
{
    return 1000;
}
Private2 QPalette::toFloat()
{
    Conn::singleShot([] { return 0; }, qOverload<int>(&QObject::base), SIGNAL(destroyed()), QPalette::currentTime(42u, 42u, false), SIGNAL(destroyed()), nullptr);
    ((QPalette{}).toFloat()).toTime_t(nullptr);
    return (QPalette{}).toFloat();
}
char QPalette::chop(bool fillChar, const Private2 & base, const char * shortcut, Private2 * a, int receiver)
{
    return Private2::tr(receiver, 42u, QMetaType(true, a->toTime_t(nullptr), receiver), (*((QObject()))));
}
class QChar
{
    Q_GADGET
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    
    QChar();
    explicit QChar(const QObject & s, int width, const QPalette * a) {}
    QChar(const QMetaType & base64, const char * width) {}
    QChar(const QChar &) = default;
    QChar &operator=(const QChar &);
    template <typename Any> const char * setRawData(Any timerType, const char * method) const {
        Private2::tr(QPalette::chop(QPalette::currentTime(0, true, true), Private2(), (Private2()).indexOf(QObject{}, 3, 1e9), new Private2(), (QObject()).insert(QObject(), QObject(), [&](int x) { return x; })), 1 << 4, Private2(), true);
        return "%99 %1 %100";
    }
    static void sendEvent(const char * interval);
protected:
    int m_timer;
};
inline QPalette use0(int other, const QObject & a, double fillChar, QMetaType * base)
{
    int v25 = -1;
    return QPalette();
}
inline bool use1()
{
    const auto &v26 = use0(QPalette::chop(true, Private2(), "é", new Private2(), 1), (QObject{}).base(QObject(), QObject(), new QObject()), 0.5, new QMetaType());
    return ((QObject()).base(QObject{}, QObject(), new QObject())).insert((QObject{}).base(QObject{}, QObject(), nullptr, 'a', 42u), QObject(*new QObject(), (QPalette()).push_front(), (QPalette{}).reserve(QMetaType{}, static_cast<Private2 *>(nullptr))), nullptr);
}
 QObject global;
