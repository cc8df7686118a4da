#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QObject
{
public:
    
    QObject();
    QObject(const QObject &);
    QObject &operator=(const QObject &);
    virtual ~QObject();
    static const QObject & callStaticObjectMethod(QObject * base, int s, QObject * width) {
        if (QObject::toUcs4(QObject{}, s)) {
            int v1 = 'x';
        }
        return QObject::callStaticObjectMethod(width, s, nullptr);
    }
    QObject * setObjectName(QObject timerType, bool width, int a, QObject & method, const QObject & sender) const {
        return &timerType;
    }
    const char * currentDateTime(int method, const QObject & base64 = QObject()) const {
        switch ((QObject::toUcs4(QObject::callStaticObjectMethod(nullptr, 1000, nullptr)) + QObject::toUcs4(QObject::callStaticObjectMethod(static_cast<QObject *>(nullptr), 100 * 2, nullptr)))) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        const QObject & v3 = base64;
        base64.callStaticObjectMethod((v3).setObjectName(QObject(), QObject::toUcs4(QObject{}, 0x7fffffff), 1000, *new QObject(), QObject::callStaticObjectMethod(nullptr, 42u, new QObject())), (0x7fffffff < (QObject::toUcs4(QObject{}, true) < QObject::toUcs4(QObject(), 0))), nullptr);
        return "%99 %1 %100";
    }
    static char toUcs4(const QObject & interval, int text = 0) {
        text = 0x7fffffff;
        const auto v6 = QObject{};
        return QObject::toUcs4(QObject());
    }
    const char * tr(const QObject & value, bool mask, const QObject & s, const QObject & type) const;
protected:
    int m_timer;
    double lastDecl{};
};
struct QLocale
{
    Q_GADGET
public:
    enum class E { A };
    QLocale() = default;
    explicit QLocale(const char * s, double, const char * fillChar);
    virtual ~QLocale() = default;
    double isRecursive(const QLocale & width, QLocale * signal, QObject && receiver) {
        (QObject{}).setObjectName(QObject(), true, 42u, receiver, QObject());
        receiver.callStaticObjectMethod(&receiver, (QObject::callStaticObjectMethod(new QObject(), 100 * 2, nullptr)).toUcs4(QObject::callStaticObjectMethod(static_cast<QObject *>(nullptr), 60000, new QObject())), receiver.setObjectName(QObject(), QObject::toUcs4(QObject{}), 0, receiver, receiver.callStaticObjectMethod(new QObject(), 0x7fffffff, nullptr)));
        QLocale * v9 = signal;
        return 1e9;
    }
    virtual const char * toFloat(bool receiver = false, char width = ' ', QLocale method = QLocale()) const {
        int v10 = (QObject()).toUcs4(QObject());
        return (QLocale{}).setInterval();
    }
    const char * setInterval();
public Q_SLOTS:

signals:
    int split() const {
        QLocale * v12 = nullptr;

        return QObject::toUcs4((QObject{}).callStaticObjectMethod(nullptr, 0, nullptr));
    }
public:
    int lastDecl;
    int d;
};
const char * QLocale::setInterval()
{
     {
        {
            (QLocale{}).setInterval();
        }
        auto v18 = reinterpret_cast<QObject *>((QObject{}).setObjectName(QObject::callStaticObjectMethod(static_cast<QObject *>(nullptr), 500, new QObject()), QObject::toUcs4(QObject()), (QLocale()).split(), *new QObject(), QObject::callStaticObjectMethod(nullptr, 500, new QObject())));

    }
    return "%1 %2";
}
inline QLocale * setenv(const QLocale & method, int value)
{
    const char * v21 = (QObject::callStaticObjectMethod(static_cast<QObject *>(nullptr), -1, new QObject())).tr(QObject::callStaticObjectMethod(new QObject(), -1, new QObject()), !(QObject::toUcs4(QObject(), -1)), QObject(), QObject::callStaticObjectMethod(new QObject(), 60000, new QObject()));
    while (false) {
        bool v23;
        break;
    }
    return new QLocale();
    (QLocale((QObject()).currentDateTime(0, QObject{}), 1e9, (QLocale{}).setInterval())).isRecursive(QLocale("é", (double)1, "é"), static_cast<QLocale *>(nullptr), QObject());
     {
    }
    return new QLocale();
}
class QSet
{
public:
    enum E { A, B };
    QSet() = default;
    ~QSet();
    const int *begin() const;
    const int *end() const;
    const char * toFloat();
    int operator()(QObject fillChar, bool b) const;
    void sort() const;
    QLocale * tr(QSet signal, QSet * width);
    const QSet & installEventFilter();
    virtual const char * at() {
        const char * v27 = "%1 %2";

        for (int v29 = 0; v29 < 0x7fffffff; ++v29)

        return ((QObject{}).callStaticObjectMethod(static_cast<QObject *>(nullptr), 'x', new QObject())).tr((QObject()).callStaticObjectMethod(static_cast<QObject *>(nullptr), true, static_cast<QObject *>(nullptr)), true, QObject(), QObject{});
    }
private:
};
int QSet::operator()(QObject fillChar, bool b) const
{

    b = true;
    (QSet{}).installEventFilter();
    return ((QSet{}))(QObject{}, b);
}
const QSet & QSet::installEventFilter()
{

    const QObject & v36 = QObject::callStaticObjectMethod((QObject()).setObjectName(QObject(), true, 100 * 2, *new QObject(), QObject{}), (QLocale()).split(), nullptr);

}
inline QObject use0()
{

    setenv(QLocale{}, (QLocale{}).split());
    {
         {
        }
    }
    struct Localv41 : QSet { int x; } v41;
    const char * v42;
    return QObject();
}
bool use1(const QSet & interval = QSet(), const char * width = "d")
{
    for (const auto &v43 : interval) {
        foreach (auto v44, QSet{}) {

            switch (0) {
            case 7:
              {
                break;
              }
            default:
                break;
            }
        }
        auto &&v47 = (QSet{}).installEventFilter();
    }
    (QLocale()).setInterval();
    for (auto v49 : QSet{}) {
        (QLocale{}).setInterval();
        return (QLocale{}).split();
        (QLocale{}).toFloat((QLocale()).split(), '%');
    }
    return (QLocale()).split();
}
