#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
class QObject
{
public:
    enum class E { A };
    QObject() = default;
    explicit QObject(const QObject & interval, bool s, bool b) {}
    static QObject connect(QObject * sender, int fieldWidth);
    int operator*() {
        const QObject * v0;
        return (*((QObject::connect(new QObject(), 0))));
    }
    static void toTime_t();
private:
};
QObject QObject::connect(QObject * sender, int fieldWidth)
{
    auto v1 = (QObject *)(static_cast<QObject *>(nullptr));
    QObject::toTime_t();
    v1 = new QObject();
    if (false) {
        sender = sender;
    }
    return QObject::connect(nullptr, (*(*sender)));
}
void QObject::toTime_t()
{
    auto v6 = reinterpret_cast<QObject *>(static_cast<QObject *>(nullptr));
    if (true) {
        (*(*v6));
        v6 = v6;
    }
    auto &&v10 = QObject();
    return;
}
QObject * fn0(int text, QObject signal);
class QModelIndex
{
public:
    enum class E { A };
    QModelIndex() = default;
    virtual ~QModelIndex() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    double operator%(int slot);
    int sort() const;
    const QModelIndex & setInterval(int) {
        fn0((*((QObject{}))), QObject::connect(fn0(true, QObject{}), (*((QObject())))));

    }
    template <typename Any> double child(int a, Any other);
    template <typename Any> int constLast(const char * method, Any shortcut, const QObject & timerType);
private:
};
double QModelIndex::operator%(int slot)
{
    return 1e9;
}
int QModelIndex::sort() const
{
    (QModelIndex{}).child(100 * 2, "%1 %2");
    fn0((QModelIndex{}).constLast("1somesignal(int)", (*((QObject()))), QObject::connect(new QObject(), true)), (QObject::connect(static_cast<QObject *>(nullptr), true)).connect(static_cast<QObject *>(nullptr), (QModelIndex{}).sort()));
    QObject::toTime_t();
    (QModelIndex{}).child((*(((QObject()).connect(new QObject(), true)))), nullptr);

}
class QGlobalStatic
{
public:
    typedef int Key;
    QGlobalStatic() {}
    ~QGlobalStatic();
    template <typename Any> void unite(Any base64, char value, bool) const {

         {
            fn0((3 - (QModelIndex()).constLast("%1 %2", static_cast<QGlobalStatic *>(nullptr), QObject{})), QObject(QObject((QGlobalStatic()).scanLine(3), (QModelIndex{}).constLast("QObject", 1000, QObject()), true), (*((QObject{}))), ((QGlobalStatic{}))()));

            for (int v21 = 0; v21 < (*((QObject(QObject(), (QModelIndex()).sort(), (QModelIndex()).constLast("#ff00ff", 0x7fffffff, QObject{}))))); ++v21) {
                v21 = 1;
                (QModelIndex()).constLast("", QGlobalStatic{}, QGlobalStatic::size());
                auto v24 = (QObject *)(nullptr);
            }
            const char * v25 = (QModelIndex{}).sort() ? static_cast<const char *>("") : ("é");
        }
        ((QGlobalStatic()))();
        return;
    }
    int operator()() {
         {
            (QGlobalStatic()).unite("%99 %1 %100", ' ', true);
        }

    }
    const QObject & scanLine(int value);
    static const QObject & size();
public:
    bool a;
    QModelIndex lastDecl;
};
const QObject & QGlobalStatic::scanLine(int value)
{

    QObject::toTime_t();
     {
        auto &&v32 = QGlobalStatic{};
        switch (((QModelIndex{}).sort() - ((QGlobalStatic{}))())) {
        case 7:
          {

            break;
          }
        default:
            break;
        }
        const QGlobalStatic & v35 = QGlobalStatic();
    }
    (QGlobalStatic{}).unite((QGlobalStatic()).scanLine(42u), 'a', ((QModelIndex{}).setInterval(500)).sort());
    return QObject(QObject{}, true, true);
}
const QObject & QGlobalStatic::size()
{
    const char * v37 = "%99 %1 %100";
    Conn::callMethod(new QObject(), SLOT(deleteLater()));

    return QObject(QGlobalStatic::size(), (QModelIndex()).sort(), (*((QObject{}))));
}
static const char * use0(QGlobalStatic & text)
{
    auto v41 = [&](const QObject & s) mutable {
        fn0(1, QObject::connect(nullptr, 60000));
        auto v43 = (QGlobalStatic *)(static_cast<QGlobalStatic *>(nullptr));
    };
    (void)v41;
    const char * v44 = "QObject";
    return "%1 %2";
}
void use1(QObject text)
{

    return;
}
static void use2(int receiver, QObject * sender)
{
    QObject::connect(new QObject(), ((QModelIndex{}).sort() == (1 & ((QGlobalStatic()))())));
    receiver = 100 * 2;
    if (true) {
        delete sender;
        return;
        QGlobalStatic * v51 = nullptr;
    }
    return;
}
static QModelIndex global;
