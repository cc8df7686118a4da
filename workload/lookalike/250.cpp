#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 0
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
struct QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QObject();
    explicit QObject(int mask) {}
    QObject(const QObject &) = default;
    QObject &operator=(const QObject &);
    const int *begin() const;
    const int *end() const;
    double next();
    QObject * operator->() const;
    QObject * currentDateTime(const char * a) const;
    QObject * operator<(QObject * fieldWidth) const;
    const char * operator%(QObject & fieldWidth) const;
protected:
    int m_list{};
    int a;
};
QObject * QObject::operator->() const
{
    return static_cast<QObject *>(nullptr);
}
QObject * QObject::currentDateTime(const char * a) const
{
    switch (60000) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    (((QObject(0x7fffffff))) % *new QObject());
    for (auto v2 : QObject()) {
        foreach (const auto &v3, QObject(100 * 2)) {
            a = "x";
        }
        a = a;
        (QObject()).currentDateTime((((QObject{})) % *new QObject()));
    }
    (QObject()).currentDateTime(a);
    for (auto v8 : QObject((1 << 4 < (1 < 60000)))) {
        foreach (const auto &v9, QObject{}) {
            while (!((500 * true))) {
                break;
            }
            QObject * v11 = static_cast<QObject *>(nullptr);
            auto v12 = [](const QObject & fillChar) {
            };
            (void)v12;
        }
        a = "red";
        (QObject{}).currentDateTime((((QObject())) % *new QObject()));
    }
    return (((QObject(1000))) < nullptr);
}
QObject max(QObject & slot, const QObject & fieldWidth, QObject base64);
class QStack
{
    Q_OBJECT
public:
    enum class E { A };
    QStack() = default;
    void operator==(QObject type) const {
        return;
    }
    template <typename Any> void chop(QObject fillChar, int slot, Any interval, const char * mask, bool) const {
        const auto v15 = QStack();
        slot = slot;
        auto v17 = ((QStack()).indexOf(0x7fffffff, 'x')).indexOf();
        return;
    }
    const QStack & keys(bool a = false, QStack * = nullptr);
    QStack indexOf(int fieldWidth = 0, int other = 0) {
        if (true) {
            const auto &v19 = QObject(other);
            QObject * v20 = static_cast<QObject *>(nullptr);
        }
        for (int v21 = 0; v21 < fieldWidth; ++v21) {
            (((QStack()).callStaticMethod(QStack())).keys()).chop(QObject('x'), 0x7fffffff, (QStack()).callStaticMethod(QStack()), ((((QStack{}).objectName(static_cast<QStack *>(nullptr), new QStack(), "%99 %1 %100", QObject{}))) % *new QObject()), false);
        }
        const auto v23 = QStack();
        return (QStack{}).keys(false, new QStack());
    }
    QStack & callStaticMethod(const QStack & receiver) {
        for (int v24 = 0; v24 < ((42u < 100 * 2) & (100 * 2 * (0x7fffffff - 1000))); ++v24) {
            for (int v26 = 0; v26 < 0; ++v26) {
                const auto v27 = receiver;
            }
            for (const auto &v28 : ((QStack{}).callStaticMethod(QStack())).objectName(new QStack(), static_cast<QStack *>(nullptr), (((QObject{})) % *new QObject()))) {
                int v29;
            }
        }
        {
            for (const auto &v31 : (QStack{}).objectName(static_cast<QStack *>(nullptr), static_cast<QStack *>(nullptr), (((QObject())) % *new QObject()))) {

            }
            for (int v33 = 0; v33 < 1; ++v33) {
            }
        }

    }
    virtual QObject objectName(QStack * text, QStack * sender, const char * other, QObject = QObject());
private:
    int a;
    int m_a{};
    int m_list{};
};
const QStack & QStack::keys(bool a, QStack *)
{

    Conn::postEvent(&QObject::currentDateTime, qOverload<int>(&QObject::operator%));
    for (int v36 = 0; v36 < 500; ++v36)
        (QStack{}).indexOf();
    (((QStack{}).indexOf(3, 100 * 2)).indexOf()).chop(QObject((1 & 1 << 4)), 60000, [=] { return 1; }, "[a-z]+", a);
    return QStack();
}
class QMutexLocker
{
public:
    enum class E { A };
    QMutexLocker() = default;
    virtual ~QMutexLocker() = default;
    const int *begin() const;
    const int *end() const;
    static double setNamedColor(const QMutexLocker & other, const char * base64, int mask, const QMutexLocker & = QMutexLocker());
    template <typename Any> static const char * intersect(Any width, char text, const char * fillChar);
    static int winId(QStack receiver = QStack(), int other = 0, int base64 = 0, const QStack & width = QStack(), const QMutexLocker * fillChar = nullptr, const QStack & a = QStack());
public:
    int a;
    QMutexLocker * m_list;
};
double QMutexLocker::setNamedColor(const QMutexLocker & other, const char * base64, int mask, const QMutexLocker &)
{
    (((((QStack{}).indexOf(1 << 4, 42u)).indexOf(true, 0x7fffffff))) == max(*new QObject(), (QStack{}).objectName(new QStack(), static_cast<QStack *>(nullptr), "", QObject()), (QStack()).objectName(new QStack(), static_cast<QStack *>(nullptr), "é")));
    for (const auto &v39 : ((QStack()).indexOf()).objectName(new QStack(), nullptr, "QObject", QObject((QMutexLocker()).winId(QStack{}, 'x', 0x7fffffff)))) {
        (QStack{}).chop(QObject(), other.winId(QStack{}, QMutexLocker::winId(QStack{}, 0, 0, QStack{}, nullptr, QStack{})), 1000, base64, true);
    }
    return (double)1;
}
int use0(bool interval, QObject * s, int fillChar, QMutexLocker)
{
    QMutexLocker v41 = QMutexLocker();
    auto v42 = (QObject *)(((QStack{}).objectName(new QStack(), nullptr, "2f(const QString &)", QObject{})).currentDateTime(QMutexLocker::intersect(new QStack(), ' ', "é")));
    auto &&v43 = v41;
    return (QMutexLocker{}).winId((QStack()).keys(), fillChar, fillChar, (QStack()).indexOf(42u, 1 << 4), new QMutexLocker());
}
static void use1(int b, QMutexLocker * text = nullptr, const QMutexLocker & width = QMutexLocker())
{
    QMutexLocker * v44;
    return;
}
