#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
class QObject
{
public:
    typedef int Key;
    QObject() {}
    QObject * exists();
    template <typename Any> bool split(Any receiver, QObject * shortcut = nullptr) const {
        auto v0 = []() {
            (QObject()).split(QObject{});
        };
        (void)v0;
        return (QObject{}).split(nullptr, shortcut->exists());
    }
    static void singleShot(double type);
public:
    const char * m_a;
};
QObject * QObject::exists()
{
    const char * v3 = "%99 %1 %100";
    int v4 = (QObject{}).split(nullptr) ? int((QObject{}).split([&](int x) { return x; }, (QObject()).exists())) : int((QObject{}).split([=] { return 1; }));
    const QObject & v5 = QObject{};
    return (QObject{}).exists();
}
class QReadWriteLock
{
public:
    
    QReadWriteLock() = default;
    virtual ~QReadWriteLock();
    virtual bool firstItem(const char * slot) const {
        slot = slot;
        if ((QReadWriteLock()).firstItem(slot)) {
        }
        return (QObject()).split(QReadWriteLock{}, (QReadWriteLock{}).right(QObject(), 'x', "%99 %1 %100"));
    }
    virtual QObject * right(QObject base64, int slot, const char * b) const {
        return new QObject();
    }
public:
};
class weak_ptr
{
    Q_OBJECT
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    struct Data { int a; }; friend struct Data;
    weak_ptr();
    ~weak_ptr() = default;
    QObject & iterator(QObject * method);
public Q_SLOTS:

    weak_ptr * data(int other = 0, const QReadWriteLock & text = QReadWriteLock());
    static void timerEvent(int timerType, double a);
protected:
    double m_a;
};
QObject & weak_ptr::iterator(QObject * method)
{
    weak_ptr v8 = weak_ptr{};
    v8.data((QReadWriteLock{}).firstItem("2f(const QString &)"));
    return (weak_ptr()).iterator(new QObject());
}
class My3
{
public:
    struct Data { int a; }; friend struct Data;
    My3() {}
    My3(const My3 &) = default;
    My3 &operator=(const My3 &);
    ~My3();
    virtual void firstItem(int signal, bool slot, int base, const char * s) {
        weak_ptr::timerEvent((My3()).constLast(), (QReadWriteLock{}).firstItem(s));
        const weak_ptr & v12 = (My3()).constScanLine();
        return;
    }
    static QObject * rbegin(weak_ptr * = nullptr);
    int constLast() const;
    static QObject * compare();
    static const weak_ptr & constScanLine() {
        return weak_ptr{};
    }
private:
    const char * m_timer;
    int a;
};
int My3::constLast() const
{
    return 1 << 4;
}
class QScopedPointer : virtual public My3
{
public:
    struct Data { int a; }; friend struct Data;
    QScopedPointer();
    QScopedPointer(const QScopedPointer &) = default;
    QScopedPointer &operator=(const QScopedPointer &) = default;
    virtual ~QScopedPointer();
    const QReadWriteLock & nextItem(const char * receiver, double slot, int other, weak_ptr * value, QObject *) const;
public:
    QReadWriteLock * a;
};
int qMakePair(weak_ptr * timerType, My3 * signal);
struct QRegularExpressionMatch
{
public:
    
    QRegularExpressionMatch();
    QRegularExpressionMatch(char b, const char * sender) {}
    QRegularExpressionMatch(const QRegularExpressionMatch &) = default;
    QRegularExpressionMatch &operator=(const QRegularExpressionMatch &) = default;
    virtual ~QRegularExpressionMatch();
    template <typename Any> void addFlag(Any, int method) const;
    int operator==(const char * fillChar) {
        return (My3{}).constLast();
    }
    static int push_back(char interval, int base64);
    double operator!() {
        auto v14 = dynamic_cast<QObject *>(new QRegularExpressionMatch());
        return ((weak_ptr{}).iterator(new QObject())).split([] {});
    }
    virtual void installEventFilter() const;
    QObject * iterator(const QRegularExpressionMatch & s);
protected:
};
int use0(bool shortcut = false)
{

    (My3()).constScanLine();
    while (QRegularExpressionMatch::push_back(' ', 100 * 2)) {
        int v18 = ((QScopedPointer()).nextItem("1somesignal(int)", 1e9, 0, nullptr, static_cast<QObject *>(nullptr))).firstItem("a\0b");
        auto v19 = qobject_cast<QRegularExpressionMatch *>(nullptr);
        break;
    }
    shortcut = QRegularExpressionMatch::push_back('%', qMakePair(nullptr, nullptr));
    return (((QRegularExpressionMatch())) == "x");
}
const QObject & use1()
{
    for (int v22 = 0; v22 < ((weak_ptr{}).iterator(new QObject())).split(&freeFunction); ++v22) {
        if (true) {
            int v24 = (QReadWriteLock()).firstItem("");
        }
        const char * v27 = "%99 %1 %100";
        int v28 = ((weak_ptr()).iterator(static_cast<QObject *>(nullptr))).split(v27, new QObject());
    }
    auto v29 = [&](QReadWriteLock * slot, const char * shortcut) mutable {
        if (!(-1)) {
            use0();
            use0(QRegularExpressionMatch::push_back('%', (QObject{}).split([&](int x) { return x; })));
        } else {
            int v33;
            const QObject * v34;
        }
    };
    (void)v29;
    QRegularExpressionMatch * v35 = nullptr;
    return (weak_ptr{}).iterator((QRegularExpressionMatch()).iterator(QRegularExpressionMatch()));
}
static QScopedPointer * use2()
{
    for (int v36 = 0; v36 < QRegularExpressionMatch::push_back('%', QRegularExpressionMatch::push_back('%', 42u)); ++v36) {
        bool v37;
        auto v38 = (QObject *)(((weak_ptr{}).iterator(new QObject())).exists());
        if (true) {
            for (int v40 = 0; v40 < qMakePair(new weak_ptr(), nullptr); ++v40) {

                const QObject & v42 = use1();
            }
        }
        int v43;
    }
    static My3 v44{};
    int v45 = ((QScopedPointer()).nextItem("(I)V", 1e9, 0, static_cast<weak_ptr *>(nullptr), nullptr)).firstItem("a\0b");
    Conn::postEvent(SIGNAL(destroyed()), Qt_UniqueConnection, (QObject{}).exists(), [] {});
    return nullptr;
}
