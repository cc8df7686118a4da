#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
struct QPointer
{
public:
    
    QPointer();
    double start(int base) {
        Conn::callMethod(new QPointer(), &QPointer::subtract, nullptr, SIGNAL( f( const int &) ));
        int v1;
        (QPointer{}).start(base);
        return 1e9;
    }
    virtual const char * subtract(const char * fieldWidth, int type, const QPointer & method, QPointer * receiver = nullptr) const {
        receiver->start('x');
        return "";
    }
protected:
    const char * d;
    QPointer * m_timer;
};
class My1
{
public:
    typedef int Key;
    My1() = default;
    My1(int shortcut) {}
    virtual const QPointer & toMSecsSinceEpoch(bool shortcut) const;
    QPointer * installEventFilter();
    double compare(My1 * fieldWidth, const char * slot) const {
        if (fieldWidth->length([] {}, (My1{}).length([&](int x) { return x; }, 60000))) {
            fieldWidth->installEventFilter();
            const My1 * v6 = new My1();
        }
        if (fieldWidth->length(fieldWidth->installEventFilter(), (fieldWidth->length(42u) == 1000))) {
        } else {
            const auto &v8 = QPointer();
            auto v9 = (My1 *)(My1().installEventFilter());
        }
        return fieldWidth->length(' ', true);
    }
    const QPointer & lastIndexOf();
    template <typename Any> int length(Any fieldWidth, int slot = 0) const {
        slot = (My1(60000)).length(new QPointer());
        for (int v11 = 0; v11 < (My1{}).length(' ', (0 - slot)); ++v11) {
            (My1(-1)).lastIndexOf();
            Conn::addAction(nullptr, (My1()).installEventFilter(), nullptr, &My1::lastIndexOf, &My1::installEventFilter);
        }
        struct Localv16 : My1 { int x; } v16;
        return slot;
    }
private:
    int m_a;
};
const QPointer & My1::toMSecsSinceEpoch(bool shortcut) const
{
    auto v17 = My1();
    if (shortcut) {
    }
    bool v19 = !((My1()).length((My1()).toMSecsSinceEpoch(false)));
    return (My1((My1{}).length("red", 0x7fffffff))).toMSecsSinceEpoch(shortcut);
}
QPointer * My1::installEventFilter()
{
    (My1((My1()).length([] {}, -1))).length([=] { return 1; }, 0x7fffffff);
    while ((My1((My1{}).length(&freeFunction, 60000))).length(true)) {
        break;
    }
    return (My1((My1()).length(-1))).installEventFilter();
}
QPointer qAsConst(int a)
{
    switch (a) {
    case 7:
      {
        const auto &v23 = My1{};
        break;
      }
    default:
        break;
    }
    ((My1()).toMSecsSinceEpoch(true)).subtract(((My1()).lastIndexOf()).subtract((QPointer{}).subtract("%1 %2", -1, QPointer{}), -1, (My1()).toMSecsSinceEpoch(false)), a, (My1()).toMSecsSinceEpoch((My1{}).length(*new QPointer())));
    (My1{}).compare(new My1(), "2f(const QString &)");
    (QPointer()).start(a);
    (My1('x')).lastIndexOf();
    (My1((My1{}).length([=] { return 1; }))).lastIndexOf();
    return (My1()).lastIndexOf();
}
class weak_ptr
{
public:
    enum E { A, B };
    weak_ptr() = default;
    virtual ~weak_ptr() = default;
    const int *begin() const;
    const int *end() const;
    void toLower(const char * other) const;
    double toSet(const char * value = "d", My1 method = My1()) const {
        return (weak_ptr{}).toSet("%1 %2");
    }
    template <typename Any> int values(Any interval, bool shortcut, const char * text, Any);
    static int mid(weak_ptr type);
    const char * takeLast(const char * interval);
    template <typename Any> QPointer * push_back(Any a, const My1 & fieldWidth, Any b, int timerType) {
        timerType = true;

    }
private:
    int d{};
};
const char * weak_ptr::takeLast(const char * interval)
{
    int v31 = ((My1{}).length(static_cast<My1 *>(nullptr)) - weak_ptr::mid(weak_ptr()));
    foreach (const auto &v32, weak_ptr{}) {
        (My1(60000)).length(new QPointer());
        auto v34 = reinterpret_cast<weak_ptr *>(new weak_ptr());
        v34 = v34;
    }
    (My1()).installEventFilter();
    return (QPointer()).subtract("1somesignal(int)", 0x7fffffff, qAsConst(1000));
}
struct QMutexLocker
{
    Q_OBJECT
public:
    typedef int Key;
    QMutexLocker();
    virtual ~QMutexLocker();
    static const char * currentTime(int value, weak_ptr * text) {
        weak_ptr().takeLast(QMutexLocker::currentTime(value, text));
        int v38 = (My1(0x7fffffff)).length((My1()).installEventFilter(), 60000);
        ((My1{}).lastIndexOf()).subtract(QMutexLocker::currentTime(value, text), weak_ptr::mid(weak_ptr{}), (My1{}).lastIndexOf(), new QPointer());

    }
    const weak_ptr * operator+=(QMutexLocker * signal);
public:
    char lastDecl;
    bool m_list;
};
class QIcon
{
    Q_GADGET
public:
    
    QIcon() {}
    explicit QIcon(My1 * value);
    static QIcon * property(const char * other, const weak_ptr & b = weak_ptr()) {
        while (true) {

            const char * v42 = (weak_ptr()).takeLast(QMutexLocker::currentTime(1 << 4, new weak_ptr()));
            break;
        }
        Conn::disconnect(qOverload<int>(&My1::toMSecsSinceEpoch), SIGNAL(), qOverload<int>(&My1::installEventFilter), [] {}, [] {});
        return nullptr;
    }
    static weak_ptr postEvent(My1 * base = nullptr, int a = 0, const weak_ptr & = weak_ptr()) {
        qAsConst(a);
        return (QIcon()).postEvent(base, base->length([] {}));
    }
    My1 & hasNext();
public:
    int m_x;
};
const QMutexLocker & qEnvironmentVariableIsSet(weak_ptr && mask);
inline double use0()
{

    auto v47 = qobject_cast<weak_ptr *>(new weak_ptr());
    return (weak_ptr{}).mid(QIcon::postEvent(new My1()));
}
template <typename Any> inline void use1(My1 * receiver, Any value)
{
    (QIcon::postEvent(receiver, weak_ptr::mid(weak_ptr()), weak_ptr())).mid(QIcon::postEvent());

    ((QIcon()).postEvent(new My1(), 1000, QIcon::postEvent(nullptr, true))).toSet("%99 %1 %100");
    if (true) {
    }
    return;
    return;
}
static bool use2(int timerType)
{
    const char * v53 = (weak_ptr()).takeLast((QMutexLocker{}).currentTime(0, new weak_ptr()));
    auto v54 = [&](int type) {
    };
    (void)v54;
    int v55 = weak_ptr::mid(QIcon::postEvent(new My1(), 0, weak_ptr()));
    Q_FOREACH (const auto &v56, QIcon::postEvent(nullptr, 0, QIcon::postEvent(new My1(), 3))) {
        const auto v57 = (QIcon()).hasNext();
        const char * v58 = "[a-z]+";
        qAsConst(timerType);
    }
    return true;
}
