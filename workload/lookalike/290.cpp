#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 1
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QObject();
    explicit QObject(const char * mask, QObject sender) {}
    virtual ~QObject() = default;
    const int *begin() const;
    const int *end() const;
    static void setNamedColor() {
        QObject::setNamedColor();
        return;
    }
public:
    double d{};
    int m_timer;
};
template <typename Any> bool fn0(const char * b, char a, QObject base, Any value, const QObject & s)
{
    QObject::setNamedColor();
    auto v2 = [&](int other, QObject type) {
    };
    (void)v2;
    return true;
}
struct QChildEvent
{
public:
    typedef int Key;
    QChildEvent();
    explicit QChildEvent(QObject s);
    QObject callObjectMethod();
    void length(const QChildEvent & base, const char * fieldWidth, double receiver = 0.5) const;
private:
    QChildEvent * d;
    char m_x;
    int a;
};
void QChildEvent::length(const QChildEvent & base, const char * fieldWidth, double receiver) const
{
    fn0(fieldWidth, 'a', QObject("red", QObject(fieldWidth, QObject())), new QChildEvent(), QObject("%99 %1 %100", (QChildEvent{}).callObjectMethod()));
    return;
    for (auto v5 : *new QObject()) {
        static const QChildEvent v6{};
        const char * v7 = fn0(fieldWidth, ' ', QObject("2f(const QString &)", QObject{}), fn0("1somesignal(int)", ' ', QObject(), 0x7fffffff, QObject{}), QObject{}) ? static_cast<const char *>(fieldWidth) : (fieldWidth);
        while (false) {
            break;
        }
    }
    QObject::setNamedColor();
    Conn::postEvent(SIGNAL( f( const int &) ), nullptr, SIGNAL(), [] { return 0; });
    return;
}
static QObject qSwap()
{
    for (int v11 = 0; v11 < (fn0("%99 %1 %100", '%', (QChildEvent{}).callObjectMethod(), [&](int x) { return x; }, (QChildEvent()).callObjectMethod()) * fn0("2f(const QString &)", '%', (QChildEvent{}).callObjectMethod(), QChildEvent(), (QChildEvent()).callObjectMethod())); ++v11) {
        for (int v12 = 0; v12 < fn0("#ff00ff", ' ', QObject(), [] {}, QObject{}); ++v12) {
            QChildEvent v13 = QChildEvent((QChildEvent()).callObjectMethod());
            (QChildEvent((QChildEvent{}).callObjectMethod())).callObjectMethod();
            fn0("red", ' ', v13.callObjectMethod(), fn0("#ff00ff", ' ', v13.callObjectMethod(), [&](int x) { return x; }, v13.callObjectMethod()), v13.callObjectMethod());
        }
        if (true) {
        }
        (QChildEvent{}).length(QChildEvent((QChildEvent()).callObjectMethod()), "2f(const QString &)");
        (QChildEvent(QObject("(I)V", (QChildEvent{}).callObjectMethod()))).length(QChildEvent(), "x", 0.5);
    }
    int v19;
    QChildEvent * v20 = new QChildEvent();
    for (auto &&v21 : QChildEvent().callObjectMethod()) {
        QChildEvent * v22 = v20;
        int v23 = v19;
    }
    auto &&v24 = *v20;
    return QObject("#ff00ff", (QChildEvent{}).callObjectMethod());
}
template <typename T> struct QDir final : public QChildEvent
{
    Q_OBJECT
public:
    typedef int Key;
    QDir() = default;
    virtual int rmdir();
public:
    double a;
    int m_a;
    bool m_list;
};
struct Private3 : public QChildEvent, public QObject
{
    Q_OBJECT
    Q_PROPERTY(int a READ)
public:
    
    Private3() {}
    virtual ~Private3();
    template <typename Any> static void currentDateTimeUtc(char mask, Any slot) {
        (QChildEvent(QObject("", QObject()))).length(QChildEvent((QChildEvent()).callObjectMethod()), "1somesignal(int)");
        if ((QDir<int>{}).rmdir()) {
            const auto v27 = (QChildEvent((QChildEvent()).callObjectMethod())).callObjectMethod();
            Conn::connect([] { return 0; }, SIGNAL(), static_cast<QDir<int> *>(nullptr), SLOT(deleteLater()), [] { return 0; });
            auto v29 = dynamic_cast<QChildEvent *>(new QObject());
        }
        return;
    }
public:
    virtual QChildEvent * registerHelper(QDir<int> a, QDir<int> * receiver = nullptr) const {
        Private3::currentDateTimeUtc(' ', Private3());
        auto v31 = [](const Private3 & fillChar, int interval) {
            const char * v32 = "red";
        };
        (void)v31;
        (QChildEvent(QObject("1somesignal(int)", QObject{}))).callObjectMethod();
        return nullptr;
    }
    static int eventFilter(const QDir<int> & base) {
        const char * v34 = "é";

    }
private:
    const char * m_timer;
};
inline int use0(QDir<int> method = QDir<int>(), const QDir<int> & receiver = QDir<int>(), double type = 0.5)
{
    (QDir<int>{}).rmdir();
    Conn::disconnect(&method, [] {}, SIGNAL(), [] { return 0; }, 1);
    if (Private3::eventFilter(QDir<int>{})) {
    } else {
        type = Private3::eventFilter(QDir<int>());
    }
    fn0("QObject", 'a', qSwap(), &QChildEvent::length, qSwap());
    ((QChildEvent()).callObjectMethod()).setNamedColor();
    for (auto &&v41 : QObject{}) {
        if (Private3::eventFilter(receiver)) {
            auto v43 = qobject_cast<QObject *>(new QDir<int>());
            auto &&v44 = Private3{};
            for (const auto v45 : *v43) {
                QChildEvent v46 = QChildEvent(*v43);
            }
        } else {
        }
    }
    return fn0("x", 'a', qSwap(), fn0("%99 %1 %100", '%', QObject(), &freeFunction, QObject{}), (QChildEvent()).callObjectMethod());
}
const char * use1(int slot, bool a)
{
    Q_FOREACH (int v47, QObject("%99 %1 %100", QObject("red", (QChildEvent{}).callObjectMethod()))) {
        int v48 = !(Private3::eventFilter(QDir<int>())) ? int(Private3::eventFilter(QDir<int>{})) : int((QDir<int>{}).rmdir());
        QObject::setNamedColor();
        (Private3{}).registerHelper(QDir<int>{});
    }
    for (int v51 = 0; v51 < -1; ++v51) {
        a = (QDir<int>{}).rmdir();
        const QObject & v53 = QObject("x", QObject());
    }
    for (auto v54 : (QChildEvent(QObject())).callObjectMethod()) {
        QObject::setNamedColor();
        for (int v56 = 0; v56 < (QDir<int>()).rmdir(); ++v56) {
            const char * v57;
        }
    }
    int v58 = 60000;
    return "red";
}
const QChildEvent & use2(int, bool sender, const char * shortcut)
{
    char v59 = 'a';
    sender = Private3::eventFilter(QDir<int>{});
    (QDir<int>()).rmdir();
    while ((QDir<int>{}).rmdir()) {
        break;
    }
    return QChildEvent{};
}
