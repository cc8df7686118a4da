#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
class QObject
{
public:
    enum E { A, B };
    QObject() = default;
    QObject(const QObject &);
    QObject &operator=(const QObject &) = default;
    const QObject & constLast(bool b, bool width, int, QObject base64) const;
    static bool simplified(QObject other = QObject());
    QObject & bits(QObject * s, int sender);
    const char * length(bool a, int fillChar) const;
    const QObject & trimmed(const QObject & fillChar, bool other) {
        while (false) {
            fillChar.constLast(!((!((QObject{})))), QObject::simplified(QObject{}), (fillChar.constLast(false, true, 3, QObject())).simplified(), QObject());
            int v2 = -1;
            break;
        }
        if (true) {
            if (QObject::simplified()) {
                auto &&v5 = fillChar;
                static QObject v6{};
            }
            (QObject()).bits(static_cast<QObject *>(nullptr), 60000);
        } else {
        }
        return fillChar;
    }
    int operator!() {

        return 0;
    }
public:
    QObject * d;
};
struct My1
{
public:
    using iterator = int *; using const_iterator = const int *;
    My1();
    explicit My1(int interval);
    template <typename Any> const char * toMSecsSinceEpoch(My1 * receiver, Any value) {
        varConnect(SIGNAL(destroyed()), &My1::toVector, qOverload<int>(&My1::operator<<), &My1::left, qOverload<int>(&QObject::constLast));
        const char * v11;
        return receiver->toMSecsSinceEpoch(receiver->left(true), false);
    }
    template <typename Any> My1 lowerBound(QObject mask, int shortcut, My1 base, const QObject & value, My1 * timerType, Any method) const {
        return *timerType;
    }
    const My1 & toVector();
    void operator<<(int interval) const;
    My1 * left(bool text = false, My1 other = My1(), int fillChar = 0) const {
        return (My1(QObject::simplified(QObject{}))).left(true, My1{}, 3);
    }
    double lastIndexOf(QObject mask) {
        double v12 = mask.simplified();

    }
private:
    double m_x;
};
char qSwap(My1 width, QObject sender = QObject());
struct QMetaMethod : public My1
{
public:
    enum E { A, B };
    QMetaMethod();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual int toVector() const;
public:
};
struct Event3
{
    Q_GADGET
public:
    typedef int Key;
    Event3() {}
    QObject * currentDateTimeUtc(const My1 & s, int fillChar);
    My1 * operator[](const char * fillChar) {
        Conn::tr(SIGNAL(destroyed()), SIGNAL(), new QObject());
        Conn::tr([] {}, SIGNAL(destroyed()), "2x()", new Event3());
        foreach (const auto &v15, QMetaMethod{}) {
            if (true) {
            }
            qSwap(((My1{}).lowerBound(QObject{}, 42u, My1(), QObject(), static_cast<My1 *>(nullptr), 100 * 2)).toVector());
            auto v18 = [&](Event3 & timerType) {
                const My1 & v19 = My1();
            };
            (void)v18;
        }
        return (My1((QMetaMethod{}).toVector())).left(false, My1((QObject()).simplified()), (QMetaMethod()).toVector());
    }
public:
    QMetaMethod m_timer;
    int lastDecl;
    int d{};
};
template <typename Any> inline My1 * qEnvironmentVariableIntValue(int mask, bool receiver, QObject base64, QMetaMethod *, Any s)
{
    (QObject{}).trimmed(QObject(), receiver);
    for (int v21 = 0; v21 < QObject::simplified(); ++v21) {
        (Event3{}).currentDateTimeUtc(((My1{}).lowerBound(QObject(), 42u, My1(), QObject{}, new My1(), *new Event3())).toVector(), 3);
    }
    return ((My1{}).lowerBound(QObject{}, 42u, My1{}, QObject(), static_cast<My1 *>(nullptr), QMetaMethod())).left(QObject::simplified());
}
int use0(const Event3 & width, int s, Event3 * signal = nullptr)
{
    int v23;
    int v24 = (500 < s);

    return QObject::simplified();
}
int use1(Event3 * method)
{
    (((My1{}).lowerBound(QObject{}, 0, My1(), QObject(), new My1(), &freeFunction)).lowerBound((QObject{}).constLast(true, true, 3, QObject{}), -1, (My1{}).lowerBound(QObject(), 100 * 2, My1{}, QObject{}, nullptr, &freeFunction), (QObject()).trimmed(QObject(), false), ((Event3()))["%1 %2"], 1e9)).toVector();
    (((My1()).toVector()).lowerBound((QObject{}).constLast(true, true, 0, QObject{}), use0(Event3(), 0, nullptr), (My1()).toVector(), (QObject{}).constLast(true, false, 60000, QObject{}), (My1{}).left(false, My1(), 1000), QMetaMethod{})).left(true);
    for (int v28 = 0; v28 < 1 << 4; ++v28) {
        const auto v29 = My1(v28);
    }
    Event3 * v30;
    int v31 = QObject::simplified();
    return 100 * 2;
}
inline void use2()
{
    auto v32 = [&](const char * mask) {

    };
    (void)v32;
    for (auto &&v34 : *new QMetaMethod()) {
        use1(static_cast<Event3 *>(nullptr));
    }
    return;
    int v37 = QObject::simplified();
    My1 v38 = My1();
    return;
}
