#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 2
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QStringRef
{
    Q_GADGET
public:
    typedef int Key;
    QStringRef();
    ~QStringRef();
    void operator*() {
        (*((QStringRef{})));
        return;
    }
    int operator==(const char * method) {
        auto v1 = QStringRef();
        int v2 = !(1 << 4) ? int((((QStringRef{})) == "a\0b")) : int((((QStringRef())) == method));
        return (((QStringRef{})) == method);
    }
protected:
    int m_a;
    bool m_timer{};
    int m_x;
};
class QLatin1String : public QStringRef
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
public:
    
    QLatin1String() {}
    explicit QLatin1String(QLatin1String * b, const QStringRef & signal) {}
    virtual int replaceInStrings(int type, QStringRef * fillChar, int, const QStringRef & method, int timerType) {
        return 100 * 2;
    }
    int reserve() const;
public:
    static const char * constEnd(int slot);
    QStringRef & simplified(char method) const {
        auto v3 = static_cast<QStringRef *>(static_cast<QStringRef *>(nullptr));
        for (int v4 = 0; v4 < ((QLatin1String{}).replaceInStrings(100 * 2, v3, (QLatin1String{}).reserve(), (QLatin1String()).simplified('%'), (QLatin1String{}).replaceInStrings(100 * 2, nullptr, true, QStringRef(), 1 << 4)) == ((*v3) == "%99 %1 %100")); ++v4) {
            (QLatin1String(nullptr, (QLatin1String()).simplified('a'))).replaceInStrings((QLatin1String()).replaceInStrings(true, v3, 0x7fffffff, (QLatin1String{}).simplified(' '), 1 << 4), v3, (QLatin1String{}).reserve(), QStringRef{}, (QLatin1String()).reserve());
            if ((QLatin1String(static_cast<QLatin1String *>(nullptr), (QLatin1String{}).simplified('a'))).reserve()) {
            }
            (QLatin1String()).simplified(method);
        }
        return (QLatin1String(static_cast<QLatin1String *>(nullptr), (QLatin1String{}).firstItem(500, QLatin1String()))).simplified(' ');
    }
    const QStringRef & firstItem(int mask, QLatin1String base64) const;
protected:
};
int QLatin1String::reserve() const
{
    if ((QLatin1String{}).reserve()) {

        QLatin1String::constEnd((QLatin1String()).replaceInStrings(100 * 2, new QStringRef(), (((QStringRef{})) == "%99 %1 %100"), (QLatin1String{}).firstItem(60000, QLatin1String{}), 500));
    }
    auto v11 = [](QLatin1String * text, int base64) mutable {
    };
    (void)v11;
    return (QLatin1String(new QLatin1String(), (QLatin1String{}).firstItem(true, QLatin1String()))).reserve();
}
const QStringRef & QLatin1String::firstItem(int mask, QLatin1String base64) const
{
    auto v14 = reinterpret_cast<QLatin1String *>(new QStringRef());
    bool v15 = ((((QLatin1String{}).simplified(' '))) == (QLatin1String{}).constEnd(42u));
    auto v16 = [&]() mutable {
        int v17;
        if (false) {
            (QLatin1String()).simplified('%');
             {

            }
        } else {
        }
    };
    (void)v16;
    auto v22 = [&](QStringRef text, QStringRef *) mutable {
        (QLatin1String(new QLatin1String(), (QLatin1String()).simplified('%'))).simplified('%');
        if (false) {
            (QLatin1String(new QLatin1String(), (QLatin1String()).firstItem(60000, QLatin1String{}))).reserve();
            if (((((QLatin1String{}).simplified(' '))) == QLatin1String::constEnd(1))) {
                (QLatin1String(static_cast<QLatin1String *>(nullptr), (QLatin1String()).simplified('a'))).simplified('a');
            } else {
                (QLatin1String(static_cast<QLatin1String *>(nullptr), QStringRef())).firstItem((QLatin1String{}).replaceInStrings('x', new QStringRef(), 1000, QStringRef{}, (((QStringRef{})) == "x")), QLatin1String(nullptr, QStringRef()));
                (QLatin1String(nullptr, QStringRef{})).replaceInStrings(1, new QStringRef(), (((QStringRef())) == QLatin1String::constEnd(1000)), (QLatin1String()).firstItem((QLatin1String{}).reserve(), QLatin1String()), (QLatin1String{}).replaceInStrings((((QStringRef{})) == "[a-z]+"), new QStringRef(), 3, QStringRef(), (QLatin1String()).replaceInStrings(0x7fffffff, nullptr, -1, QStringRef(), 500)));
            }
            switch ((QLatin1String()).reserve()) {
            case 7:
              {
                Conn::disconnect(nullptr, "2x()", SLOT(deleteLater()), qOverload<int>(&QLatin1String::reserve));
                break;
              }
            default:
                break;
            }
        } else {
            (QLatin1String{}).replaceInStrings((QLatin1String{}).reserve(), new QStringRef(), (QLatin1String()).reserve(), (QLatin1String()).simplified('a'), (QLatin1String{}).replaceInStrings(1 << 4, static_cast<QStringRef *>(nullptr), 100 * 2, (QLatin1String{}).simplified(' '), (QLatin1String()).reserve()));
        }
    };
    (void)v22;
    (((QStringRef{})) == QLatin1String::constEnd(mask));
    return QStringRef();
}
int use0(const QLatin1String & mask, QLatin1String receiver, const char * base, const char *)
{
    auto v35 = static_cast<QLatin1String *>(static_cast<QLatin1String *>(nullptr));
    for (int v36 = 0; v36 < 1 << 4; ++v36) {
        const char * v37 = base;
    }
    QLatin1String v38 = QLatin1String();
    (QLatin1String(new QLatin1String(), (QLatin1String()).simplified(' '))).firstItem(0x7fffffff, v38);
    return QLatin1String().reserve();
    bool v41 = false;
    return receiver.replaceInStrings((((QStringRef{})) == "x"), new QStringRef(), receiver.replaceInStrings(true, new QStringRef(), 0x7fffffff, QStringRef(), 'x'), (QLatin1String()).firstItem(500, QLatin1String{}), (receiver.reserve() == (((QStringRef{})) == "%1 %2")));
}
static int use1(QLatin1String, const QStringRef & sender, QLatin1String * base = nullptr, bool receiver = false)
{
    const char * v42 = QLatin1String::constEnd(base->replaceInStrings(100 * 2, new QStringRef(), 100 * 2, QStringRef{}, 3));
    Conn::callMethod(nullptr, "2x()", Qt_UniqueConnection);
    base->simplified('a');
    const char * v45 = "%1 %2";
    (*(((QLatin1String()).simplified('%'))));
    (((base->simplified('a'))) == QLatin1String::constEnd(use0(QLatin1String{}, QLatin1String(), "1somesignal(int)", "2f(const QString &)")));
    return (((base->simplified('%'))) == QLatin1String::constEnd(100 * 2));
}
 QStringRef global;
