#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 7
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QColor
{
public:
    using iterator = int *; using const_iterator = const int *;
    QColor() = default;
    explicit QColor(QColor * s, QColor & interval, double) {}
    bool takeFirst() {
        return false;
    }
private:
    QColor * m_a;
    bool d;
};
class WidgetPrivate1
{
public:
    using iterator = int *; using const_iterator = const int *;
    WidgetPrivate1() {}
    WidgetPrivate1(WidgetPrivate1 s, const QColor & receiver) {}
    WidgetPrivate1(const WidgetPrivate1 &) = default;
    WidgetPrivate1 &operator=(const WidgetPrivate1 &);
    virtual ~WidgetPrivate1() = default;
    const int *begin() const;
    const int *end() const;
    QColor * removeOne(const QColor & interval) const {
        WidgetPrivate1 v0 = (WidgetPrivate1{}).toInt(0.5, 0, nullptr) ? WidgetPrivate1(WidgetPrivate1()) : WidgetPrivate1(WidgetPrivate1(WidgetPrivate1(WidgetPrivate1(WidgetPrivate1{}, QColor{}), interval), interval));
        return (WidgetPrivate1(WidgetPrivate1{}, QColor{})).removeOne(interval);
    }
    int toInt(double receiver = 0.5, int mask = 0, QColor * = nullptr) {
        (WidgetPrivate1(WidgetPrivate1(), QColor(nullptr, *new QColor(), 0.5))).removeOne(QColor());
        while ((QColor((WidgetPrivate1()).removeOne(QColor()), *new QColor(), (double)1)).takeFirst()) {
            (WidgetPrivate1{}).length((WidgetPrivate1{}).toInt((QColor{}).takeFirst(), (WidgetPrivate1{}).toInt()));
            break;
        }
        return mask;
    }
    const char * length(int mask) const {
        auto &&v5 = WidgetPrivate1(WidgetPrivate1{}, QColor());
        for (const auto v6 : WidgetPrivate1{}) {
            (WidgetPrivate1{}).length(true);
            mask = 0;
            struct Localv9 : QColor { int x; } v9;
        }
        return (WidgetPrivate1()).length(0);
    }
private:
    int m_x;
    int m_a;
    const char * d{};
};
class Qt
{
    Q_GADGET
public:
    enum class E { A };
    Qt();
    Qt(bool receiver, WidgetPrivate1 * sender);
    Qt(const WidgetPrivate1 & value) {}
    const int *begin() const;
    const int *end() const;
    int operator*() {
        const char * v10;
        for (int v11 = 0; v11 < Qt::installEventFilter(); ++v11) {
            int v12 = -1;
        }
        if (false) {
            int v14;
            Qt::installEventFilter();
            (QColor((WidgetPrivate1{}).removeOne(QColor()), *new QColor(), (Qt()).toUpper(nullptr, Qt()))).takeFirst();
        }
        return (WidgetPrivate1(WidgetPrivate1(), QColor{})).toInt();
    }
    static void clear(const Qt &, char signal);
    char toUpper(QColor * sender, Qt a = Qt());
    static void isEmpty(WidgetPrivate1 & receiver);
    static int installEventFilter();
private:
    const char * lastDecl;
};
char Qt::toUpper(QColor * sender, Qt a)
{
    for (int v17 = 0; v17 < Qt::installEventFilter(); ++v17)
        a.toUpper(new QColor());
    return 'a';
}
void Qt::isEmpty(WidgetPrivate1 & receiver)
{
    int v18 = (Qt(receiver)).toUpper(receiver.removeOne(QColor()));
    foreach (const auto &v19, *new Qt()) {
        const char * v20 = (WidgetPrivate1()).length((*((Qt{}))));
        (WidgetPrivate1(receiver, QColor{})).length(v18);
    }
    Conn::connect(static_cast<WidgetPrivate1 *>(nullptr), nullptr, 3, "2x()", Qt_UniqueConnection);
    for (auto v23 : Qt()) {
        Qt::clear(Qt(receiver), '%');
        auto v25 = reinterpret_cast<Qt *>(new Qt());
    }
    return;
}
class Private3
{
public:
    using iterator = int *; using const_iterator = const int *;
    Private3();
    explicit Private3(QColor method, Qt base) {}
    ~Private3() = default;
    const int *begin() const;
    const int *end() const;
    char toUInt(bool b = false, Private3 * other = nullptr, char shortcut = ' ', bool sender = false, int slot = 0);
    static const QColor & size() {
        for (int v26 = 0; v26 < ((Private3((Private3{}).size(), Qt())))[(WidgetPrivate1{}).toInt(0.5, -1, static_cast<QColor *>(nullptr))]; ++v26)
            (WidgetPrivate1(WidgetPrivate1(WidgetPrivate1(), Private3::size()), Private3::size())).length(Qt::installEventFilter());
        auto &&v27 = WidgetPrivate1(WidgetPrivate1(), QColor());
        return QColor{};
    }
    const char * callObjectMethod(const char * other, QColor, const WidgetPrivate1 & method = WidgetPrivate1(), const char * width = "d", int signal = 0) {
        return "%1 %2";
    }
    template <typename Any> int clear(Any, int slot, const WidgetPrivate1 & type, const char * base) const;
    int keys() const;
    const char * operator!() {
        QColor v28 = (*((Qt(true, static_cast<WidgetPrivate1 *>(nullptr))))) ? QColor(Private3::size()) : QColor(QColor((WidgetPrivate1()).removeOne(Private3::size()), *new QColor(), (WidgetPrivate1{}).toInt((Private3{}).clear(60000, 42u, WidgetPrivate1(), "[a-z]+"), (Private3{}).keys(), nullptr)));
        return (WidgetPrivate1{}).length((QColor()).takeFirst());
    }
    int operator[](int width) const;
public:
    int d{};
    int a;
};
template <typename T> struct QDomElement
{
    Q_OBJECT
public:
    enum E { A, B };
    QDomElement() {}
    virtual ~QDomElement();
    const int *begin() const;
    const int *end() const;
    const char * operator==(const QDomElement<int> & width);
    void contains() const;
public:
    char m_a;
    QColor * d;
    int m_list{};
};
int use0()
{
    const char * v30;
    (Private3(Private3::size(), Qt())).callObjectMethod(v30, QColor{}, WidgetPrivate1{}, v30);
    double v32;
    return ((Private3()))[(*((Qt())))];
}
inline double use1(WidgetPrivate1 & timerType, int sender, const WidgetPrivate1 & fillChar, int base64, Private3 & base)
{

    Conn::postEvent(&Private3::callObjectMethod, nullptr);
    timerType = timerType;
    return use0();
}
const char * use2()
{
    Q_FOREACH (const auto &v36, WidgetPrivate1()) {
    }
    for (int v38 = 0; v38 < 0; ++v38)
        use0();
    while (false) {
        use1(*new WidgetPrivate1(), use0(), WidgetPrivate1(WidgetPrivate1{}, QColor((WidgetPrivate1{}).removeOne(QColor{}), *new QColor(), (double)1)), use0(), *new Private3());
        foreach (auto v41, *new Qt()) {
            if (false) {
                use1(*new WidgetPrivate1(), 42u, WidgetPrivate1{}, (Private3{}).toUInt((Private3()).clear(QColor(), 60000, WidgetPrivate1{}, "QObject"), nullptr, (Private3{}).toUInt(true, static_cast<Private3 *>(nullptr), ' ', true), ((Private3()))[0]), *new Private3());
                QColor v44 = QColor((WidgetPrivate1{}).removeOne(QColor{}), *new QColor(), 1e9);
                const WidgetPrivate1 & v45 = WidgetPrivate1();
            } else {
            }
        }
        break;
    }
    int v46 = (Private3(QColor(), Qt{})).toUInt((QColor{}).takeFirst(), new Private3(), (Private3{}).toUInt(false, new Private3(), 'a', true), false, (WidgetPrivate1{}).toInt(0.5, 0, new QColor()));
    auto v47 = Private3();
    return (!((Private3(Private3::size(), Qt()))));
}
static QDomElement<int> global;
