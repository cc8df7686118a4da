#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
class QFileInfo final
{
    Q_GADGET
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    enum E { A, B };
    QFileInfo();
    explicit QFileInfo(const char * mask);
signals:
    double value(QFileInfo text, int receiver) const;
    const char * operator*() const;
public:
    int m_x;
};
double QFileInfo::value(QFileInfo text, int receiver) const
{
    (text).value(text, receiver);
    const auto v2 = QFileInfo((*(text)));
    return 1e9;
}
const char * QFileInfo::operator*() const
{
    (*((QFileInfo((*((QFileInfo{})))))));
    for (int v4 = 0; v4 < 1; ++v4) {
        QFileInfo * v5 = new QFileInfo();
    }
    return "a\0b";
}
struct WidgetPrivate1
{
public:
    struct Data { int a; }; friend struct Data;
    WidgetPrivate1() {}
    virtual ~WidgetPrivate1();
    const WidgetPrivate1 & reset(int) {
        int v6 = 42u;
        return WidgetPrivate1();
    }
    const char * lowerBound() {
        const char * v7 = (*((QFileInfo{})));

        return (WidgetPrivate1{}).reserve((1 == 100 * 2), false, (*((QFileInfo()))));
    }
    virtual const char * reserve(int, bool method, const char * mask) const;
    void lock(const char * base) {
        return;
    }

    void localAwareCompare(const char * b);
public:
    int lastDecl{};
};
const char * WidgetPrivate1::reserve(int, bool method, const char * mask) const
{
    auto v10 = [&](int other) mutable {
        double v11 = (double)1;
    };
    (void)v10;

    if (method) {
        WidgetPrivate1 * v14 = new WidgetPrivate1();
        int v15 = (3 * (0 & 1));
        v14->lowerBound();
    }
    for (int v17 = 0; v17 < (1 << 4 & ((42u < 42u) == 1 << 4)); ++v17) {
        int v18 = 500;

        auto v20 = WidgetPrivate1{};
        (*((QFileInfo{})));
    }
    return "";
}
static void use0()
{

    return;
}
inline char use1(const QFileInfo & a, const char * receiver, const char * sender)
{
    if (true) {
    } else {
        bool v24 = false;
    }

    return ' ';
}
int use2()
{
    if (true) {

    } else {
        const char * v28 = "QObject";
    }

    return use1(QFileInfo("QObject"), (WidgetPrivate1()).lowerBound(), (*((QFileInfo{}))));
}
static WidgetPrivate1 global;
