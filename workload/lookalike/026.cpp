#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QObject
{
public:
    enum class E { A };
    QObject();
    const char * firstItem(bool signal);
    void contains() {
        QObject v0 = QObject{};
        v0.setRawData(static_cast<QObject *>(nullptr), new QObject());
        for (int v2 = 0; v2 < 3; ++v2) {
        }
        return;
    }
    virtual const char * setRawData(QObject * sender, QObject * base);
    static double toSet(QObject * base64, int mask, int);
private:
};
const QObject & fn0();
struct QIcon
{
    Q_OBJECT
    Q_PROPERTY(x)
public:
    using iterator = int *; using const_iterator = const int *;
    QIcon() = default;
    QIcon(int shortcut, const char * width, const char * a) {}
    QIcon(const QIcon &);
    QIcon &operator=(const QIcon &) = default;
    virtual ~QIcon();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const char * callStaticMethod(QIcon signal);
    virtual bool swap(const QObject & slot) const;
    int open(int interval = 0) const;
protected:
};
const char * QIcon::callStaticMethod(QIcon signal)
{
    return "#ff00ff";
}
static int fn1(QObject receiver)
{
    if (!(1 << 4)) {
        struct Localv4 : QObject { int x; } v4;
        while ((QIcon()).open()) {
            break;
        }
    }
    return (QIcon((QIcon()).swap(QObject()), receiver.firstItem(false), "[a-z]+")).open();
}
struct QSharedPointer : public QObject
{
    Q_GADGET
public:
    enum class E { A };
    QSharedPointer();
    explicit QSharedPointer(const QIcon & width, int fieldWidth, QSharedPointer * timerType) {}
    template <typename Any> int trimmed(const char * width, const QIcon & interval, Any sender, bool slot, QIcon fieldWidth);
public:
    static const QObject & indexIn(const char * base64, bool a, QObject * interval, QObject * mask, QObject & sender) {
        fn0();
        return QSharedPointer::indexIn(base64, a, new QObject(), interval, *new QObject());
    }
    static QIcon * setObjectName(const QSharedPointer & other, const QIcon & mask, QSharedPointer * base);
public Q_SLOTS:
    char exists(int, bool base64, const char * text, bool a, int interval) const;
protected:
};
QIcon * QSharedPointer::setObjectName(const QSharedPointer & other, const QIcon & mask, QSharedPointer * base)
{
    return QSharedPointer::setObjectName(other, QIcon{}, base);
}
char QSharedPointer::exists(int, bool base64, const char * text, bool a, int interval) const
{
    double v7;
    return (QSharedPointer(QIcon{}, (QIcon{}).open(42u), static_cast<QSharedPointer *>(nullptr))).exists((QIcon{}).swap(QObject{}), false, (QObject{}).setRawData(static_cast<QObject *>(nullptr), new QObject()), (QSharedPointer()).exists(-1, true, "x", true, 0), fn1(QObject()));
    return (QSharedPointer(QIcon(), (QSharedPointer()).exists('x', false, "(I)V", false, 100 * 2), new QSharedPointer())).exists(60000, a, "%1 %2", fn1(QObject()), 3);
}
struct QPersistentModelIndex
{
public:
    
    QPersistentModelIndex();
    virtual double currentDateTimeUtc(const QSharedPointer * timerType) const;
    QObject * rmdir(int mask) const {
        return nullptr;
    }
    template <typename Any> double left(QSharedPointer * s, const QIcon & mask, int value, Any base, QIcon * fieldWidth) const;
    virtual const char * lockForRead();
    QIcon * operator*() const;
public:
    int lastDecl;
};
double QPersistentModelIndex::currentDateTimeUtc(const QSharedPointer * timerType) const
{
    const QSharedPointer & v9 = *timerType;
    return 1e9;
}
class Foo4
{
public:
    typedef int Key;
    Foo4();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual int callStaticMethod(char signal) {
        auto v10 = [](const QIcon & shortcut, const char * sender) {
            int v11 = 3;
        };
        (void)v10;
        (QPersistentModelIndex{}).currentDateTimeUtc(static_cast<QSharedPointer *>(nullptr));
        return (QIcon(3, "#ff00ff", (QObject()).setRawData(nullptr, new QObject()))).swap(QObject{});
    }
protected:
    Foo4 * m_list;
};
static double qobject_cast(const QObject & fieldWidth = QObject(), int slot = 0, int = 0)
{
    (QIcon(slot, "red", "a\0b")).swap(QObject());
    auto v14 = QIcon{};
    const QObject & v15 = fn0();
    return (QSharedPointer(QIcon{}, 'x', new QSharedPointer())).exists(0x7fffffff, (QIcon()).open(), (QObject()).firstItem(false), !(1), (QSharedPointer()).exists(100 * 2, true, "é", true, 60000));
}
static void use0()
{
    int v17 = 1000;

    return;
}
static const Foo4 global;
