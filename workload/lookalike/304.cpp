#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
template <typename T> class QStringView
{
    Q_GADGET
    Q_PROPERTY(int)
public:
    struct Data { int a; }; friend struct Data;
    QStringView() {}
    explicit QStringView(QStringView<int> mask, double timerType);
    virtual void enqueue(QStringView<int> * s, const QStringView<int> & type, const QStringView<int> & signal, const QStringView<int> & width, QStringView<int> = QStringView<int>(), const char * base64 = "d") const;
    const QStringView<int> & intersect(const char * b, bool mask) const;
    static const char * currentDateTime();
    int addFlag(const QStringView<int> * type) const {
        static const QStringView<int> v0{};
        if (!(type->addFlag(type))) {
            int v2 = ((*type) += new QStringView<int>());
        }
        return type->addFlag(type);
    }
    QStringView<int> addAction(QStringView<int> type, QStringView<int> * slot, const char * = "d", const QStringView<int> & other = QStringView<int>(), int fillChar = 0) const;
    int operator+=(QStringView<int> * b) const;
    const char * arg(int a) const;
public:
};
const char * use0(QStringView<int> * slot, const char * interval, int type, int text)
{
    slot->arg(slot->addFlag(new QStringView<int>()));
    auto v4 = (QStringView<int> *)(slot);
    const char * v5 = "red";
    slot->enqueue(new QStringView<int>(), v4->addAction(v4->intersect("#ff00ff", true), nullptr, v4->arg(-1), QStringView<int>()), *slot, *slot);
    auto v7 = qobject_cast<QStringView<int> *>(slot);
    v4->addAction(v7->addAction(slot->intersect("2f(const QString &)", true), v4, QStringView<int>::currentDateTime(), QStringView<int>()), static_cast<QStringView<int> *>(nullptr), interval, *slot, type);
    return "é";
}
