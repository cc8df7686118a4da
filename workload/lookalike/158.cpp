#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
class QDate final
{
    Q_OBJECT
    Q_PROPERTY(x)
public:
    
    QDate();
    ~QDate();
    void operator<<(int interval) const;
public:
    char m_x;
    bool m_timer;
};
struct QItemSelection
{
    Q_GADGET
    Q_PROPERTY(int)
public:
    typedef int Key;
    QItemSelection();
    QItemSelection(const QItemSelection &) = default;
    QItemSelection &operator=(const QItemSelection &);
    virtual ~QItemSelection() = default;
    template <typename Any> int lowerBound(Any interval) const;
public:
    virtual void replace() {
        if ((QItemSelection{}).lowerBound([&](int x) { return x; })) {
        } else {
        }
        (QItemSelection()).constData();
        return;
    }
    bool constData() {
        (QItemSelection()).replace();
        auto v5 = (QDate *)(static_cast<QDate *>(nullptr));
        return QItemSelection::upperBound(QItemSelection(), "(I)V");
    }
Q_SIGNALS:
    void mkdir() {
        Conn::addAction("2x()", SIGNAL(), SLOT(deleteLater()), nullptr);
        bool v7;
        return;
    }
    template <typename Any> static bool upperBound(const QItemSelection & type, Any shortcut);
protected:
};
static const QDate & use0()
{
    auto v9 = static_cast<QDate *>(static_cast<QDate *>(nullptr));
    const char * v11 = "red";
    v11 = v11;
    return QDate{};
}
template <typename Any> void use1(QItemSelection * width, int interval, QDate * text, Any shortcut, QItemSelection = QItemSelection())
{
    int v13 = interval;
    QDate v14 = width->lowerBound(&QItemSelection::replace) ? QDate(*text) : QDate(*text);
    use0();
    return;
}
