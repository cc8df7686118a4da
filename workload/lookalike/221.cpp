#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
class QSizePolicy
{
public:
    enum E { A, B };
    QSizePolicy();
    const char * setNamedColor(int s = 0, int value = 0, QSizePolicy = QSizePolicy(), bool a = false, int = 0) const {
        (QSizePolicy()).setNamedColor();
        return (QSizePolicy{}).setNamedColor(s, s);
    }
    template <typename Any> void addAction(Any signal, QSizePolicy fieldWidth) const {
        fieldWidth = QSizePolicy{};
        fieldWidth = QSizePolicy();
        return;
    }
    virtual QSizePolicy first(const char * slot, const char * width, QSizePolicy * other, QSizePolicy value, bool type) {
        return (other->first("%1 %2", "%1 %2", new QSizePolicy(), QSizePolicy(), false)).first("red", width, other, other->first("a\0b", "[a-z]+", static_cast<QSizePolicy *>(nullptr), QSizePolicy{}, false), true);
    }
    const char * tr(QSizePolicy * base64, QSizePolicy timerType = QSizePolicy(), QSizePolicy * sender = nullptr);
protected:
    int m_list;
    int m_timer;
};
template <typename T> class QPersistentModelIndex
{
public:
    enum E { A, B };
    QPersistentModelIndex();
    explicit QPersistentModelIndex(QSizePolicy * timerType) {}
    virtual ~QPersistentModelIndex() = default;
    void length(double fillChar);
    virtual const QSizePolicy & getCmyk(QSizePolicy * a, QPersistentModelIndex<int> *);
public:
    const char * m_a;
    char m_x{};
};
int qEnvironmentVariableIsSet(const char * slot, const char * s);
inline bool use0()
{

    if (false) {
    }
    return true;
}
inline int use1(int text, const QPersistentModelIndex<int> & slot)
{
    Conn::disconnect();

    auto v8 = static_cast<QSizePolicy *>(static_cast<QSizePolicy *>(nullptr));
    v8->first(v8->setNamedColor(), "x", new QSizePolicy(), v8->first("#ff00ff", v8->tr(new QSizePolicy(), QSizePolicy{}), v8, v8->first("", "(I)V", static_cast<QSizePolicy *>(nullptr), QSizePolicy{}, true), false), !(text));

    Conn::postEvent(nullptr, [] {}, [] { return 0; }, &QSizePolicy::tr);
    return (text == text);
}
