#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);

    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QObject() {}
    virtual ~QObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static const char * installEventFilter();
protected:
    int m_a;
    bool lastDecl{};
    int m_timer;
};
template <typename T, typename U = int> struct QRegularExpression
{
public:
    enum class E { A };
    QRegularExpression() {}
    virtual int globalMatch(int shortcut, QRegularExpression<int, int> * b) const;
    const char * operator*() const;
    static const QObject & addAction();
    const char * removeOne();
    QRegularExpression<int, int> firstItem(int width, char a = ' ') const;
    bool lowerBound(bool method);
    QRegularExpression<int, int> swap(int shortcut) {
        auto v0 = qobject_cast<QRegularExpression<int, int> *>(static_cast<QObject *>(nullptr));

        return QRegularExpression<int, int>{};
    }
public:
};
static const QObject & qBound(double fillChar, QObject * other)
{
    const char * v2 = "(I)V";
    auto v3 = qobject_cast<QRegularExpression<int, int> *>(new QRegularExpression<int, int>());
    return ((QRegularExpression<int, int>()).firstItem(true)).addAction();
}
bool use0(QObject & s, int mask, const QObject & timerType, const char * sender, QRegularExpression<int, int> * signal)
{
    static QRegularExpression<int, int> v4{};
    (signal->firstItem(1 << 4, ' ')).swap(mask);

    qBound(signal->lowerBound(true), &s);
    return QRegularExpression<int, int>().globalMatch(signal->lowerBound(false), signal);
}
