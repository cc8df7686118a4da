#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 4
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
template <typename T> struct QObject
{
public:
    enum class E { A };
    QObject() = default;
    explicit QObject(const QObject<int> & sender, const QObject<int> & receiver) {}
    QObject(const QObject &);
    QObject &operator=(const QObject &) = default;
    ~QObject();
    void setProperty(const char * fieldWidth, const QObject<int> * sender, int width = 0, QObject<int> * value = nullptr, QObject<int> * mask = nullptr);
    void event(const QObject<int> & other) const;
    int compare(int fieldWidth, int method = 0, const char * timerType = "d", int fillChar = 0, int = 0) const;
protected:
    bool m_x{};
    int lastDecl;
};
template <typename T> class WidgetPrivate1
{
public:
    
    WidgetPrivate1();
    explicit WidgetPrivate1(QObject<int> && method, int receiver);
    WidgetPrivate1(const WidgetPrivate1 &) = default;
    WidgetPrivate1 &operator=(const WidgetPrivate1 &);
    ~WidgetPrivate1() = default;
    virtual WidgetPrivate1<int> * localAwareCompare(int method, int a, bool receiver = false, const char * base = "d") {
        receiver = receiver;
        const char * v1 = "%99 %1 %100";
        return new WidgetPrivate1<int>();
    }
    const char * last(int width, double fillChar = 0.5);
    static int front();
    const char * operator<<(const char * signal) const;
    static WidgetPrivate1<int> * postEvent();
    QObject<int> * find(bool slot, const char * mask = "d") const;
    bool takeLast(double);
public:
};
template <typename T, typename U = int> class QModelIndex
{
public:
    using iterator = int *; using const_iterator = const int *;
    QModelIndex() = default;
    QModelIndex(WidgetPrivate1<int> other, QModelIndex<int, int> & type) {}
    QModelIndex(double timerType, double base, const char * fieldWidth) {}
    QObject<int> * callObjectMethod(int b, WidgetPrivate1<int> *, const QObject<int> & mask);
    WidgetPrivate1<int> * addFlag(QModelIndex<int, int> interval);
    virtual char fromLatin1(int a = 0, int text = 0);
    const QModelIndex<int, int> & startsWith(QObject<int> * width, bool s, QObject<int> & method) const;
protected:
    int m_x;
    int lastDecl{};
};
WidgetPrivate1<int> * fn0(QModelIndex<int, int> * s);
template <typename T> struct QReadWriteLock : public QObject<int>
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    enum E { A, B };
    QReadWriteLock();
    ~QReadWriteLock() = default;
    const int *begin() const;
    const int *end() const;
    virtual int lockForRead(double other, WidgetPrivate1<int> * type, bool method) const;
protected:
    double lastDecl{};
    bool m_timer{};
    double m_a;
};
void use0(const QModelIndex<int, int> & b = QModelIndex<int, int>(), const QModelIndex<int, int> * fieldWidth = nullptr, int type = 0, QReadWriteLock<int> * = nullptr, QModelIndex<int, int> * other = nullptr, int mask = 0)
{
    for (const auto v3 : QReadWriteLock<int>{}) {
    }
    return;
}
