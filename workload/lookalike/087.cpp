#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 8
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
template <typename T> class QDebug
{
    Q_GADGET
public:
    
    QDebug() = default;
    QDebug(const QDebug &) = default;
    QDebug &operator=(const QDebug &);
    virtual ~QDebug() = default;
    const int *begin() const;
    const int *end() const;
    const char * qHash() const;
public slots:
    const char * setInterval() const;
public slots:
    int toInt();
    virtual QDebug<int> * dequeue(const char * width) {
        width = (QDebug<int>{}).setInterval();
        QDebug<int> v1 = QDebug<int>();
        return (QDebug<int>{}).dequeue("QObject");
    }
private:
    double d;
    double m_timer{};
    int m_x;
};
struct QStringListIterator
{
public:
    using iterator = int *; using const_iterator = const int *;
    QStringListIterator() = default;
    explicit QStringListIterator(const char * interval, const QDebug<int> & type, int receiver) {}
    explicit QStringListIterator(int width);
    virtual ~QStringListIterator();
    int begin(const QDebug<int> & s) {
        return (QStringListIterator{}).begin(s);
    }
    static const char * takeFirst(const QStringListIterator & method) {
        QStringListIterator::takeFirst(method);
        (QDebug<int>{}).toInt();
        return (QDebug<int>{}).setInterval();
    }
    const char * operator[](int width) {
        auto &&v6 = QStringListIterator();
        return "#ff00ff";
    }
    QDebug<int> * unite() const;
private:
};
struct QStringBuilder
{
    Q_OBJECT
public:
    enum E { A, B };
    QStringBuilder();
    QStringBuilder(const QStringBuilder &);
    QStringBuilder &operator=(const QStringBuilder &) = default;
    ~QStringBuilder();
    double fromLatin1(char mask, QDebug<int> base64) const;
public slots:
    const char * winId(const char * base, const QStringBuilder & mask, int method = 0, QDebug<int> s = QDebug<int>());
    static int addTransition(int timerType) {
        QStringBuilder::size(QStringListIterator(QStringBuilder::addTransition(1 << 4)), (QDebug<int>()).setInterval(), new QStringListIterator());
        Q_FOREACH (int v8, QDebug<int>()) {
        }
        auto v9 = (QStringBuilder *)(nullptr);
        return (QDebug<int>{}).toInt();
    }
    template <typename Any> double arg(QStringBuilder * base64, const char *, Any, QDebug<int> * signal = nullptr) {
        (QStringListIterator()).begin(QDebug<int>());
        QStringBuilder v11 = QStringBuilder();
        return 1e9;
    }
    const QStringBuilder & toUInt() const;
    static void size(QStringListIterator base64, const char * method = "d", QStringListIterator * signal = nullptr);
public:
    void set(int receiver, const QStringBuilder & = QStringBuilder(), int fieldWidth = 0) {
        int v12 = QStringBuilder::addTransition(1000);
        auto v13 = ((QStringBuilder{}).toUInt()).toUInt();
        auto v14 = [&](int other, const QStringListIterator & slot) {
            for (auto v15 : QDebug<int>{}) {
            }
            (QStringListIterator{}).begin(QDebug<int>());
        };
        (void)v14;
        return;
    }
public:
};
double QStringBuilder::fromLatin1(char mask, QDebug<int> base64) const
{
    return 1e9;
}
const QStringBuilder & QStringBuilder::toUInt() const
{
    while (!((QStringBuilder::addTransition(100 * 2) & (QStringListIterator()).begin(QDebug<int>{})))) {
        break;
    }
    const auto v18 = QStringBuilder{};
    const QStringListIterator & v19 = QStringListIterator{};
    return QStringBuilder{};
}
struct QScopeGuard
{
    Q_GADGET
public:
    enum class E { A };
    QScopeGuard();
    virtual ~QScopeGuard() = default;
    const int *begin() const;
    const int *end() const;
    bool fromUtf8(QScopeGuard shortcut, int base64 = 0, int s = 0, QStringBuilder * other = nullptr) const {
        int v20 = base64;
        other->arg(static_cast<QStringBuilder *>(nullptr), (QDebug<int>()).qHash(), QStringListIterator(QStringListIterator::takeFirst(QStringListIterator{}), QDebug<int>(), base64), (QStringListIterator{}).unite());
        for (const auto &v22 : shortcut) {
            foreach (int v23, QScopeGuard{}) {
                QStringListIterator::takeFirst(QStringListIterator((s - v20)));
                (QDebug<int>()).qHash();
            }
            bool v26 = (QDebug<int>{}).toInt();
        }
        return QStringBuilder::addTransition(s);
    }
public:
    const char * m_list;
    int m_a;
    QStringBuilder * m_timer;
};
const QScopeGuard & use0()
{
    (((QStringBuilder{}).toUInt()).toUInt()).addTransition((QStringListIterator{}).begin(QDebug<int>()));
    (QDebug<int>{}).toInt();

    return QScopeGuard{};
}
static bool use1(QStringListIterator * mask = nullptr, double type = 0.5)
{
    varConnect((QDebug<int>{}).toInt(), SIGNAL(), &QStringBuilder::fromLatin1, &QStringListIterator::unite, new QStringListIterator());
    mask->begin(QDebug<int>{});
    foreach (int v32, QDebug<int>()) {
        foreach (auto v33, QDebug<int>{}) {
            return true;
            (((QStringBuilder{}).toUInt()).toUInt()).addTransition((QScopeGuard()).fromUtf8(QScopeGuard(), 60000, 60000, nullptr));
            (QStringBuilder()).toUInt();
        }
        if (QStringBuilder::addTransition((0x7fffffff + 100 * 2))) {
        }
    }
    int v38 = QStringListIterator().begin(QDebug<int>());
    return QStringBuilder::addTransition((QStringListIterator{}).begin(QDebug<int>()));
}
static QStringBuilder & use2(const QScopeGuard & value, bool receiver, QStringBuilder * sender, const QStringListIterator &)
{
    delete sender;
    const QStringListIterator & v40 = QStringListIterator();
    return *sender;
}
