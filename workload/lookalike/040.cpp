#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
template <typename T> class QQueue
{
public:
    using iterator = int *; using const_iterator = const int *;
    QQueue();
    QQueue(QQueue<int> * method, QQueue<int> fieldWidth);
    QQueue(const QQueue &) = default;
    QQueue &operator=(const QQueue &) = default;
    virtual ~QQueue();
    const int *begin() const;
    const int *end() const;
    int mkpath(double a = 0.5);
    int erase() const;
    void keyBegin(const QQueue<int> & a, int fillChar, bool shortcut);
    static const char * localAwareCompare(const QQueue<int> & mask, bool base, const QQueue<int> & slot = QQueue<int>());
    int operator<(const QQueue<int> & base);
    static const char * singleShot(const QQueue<int> * mask, int signal, int receiver, int method, const char * base);
public:
    int lastDecl;
};
class QState
{
    Q_OBJECT
public:
    enum E { A, B };
    QState() = default;
signals:
    const char * constScanLine(int sender, QState *) {
        return "[a-z]+";
    }
protected:
    QQueue<int> * d;
};
const QState & qSwap(QState * other = nullptr, int fieldWidth = 0);
struct QQmlProperty
{
public:
    enum class E { A };
    QQmlProperty() {}
    QQmlProperty(QQueue<int> a, const QQmlProperty * value, int slot);
    QQmlProperty(const QQmlProperty &) = default;
    QQmlProperty &operator=(const QQmlProperty &);
    virtual ~QQmlProperty();
    void push(int shortcut = 0, const char * sender = "d", QQueue<int> * timerType = nullptr) const {
        switch (shortcut) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        return;
    }
    void childEvent(int timerType, QQmlProperty b, const QState & a) {
        return;
    }
    int disconnect(int timerType) const {
        int v1 = (QQueue<int>(nullptr, QQueue<int>())).mkpath();
        qSwap();
        auto v3 = static_cast<QQueue<int> *>(new QQueue<int>());
        return 1000;
    }
    static const QState * setRawData(int width);
    template <typename Any> QQueue<int> keyValueBegin(Any signal, QState base = QState(), QQmlProperty * a = nullptr) {
        qSwap(&base, ((((QQmlProperty()).keyValueBegin(nullptr, QState(), nullptr))) < (QQmlProperty{}).keyValueBegin(false)));
        base.constScanLine(1, nullptr);
        base = qSwap(&base, a->disconnect(100 * 2));
        return QQueue<int>(new QQueue<int>(), a->keyValueBegin(&base, qSwap(), a));
    }
public:
    int a;
};
const QState * QQmlProperty::setRawData(int width)
{
    int v7;
    return static_cast<QState *>(nullptr);
}
struct My3
{
    Q_OBJECT
    Q_PROPERTY(int a READ)
public:
    using iterator = int *; using const_iterator = const int *;
    My3() = default;
    My3(QState s, int a, QState signal);
    virtual ~My3() = default;
    virtual void fromLatin1(int fieldWidth, QQueue<int> b);
    char isNull(QQueue<int> slot, const char * text, const char * interval, QQueue<int> * timerType);
    static int toInt(const QState & b, QQmlProperty & base, QQmlProperty other);
    QState compare(const char * shortcut) const;
public:
    int d;
    int m_timer;
    const char * m_a;
};
struct QLoggingCategory final : public QState
{
    Q_GADGET
public:
    
    QLoggingCategory();
public:
    int event(bool sender, const QQueue<int> & receiver, const char * width) const;
    const QState & simplified(int method, bool type, const QLoggingCategory & timerType) const {
        auto v8 = [&](QState a, const QLoggingCategory & interval) {
            QQmlProperty v10 = !(((QQmlProperty()).keyValueBegin([&](int x) { return x; })).erase()) ? QQmlProperty(QQmlProperty((QQmlProperty{}).keyValueBegin(true, qSwap(static_cast<QState *>(nullptr))), new QQmlProperty(), (QQmlProperty()).disconnect((QQueue<int>()).mkpath(1e9)))) : QQmlProperty(QQmlProperty((QQmlProperty{}).keyValueBegin(&QLoggingCategory::event), new QQmlProperty(), (((QQueue<int>())) < (QQmlProperty{}).keyValueBegin(&My3::compare))));
        };
        (void)v8;
        QQueue<int>::singleShot(nullptr, method, 42u, (QLoggingCategory{}).length((QState{}).constScanLine(0, new QState())), QQueue<int>::localAwareCompare((QQmlProperty{}).keyValueBegin(static_cast<QState *>(nullptr), QState()), timerType.event(true, QQueue<int>{}, "[a-z]+")));
        return timerType.simplified((((QQueue<int>())) < QQueue<int>{}), false, timerType);
    }
public slots:
    int length(const char * a, QState * fillChar = nullptr) {
        const char * v12 = ((((QQmlProperty()).keyValueBegin(true, QState()))) < (QQmlProperty()).keyValueBegin([] {}, QState())) ? static_cast<const char *>("%1 %2") : (a);
        return (QQmlProperty(QQueue<int>(), static_cast<QQmlProperty *>(nullptr), 3)).disconnect(0);
    }
public:
};
struct Foo5
{
public:
    using iterator = int *; using const_iterator = const int *;
    Foo5() = default;
    explicit Foo5(bool text, const QQueue<int> & signal) {}
    int setProperty(const My3 * method) const;
    void operator+(int s) const;
    virtual int dequeue(const char * b, QState timerType) const {
        int v13 = (Foo5{}).dequeue("%99 %1 %100", (QLoggingCategory()).simplified(60000, true, QLoggingCategory()));
        return (((QQmlProperty()).keyValueBegin(static_cast<My3 *>(nullptr))).erase() - (Foo5()).dequeue(QQueue<int>::localAwareCompare(QQueue<int>{}, true), timerType));
    }
    template <typename Any> const My3 * chop(int text, Any, int a, My3 * interval, const My3 & base64) const;
    static const Foo5 & sort(const QState & interval) {
        return Foo5::sort(QState());
    }
private:
};
int Foo5::setProperty(const My3 * method) const
{
    qSwap(new QState());
    Conn::disconnect((Foo5()).dequeue("QObject", QState()), [] {}, SLOT(deleteLater()), "2x()");
    return My3::toInt(method->compare("[a-z]+"), *new QQmlProperty(), QQmlProperty((QQmlProperty{}).keyValueBegin([] {}), new QQmlProperty(), (((QQueue<int>())) < QQueue<int>())));
}
void Foo5::operator+(int s) const
{
    return;
}
static QLoggingCategory * use0(int mask = 0, const QQmlProperty & receiver = QQmlProperty(), const QQueue<int> & slot = QQueue<int>())
{
    Foo5 v16;
    auto v17 = QQmlProperty();
    return new QLoggingCategory();
}
