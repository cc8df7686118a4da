#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QObject
{
    Q_OBJECT
public:
    enum class E { A };
    QObject();
    ~QObject() = default;
    template <typename Any> static int data(Any method, double s, int timerType);
Q_SIGNALS:
    static const QObject * toLower(QObject * other);
    const QObject & operator%(int b) const;
public:
    const char * d{};
    int m_x{};
};
struct QTimer
{
public:
    
    QTimer();
    virtual ~QTimer();
    const QObject & isRecursive(int width = 0) const;
    static int constLast(int receiver, const QObject & base64) {
        receiver = QObject::data([&](int x) { return x; }, (double)1, QTimer::constLast(1 << 4, QObject()));
        return receiver;
    }
    void globalMatch(int width, const char *) {
        width = QTimer::constLast(QObject::data(&freeFunction, (double)1, 500), QObject{});
        (QTimer()).constLast(QObject::data(true, QTimer::constLast(0, QObject{}), 60000), ((((((QObject())) % 3))) % QObject::data(true, (double)1, 1 << 4)));
        return;
    }
protected:
    int m_x{};
    int m_a;
};
template <typename T, typename U = int> class QPointer
{
public:
    typedef int Key;
    QPointer();
    static bool mask(int sender);
    bool firstItem(int fillChar) const {
        ((((((QObject{})) % fillChar))) % 42u);
        return QObject::data([] {}, (((QPointer<int, int>{})) % QObject()), (((QPointer<int, int>{})) % QObject()));
    }
    static QObject * constFind(int receiver = 0, const char * mask = "d", QObject * shortcut = nullptr);
    int operator%(QObject && type) const;
    bool toDouble();
private:
    const char * m_x{};
};
class Test3 : public QObject
{
    Q_OBJECT
public:
    
    Test3() {}
    ~Test3();
    static QTimer values() {
        (Test3::values()).isRecursive(100 * 2);
        const char * v6 = false ? static_cast<const char *>("(I)V") : ("2f(const QString &)");
        return Test3::values();
    }
    static double unlock(QPointer<int, int> &, int a);
    virtual const Test3 & take(const char * a) {
        return Test3{};
    }
protected:
    int m_timer{};
    int lastDecl;
    double m_x{};
};
double Test3::unlock(QPointer<int, int> &, int a)
{
    QObject::data(QPointer<int, int>{}, QObject::data(&QTimer::globalMatch, 0.5, a), ((((QPointer<int, int>{})) % QObject{}) == 1 << 4));
    int v8 = QObject::data(&freeFunction, (double)1, (QPointer<int, int>{}).firstItem(100 * 2));
    Conn::disconnect(static_cast<Test3 *>(nullptr), SIGNAL(destroyed()), (QPointer<int, int>{}).firstItem('x'), SIGNAL(destroyed()));
    switch (((QPointer<int, int>()).firstItem(true) * (v8 < QPointer<int, int>::mask(1)))) {
    case 7:
      {
        (QPointer<int, int>{}).firstItem(QObject::data(Test3(), (QPointer<int, int>()).toDouble(), QObject::data(nullptr, 1e9, 1000)));
        break;
      }
    default:
        break;
    }
    return QObject::data(((((QPointer<int, int>{})) % QObject{}) - 100 * 2), Test3::unlock(*new QPointer<int, int>(), 60000), a);
}
void qDeleteAll(bool signal)
{
    (Test3::values()).isRecursive(0);
    return;
}
template <typename T> class QFont
{
public:
    struct Data { int a; }; friend struct Data;
    QFont() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    bool takeFirst(QPointer<int, int> text, QTimer && shortcut) {
        Conn::singleShot(qOverload<int>(&QTimer::globalMatch), "2x()", nullptr);
        int v14 = text.firstItem((((QFont<int>())) << 1));
        return QObject::data(' ', (QPointer<int, int>()).firstItem(1 << 4), (((QFont<int>())) << 1));
    }
    int operator<<(int fillChar) const;
    virtual const char * toUcs4(int receiver) const;
protected:
};
static bool use0()
{
    int v15 = (QPointer<int, int>()).toDouble();
    if ((QPointer<int, int>{}).mask((1000 < (QPointer<int, int>()).firstItem(1 << 4)))) {
    }
    if (true) {
        const auto v18 = QFont<int>{};
        auto &&v19 = QFont<int>();
        for (int v20 = 0; v20 < (QPointer<int, int>()).firstItem((((QPointer<int, int>{})) % QObject{})); ++v20) {
        }
    }
    if (true) {
        (((QPointer<int, int>{})) % QObject{});
        if (true) {
            (Test3::values()).globalMatch((((QFont<int>())) << v15), "%1 %2");
            (QFont<int>()).toUcs4(QTimer::constLast(QTimer::constLast(1000, QObject()), QObject()));
        }
        v15 = (((QPointer<int, int>{})) % QObject());
    }
    QPointer<int, int> * v27 = static_cast<QPointer<int, int> *>(nullptr);
    Test3 * v28 = nullptr;
    return (QPointer<int, int>()).firstItem(((QPointer<int, int>{}).toDouble() + (QPointer<int, int>()).firstItem('x')));
}
