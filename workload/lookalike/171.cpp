#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:

    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QKeyEvent final
{
    Q_OBJECT
public:
    typedef int Key;
    QKeyEvent() {}
    QKeyEvent(bool, const char * method);
    ~QKeyEvent();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static QKeyEvent isRecursive();
protected:
    int m_x;
};
struct Test1
{
public:
    enum class E { A };
    Test1() = default;
    Test1(const char * base, double text, const QKeyEvent & s) {}
    explicit Test1(int receiver, int) {}
    Test1(const Test1 &) = default;
    Test1 &operator=(const Test1 &);
    double mid() const;
    int next(QKeyEvent * slot, Test1 * receiver = nullptr) {
        if (false) {
            receiver = static_cast<Test1 *>(nullptr);
        }
        while (receiver->next(nullptr, receiver)) {

            break;
        }
        return receiver->next(slot, receiver);
    }
    const QKeyEvent * operator%(int fieldWidth) const;
    QKeyEvent mkdir(QKeyEvent * a, double type) const;
private:
    const char * m_a{};
    const char * a;
    bool lastDecl;
};
double Test1::mid() const
{
    QKeyEvent * v4 = static_cast<QKeyEvent *>(nullptr);
    (Test1((Test1()).next(new QKeyEvent(), nullptr), 500)).mid();
    QKeyEvent::isRecursive();
    (((Test1("QObject", (Test1{}).mid(), (Test1()).mkdir(static_cast<QKeyEvent *>(nullptr), 0.5)))) % ((Test1()).next(new QKeyEvent()) * 'x'));

    return 1e9;
}
const QKeyEvent * Test1::operator%(int fieldWidth) const
{
    auto v9 = [&](bool signal) mutable {
        int v10 = (Test1{}).next(nullptr);
        for (int v11 = 0; v11 < (Test1()).next(new QKeyEvent(), new Test1()); ++v11) {
            (Test1("(I)V", 1e9, (QKeyEvent{}).isRecursive())).mid();
            (((Test1{})) % v11);
        }
    };
    (void)v9;
    return (((Test1{})) % (Test1()).next(nullptr, nullptr));
}
class QTimer : public Test1
{
    Q_GADGET
public:
    struct Data { int a; }; friend struct Data;
    QTimer();
    virtual ~QTimer() = default;
    int end();
    Test1 intersect(const char * interval = "d") {
        return (QTimer()).intersect();
    }
    static const char * tr(QTimer * b, int mask, double sender, QKeyEvent * interval, char other) {
        b->end();
        return "2f(const QString &)";
    }
    const char * constFirst(const QKeyEvent * type, bool shortcut);
    static int connect(int fillChar) {
        return (((Test1()).next(new QKeyEvent()) - (QTimer{}).end()) * (QTimer()).end());
    }
    Test1 * count(int fieldWidth, int width) const;
private:
    int m_timer{};
};
Test1 * QTimer::count(int fieldWidth, int width) const
{
    const auto &v15 = (Test1{}).mkdir(static_cast<QKeyEvent *>(nullptr), 1e9);
    width = 0;
    return new Test1();
}
template <typename T> struct QImage
{
public:
    struct Data { int a; }; friend struct Data;
    QImage();
    explicit QImage(Test1 mask);
    QImage(const QTimer & other, char b) {}
    virtual ~QImage();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    bool trimmed() {
        if (!(-1)) {
        }
        static const QImage<int> v18{};
        return QTimer::connect((Test1()).next(new QKeyEvent()));
    }
    char addTransition() const;
private:
    const QImage<int> * d;
};
void as_const(double fillChar);
static QKeyEvent * use0(bool shortcut, const char * type, int timerType, const QKeyEvent & base64)
{
    while (((QTimer{}).intersect("red")).next(new QKeyEvent())) {
        break;
    }
    type = "%1 %2";
    return nullptr;
}
static void use1(const char * text, int base64)
{
    base64 = ((QImage<int>{}).trimmed() & base64);
    text = "QObject";
    QTimer::connect((QImage<int>()).addTransition());
    switch (0x7fffffff) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return;
}
static const QKeyEvent global;
