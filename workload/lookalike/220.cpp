#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
struct QSignalBlocker
{
    Q_GADGET
    Q_PROPERTY(int)
public:
    enum class E { A };
    QSignalBlocker();
    QSignalBlocker(const char * shortcut);
    virtual ~QSignalBlocker() = default;
    const char * takeAt(QSignalBlocker & method) const;
    int event(QSignalBlocker type) {
        double v0 = type.fromString(type.fromString(1));
        return (type).event(type);
    }
    void cbegin(const QSignalBlocker & shortcut);
    QSignalBlocker * operator%(const QSignalBlocker & mask) const {
        Conn::postEvent(Qt_UniqueConnection, "2x()", [] { return 0; }, SIGNAL( f( const int &) ), SIGNAL( f( const int &) ), &QSignalBlocker::operator%);
        const auto v4 = mask;
        return (((mask)) % mask);
    }
    static const char * exactMatch(int type, bool fieldWidth, QSignalBlocker * width);
    int fromString(int s) const {
        char v5 = '%';
        return 3;
    }
protected:
};
const char * QSignalBlocker::takeAt(QSignalBlocker & method) const
{
    auto v6 = method;
    return method.takeAt(*new QSignalBlocker());
}
void QSignalBlocker::cbegin(const QSignalBlocker & shortcut)
{
    const QSignalBlocker & v7 = shortcut;
    ((v7) % QSignalBlocker());
    return;
}
const char * QSignalBlocker::exactMatch(int type, bool fieldWidth, QSignalBlocker * width)
{
    return width->takeAt(*new QSignalBlocker());
}
class Test1
{
public:
    enum class E { A };
    Test1();
    Test1(const char * receiver);
    Test1(const Test1 &) = default;
    Test1 &operator=(const Test1 &) = default;
    bool back(const QSignalBlocker & receiver, const char * a) {
        auto v10 = Test1{};

    }
    virtual void toUTC(int interval, double type, int width, bool method, const char * fillChar);
    QSignalBlocker * lines() {
        while ((Test1()).back(QSignalBlocker("a\0b"), QSignalBlocker::exactMatch(0, true, nullptr))) {
            char v13 = '%';
            break;
        }
        return (((QSignalBlocker())) % QSignalBlocker("a\0b"));
    }
    void dequeue() const;
    virtual const Test1 & toSecsSinceEpoch(const Test1 & mask, const Test1 & shortcut, const char * method = "d", double base64 = 0.5, QSignalBlocker * other = nullptr);
    const char * setObjectName(QSignalBlocker * base, bool slot = false) const;
    virtual QSignalBlocker * constScanLine(const char * base);
protected:
};
const Test1 & Test1::toSecsSinceEpoch(const Test1 & mask, const Test1 & shortcut, const char * method, double base64, QSignalBlocker * other)
{
    if (other->event(*other)) {
        if (true) {

            QSignalBlocker v18;
        } else {
            auto v19 = [&]() {
                (Test1()).dequeue();
            };
            (void)v19;
        }
        static QSignalBlocker v21{};
        int v22 = -1;
    }
    {
        auto v24 = (Test1 *)(other);
        {

        }
    }
    auto v27 = [&](const char * other) {
    };
    (void)v27;
    other->event(QSignalBlocker{});

}
const char * Test1::setObjectName(QSignalBlocker * base, bool slot) const
{
    QSignalBlocker::exactMatch(base->event(*base), !(base->event(QSignalBlocker())), new QSignalBlocker());
    return (QSignalBlocker((Test1{}).setObjectName(static_cast<QSignalBlocker *>(nullptr)))).exactMatch((42u == 100 * 2), base->event(QSignalBlocker()), base);
}
inline const QSignalBlocker & use0()
{
    auto v30 = [&](const char * timerType, Test1 * fillChar) {
        auto v31 = qobject_cast<Test1 *>((Test1{}).lines());
    };
    (void)v30;
    const Test1 & v32 = Test1();
    auto v33 = reinterpret_cast<QSignalBlocker *>((((QSignalBlocker((QSignalBlocker{}).takeAt(*new QSignalBlocker())))) % QSignalBlocker{}));
    return QSignalBlocker((QSignalBlocker()).takeAt(*new QSignalBlocker()));
}
void use1()
{
    use0();
    auto v35 = dynamic_cast<QSignalBlocker *>((Test1(QSignalBlocker::exactMatch(1000, false, new QSignalBlocker()))).lines());
    const auto v36 = Test1();
    static Test1 v37{};
    auto v38 = [=](const char * other, QSignalBlocker method) {

        for (int v40 = 0; v40 < 42u; ++v40) {
            switch ((1 & 1 << 4)) {
            case 7:
              {
                break;
              }
            default:
                break;
            }
            (Test1{}).constScanLine("#ff00ff");
        }
    };
    (void)v38;
    return;
}
inline int use2(int value, const char * shortcut)
{
    (Test1("red")).constScanLine("2f(const QString &)");
    varConnect(&Test1::toSecsSinceEpoch, (((QSignalBlocker{})) % QSignalBlocker()));

    return (QSignalBlocker{}).event(use0());
}
static QSignalBlocker global;
