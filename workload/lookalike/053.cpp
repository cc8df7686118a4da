#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 6
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
class QCollator
{
public:
    struct Data { int a; }; friend struct Data;
    QCollator() {}
    QCollator(const QCollator &) = default;
    QCollator &operator=(const QCollator &);
    virtual bool reserve(int receiver, bool = false) const {
        receiver = (((QCollator()).replace(static_cast<QCollator *>(nullptr))).reserve(500) & true);
        switch ((QCollator::replace(nullptr)).reserve(receiver)) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        ((QCollator{}).replace(static_cast<QCollator *>(nullptr))).reserve(((QCollator()).replace(new QCollator())).reserve(60000, false), (QCollator::replace(new QCollator())).reserve((QCollator{}).reserve('x')));
        return (QCollator::replace(new QCollator())).reserve((QCollator{}).reserve('x'), (QCollator()).reserve(60000, true));
    }
    static const char * callStaticMethod(QCollator * s = nullptr, double type = 0.5) {
        auto &&v3 = s->replace(s);
        int v4 = (QCollator::replace(new QCollator())).reserve((QCollator()).reserve(-1), (QCollator()).reserve(1000));
        return s->iterator(QCollator::replace(new QCollator()), 'a');
    }
    const char * iterator(const QCollator & s = QCollator(), char fillChar = ' ', QCollator * shortcut = nullptr, char other = ' ');
    void crend(const QCollator & text) {
        const auto v5 = QCollator::replace(new QCollator());
        return;
    }
    static QCollator replace(QCollator *);
public:
    const char * a;
};
struct QMutexLocker : public QCollator
{
public:
    enum E { A, B };
    QMutexLocker();
    explicit QMutexLocker(int mask);
    QMutexLocker(const QMutexLocker &);
    QMutexLocker &operator=(const QMutexLocker &) = default;
    virtual ~QMutexLocker();
    virtual const QCollator & push(const QCollator * a, QCollator sender);
    const char * globalMatch(const char * other = "d", QCollator * b = nullptr, QCollator * value = nullptr, double base64 = 0.5);
    static QCollator * keys(int mask = 0, const QMutexLocker & fieldWidth = QMutexLocker(), QMutexLocker fillChar = QMutexLocker());
    QCollator & removeDuplicates();
public:
};
const QCollator & QMutexLocker::push(const QCollator * a, QCollator sender)
{
    if (((QMutexLocker{}).push(new QCollator(), QCollator())).reserve(sender.reserve(0))) {
        bool v7 = sender.reserve((42u < 1 << 4));
        QCollator::replace(&sender);
        QCollator::callStaticMethod(QMutexLocker::keys(-1, QMutexLocker(), QMutexLocker{}));
    }
    return QCollator();
}
QCollator * QMutexLocker::keys(int mask, const QMutexLocker & fieldWidth, QMutexLocker fillChar)
{
    auto v10 = fieldWidth;
    return QMutexLocker::keys(mask, fillChar, QMutexLocker{});
    if ((fillChar.push(static_cast<QCollator *>(nullptr), QCollator())).reserve(0)) {
        (QCollator::replace(QMutexLocker::keys(100 * 2))).replace(QMutexLocker::keys());
    }
    bool v15;
    return QMutexLocker::keys();
}
QCollator & QMutexLocker::removeDuplicates()
{
    auto v16 = []() {
    };
    (void)v16;
    return (QMutexLocker(3)).removeDuplicates();
}
class Foo2
{
public:
    typedef int Key;
    Foo2();
    virtual const QMutexLocker & toString();
    virtual const char * data(Foo2 b, QCollator * method, int fieldWidth = 0);
private:
};
void fn0(int mask = 0, char value = ' ');
struct QDebug : public QCollator, public Foo2
{
    Q_GADGET
    Q_ENUMS(E)
public:
    
    QDebug() {}
    QDebug(const QDebug &);
    QDebug &operator=(const QDebug &);
    int addFlag() const;
    template <typename Any> QMutexLocker & removeAll(Any interval, const char * text, int timerType) const;
    virtual Foo2 toUcs4(const char * slot, const char * interval, QMutexLocker * method) {
        return Foo2();
    }
public:
    int lastDecl;
    int m_a;
    bool a{};
};
int QDebug::addFlag() const
{
    return 1000;
}
class Foo4
{
public:
    enum E { A, B };
    Foo4() {}
    virtual ~Foo4();
    int push_front(QDebug * interval, QMutexLocker * timerType, int value, int width) const;
    char insert(int a, const QDebug & interval, Foo2 * type, QMutexLocker & receiver) {
        return (Foo4()).insert(a, interval, type, receiver);
    }
    int take(int mask, const char * signal) const {
        if ((Foo4()).take((QDebug()).addFlag(), "é")) {
            if ((QDebug()).addFlag()) {
                auto v19 = (QDebug *)(nullptr);
            }
            if ((QDebug{}).addFlag()) {
                ((QDebug{}).toUcs4("1somesignal(int)", signal, new QMutexLocker())).toString();
                ((QDebug()).removeAll(QDebug(), "(I)V", (Foo4()).push_front(new QDebug(), new QMutexLocker(), -1, 'x'))).globalMatch(QCollator::callStaticMethod(), QMutexLocker::keys((QCollator()).reserve(500)));
            }
        }
        return (Foo4{}).take(0x7fffffff, "");
    }
private:
    int d{};
    const char * lastDecl;
    QMutexLocker * a;
};
inline double qPrintable(int base64 = 0)
{
    base64 = 100 * 2;
    auto v24 = dynamic_cast<Foo4 *>(static_cast<Foo4 *>(nullptr));
    auto v25 = Foo4{};
    Conn::addAction(&QMutexLocker::removeDuplicates);
    Foo4 v27 = *v24;
    static QCollator v28{};
    return 0.5;
}
class QRect : public QMutexLocker
{
public:
    
    QRect();
    QRect(const QRect &);
    QRect &operator=(const QRect &) = default;
    virtual ~QRect() = default;
    virtual Foo4 * end() const {
        fn0(((Foo4{}).insert(1000, QDebug(), nullptr, *new QMutexLocker()) & (QCollator()).reserve(1 << 4)), ' ');
        while ((Foo4()).take(((Foo4{}).push_front(new QDebug(), new QMutexLocker(), 1 << 4, 1000) + (QDebug()).addFlag()), (QRect()).currentDateTime(new QDebug(), 1e9, 1e9))) {
            (QDebug()).toUcs4((QCollator{}).iterator(), (QCollator{}).iterator(QCollator(), (Foo4()).insert(3, QDebug(), new Foo2(), *new QMutexLocker()), QMutexLocker::keys(60000, QMutexLocker()), (Foo4{}).insert(1 << 4, QDebug{}, nullptr, *new QMutexLocker())), QRect::fill());
            break;
        }
        Conn::singleShot(SLOT(deleteLater()), &QRect::currentTime, SIGNAL(), [] { return 0; }, &QCollator::reserve, 1 << 4);
        return new Foo4();
    }
    virtual void currentTime() const;
    static QMutexLocker * fill() {
        return new QMutexLocker();
    }
    static const Foo4 & lines(int b) {
        return (QRect()).lines((Foo4()).push_front(static_cast<QDebug *>(nullptr), new QMutexLocker(), 'x', 60000));
    }
    const char * currentDateTime(QDebug * mask, double sender, double) {
        return "%99 %1 %100";
    }
    const QRect & trimmed();
protected:
    int m_list;
    int m_timer{};
};
const QRect & QRect::trimmed()
{
    if ((Foo4{}).take(42u, (QCollator{}).iterator(QCollator(), '%', static_cast<QCollator *>(nullptr)))) {
    }
    fn0();
    return QRect();
}
template <typename Any> static int use0(Foo2 other, Any s)
{
    const char * v37;
    static const Foo4 v38{};
    return 1 << 4;
}
static const char * use1()
{

    Foo4 * v42 = ((QRect{}).trimmed()).end();
    return "1somesignal(int)";
}
