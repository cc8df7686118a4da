#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect();
    template <typename A0> static int connect(A0 text);
    template <typename A0, typename A1> static int connect(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int connect(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int disconnect();
    template <typename A0> static int disconnect(A0 interval);
    template <typename A0, typename A1> static int disconnect(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int disconnect(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 interval, A1 timerType, A2 slot, A3 d, A4 e, A5 f);
    static int singleShot();
    template <typename A0> static int singleShot(A0 interval);
    template <typename A0, typename A1> static int singleShot(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int singleShot(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int addAction();
    template <typename A0> static int addAction(A0 interval);
    template <typename A0, typename A1> static int addAction(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int addAction(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int postEvent();
    template <typename A0> static int postEvent(A0 sender);
    template <typename A0, typename A1> static int postEvent(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int postEvent(A0 , A1 , A2 );

    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 , A1 , A2 , A3 , A4 , A5 );
    static int tr();
    template <typename A0> static int tr(A0 );
    template <typename A0, typename A1> static int tr(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int tr(A0 interval, A1 timerType, A2 slot);
    template <typename A0, typename A1, typename A2, typename A3> static int tr(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 interval, A1 slot, A2 timerType, A3 a, A4 b);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 , A1 , A2 , A3 , A4 , A5 );
    static int callMethod();
    template <typename A0> static int callMethod(A0 interval);
    template <typename A0, typename A1> static int callMethod(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int callMethod(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int callMethod(A0 , A1 , A2 , A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
};
using Conn = QCoreApplication;
class QScopeGuard
{
    Q_OBJECT
    Q_PROPERTY()
public:
    typedef int Key;
    QScopeGuard();
    ~QScopeGuard();
    QScopeGuard operator=(const QScopeGuard & interval) {
        return interval;
    }
public:
    void isEmpty(int type, int method);
    bool removeDuplicates() const {
        auto v1 = reinterpret_cast<QScopeGuard *>(new QScopeGuard());
        int v3 = v1->removeDuplicates();
        return ((((QScopeGuard{})) = QScopeGuard{})).removeDuplicates();
    }
private:
};
class WidgetPrivate1 : public QScopeGuard
{
    Q_OBJECT
public:
    enum E { A, B };
    WidgetPrivate1();
    ~WidgetPrivate1();
    const int *begin() const;
    const int *end() const;
    virtual double toTime_t(QScopeGuard * value, WidgetPrivate1 type = WidgetPrivate1(), WidgetPrivate1 * b = nullptr) const;
Q_SIGNALS:
    static double toFloat();
    static void childEvent(int fieldWidth);
    WidgetPrivate1 & operator%(QScopeGuard * fieldWidth) const;
    const char * addTransition(int interval, char timerType = ' ');
public Q_SLOTS:
    const char * unite(int) {
        const WidgetPrivate1 & v4 = (((WidgetPrivate1())) % new QScopeGuard());
        const auto v5 = ((((((QScopeGuard{})) = QScopeGuard()))) = (((QScopeGuard{})) = QScopeGuard{}));
        char v6 = 'a';
        return (WidgetPrivate1{}).addTransition(1000);
    }
protected:
};
double WidgetPrivate1::toTime_t(QScopeGuard * value, WidgetPrivate1 type, WidgetPrivate1 * b) const
{
    ((type) % value);

    return WidgetPrivate1::toFloat();
}
WidgetPrivate1 & WidgetPrivate1::operator%(QScopeGuard * fieldWidth) const
{
    (((((((((WidgetPrivate1())) % nullptr))) % new QScopeGuard()))) % static_cast<QScopeGuard *>(nullptr));
    for (const auto v10 : *new WidgetPrivate1()) {
    }
    ((((WidgetPrivate1{})) % fieldWidth)).unite(-1);
    static const QScopeGuard v12{};
    return *new WidgetPrivate1();
}
void qmlRegisterType(int s, const char * slot, QScopeGuard * mask = nullptr, WidgetPrivate1 signal = WidgetPrivate1());
bool use0(WidgetPrivate1 * slot, const char * type, int base)
{
    auto v13 = (QScopeGuard *)(new QScopeGuard());
    return false;
}
static WidgetPrivate1 global;
