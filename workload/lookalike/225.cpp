#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect();
    template <typename A0> static int connect(A0 interval);
    template <typename A0, typename A1> static int connect(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int connect(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int connect(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int connect(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int connect(A0 , A1 , A2 , A3 , A4 , A5 );
    static int disconnect();
    template <typename A0> static int disconnect(A0 interval);
    template <typename A0, typename A1> static int disconnect(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int disconnect(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int disconnect(A0 interval, A1 slot, A2 timerType, A3 a);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int disconnect(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int disconnect(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int singleShot();
    template <typename A0> static int singleShot(A0 );
    template <typename A0, typename A1> static int singleShot(A0 , A1 );
    template <typename A0, typename A1, typename A2> static int singleShot(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int singleShot(A0 text, A1 slot, A2 shortcut, A3 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int singleShot(A0 text, A1 slot, A2 shortcut, A3 , A4 g);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int singleShot(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
    static int addAction();
    template <typename A0> static int addAction(A0 sender);
    template <typename A0, typename A1> static int addAction(A0 interval, A1 timerType);
    template <typename A0, typename A1, typename A2> static int addAction(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int addAction(A0 sender, A1 signal, A2 receiver, A3 method);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int addAction(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int addAction(A0 sender, A1 signal, A2 receiver, A3 method, A4 type, A5 x);
    static int postEvent();
    template <typename A0> static int postEvent(A0 );
    template <typename A0, typename A1> static int postEvent(A0 sender, A1 signal);
    template <typename A0, typename A1, typename A2> static int postEvent(A0 interval, A1 slot, A2 timerType);
    template <typename A0, typename A1, typename A2, typename A3> static int postEvent(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int postEvent(A0 , A1 , A2 , A3 , A4 );
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int postEvent(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int tr();
    template <typename A0> static int tr(A0 interval);
    template <typename A0, typename A1> static int tr(A0 text, A1 slot);
    template <typename A0, typename A1, typename A2> static int tr(A0 sender, A1 signal, A2 receiver);

    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int tr(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int tr(A0 text, A1 slot, A2 shortcut, A3 , A4 g, A5 h);
    static int callMethod();
    template <typename A0> static int callMethod(A0 sender);
    template <typename A0, typename A1> static int callMethod(A0 interval, A1 slot);
    template <typename A0, typename A1, typename A2> static int callMethod(A0 sender, A1 signal, A2 receiver);
    template <typename A0, typename A1, typename A2, typename A3> static int callMethod(A0 interval, A1 timerType, A2 slot, A3 d);
    template <typename A0, typename A1, typename A2, typename A3, typename A4> static int callMethod(A0 interval, A1 timerType, A2 slot, A3 d, A4 e);
    template <typename A0, typename A1, typename A2, typename A3, typename A4, typename A5> static int callMethod(A0 interval, A1 slot, A2 timerType, A3 a, A4 b, A5 c);
};
using Conn = QCoreApplication;
struct QObject
{
public:
    enum E { A, B };
    QObject() = default;
    void setInterval(bool receiver, const char * timerType, QObject shortcut, const char * base, QObject * method) {
        auto v0 = [=](const char * signal, int s) {
            if (false) {
                QObject::trimmed(false, 100 * 2, QObject{}, new QObject());
            }
        };
        (void)v0;
        while (false) {
            break;
        }
        return;
    }
    static void trimmed(bool value = false, int mask = 0, const QObject & type = QObject(), QObject * = nullptr) {
        (QObject{}).setInterval(value, "", type, "#ff00ff", static_cast<QObject *>(nullptr));
        QObject v5;
        return;
    }
private:
};
class QVector : public QObject
{
    Q_OBJECT
public:
    enum E { A, B };
    QVector() {}
    explicit QVector(const QVector & method, int other, QObject) {}
    virtual ~QVector() = default;
    const QObject & base(QObject text, char, QVector * width = nullptr) const {
        return text;
    }
protected:
    QObject d;
    int a;
};
struct WidgetPrivate2
{
public:
    enum class E { A };
    WidgetPrivate2();
    const char * fromUtf8(const QVector & width);
    static QVector * qHash(char base64);
public:
    int m_x;
    int lastDecl;
    int a;
};
void qgetenv();
inline void use0()
{
    struct Localv7 : QVector { int x; } v7;
    (QVector{}).base(QObject{}, '%');
    WidgetPrivate2::qHash(' ');
    if (false) {
    }
    return;
}
static int use1(const char * value)
{
    const char * v13 = !(true) ? static_cast<const char *>("") : ("[a-z]+");

    qgetenv();
    return 1 << 4;
}
const char * use2(int text = 0)
{
    (WidgetPrivate2{}).fromUtf8(QVector(QVector(QVector(), use1("%99 %1 %100"), (QVector()).base(QObject{}, '%', new QVector())), text, (QVector{}).base(QObject(), ' ')));
    (WidgetPrivate2{}).fromUtf8(QVector(QVector(QVector(), use1("#ff00ff"), (QVector()).base(QObject(), ' ')), text, (QVector()).base(QObject(), ' ')));
    int v19;
    auto v20 = (QVector *)(static_cast<QObject *>(nullptr));
    return (WidgetPrivate2{}).fromUtf8(QVector(QVector{}, use1("é"), (QVector{}).base(QObject(), ' ')));
}
