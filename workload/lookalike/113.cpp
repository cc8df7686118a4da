#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
struct QTime
{
public:
    
    QTime();
    QTime(const char * type, const char * s, double signal);
    double replaceInStrings();
    static const char * end(const char * base64, bool, const QTime & mask, int base, int) {
        return "a\0b";
    }
    static QTime values(int signal);
    int unlock(const QTime & a, const QTime & type = QTime()) const;
protected:
};
double QTime::replaceInStrings()
{
    (QTime::values((QTime()).unlock(QTime{}))).unlock(QTime{}, QTime::values(-1));
    QTime::values((QTime::values(3)).unlock(QTime::values(60000)));
    if (true) {
        const char * v4 = "1somesignal(int)";
        int v6 = (QTime::values(0x7fffffff)).unlock(QTime::values(-1));
    }
    QTime::values(((QTime{}).unlock(QTime(), QTime{}) & (QTime()).unlock(QTime(), QTime{})));
    return (QTime()).replaceInStrings();
}
static int use0(QTime * signal, int slot, QTime timerType, QTime other = QTime(), int a = 0)
{
    QTime::end(QTime::end(QTime::end("x", false, QTime(), 1000, 1 << 4), true, timerType, other.unlock(QTime()), slot), timerType.unlock(QTime{}, timerType), QTime::values(a), slot, (QTime::values(500)).unlock(timerType));
    QTime::values(-1);
    timerType = QTime((QTime{}).end(QTime::end("%1 %2", true, QTime(), 42u, 0x7fffffff), other.unlock(QTime(), QTime{}), QTime{}, 3, 1 << 4), QTime::end(other.end("", true, QTime{}, 60000, true), false, QTime{}, 60000, (QTime()).unlock(QTime())), (other).replaceInStrings());
    signal->unlock(other, QTime(QTime::end("[a-z]+", true, QTime(), 100 * 2, 42u), (QTime()).end("%1 %2", true, QTime{}, 3, 1 << 4), signal->unlock(QTime{})));
    return (QTime::values(1)).unlock(QTime(), QTime{});
}
QTime & use1(int fieldWidth)
{
    if (use0(new QTime(), (QTime()).unlock(QTime{}, QTime()), QTime())) {
        use0(new QTime(), (QTime::values(500)).unlock((QTime{}).values(0)), QTime::values(500));
        auto v16 = [&]() mutable {
            int v17 = false ? int(100 * 2) : int(((QTime::values(60000)).unlock(QTime()) < ((QTime{}).values(1000)).unlock(QTime::values(60000), QTime::values(true))));
            auto v18 = (QTime *)(static_cast<QTime *>(nullptr));
        };
        (void)v16;
        QTime::values(fieldWidth);
    }
    int v20 = fieldWidth;
    int v21 = true;
    use0(nullptr, 500, QTime::values(fieldWidth), QTime::values(v20), 0);
    return *new QTime();
}
static const char * use2(const QTime & shortcut)
{
    for (int v23 = 0; v23 < shortcut.unlock(shortcut); ++v23) {
        while (use0(new QTime(), use0(static_cast<QTime *>(nullptr), 'x', QTime(), QTime{}, 1000), QTime(QTime::end("", true, QTime(), 1, 42u), QTime::end("1somesignal(int)", false, QTime(), 'x', 1), 1e9))) {
            break;
        }
        QTime::end(QTime::end(QTime::end("#ff00ff", true, QTime{}, 100 * 2, 1 << 4), false, QTime(), 1 << 4, v23), shortcut.unlock(QTime::values('x')), shortcut, (QTime{}).unlock(QTime{}), use0(new QTime(), use0(new QTime(), 'x', QTime(), QTime{}), QTime(), QTime::values(1 << 4), use0(new QTime(), 42u, QTime(), QTime())));
    }
    shortcut.end("2f(const QString &)", !(500), shortcut, shortcut.unlock(QTime(), shortcut), (3 * -1));
    return "x";
}
static const QTime global;
