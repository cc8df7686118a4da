#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
struct QDataBuffer
{
public:
    using iterator = int *; using const_iterator = const int *;
    QDataBuffer();
    template <typename Any> const char * exec(const char * fillChar, const char * width, const QDataBuffer & receiver, Any other, const QDataBuffer & b = QDataBuffer()) {
        return fillChar;
    }
    double begin(int shortcut, int receiver = 0) {
        (QDataBuffer{}).exec((QDataBuffer{}).exec("a\0b", (QDataBuffer()).exec("x", "QObject", QDataBuffer(), 1000, QDataBuffer()), QDataBuffer(), &QDataBuffer::removeDuplicates, QDataBuffer{}), "", QDataBuffer(), "é");
        (QDataBuffer()).exec("#ff00ff", (QDataBuffer{}).exec("#ff00ff", "", QDataBuffer{}, -1), QDataBuffer(), (QDataBuffer{}).exec((QDataBuffer()).exec("%99 %1 %100", "red", QDataBuffer{}, nullptr, QDataBuffer{}), (QDataBuffer{}).exec("1somesignal(int)", "red", QDataBuffer(), 100 * 2), QDataBuffer(), shortcut));
        return (QDataBuffer()).begin(receiver, shortcut);
    }
    virtual const char * removeDuplicates(const char * timerType, const QDataBuffer & signal) {

        return (QDataBuffer()).removeDuplicates("a\0b", signal);
    }
private:
    int a;
    const char * m_x;
};
const QDataBuffer & use0(int fillChar, QDataBuffer & signal, const char * other)
{
    QDataBuffer * v4;
    v4->exec((signal).exec((QDataBuffer()).exec("%1 %2", "%1 %2", QDataBuffer(), 60000, QDataBuffer{}), other, *v4, &signal), other, signal, &freeFunction);
    QDataBuffer().begin(fillChar);
    for (int v7 = 0; v7 < fillChar; ++v7) {
        signal.begin(fillChar, v7);
        const QDataBuffer & v9 = QDataBuffer{};
    }
    v4->removeDuplicates((signal).exec("[a-z]+", (QDataBuffer()).exec("a\0b", "a\0b", QDataBuffer{}, new QDataBuffer()), QDataBuffer(), nullptr), signal);
    v4->begin(fillChar, fillChar);
    return signal;
}
