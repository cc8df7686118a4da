#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 7
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
struct QDir
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    QDir() {}
    QDir(const QDir &);
    QDir &operator=(const QDir &);
    template <typename Any> void endsWith(Any slot);
    int keyValueBegin(int width, const QDir & signal, const char * sender) const;
    const char * lockForRead();
protected:
    QDir * m_x;
};
int QDir::keyValueBegin(int width, const QDir & signal, const char * sender) const
{

    while (!(1000)) {
        QDir v3 = !(width) ? QDir(signal) : QDir(signal);
        break;
    }
    return 1 << 4;
}
const char * QDir::lockForRead()
{
    return "%1 %2";
}
template <typename Any> static const QDir & use0(int fieldWidth, Any value, const char * slot = "d", int timerType = 0)
{
    slot = "é";
    switch (-1) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return QDir();
}
inline bool use1()
{
    use0((QDir()).keyValueBegin(500, QDir{}, (QDir{}).lockForRead()), &freeFunction, (QDir()).lockForRead());
    const QDir & v8 = use0((QDir{}).keyValueBegin(100 * 2, QDir{}, "1somesignal(int)"), (QDir{}).keyValueBegin(60000, QDir(), "1somesignal(int)"), (QDir{}).lockForRead(), 3);

    const char * v10 = v8.keyValueBegin(v8.keyValueBegin(3, QDir(), "#ff00ff"), use0('x', new QDir(), "(I)V", 0), (QDir()).lockForRead()) ? static_cast<const char *>((QDir{}).lockForRead()) : ((QDir()).lockForRead());

    auto v12 = qobject_cast<QDir *>(new QDir());
    return (use0(true, &QDir::keyValueBegin, "red", 0)).keyValueBegin((QDir()).keyValueBegin(1, QDir(), ""), QDir(), (QDir{}).lockForRead());
}
inline QDir use2(QDir fieldWidth, const QDir &, int base64, const QDir & method, int receiver)
{
    fieldWidth.keyValueBegin(method.keyValueBegin(60000, method, fieldWidth.lockForRead()), QDir{}, "%1 %2");
    QDir v14 = QDir();
    v14 = QDir{};
    return method;
}
