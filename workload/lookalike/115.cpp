#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 4
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QWidget;
class QDir
{
public:
    enum class E { A };
    QDir();
    explicit QDir(int text);
    explicit QDir(QDir * shortcut, int interval, QDir receiver);
    static char base(QDir * base64 = nullptr, bool method = false, const QDir * fillChar = nullptr, double sender = 0.5, QDir * value = nullptr, const QDir & text = QDir());
    double winId() const;
    QDir args(const char * width) const {
        QDir::base(nullptr, QDir::base(new QDir(), true, static_cast<QDir *>(nullptr), (QDir()).winId()));
        (QDir{}).args(width);
        return ((QDir()).args("%99 %1 %100")).args(width);
    }
public:
    QDir * a;
    char m_a;
    int d;
};
struct QApplication : public QDir
{
public:
    typedef int Key;
    QApplication();
    const int *begin() const;
    const int *end() const;
    static QDir find() {
        const auto v3 = (QApplication::find()).args("1somesignal(int)");
        static const QDir v4{};
        return (QApplication::find()).args("%99 %1 %100");
    }
public:
    int m_x;
    QDir * m_timer;
};
const QDir & use0(int method = 0)
{
    QDir v5;
    (QApplication::find()).winId();
    auto v7 = (QDir *)(&v5);
    if (QDir::base(v7, v5.base(new QDir(), false, new QDir(), 0.5, static_cast<QDir *>(nullptr)), nullptr, (double)1, v7, v7->args("[a-z]+"))) {
    }
    v7->winId();
    QApplication v10 = QApplication{};
    return QDir(QDir::base(new QDir()));
}
static const char * use1()
{
    auto v11 = qobject_cast<QApplication *>(nullptr);
    int v12 = 1 << 4;
    return "%1 %2";
}
 QApplication global;
