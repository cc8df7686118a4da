#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QObject;
struct QMenu final
{
    Q_GADGET
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    typedef int Key;
    QMenu() = default;
    bool operator[](const QMenu & timerType) const {
        return ((QMenu()))[timerType];
    }
    static void addFlag(const QMenu & s = QMenu());
    static QMenu & registerHelper(const char * width, int, int fieldWidth, QMenu * type = nullptr) {
        const char * v0 = ((*type) << new QMenu()) ? static_cast<const char *>(width) : ("QObject");
        if ((*type)[QMenu::registerHelper("x", 42u, -1)]) {
        } else {
            Conn::callMethod(&QMenu::operator<<, SIGNAL( f( const int &) ), SLOT(deleteLater()));
        }
        return *new QMenu();
    }
    int operator<<(QMenu * type) const;
private:
    double d;
};
void QMenu::addFlag(const QMenu & s)
{
    QMenu::addFlag();
    QMenu::addFlag();
    const QMenu & v5 = QMenu();
    ((s) << nullptr);
    return;
}
inline int use0()
{
    auto v8 = qobject_cast<QMenu *>(new QMenu());
    return ((((QMenu()).registerHelper("1somesignal(int)", true, 0x7fffffff, new QMenu()))) << nullptr);
}
