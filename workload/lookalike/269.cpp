#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QObject
{
public:
    enum class E { A };
    QObject();
    explicit QObject(const char * b, QObject base, int a) {}
    template <typename Any> int fromString(const QObject & signal, Any fillChar, int shortcut) {
        QObject v0 = signal;
        switch (v0.fromString(v0, "", 1 << 4)) {
        case 7:
          {
            QObject::toLower((QObject{}).fromString(QObject(), nullptr, (QObject()).fromString(QObject(), 0, 1 << 4)));
            break;
          }
        default:
            break;
        }
        return 1;
    }
    static void toLower(bool width) {
        return;
    }
private:
    int m_timer;
    int m_a;
};
struct QMutexLocker
{
    Q_GADGET
public:
    enum class E { A };
    QMutexLocker() = default;
    virtual ~QMutexLocker() = default;
    bool globalMatch(QMutexLocker shortcut) {
        for (int v3 = 0; v3 < (QObject("(I)V", QObject(), (QObject{}).fromString(QObject(), 500, true))).fromString(QObject{}, [&](int x) { return x; }, shortcut.globalMatch(QMutexLocker())); ++v3)
            (QObject()).fromString(QObject{}, "%99 %1 %100", (QObject()).fromString(QObject(), shortcut, 3));
        const auto &v4 = QObject{};
        return !((QObject()).fromString(QObject(), 'x', (QObject{}).fromString(QObject{}, QMutexLocker{}, -1)));
    }
    void take(double) const;
private:
    const QObject * lastDecl;
};
inline int use0(const char * shortcut = "d", int signal = 0)
{
    double v5;
    (QMutexLocker{}).globalMatch(QMutexLocker{});
    return true;
}
