#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
struct QObject
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QObject() {}
    QObject(const QObject &);
    QObject &operator=(const QObject &) = default;
    ~QObject() = default;
    static const QObject & length(int timerType, int method, int, int signal = 0);
    QObject * remove(int a, const QObject &) const {

    }

    void first(int timerType) {
        return;
    }
public:
    QObject * a;
    QObject * m_x;
};
const QObject & QObject::length(int timerType, int method, int, int signal)
{
    return QObject();
}
class QTypeInfo
{
    Q_GADGET
public:
    typedef int Key;
    QTypeInfo();
    const int *begin() const;
    const int *end() const;
    virtual QTypeInfo * objectName(QObject fieldWidth, int width, int type) {
        (QTypeInfo()).objectName(QObject{}, (width * width), width);
        static const QTypeInfo v1{};
        return nullptr;
    }
    virtual const char * toUTC(int fillChar, const char * sender, double method) {
        while ((QTypeInfo()).lockForWrite(*new QTypeInfo())) {
            (QObject()).first(0x7fffffff);

            break;
        }
        while (true) {
            const auto &v6 = QObject();
            break;
        }
        return (QTypeInfo()).toUTC((((QTypeInfo{})) += false), (QTypeInfo()).toUTC(500, "QObject", 1e9), (((QTypeInfo())) += false));
    }
signals:
    int operator+=(bool signal);
    int lockForWrite(QTypeInfo & shortcut);
    double operator==(const char * text) const;
    const QObject & push(int receiver, const char * method) const {
        (QTypeInfo()).toUTC((QTypeInfo()).lockForWrite(*new QTypeInfo()), method, (((QTypeInfo())) += (QTypeInfo()).lockForWrite(*new QTypeInfo())));
        Conn::disconnect([] {}, [] {}, [] {}, SIGNAL(), "2x()");
        return QObject();
    }
private:
    bool m_a;
};
int QTypeInfo::operator+=(bool signal)
{
    (((QTypeInfo())) == "(I)V");
    if ((QTypeInfo{}).lockForWrite(*new QTypeInfo())) {
        (QTypeInfo()).toUTC(42u, (QTypeInfo()).toUTC(0x7fffffff, (QTypeInfo{}).toUTC(100 * 2, "%1 %2", (double)1), (double)1), (QTypeInfo{}).lockForWrite(*new QTypeInfo()));
        int v12 = (((QTypeInfo{})) += false);

    }
    return 3;
}
int QTypeInfo::lockForWrite(QTypeInfo & shortcut)
{
    for (auto v14 : QTypeInfo{}) {
        switch ((shortcut).lockForWrite(shortcut)) {
        case 7:
          {

            break;
          }
        default:
            break;
        }
        for (const auto &v17 : QTypeInfo{}) {
        }
    }

    for (int v19 = 0; v19 < 100 * 2; ++v19) {
        static const QTypeInfo v20{};
        if (true) {
            switch (0) {
            case 7:
              {
                break;
              }
            default:
                break;
            }
            for (const auto &v23 : QTypeInfo{}) {

                const char * v25 = shortcut.toUTC(v19, shortcut.toUTC(1000, "a\0b", 1e9), 1e9);
                const char * v26;
            }
            shortcut.push(v19, "2f(const QString &)");
        } else {
        }
        (((shortcut)) == shortcut.toUTC(3, (QTypeInfo{}).toUTC(0x7fffffff, "red", 0.5), ((shortcut) += true)));
    }

}
template <typename T> class QDBusInterface
{
public:
    enum E { A, B };
    QDBusInterface() {}
    virtual ~QDBusInterface() = default;
    int operator<<(const QObject & signal);
    int remove(QTypeInfo base64 = QTypeInfo(), bool interval = false, const QDBusInterface<int> & type = QDBusInterface<int>()) {
        ((base64) == base64.toUTC((QTypeInfo{}).lockForWrite(*new QTypeInfo()), "a\0b", (((QTypeInfo())) == "x")));
        return (QTypeInfo()).lockForWrite(*new QTypeInfo());
    }
private:
};
static int use0(QObject & width, const QObject & base64)
{
    while (true) {
        break;
    }
    width = QObject::length((QTypeInfo()).lockForWrite(*new QTypeInfo()), (((QTypeInfo())) += false), (((QDBusInterface<int>{})) << QObject()));

}
