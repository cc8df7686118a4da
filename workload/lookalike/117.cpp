#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QObject
{
    Q_OBJECT
    Q_PROPERTY()
public:
    using iterator = int *; using const_iterator = const int *;
    QObject() {}
    explicit QObject(int text) {}
    explicit QObject(QObject text, QObject, int b);
    virtual ~QObject();
    template <typename Any> void upperBound(QObject a, Any interval, Any s) const;
    int begin(const char * shortcut, const QObject & value);
protected:
    double m_x;
    int lastDecl{};
};
static const QObject & qHash(QObject * fieldWidth = nullptr)
{
    while (fieldWidth->begin("2f(const QString &)", *fieldWidth)) {
        int v1 = (fieldWidth->begin("(I)V", *fieldWidth) == (QObject()).begin("QObject", QObject()));
        break;
    }
    return QObject(1 << 4);
}
struct QJniObject
{
    Q_OBJECT
    Q_PROPERTY(int x READ x)
public:
    using iterator = int *; using const_iterator = const int *;
    QJniObject();
    virtual ~QJniObject() = default;
    QObject * indexIn(const QJniObject & slot = QJniObject(), const char * fieldWidth = "d", int value = 0, QJniObject * = nullptr, const QJniObject * method = nullptr);
    QJniObject scanLine() const {
        const char * v2 = "[a-z]+";
        auto v3 = reinterpret_cast<QObject *>(new QObject());
        return ((QJniObject{}).scanLine()).scanLine();
    }
    virtual const QObject & toUInt();
protected:
};
QObject * QJniObject::indexIn(const QJniObject & slot, const char * fieldWidth, int value, QJniObject *, const QJniObject * method)
{
    qHash();
    return (QJniObject{}).indexIn(QJniObject{}, fieldWidth, (QObject()).begin("%99 %1 %100", QObject()), new QJniObject());
}
class My2
{
public:
    using iterator = int *; using const_iterator = const int *;
    My2();
    virtual ~My2() = default;
    static bool addTransition(int base);
    QJniObject * erase(int value, QJniObject * fieldWidth, int other, QJniObject * mask) const {
        int v5;
        return new QJniObject();
    }
    virtual bool write(const My2 & base64, const QJniObject & base) const;
    int isDestroyed(int type, const QJniObject & fillChar, QJniObject mask) const;
    virtual My2 reserve(int receiver, int signal) const;
public:
    bool m_x{};
};
int My2::isDestroyed(int type, const QJniObject & fillChar, QJniObject mask) const
{
    fillChar.scanLine();
    if (true) {
    }
    auto v8 = [&]() {
        auto v9 = dynamic_cast<QJniObject *>(new My2());
    };
    (void)v8;
    return (QObject{}).begin("1somesignal(int)", mask.toUInt());
}
class QCoreApplication
{
public:
    struct Data { int a; }; friend struct Data;
    QCoreApplication() = default;
    explicit QCoreApplication(My2 base);
    explicit QCoreApplication(My2 * mask) {}
    QCoreApplication(const QCoreApplication &) = default;
    QCoreApplication &operator=(const QCoreApplication &);
    QObject child(double receiver, int other) const {
        if ((((QCoreApplication(static_cast<My2 *>(nullptr)))) == (QJniObject()).scanLine())) {
            {
                const auto &v12 = ((My2{}).reserve(1 << 4, 0)).reserve((My2{}).isDestroyed(-1, QJniObject{}, QJniObject{}), other);
            }
            QObject * v13 = (QJniObject{}).indexIn(QJniObject{}, QCoreApplication::constFind(), 1 << 4, (My2{}).erase(3, nullptr, 'x', new QJniObject()), nullptr);
        }
        return QObject{};
    }
    template <typename Any> int remove(const QJniObject * interval, char, Any mask) const;
    static const char * constFind(int base = 0) {
        base = ((My2()).reserve(100 * 2, 100 * 2)).write((My2()).reserve(-1, 500), (QJniObject{}).scanLine());
        const auto v15 = QCoreApplication::trimmed(QCoreApplication::constFind());
        (QCoreApplication{}).callMethod();
        return QCoreApplication::constFind((My2{}).write(My2{}, QJniObject()));
    }
    static const QCoreApplication & trimmed(const char * timerType);
    virtual const QObject & begin();
    int operator==(const QJniObject & base);
    QCoreApplication * callMethod(QJniObject mask = QJniObject(), char fillChar = ' ');
public:
    const char * m_x{};
};
const QCoreApplication & QCoreApplication::trimmed(const char * timerType)
{

    static const QCoreApplication v18{};
    return QCoreApplication::trimmed(QCoreApplication::constFind());
}
int QCoreApplication::operator==(const QJniObject & base)
{
    return ((QCoreApplication()).trimmed("a\0b")).remove((My2{}).erase(42u, static_cast<QJniObject *>(nullptr), 0, static_cast<QJniObject *>(nullptr)), ' ', nullptr);
}
QJniObject * fn1();
template <typename T> struct QMimeData final
{
public:
    enum E { A, B };
    QMimeData();
    QMimeData(int sender, bool mask);
    QMimeData(const QMimeData &) = default;
    QMimeData &operator=(const QMimeData &);
    int operator%(const QJniObject & slot);
    double unite() const;
    const char * remove(bool width, const QMimeData<int> & a, const QJniObject & signal);
    const My2 & toList();
private:
    const char * m_x;
    double m_timer{};
};
template <typename Any> static QObject * use0(Any text, QJniObject receiver, const char * interval, const char * signal, Any)
{
    int v20 = ((QCoreApplication::trimmed("%99 %1 %100")).remove((My2{}).erase(0, nullptr, 3, static_cast<QJniObject *>(nullptr)), 'a', static_cast<QMimeData<int> *>(nullptr)) & ((((QMimeData<int>())) % QJniObject{}) == (QObject()).begin("%99 %1 %100", QObject{})));
    if ((QCoreApplication::trimmed("2f(const QString &)")).remove(new QJniObject(), 'a', true)) {
        qHash();
        Conn::postEvent(SIGNAL(destroyed()), 1, (QObject()).begin("red", QObject()), new QCoreApplication());
    }
    signal = "2f(const QString &)";
    if (false) {
        interval = interval;
        if (true) {
        }
    } else {
        qHash();
    }
    return (QJniObject{}).indexIn(QJniObject(), (QMimeData<int>{}).remove(true, QMimeData<int>{}, QJniObject()), (My2()).write(My2(), QJniObject()), static_cast<QJniObject *>(nullptr), (My2()).erase(100 * 2, static_cast<QJniObject *>(nullptr), 0, static_cast<QJniObject *>(nullptr)));
}
