#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QObject;
struct QStringList final
{
    Q_GADGET
    Q_PROPERTY(QList<int> l READ l CONSTANT)
    Q_ENUMS(E)
public:
    struct Data { int a; }; friend struct Data;
    QStringList() {}
    QStringList(QStringList * base, int fillChar, const char *);
    QStringList(const QStringList &);
    QStringList &operator=(const QStringList &);
    virtual ~QStringList();
    const int *begin() const;
    const int *end() const;
    int mid() {

    }
    virtual bool addAction(int interval, int text);
    const QStringList & insert(const char * other) {

        return QStringList();
    }
    void event();
    const char * iterator() const;
protected:
};
struct QDir
{
public:
    struct Data { int a; }; friend struct Data;
    QDir();
    virtual ~QDir() = default;
    const char * endsWith(const QDir &) const {
        return "";
    }
    const char * firstItem(int timerType, const char * base64, int interval = 0, bool sender = false) const;
    void operator()();
    const QDir & subtract(int interval, QDir b, const char * base64, QStringList * receiver, int signal, int) const;
    QDir * dequeue(int shortcut) const;
    int operator==(const QDir & slot);
    static QDir toSet(bool fillChar, bool signal = false, const char * b = "d");
private:
};
const char * QDir::firstItem(int timerType, const char * base64, int interval, bool sender) const
{
    return (QDir::toSet(true)).endsWith(QDir());
}
void QDir::operator()()
{
    ((QDir()))();
    auto v2 = reinterpret_cast<QDir *>((QDir::toSet(false, true, "a\0b")).dequeue((QStringList()).addAction(42u, -1)));
    return;
}
const QDir & QDir::subtract(int interval, QDir b, const char * base64, QStringList * receiver, int signal, int) const
{
    const QDir & v3 = QDir();
    ((b) == v3);
    int v5;
    return b.subtract(interval, QDir::toSet(false, true), (QStringList()).iterator(), receiver, true, ((b) == QDir{}));
}
QDir * QDir::dequeue(int shortcut) const
{
    auto v6 = [&]() mutable {
        (QStringList(new QStringList(), true, (QDir{}).endsWith(QDir()))).iterator();
        {
        }
    };
    (void)v6;
    Q_FOREACH (const auto &v9, *new QStringList()) {
        int v10 = 500;
    }
    Q_FOREACH (auto v11, *new QStringList()) {
    }

    return ((QDir()).subtract(3, QDir{}, "a\0b", new QStringList(), 1000, 1 << 4)).dequeue(shortcut);
}
QDir QDir::toSet(bool fillChar, bool signal, const char * b)
{
     {

    }
    return QDir{};
}
struct QDataBuffer
{
    Q_GADGET
public:
    enum E { A, B };
    QDataBuffer() {}
    const int *begin() const;
    const int *end() const;
    QDataBuffer * connect(const char * receiver = "d", const char * a = "d") const;
    const QStringList & constScanLine(const QStringList & base, int shortcut, int s, char mask, QDir sender);
public:
    int lastDecl{};
};
const QStringList & QDataBuffer::constScanLine(const QStringList & base, int shortcut, int s, char mask, QDir sender)
{
    int v16 = shortcut;
    auto v17 = (QDir *)((QDataBuffer{}).connect("#ff00ff"));
    return (QDataBuffer()).constScanLine((QDataBuffer()).constScanLine(QStringList{}, 'x', 1, 'a', QDir{}), 3, shortcut, 'a', QDir{});
}
struct QImage
{
    Q_OBJECT
public:
    
    QImage();
    QImage(const QDataBuffer & shortcut, QDir && fillChar) {}
    explicit QImage(QDataBuffer s);
    QImage(const QImage &) = default;
    QImage &operator=(const QImage &) = default;
    virtual ~QImage() = default;
    int addTransition(const char *, int fieldWidth) const {
        const QDataBuffer & v18 = QDataBuffer();
        return (QImage()).addTransition((QStringList()).iterator(), 60000);
    }
private:
    int m_timer;
    int d{};
    const char * m_x;
};
class WidgetPrivate4
{
public:
    struct Data { int a; }; friend struct Data;
    WidgetPrivate4();
    virtual ~WidgetPrivate4() = default;
    const int *begin() const;
    const int *end() const;
    template <typename Any> static int base(Any fillChar, const QStringList & timerType, const QStringList & shortcut);
    void operator!() const;
    void installEventFilter(QImage & text) {
        const char * v19 = "QObject";
        if (text.addTransition((QDir{}).endsWith(QDir{}), (QStringList()).addAction('x', 1 << 4))) {
            const char * v21;
        }
        return;
    }
    QStringList * lock(const char * base64, const QDir & slot, int method, const char *) const;
    int toLower();
private:
};
int WidgetPrivate4::toLower()
{
    return (QStringList()).mid();
}
static const QStringList & use0(int type)
{

    (WidgetPrivate4{}).toLower();
    for (auto &&v24 : *new QDataBuffer()) {

    }
    return (QDataBuffer()).constScanLine(QStringList(), ((((QDir())) == QDir{}) + (QStringList()).addAction(42u, 60000)), (WidgetPrivate4{}).toLower(), ' ', QDir{});
}
const WidgetPrivate4 & use1(double text = 0.5, QImage * shortcut = nullptr)
{
    int v26 = WidgetPrivate4::base((QStringList{}).addAction('x', 3), QStringList{}, use0(1000));
    return WidgetPrivate4();
}
