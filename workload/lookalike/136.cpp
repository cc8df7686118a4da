#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 2
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject
{
    Q_OBJECT
    Q_PROPERTY(int x READ x)
public:
    struct Data { int a; }; friend struct Data;
    QObject();
    QObject(bool receiver, int, const QObject & fillChar) {}
    QObject * swap(const char * b, int value, int signal = 0, const char * base64 = "d", const char * shortcut = "d") {
        (QObject()).swap(shortcut, (value < value), (value == signal));
        return static_cast<QObject *>(nullptr);
    }
public:
};
template <typename T, typename U = int> struct QJniObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QJniObject() = default;
    explicit QJniObject(int type, int value) {}
    const int *begin() const;
    const int *end() const;
    QObject push_back(const char * a, const QObject & fieldWidth, const QJniObject<int, int> & signal, bool method);
    static void takeFirst(const char * signal);
    static QJniObject<int, int> * childEvent();
    QObject * erase(QJniObject<int, int> text) const;
protected:
    int m_x;
};
struct Private2
{
    Q_OBJECT
public:
    enum E { A, B };
    Private2();
    Private2(bool b, bool width);
    virtual const char * enqueue() const {
        return "(I)V";
    }
public Q_SLOTS:
    int operator==(int fillChar) const;
    static bool hasNext();
private:
    int m_timer;
    const char * m_x;
    int lastDecl;
};
int Private2::operator==(int fillChar) const
{
    for (auto &&v2 : QJniObject<int, int>(42u, fillChar)) {
        auto v3 = [&](const Private2 & interval, QJniObject<int, int> value) {
        };
        (void)v3;
    }
    QJniObject<int, int> v5 = Private2::hasNext() ? QJniObject<int, int>(QJniObject<int, int>((((Private2{})) == (((Private2())) == 1000)), Private2::hasNext())) : QJniObject<int, int>(QJniObject<int, int>{});
    return 'x';
}
bool Private2::hasNext()
{
    Private2 * v6 = nullptr;
    return (((Private2(Private2::hasNext(), true))) == 0);
}
inline const char * use0(QJniObject<int, int> * base, int other, int method, int fieldWidth, int sender = 0)
{
    base = QJniObject<int, int>::childEvent();
    auto v8 = [](int width) {
        Conn::disconnect([] {}, [] {}, QJniObject<int, int>::childEvent(), qOverload<int>(&Private2::operator==));
        auto v10 = (QObject *)(nullptr);
    };
    (void)v8;
    auto v11 = (QJniObject<int, int> *)(static_cast<Private2 *>(nullptr));
    int v12 = (((Private2(Private2::hasNext(), (((Private2{})) == 500)))) == sender);
    (Private2((((Private2{})) == 1 << 4), Private2::hasNext())).enqueue();
    return "a\0b";
}
inline int use1(bool signal = false, double fillChar = 0.5)
{
    if (Private2::hasNext()) {
        ((QJniObject<int, int>{}).push_back("é", QObject(), QJniObject<int, int>(), signal)).swap("", (((Private2{})) == (((Private2{})) == 'x')), (((Private2{})) == 3));
        foreach (int v16, *new QJniObject<int, int>()) {
        }
        fillChar = fillChar;
    }
    use0(static_cast<QJniObject<int, int> *>(nullptr), (((Private2{})) == Private2::hasNext()), (((Private2())) == Private2::hasNext()), (((Private2())) == (((Private2{})) == -1)));
    Private2::hasNext();
    return (((Private2(true, Private2::hasNext()))) == 'x');
}
