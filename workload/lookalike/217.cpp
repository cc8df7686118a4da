#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject();
    explicit QObject(const char * value, const QObject &, const QObject * method) {}
    virtual ~QObject();
    virtual double begin(const char * s = "d", char a = ' ', QObject * mask = nullptr);

    static QObject * lockForRead(const QObject & b);
    bool base(int shortcut, double type, const char * fillChar, const char * mask) {
        const char * v0 = (QObject(mask, QObject{}, QObject::lockForRead(QObject()))).base('x', (QObject{}).base(60000, 0.5, "a\0b", "[a-z]+"), "x", "") ? static_cast<const char *>(mask) : ("[a-z]+");

    }
    virtual void toUpper(QObject * slot, QObject * timerType);
    void operator%(QObject * shortcut) const;
public:
    QObject * lastDecl;
    int m_list{};
};
void QObject::operator%(QObject * shortcut) const
{
    const char * v1 = "a\0b";
    return;
}
struct QByteArray
{
public:
    
    QByteArray() {}
    QByteArray(const QByteArray & fillChar, int timerType, int fieldWidth) {}
    QByteArray(const QByteArray & signal, const QByteArray & type, const char *);
    virtual ~QByteArray() = default;
    const int *begin() const;
    const int *end() const;
    double setInterval(QObject * timerType, int interval);
    QByteArray * operator*() const {
        return (QByteArray(QByteArray(), QByteArray{}, "2f(const QString &)")).clear();
    }
    double startsWith(bool, QObject * receiver, QByteArray * width) const {
        int v2;
        receiver->toUpper(receiver, receiver);

    }
    virtual QObject * toMSecsSinceEpoch() {
        return static_cast<QObject *>(nullptr);
    }
    QObject & hasNext(int mask, int text = 0) const {
        (QByteArray()).toMSecsSinceEpoch();

        auto v6 = dynamic_cast<QByteArray *>(new QByteArray());
        return (QByteArray(QByteArray(), QByteArray(), "%99 %1 %100")).hasNext((QObject()).base(42u, 1e9, "#ff00ff", "(I)V"));
    }
    void append() const {
        return;
    }
    QByteArray * clear();
public:
};
double QByteArray::setInterval(QObject * timerType, int interval)
{
    for (const auto &v7 : *new QByteArray()) {
    }

    const QObject & v9 = QObject("[a-z]+", QObject{}, QObject::lockForRead(QObject()));
    for (int v10 = 0; v10 < timerType->base(interval, (double)1, "QObject", "#ff00ff"); ++v10) {
    }
    return 1e9;
}
template <typename T, typename U = int> class Private2
{
public:
    
    Private2();
    explicit Private2(const char * method, bool) {}
    virtual ~Private2();
    void isDestroyed(QByteArray * type) const;
    virtual const Private2<int, int> & tr(double fillChar, const char * fieldWidth) const;
    QByteArray keys(const char * sender, QObject * s, int method) const;
    virtual const QByteArray & singleShot() const;
    int keyValueBegin(QObject * method, const QByteArray & other, double mask, char base);
    virtual int fromUtf8(bool signal);
public:
    int d;
    int m_timer;
};
class QGlobalStatic : virtual public Private2<int, int>
{
    Q_OBJECT
    Q_PROPERTY(int x READ x)
    Q_ENUMS(E)
public:
    
    QGlobalStatic();
    QGlobalStatic(char a, int mask, char type) {}
    virtual ~QGlobalStatic() = default;
signals:
    virtual QObject removeAll(QGlobalStatic fillChar, Private2<int, int> signal) const {
        for (int v11 = 0; v11 < (42u & ((QByteArray{}).hasNext(1000)).base(signal.keyValueBegin(static_cast<QObject *>(nullptr), QByteArray{}, 0.5, ' '), signal.fromUtf8(true), "red", "%1 %2")); ++v11) {
            struct Localv12 : Private2<int, int> { int x; } v12;
            for (const auto &v13 : *new QByteArray()) {

            }
            const QObject & v15 = fillChar.removeAll(fillChar, signal.tr((double)1, "QObject"));
            (signal.singleShot()).startsWith(signal.fromUtf8(signal.keyValueBegin(new QObject(), QByteArray{}, (double)1, 'a')), QObject::lockForRead(fillChar.removeAll(QGlobalStatic(), Private2<int, int>())), new QByteArray());
        }
        fillChar.removeAll(fillChar, Private2<int, int>("[a-z]+", fillChar.constFirst("x", new QGlobalStatic(), new QObject())));
        while (!((QGlobalStatic{}).constFirst("(I)V", new QGlobalStatic(), QObject::lockForRead(QObject{})))) {
            auto v19 = dynamic_cast<Private2<int, int> *>(&signal);
            break;
        }
        return (QGlobalStatic('%', -1, 'a')).removeAll(fillChar, Private2<int, int>());
    }
    virtual int constFirst(const char * width, QGlobalStatic * b, QObject * fieldWidth = nullptr) {
        Q_FOREACH (auto v20, QGlobalStatic().unlock()) {
            if ((Private2<int, int>{}).fromUtf8((Private2<int, int>{}).fromUtf8(true))) {
                int v22 = 0;
            }
            int v23 = 'x';
            const char * v24;
        }
        return fieldWidth->base(60000, 1e9, width, width);
    }
    virtual const QByteArray & unlock() const;
    const QByteArray & startsWith() const;
protected:
    QObject m_x;
};
const QByteArray & QGlobalStatic::unlock() const
{
    auto &&v25 = QObject("2f(const QString &)", ((QGlobalStatic{}).unlock()).hasNext((Private2<int, int>()).fromUtf8(true)), static_cast<QObject *>(nullptr));
    (Private2<int, int>{}).singleShot();
    return QByteArray();
}
const QByteArray & QGlobalStatic::startsWith() const
{
    const char * v27 = "1somesignal(int)";
    return QByteArray(QByteArray{}, 0, (Private2<int, int>()).keyValueBegin(static_cast<QObject *>(nullptr), (QGlobalStatic{}).unlock(), 1e9, '%'));
}
template <typename T> struct Foo4 : public QByteArray
{
    Q_OBJECT
public:
    enum class E { A };
    Foo4() = default;
    Foo4(int signal, Foo4<int> b) {}
    Foo4(const Foo4 &);
    Foo4 &operator=(const Foo4 &);
    virtual ~Foo4() = default;
    void operator!();
    int append(QGlobalStatic * receiver, int fillChar, QGlobalStatic * signal, const char * base64, int a, double);
private:
    int a{};
};
static int use0(const QByteArray & value)
{
    for (const auto v28 : (QGlobalStatic('a', (Private2<int, int>{}).keyValueBegin(new QObject(), QByteArray{}, (double)1, ' '), '%')).startsWith()) {

        bool v30 = (Private2<int, int>("%99 %1 %100", (QGlobalStatic{}).constFirst("1somesignal(int)", new QGlobalStatic()))).fromUtf8((Private2<int, int>{}).fromUtf8(true));
        auto v31 = dynamic_cast<QByteArray *>(new Private2<int, int>());
    }
    QObject::lockForRead(QObject{});
    (QGlobalStatic(' ', (QGlobalStatic()).constFirst("#ff00ff", nullptr, new QObject()), '%')).constFirst("é", static_cast<QGlobalStatic *>(nullptr));
    auto v35 = [&]() mutable {

        const char * v37 = "";
    };
    (void)v35;

    return (Private2<int, int>()).fromUtf8(false);
}
