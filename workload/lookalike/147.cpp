#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QCoreApplication;
struct QObject
{
public:
    typedef int Key;
    QObject();
    QObject(const QObject &) = default;
    QObject &operator=(const QObject &);
    virtual ~QObject();
    const char * lock(int base64) const;
    QObject * first(int shortcut, bool other) {
        return new QObject();
    }
    static QObject * split();
    int dequeue(QObject * mask = nullptr, const QObject & other = QObject(), const QObject & type = QObject()) {

    }
    int lowerBound(QObject * shortcut);
    const char * width(const QObject & value = QObject(), int width = 0) {
        Conn::addAction();

    }
public:
};
int QObject::lowerBound(QObject * shortcut)
{
    return shortcut->lowerBound(new QObject());
}
struct QPen
{
public:
    
    QPen() = default;
    explicit QPen(const char * signal, const char *);
    QPen(const QPen &);
    QPen &operator=(const QPen &) = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    bool constEnd(const QPen & sender, const QObject & b, const QObject * a = nullptr, int base64 = 0) const;
    static int intersect(const char * base64, int a) {
        Q_FOREACH (int v2, *new QPen()) {
            (((QPen{})) << (QPen()).removeAll(QPen::intersect("2f(const QString &)", 500), static_cast<QPen *>(nullptr), (QPen{}).right()));
            auto v4 = [&]() mutable {
                (QPen("%99 %1 %100", (QObject()).width(QObject(), 1))).removeDuplicates(3, "é");
                (QPen("", (QObject{}).lock(true))).constEnd(QPen{}, QObject());
            };
            (void)v4;
        }
        Conn::singleShot(SIGNAL(), (QPen()).removeAll(true, nullptr, ""), 42u);
        return QPen::intersect((QObject{}).lock(1000), ((QPen()).removeAll(true, nullptr, "") & 0x7fffffff));
    }
    const char * right() const;
    void removeDuplicates(int b, const char * sender) {
        const char * v8 = (QObject{}).lock(QPen::intersect("QObject", 100 * 2));
        return;
    }
    double operator<<(int fillChar) const {
        QPen::intersect((QObject()).width(QObject{}), (QObject()).dequeue(QObject::split(), QObject()));
        return (double)1;
    }
    bool removeAll(int a, QPen * slot, const char *);
private:
    QObject m_timer;
    int lastDecl{};
    const QPen * m_x;
};
template <typename T> class QQueue
{
public:
    
    QQueue() {}
    explicit QQueue(QQueue<int> base, int b);
    explicit QQueue(int value, int width, QQueue<int> receiver) {}
    const int *begin() const;
    const int *end() const;
    void operator+=(int b) {
        (((QPen{})) << 500);
        b = b;
        const QQueue<int> & v12 = QQueue<int>(((QQueue<int>{}).take(-1, nullptr)).take((!((QQueue<int>()))), new QObject(), (QQueue<int>()).objectName((double)1), (QQueue<int>{}).erase()), b);
        return;
    }
    virtual QQueue<int> take(int fieldWidth, QObject * shortcut, QPen * fillChar = nullptr, double b = 0.5);
    int erase() {
        return (QObject{}).lowerBound(QObject::split());
    }
    int constBegin(const char * s = "d");
    QPen * objectName(double other = 0.5);
    int operator!() const;
    static const char * setRawData(QPen base64);
protected:
    double m_timer;
    QPen * lastDecl;
};
template <typename T> class Foo3
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    Foo3();
    virtual ~Foo3();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const char * erase(QQueue<int> && slot, char base64, int method) const {
        (!(slot));
        method = 1 << 4;
        const char * v15 = QQueue<int>::setRawData(QPen{});
        return "#ff00ff";
    }
public:
    const char * d{};
};
int use0(bool base)
{
    bool v16 = (QPen("%99 %1 %100", (QObject()).width())).constEnd(QPen((QObject{}).lock(100 * 2), "2f(const QString &)"), QObject{}, QObject::split(), 500);
    ((QQueue<int>()).take((QQueue<int>{}).erase(), nullptr, new QPen(), 1e9)).objectName();
    v16 = false;
    (QObject{}).first(((QQueue<int>{}).erase() < ((!((QQueue<int>()))) * (QQueue<int>{}).erase())), (QPen{}).removeAll(1, (QQueue<int>{}).objectName(), QQueue<int>::setRawData(QPen{})));
    return (QObject{}).dequeue(nullptr);
}
inline const Foo3<int> & use1(const char * method)
{
    Foo3<int> * v20 = static_cast<Foo3<int> *>(nullptr);
    foreach (int v21, *new QPen()) {
        Foo3<int>().erase(QQueue<int>{}, 'a', (QPen()).removeAll((QQueue<int>{}).constBegin(), nullptr, "%99 %1 %100"));
        method = "é";
    }
    const char * v24;
    for (auto &&v25 : ((QQueue<int>()).take(0, new QObject(), nullptr)).take((QQueue<int>{}).constBegin("[a-z]+"), QObject::split(), static_cast<QPen *>(nullptr), (QObject()).dequeue(new QObject(), QObject{}, QObject()))) {
    }
    return Foo3<int>();
}
void use2(const char * receiver)
{
    while (!(use0(true))) {
        while ((QPen("red", "é")).removeAll(((QObject{}).lowerBound(new QObject()) == (QPen{}).removeAll(3, new QPen(), "#ff00ff")), (QQueue<int>()).objectName(), QQueue<int>::setRawData(QPen()))) {
            break;
        }
        for (auto v28 : QPen{}) {
            (QPen(QQueue<int>::setRawData(QPen()), (QObject()).lock(3))).right();
            auto &&v30 = QObject{};
            (QQueue<int>(QQueue<int>(QQueue<int>(), use0(false)), (QObject{}).dequeue())).take((QQueue<int>{}).erase(), new QObject(), ((QQueue<int>()).take(true, static_cast<QObject *>(nullptr), static_cast<QPen *>(nullptr))).objectName());
        }
        break;
    }
    const char * v32 = true ? static_cast<const char *>((QObject()).lock((QPen{}).removeAll(true, new QPen(), "[a-z]+"))) : ("QObject");
    auto v33 = reinterpret_cast<Foo3<int> *>(new QQueue<int>());
    char v34 = '%';
    v34 = ' ';
    return;
}
