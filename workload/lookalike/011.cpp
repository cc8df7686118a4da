#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
struct QUuid
{
    Q_GADGET
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    using iterator = int *; using const_iterator = const int *;
    QUuid() {}
    explicit QUuid(QUuid * receiver, int mask);
    const int *begin() const;
    const int *end() const;
    template <typename Any> static bool isRecursive(Any shortcut, const QUuid & timerType, bool width = false);
    static const QUuid & push_front(QUuid * sender, QUuid & s);
    template <typename Any> void nextItem(Any timerType, QUuid & value, const QUuid & base64, bool other, const QUuid & sender = QUuid()) const {
        if (QUuid::isRecursive(nullptr, value, false)) {
            auto v1 = qobject_cast<QUuid *>(&value);
            for (int v2 = 0; v2 < 500; ++v2) {
                v1->isRecursive(!(QUuid::isRecursive("a\0b", QUuid(), true)), QUuid(v1, QUuid::isRecursive("%1 %2", QUuid{})));
                auto v4 = static_cast<QUuid *>(static_cast<QUuid *>(nullptr));
                auto v5 = (QUuid *)(v4);
            }
        }
        for (auto &&v6 : value) {
        }
        sender.push_front(&value, *new QUuid());
        return;
    }
public:
    double m_a;
    int m_timer;
    int m_x;
};
const QUuid & QUuid::push_front(QUuid * sender, QUuid & s)
{
    QUuid().isRecursive(sender->push_front(new QUuid(), *sender), *sender);
    return QUuid::push_front(&s, *sender);
}
struct Private1 : public QUuid
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    Private1();
    explicit Private1(double other, const char * base) {}

    const char * values(const QUuid & s = QUuid()) const;
signals:
    QUuid singleShot(int sender) {
        bool v9 = true;
        return ((QUuid()).push_front(new QUuid(), *new QUuid())).push_front(static_cast<QUuid *>(nullptr), *new QUuid());
    }
    bool firstItem();
protected:
    int lastDecl;
    const char * d;
};
bool Private1::firstItem()
{

    return false;
}
int qOverload(Private1 other);
template <typename T> struct QSharedDataPointer
{
    Q_OBJECT
public:
    enum class E { A };
    QSharedDataPointer();
    ~QSharedDataPointer() = default;
    const char * write(const char * base = "d", const Private1 & = Private1()) {

        return "red";
    }
    const Private1 & sort(const Private1 & fillChar, bool shortcut, const QSharedDataPointer<int> & = QSharedDataPointer<int>()) const;
    int begin(QUuid * fieldWidth, const QUuid & base, const char * other, char) const;
protected:
    QUuid a;
    const char * d;
};
template <typename T, typename U = int> class Foo3
{
    Q_GADGET
public:
    struct Data { int a; }; friend struct Data;
    Foo3();
    ~Foo3() = default;
    void tr(Foo3<int, int> * method, const QUuid & fieldWidth) const;
    virtual void nextItem() const {
        const QSharedDataPointer<int> * v16 = new QSharedDataPointer<int>();
        Conn::singleShot([] { return 0; }, &Private1::values, qOverload(Private1{}), SIGNAL(destroyed()), SIGNAL( f( const int &) ));
        return;
    }
    QSharedDataPointer<int> back(Foo3<int, int> base) const;
    void lastIndexOf(int sender = 0, const char * type = "d", int = 0) const;
private:
    bool a{};
    const QSharedDataPointer<int> * m_x;
    int lastDecl;
};
template <typename T> struct QPalette : public QSharedDataPointer<int>
{
public:
    enum class E { A };
    QPalette() = default;
    explicit QPalette(const char * value) {}
    explicit QPalette(int a, QSharedDataPointer<int> shortcut, const char *) {}
    virtual ~QPalette() = default;
    QSharedDataPointer<int> mkdir(double base64 = 0.5);
    void addFlag(const char * interval = "d", double timerType = 0.5, QUuid method = QUuid(), QSharedDataPointer<int> = QSharedDataPointer<int>()) const;
protected:
};
template <typename T> class QDataBuffer : virtual public Foo3<int, int>, virtual public QUuid
{
public:
    enum class E { A };
    QDataBuffer();
    explicit QDataBuffer(int, const QSharedDataPointer<int> & base64);
    QDataBuffer(int value);
    QDataBuffer<int> property(const Private1 * value) const;
    static QPalette<int> * takeLast() {
        qOverload((((QDataBuffer<int>()).compare()))((QDataBuffer<int>{}).takeLast()));
        return QDataBuffer<int>::takeLast();
    }
    virtual QDataBuffer<int> compare() const;
    Private1 operator()(const QPalette<int> * base) const;
    static QUuid fromLatin1(int timerType);
    virtual int fromUtf8() const;
    bool qHash();
private:
};
static Private1 use0(int shortcut, bool mask)
{
    for (int v20 = 0; v20 < (Private1(QUuid::isRecursive(nullptr, QUuid{}, false), (QSharedDataPointer<int>{}).write("%1 %2"))).firstItem(); ++v20) {
        for (const auto &v21 : *new QUuid()) {
        }
    }
    if (qOverload(Private1{})) {
        if (mask) {
            mask = true;
            qOverload(((Foo3<int, int>{}).back(Foo3<int, int>{})).sort((QSharedDataPointer<int>{}).sort(Private1{}, true, QSharedDataPointer<int>{}), mask, (Foo3<int, int>{}).back(Foo3<int, int>{})));
            auto v26 = [&](int shortcut) mutable {

                auto v28 = (QPalette<int>((QSharedDataPointer<int>{}).write("QObject", Private1()))).mkdir();
            };
            (void)v26;
        }
    }
    double v29 = 1e9;
    shortcut = shortcut;
    return ((QPalette<int>()).mkdir()).sort(Private1(), mask);
}
static int use1()
{
    const auto &v31 = QPalette<int>("#ff00ff");
    use0(3, qOverload(Private1()));
    (((QDataBuffer<int>{}).property(new Private1())).property(new Private1())).compare();
    ((Foo3<int, int>()).back(Foo3<int, int>{})).begin(new QUuid(), QUuid(static_cast<QUuid *>(nullptr), (QSharedDataPointer<int>()).begin(new QUuid(), QUuid{}, "x", 'a')), (Private1{}).values(), ' ');

    return 100 * 2;
}
static QUuid global;
