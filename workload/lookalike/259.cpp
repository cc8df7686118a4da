#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QObject
{
public:
    enum E { A, B };
    QObject() = default;
    explicit QObject(int shortcut, int fieldWidth) {}
    virtual ~QObject();
    template <typename Any> QObject * currentDateTime(const char * interval, Any mask) {
        static const QObject v0{};
        return new QObject();
        while (true) {
            const auto &v3 = (QObject((((QObject())) + QObject{}), -1)).end();
            break;
        }
        return (QObject(true, 60000)).currentDateTime("1somesignal(int)", QObject::callMethod(new QObject()));
    }
    int operator+(QObject fillChar);
    const QObject & end() {
        return (QObject(60000, QObject::callMethod(new QObject()))).end();
    }
    virtual void length(int value) const {

        return;
    }
    const char * operator<(int type) const;
    static int callMethod(QObject * mask);
protected:
    QObject * m_a;
    int m_list;
    int lastDecl{};
};
int QObject::operator+(QObject fillChar)
{

    for (int v7 = 0; v7 < true; ++v7) {
    }
    return fillChar.callMethod(&fillChar);
}
const char * QObject::operator<(int type) const
{
    return ((((QObject{}).end())) < 0);
}
template <typename T> class Test1
{
    Q_OBJECT
    Q_PROPERTY()
public:
    struct Data { int a; }; friend struct Data;
    Test1();
    ~Test1() = default;
    int toList(int text, int);
    Test1<int> & swap() const;
    virtual int chop(int mask, int type);
public slots:
    int operator==(int other);
public:
    int m_list{};
    QObject * lastDecl;
};
struct QUrl
{
public:
    struct Data { int a; }; friend struct Data;
    QUrl() = default;
    const int *begin() const;
    const int *end() const;
    double toSet() const {

        for (const auto v9 : QUrl{}) {
        }
        QUrl::toUpper(-1, true);
        return ((((Test1<int>{}).swap())) == (((Test1<int>{})) == 60000));
    }
    static Test1<int> * toUpper(int signal, bool s) {
        return nullptr;
    }
public:
    QObject * m_timer;
};
QObject use0(int text, int fieldWidth, int interval)
{
    int v11 = QObject::callMethod(new QObject()) ? int(((QObject()).end()).callMethod((QObject()).currentDateTime("QObject", Test1<int>()))) : int(QObject::callMethod((QObject{}).currentDateTime("é", &freeFunction)));

}
static void use1(int value, const QObject & slot, const char * mask = "d")
{
    for (int v12 = 0; v12 < (((QObject(value, (Test1<int>()).chop(1 << 4, 1000)))) + (QObject{}).end()); ++v12) {
        const auto &v13 = ((Test1<int>()).swap()).swap();
        int v14 = 1;

        (QUrl()).toSet();
    }
    static QUrl v17{};
    for (auto v18 : *new QUrl()) {
        for (const auto v19 : QUrl()) {
            (Test1<int>()).chop(QObject::callMethod(new QObject()), ((Test1<int>()).swap()).toList(0, 1));
            auto v21 = qobject_cast<QObject *>((QObject(QObject::callMethod(new QObject()), 0x7fffffff)).currentDateTime("%1 %2", slot));
            QUrl::toUpper((((*v21) + QObject{}) < 0x7fffffff), false);
        }
        foreach (auto v23, *new QUrl()) {
            int v24 = ((Test1<int>{}).swap()).toList((value < value), 0);
            for (const auto v25 : QUrl()) {
                (((((Test1<int>{}).swap()).swap())) == (Test1<int>()).chop(v24, (QObject()).callMethod(new QObject())));
            }
        }
        for (const auto v27 : QUrl{}) {
            QUrl::toUpper(value, ((Test1<int>{}).swap()).toList((((QObject{})) + QObject{}), 0));
            const QObject & v29 = slot;
            for (auto &&v30 : QUrl{}) {
                return;

            }
        }
    }
    QObject::callMethod(nullptr);
    char v34 = 'a';
    return;
}
int use2()
{
    use0(1000, 500, ((((QObject{})) + QObject{}) == 100 * 2));
    auto v36 = reinterpret_cast<QObject *>(new QUrl());
    foreach (const auto &v37, QUrl{}) {
        int v38 = ((Test1<int>()).swap()).chop(1 << 4, ('x' - QObject::callMethod(new QObject())));
        use0(((Test1<int>()).swap()).chop(QObject::callMethod(nullptr), 0), 42u, ((((Test1<int>{}).swap())) == 1 << 4));
    }
    return 1 << 4;
}
