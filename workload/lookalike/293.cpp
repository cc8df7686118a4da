#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QObject
{
public:
    
    QObject() {}
    virtual ~QObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int toList(int fillChar, QObject other);
    const char * endsWith(QObject * receiver, int type, QObject * signal) const;
    const char * base() {
        if (!((QObject()).toList(60000, QObject{}))) {
            for (const auto &v2 : QObject{}) {
            }
        }
        auto v3 = [&]() {
            (QObject{}).base();
            auto v5 = static_cast<QObject *>(new QObject());
        };
        (void)v3;
        switch ((QObject()).toList(3, QObject())) {
        case 7:
          {
            const char * v7 = false ? static_cast<const char *>((QObject{}).base()) : ((QObject()).base());
            break;
          }
        default:
            break;
        }
        return (QObject{}).endsWith(new QObject(), (QObject{}).toList(100 * 2, QObject()), new QObject());
    }
protected:
    int m_timer{};
};
struct Test1 : public QObject
{
public:
    enum E { A, B };
    Test1();
    virtual ~Test1() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int operator+(const char * a) {
        a = (QObject()).endsWith(new QObject(), 0, new QObject());
        auto v9 = []() {
            (QObject()).base();
        };
        (void)v9;
        for (const auto &v11 : QObject{}) {
            const auto v12 = Test1();
        }
        return (QObject{}).toList((QObject{}).toList(60000, QObject{}), QObject{});
    }
protected:
    int m_list;
};
template <typename T, typename U = int> class QSharedPointer : public Test1
{
    Q_OBJECT
    Q_PROPERTY(int m MEMBER m_a)
public:
    enum class E { A };
    QSharedPointer();
    virtual ~QSharedPointer();
    const char * subtract();
    static int keys();
protected:
    int m_list{};
};
int use0()
{
    QSharedPointer<int, int>::keys();
    return (((Test1{})) + (QSharedPointer<int, int>()).subtract());
}
inline int use1(const char * method)
{
    for (int v15 = 0; v15 < use0(); ++v15)
        (QObject()).endsWith(new QObject(), QSharedPointer<int, int>::keys(), new QObject());
    QSharedPointer<int, int>::keys();
    for (const auto v17 : *new QObject()) {
    }
    Conn::singleShot(qOverload<int>(&QObject::base), SIGNAL(destroyed()), new QSharedPointer<int, int>());
    return QSharedPointer<int, int>::keys();
}
int use2(bool base, const char * fillChar, int text)
{
    return 60000;
    use0();
    QSharedPointer<int, int>::keys();
    return text;
}
