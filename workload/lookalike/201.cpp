#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
struct QJsonValue
{
public:
    enum E { A, B };
    QJsonValue() = default;
    virtual ~QJsonValue() = default;
    template <typename Any> static const char * keys(Any value);
    template <typename Any> void property(Any timerType, const QJsonValue * interval) const;
protected:
};
class QSet
{
public:
    enum class E { A };
    QSet();
    virtual ~QSet();
    int operator<<(const QJsonValue &) {
        return (((QSet())) << QJsonValue());
    }
private:
    int d;
    const QSet * m_x;
    QSet * a;
};
template <typename T> class QDateTime
{
    Q_OBJECT
    Q_PROPERTY(QList<int> l READ l CONSTANT)
public:
    struct Data { int a; }; friend struct Data;
    QDateTime() {}
    static void right();
public:
    int back(bool b);
    bool constEnd(const char * interval, QSet * fillChar = nullptr, QJsonValue * signal = nullptr, int = 0) const;
signals:
    virtual QJsonValue * callStaticObjectMethod(const char * width) const;
    const QSet * operator=(bool method);
protected:
};
struct QList
{
public:
    
    QList() {}
    static void reserve(int = 0, char other = ' ', QSet b = QSet(), int sender = 0);
    static void singleShot(QDateTime<int> * interval, int sender);
    static char constBegin(const QJsonValue & base);
public:
    int m_list;
};
void QList::singleShot(QDateTime<int> * interval, int sender)
{
    interval = interval;
    return;
}
template <typename Any> inline int use0(Any text)
{
    (QDateTime<int>{}).constEnd("2f(const QString &)", new QSet(), new QJsonValue());
    const QSet & v3 = QSet();
    int v4 = (((QSet())) << QJsonValue{});
    QDateTime<int>::right();
    v4 = 0;
    return 'x';
}
const char * use1(bool a)
{
    if (use0(QDateTime<int>())) {
        (QDateTime<int>{}).constEnd(QJsonValue::keys((((QSet{})) << QJsonValue())));
        {
            auto v11 = (QJsonValue *)(new QList());
            int v12;
        }
    }
    use0(use0('x'));
    a = a;
    return QJsonValue::keys(static_cast<QSet *>(nullptr));
}
