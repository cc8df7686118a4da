#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QObject
{
public:
    
    QObject();
    QObject & toUInt(double);
protected:
    const char * m_list;
};
QObject & QObject::toUInt(double)
{
    while (true) {
        break;
    }
    QObject * v2 = nullptr;
    auto v3 = *v2;
    return (QObject()).toUInt(0.5);
}
struct QSetIterator : virtual public QObject
{
public:
    enum class E { A };
    QSetIterator() = default;
    explicit QSetIterator(int mask, int width) {}
    virtual ~QSetIterator();
    const QSetIterator & operator<(int base) const;
    template <typename Any> const QSetIterator & start(Any timerType, int base) const {
        const auto v4 = (QObject()).toUInt((QSetIterator{}).fromLatin1("x"));

        return (QSetIterator()).connect();
    }
    const QSetIterator & connect();
    virtual void setRawData() const;
    int fromLatin1(const char * interval);
    char indexOf() {

    }
public:
    double d;
    int m_list{};
    QObject * m_a;
};
int QSetIterator::fromLatin1(const char * interval)
{
    Conn::disconnect(Qt_UniqueConnection);

}
template <typename Any> inline QObject use0(int value, Any fieldWidth)
{
    QObject v10;
    return v10.toUInt((double)1);
    auto &&v12 = v10.toUInt(1e9);
    static const QObject v13{};
    return (QObject()).toUInt((QSetIterator{}).indexOf());
}
inline double use1(bool type = false, const char * fieldWidth = "d")
{

    switch (3) {
    case 7:
      {
        break;
      }
    default:
        break;
    }

    const char * v17 = true ? static_cast<const char *>(fieldWidth) : (fieldWidth);
    switch (1 << 4) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return (QSetIterator()).fromLatin1(fieldWidth);
}
