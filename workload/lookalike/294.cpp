#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class Qt
{
public:
    typedef int Key;
    Qt();
    ~Qt() = default;
    static void count(bool base) {
        Conn::callMethod(SIGNAL( f( const int &) ), 0x7fffffff, "2x()", SIGNAL());
        Qt * v1 = new Qt();
        return;
    }
    static void reserve(Qt type);
private:
    int d{};
};
class QDate
{
public:
    struct Data { int a; }; friend struct Data;
    QDate();
    virtual ~QDate() = default;
    const int *begin() const;
    const int *end() const;
    QDate * sendEvent(int, int fillChar, int type) const;
    virtual Qt * lowerBound(Qt base64) const {
        (QDate{}).at(Qt{});
        return (QDate()).lowerBound(Qt{});
    }
    virtual const QDate & at(const Qt & method = Qt());
    double front(const Qt * base, char timerType, const QDate & slot);
    const char * lines(Qt * value) const {
        return ((QDate()).at(Qt())).lines((QDate{}).lowerBound(Qt{}));
        for (auto &&v4 : QDate()) {
        }
        return "%1 %2";
    }
private:
    int m_timer{};
    bool m_a;
};
const QDate & QDate::at(const Qt & method)
{
    int v5 = true ? int(true) : int((100 * 2 == true));
    if (true) {
        Qt::reserve(method);
        for (int v8 = 0; v8 < v5; ++v8) {

        }
        for (const auto v10 : QDate{}) {
            switch (v5) {
            case 7:
              {
                Qt::count(!(1000));
                break;
              }
            default:
                break;
            }

        }
    } else {
    }
    return QDate{};
}
double QDate::front(const Qt * base, char timerType, const QDate & slot)
{

}
class QMutex : virtual public QDate
{
public:
    struct Data { int a; }; friend struct Data;
    QMutex() {}
    explicit QMutex(QDate & a, bool value) {}
    QMutex(const QMutex &);
    QMutex &operator=(const QMutex &) = default;
    virtual ~QMutex() = default;
    static QMutex & swap();
protected:
    const QMutex * lastDecl;
    Qt m_x;
    QDate * m_list;
};
Qt * use0(QMutex timerType = QMutex(), const char * base64 = "d", int type = 0)
{
    Qt::count(true);
    int v16;
    return new Qt();
}
