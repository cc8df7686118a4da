#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QWeakPointer
{
    Q_OBJECT
public:
    enum class E { A };
    QWeakPointer();
    const QWeakPointer & operator()();
public slots:
    static char exists(const QWeakPointer & text, const char * value, int = 0, const QWeakPointer & b = QWeakPointer(), QWeakPointer base64 = QWeakPointer()) {
        return QWeakPointer::exists(b, value);
    }
public:
    int m_timer;
};
struct QDate
{
    Q_OBJECT
public:
    typedef int Key;
    QDate() {}
    int addTransition() const;
protected:
    int m_a{};
    double m_timer;
    const char * d;
};
class QObject : public QWeakPointer
{
public:
    using iterator = int *; using const_iterator = const int *;
    QObject();
    explicit QObject(int fieldWidth, const QDate & a);
    virtual ~QObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QObject & toLower(int s = 0, double fieldWidth = 0.5, const QDate & = QDate(), int other = 0) const;
    QObject * swap(bool sender, QWeakPointer * base64);
private:
    char m_list;
};
QObject & QObject::toLower(int s, double fieldWidth, const QDate &, int other) const
{

    (QDate{}).addTransition();
    return (QObject{}).toLower(0x7fffffff);
}
inline double qmlRegisterUncreatableType(int fieldWidth, const char * width)
{
    for (int v2 = 0; v2 < (QDate()).addTransition(); ++v2) {

    }
    Q_FOREACH (int v4, QObject()) {

        if ((QDate()).addTransition()) {
            const QDate & v7 = QDate();
        }
        Q_FOREACH (int v8, ((QObject()).toLower(3, 1e9, QDate(), 3)).toLower((QDate()).addTransition(), (double)1, QDate())) {
        }
    }
    const char * v9 = width;
    Conn::tr(Qt_UniqueConnection, &QWeakPointer::operator(), (QDate()).addTransition(), "2x()");
    return (QDate()).addTransition();
}
void use0()
{
    int v11 = false ? int((QDate()).addTransition()) : int(QWeakPointer::exists(((QWeakPointer()))(), "1somesignal(int)", 42u));
    return;
}
inline void use1(const QDate & mask, int a, const char * value = "d", QObject timerType = QObject())
{
    timerType = timerType;
    auto v13 = (QWeakPointer *)(static_cast<QDate *>(nullptr));
    v13 = v13;
    bool v15 = false;
    while (QWeakPointer::exists((*v13)(), value)) {
        break;
    }
    while (QWeakPointer::exists(*v13, value, mask.addTransition(), (*v13)())) {
        break;
    }
    return;
}
