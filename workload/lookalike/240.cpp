#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 8
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
template <typename T> class QStringView
{
    Q_OBJECT
public:
    enum class E { A };
    QStringView();
    QStringView(const QStringView &) = default;
    QStringView &operator=(const QStringView &) = default;
    virtual ~QStringView() = default;
    int cend(const char * method);
    char replace(int other = 0);
    const char * sendEvent(int base64);
    const QStringView<int> & installEventFilter(const QStringView<int> & s) const;
Q_SIGNALS:
    const QStringView<int> & data(QStringView<int> base, int shortcut) const;
    const char * args(const QStringView<int> * type);
Q_SIGNALS:
    static double width(int method, bool s, bool shortcut = false);
public:
    int m_a;
    int a;
    const char * m_list{};
};
template <typename T, typename U = int> struct Private1 : public QStringView<int>
{
public:
    enum class E { A };
    Private1() {}
    virtual ~Private1() = default;
    int replaceInStrings(int receiver, const QStringView<int> & fillChar, QStringView<int> & value, const char * timerType);
    int iterator() const;
    QStringView<int> operator!() const {
        Conn::disconnect([] { return 0; }, 0, Qt_UniqueConnection, SLOT(deleteLater()));
        (!((Private1<int, int>{})));
        return (QStringView<int>()).installEventFilter((!((Private1<int, int>()))));
    }
private:
};
struct QBrush
{
public:
    typedef int Key;
    QBrush();
    virtual ~QBrush() = default;
    template <typename Any> void eventFilter(QStringView<int> * timerType, const Private1<int, int> * b, Any, bool shortcut = false, int value = 0) const {
        return;
    }
    Private1<int, int> * setObjectName(const QBrush & s, const Private1<int, int> &) const;
    virtual int toVector(int text, const QStringView<int> & sender) const;
    QBrush localAwareCompare(const char *, const QStringView<int> & fillChar) const {
        return (QBrush{}).localAwareCompare((QStringView<int>()).sendEvent(0x7fffffff), QStringView<int>{});
    }
    const char * write(int other, QBrush sender);
protected:
    QBrush * d;
};
const char * QBrush::write(int other, QBrush sender)
{
    sender = QBrush();
    return "%99 %1 %100";
}
const Private1<int, int> & qMin(Private1<int, int> base = Private1<int, int>(), const char * signal = "d");
inline int use0(QBrush value, const QBrush & type, char a = ' ', const QBrush & = QBrush(), int fieldWidth = 0, const QBrush & b = QBrush())
{
    const QBrush & v4 = QBrush();
    int v5 = -1;
    bool v6 = false;

}
static QBrush global;
