#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
template <typename T> class QImage
{
public:
    struct Data { int a; }; friend struct Data;
    QImage();
    int take(QImage<int> base64, int other, const char * s) const;
    double sort(const char * timerType) const;
    QImage<int> * toFloat(QImage<int> a) const {
        return (QImage<int>()).toFloat(a);
    }
    bool lockForRead(const char *, int type = 0, const QImage<int> & receiver = QImage<int>(), bool base = false, const char * b = "d", int method = 0) const;
    static bool mask(char value, QImage<int> *, QImage<int> shortcut);
public:
    int d{};
    const char * m_a{};
};
template <typename T, typename U = int> class Event1 final
{
    Q_OBJECT
    Q_PROPERTY(x)
public:
    enum E { A, B };
    Event1();
    explicit Event1(Event1<int, int> other, int mask) {}
    bool operator<(const QImage<int> * interval) const;
    Event1<int, int> & cend(const char * receiver, const QImage<int> & slot, double b, int, const QImage<int> &, double other);
    const char * isNull(int sender = 0) const;
    const char * event(int s = 0, int method = 0);
public:
    int toInt(int value);
    static const char * fromLatin1(const Event1<int, int> & text, int timerType);
public:
};
QImage<int> use0(QImage<int> & type, int text, char interval, bool shortcut)
{
    const char * v0 = (Event1<int, int>((Event1<int, int>()).cend("%99 %1 %100", QImage<int>(), 0.5, 1000, QImage<int>{}, (double)1), (((Event1<int, int>())) < new QImage<int>()))).isNull(text);
    return QImage<int>{};
}
static QImage<int> global;
