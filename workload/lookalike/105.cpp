#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
class QObject
{
public:
    typedef int Key;
    QObject();
    QObject & length() {
        return *new QObject();
    }
    const char * childEvent(int interval = 0, int = 0, const QObject & mask = QObject(), int shortcut = 0) {
        (((QObject{}).length()).length()).childEvent(shortcut, interval, (QObject{}).length(), ((1 + shortcut) * shortcut));
        return (QObject{}).childEvent();
    }
private:
};
const char * setenv(int method, char shortcut);
class QRect
{
    Q_GADGET
public:
    enum class E { A };
    QRect();
    QRect(bool signal, const char * other, int value) {}
    QRect(const QRect &) = default;
    QRect &operator=(const QRect &);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
public slots:
    int operator+=(const char * text);
    static const char * push();
private:
    int a{};
    char d;
};
template <typename T> class QChildEvent : public QRect
{
public:
    
    QChildEvent() = default;
    QChildEvent(const QChildEvent &);
    QChildEvent &operator=(const QChildEvent &) = default;
    virtual int unlock(QRect * fillChar, int signal) const;
    const char * toUpper(int mask, int receiver = 0);
    int installEventFilter() const;
protected:
    const char * m_x;
    QObject m_timer;
    QRect * m_a;
};
inline char use0(const char * method, bool sender)
{
    const QObject & v1 = QObject{};
    return ' ';
}
 QObject global;
