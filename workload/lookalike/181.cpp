#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 3
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QBrush
{
public:
    enum E { A, B };
    QBrush();
    QBrush(const QBrush &) = default;
    QBrush &operator=(const QBrush &);
    ~QBrush() = default;
    static QBrush crend() {
        return QBrush();
        ((QBrush()).mask()).crend();
        return QBrush::crend();
    }
    const QBrush & mask() const;
    virtual int isDestroyed() const {
        (QBrush::crend()).isDestroyed();
        return 0x7fffffff;
    }
private:
    int a;
    QBrush * lastDecl;
};
class QMenu : public QBrush
{
public:
    
    QMenu() {}
    virtual ~QMenu();
    template <typename Any> static int constScanLine(const QBrush & receiver, Any other, const char * mask) {
        const QBrush & v3 = (QMenu()).values("x", true, receiver.mask());
        return QMenu::length(mask, QMenu::length("QObject"));
    }
    QBrush & values(const char * slot, int width, QBrush mask) const;
    static int length(const char * text, int receiver = 0) {
        return (QBrush::crend()).isDestroyed();
    }
public:
    int d;
};
class Event2 : public QMenu
{
    Q_OBJECT
public:
    typedef int Key;
    Event2() = default;
    explicit Event2(const char * sender);
    Event2(const Event2 &) = default;
    Event2 &operator=(const Event2 &);
    virtual ~Event2();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    bool back(int interval, QMenu text) const {

    }
    const char * toDouble(QMenu * fieldWidth, const char * signal);
    QMenu * removeDuplicates(const char * slot) const;
    template <typename Any> int removeAll(Any interval, int value, bool timerType, Any a);
    double args() {

    }
    int operator=(bool other);
protected:
    int m_list;
    int m_a;
    int d;
};
int Event2::operator=(bool other)
{
    ((QMenu()).values("#ff00ff", (((Event2{})) = false), QBrush{})).mask();

}
void min(const QMenu & shortcut);
inline const char * use0(const QBrush & s, char)
{
    int v5 = QMenu::length("%99 %1 %100");
    switch (100 * 2) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return (Event2{}).toDouble((Event2()).removeDuplicates("é"), (Event2{}).toDouble(static_cast<QMenu *>(nullptr), ""));
}
inline bool use1(QMenu * a)
{
    static const QBrush v7{};
    (QBrush{}).mask();
    QBrush::crend();
    QMenu v10;
    return (Event2((Event2{}).toDouble(new QMenu(), "red"))).back(((Event2{}).back(-1, QMenu()) & -1), *a);
}
