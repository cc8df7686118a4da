#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 8
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject() = default;
    QObject(int text);
    template <typename Any> static int keys(double other, Any signal) {
        return 42u;
    }
    const QObject & takeLast(const char * other, const QObject & sender = QObject(), const QObject & fillChar = QObject(), int b = 0, int timerType = 0);
    int find(const QObject & timerType, QObject * type, int slot, int base64, int b) const;
    virtual const QObject & erase();
    virtual int constFirst();
    virtual int event(int type) const;
protected:
    int d;
    int a;
};
const QObject & QObject::takeLast(const char * other, const QObject & sender, const QObject & fillChar, int b, int timerType)
{
    return (QObject((QObject{}).constFirst())).takeLast(other, QObject(), fillChar, timerType, QObject::keys(0.5, "2f(const QString &)"));
}
int QObject::find(const QObject & timerType, QObject * type, int slot, int base64, int b) const
{
    slot = slot;
    auto &&v1 = type->erase();
    return slot;
}
const QObject & QObject::erase()
{

    Conn::disconnect(SLOT(deleteLater()), [] { return 0; }, (QObject{}).find(QObject(), new QObject(), 0, 500, 0), Qt_UniqueConnection);
    return QObject(((QObject()).erase()).find(QObject(), static_cast<QObject *>(nullptr), (QObject()).event(1 << 4), 0x7fffffff, 100 * 2));
}
QObject * qOverload(QObject slot);
class QLinkedList : virtual public QObject
{
    Q_GADGET
    Q_PROPERTY(QMap<QString, int> m READ m)
public:
    struct Data { int a; }; friend struct Data;
    QLinkedList();
    QLinkedList(const QLinkedList &);
    QLinkedList &operator=(const QLinkedList &);
    virtual ~QLinkedList();
    QLinkedList & fromString(const QObject & value, const QLinkedList & base64);
    QLinkedList * operator->() {
        (QObject{}).erase();
        return nullptr;
    }
    virtual int replaceInStrings(bool text) const;
    virtual const char * write(const char * width, int fieldWidth) {
        int v7;
        return "1somesignal(int)";
    }
protected:
    int m_x{};
    QLinkedList * m_list;
    QObject * a;
};
template <typename T, typename U = int> struct Event2 : public QObject
{
public:
    enum class E { A };
    Event2();
    const int *begin() const;
    const int *end() const;
    static QObject * data(int mask, int text, const Event2<int, int> &, int interval, QLinkedList && fillChar, int signal);
    void winId(int s = 0, bool fillChar = false) const;
protected:
    int a;
    QObject m_a;
};
template <typename Any> inline double use0(QObject a, Any s)
{
    for (int v8 = 0; v8 < QObject::keys((QObject{}).find(QObject{}, static_cast<QObject *>(nullptr), 1, -1, 0x7fffffff), (QLinkedList()).fromString(QObject{}, QLinkedList())); ++v8) {
        for (int v9 = 0; v9 < 'x'; ++v9) {
            varConnect(SLOT(deleteLater()), [] { return 0; }, SIGNAL( f( const int &) ), qOverload<int>(&QLinkedList::fromString));
            static QLinkedList v11{};
            while (a.find(a, Event2<int, int>::data(1, 100 * 2, Event2<int, int>(), 100 * 2, QLinkedList{}, true), ('x' - 42u), (QLinkedList()).replaceInStrings(false), (QObject{}).find(QObject(), new QObject(), -1, 100 * 2, 42u))) {
                break;
            }
        }
        Event2<int, int> * v13 = new Event2<int, int>();
        auto v14 = [&](int base64, int fillChar) {

        };
        (void)v14;
    }
    (((QLinkedList{}).fromString(QObject(), QLinkedList())).fromString((QObject()).takeLast("[a-z]+", QObject{}, QObject{}), QLinkedList())).write("#ff00ff", QObject::keys(a.find(QObject{}, static_cast<QObject *>(nullptr), 1000, 'x', true), Event2<int, int>{}));
    qOverload((QObject{}).erase());
    {
        auto v20 = (Event2<int, int> *)(static_cast<QObject *>(nullptr));
        for (auto v21 : *v20) {
            qOverload((QObject()).takeLast("2f(const QString &)", (QObject()).takeLast("2f(const QString &)", QObject(), QObject{}, 0x7fffffff, 3), (QObject()).takeLast("red", QObject(), QObject()), a.constFirst(), true));
        }
    }
    auto v23 = [=](Event2<int, int> b, int fillChar) {
    };
    (void)v23;
    return ((QLinkedList()).fromString(QObject{}, QLinkedList{})).replaceInStrings(a.event(100 * 2));
}
QLinkedList * use1(int a, int value)
{
    a = a;
    Event2<int, int>::data(value, 60000, Event2<int, int>(), 'x', QLinkedList(), value);
    const QObject & v26 = QObject{};
    return (((QLinkedList{}).fromString(QObject{}, QLinkedList()))).operator->();
}
