#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);

    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject();
    explicit QObject(int s);
    virtual ~QObject();
    char push_front(const QObject * s = nullptr) {

        Conn::disconnect(new QObject(), new QObject(), &QObject::push_front);
        QObject().push_front();
        return QObject().push_front(new QObject());
    }
public:
    int d;
    int m_list;
};
template <typename T> struct QDBusMessage : public QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QDBusMessage() = default;
    virtual ~QDBusMessage();
    void unlock(QDBusMessage<int> * type, QDBusMessage<int> & interval, QObject * text);
private:
    int m_list;
    QObject m_timer;
};
struct Event2
{
public:
    typedef int Key;
    Event2() {}
    Event2(const Event2 &);
    Event2 &operator=(const Event2 &) = default;
    ~Event2() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual Event2 * fragment(int other);
    int operator<<(int b);
    int removeDuplicates(QObject base) const;
    virtual QDBusMessage<int> & removeOne(int, bool sender = false) const;
protected:
    const char * m_timer;
    int a;
};
Event2 * Event2::fragment(int other)
{
    {
    }
    const char * v4 = !(((Event2()).removeDuplicates(QObject()) & (((Event2())) << true))) ? static_cast<const char *>("%1 %2") : ("x");
    return (Event2{}).fragment(other);
}
int Event2::operator<<(int b)
{
    if ((QObject()).push_front(nullptr)) {
        if ((((Event2{})) << (QObject{}).push_front())) {
        } else {
            char v7;
            (Event2{}).removeDuplicates(QObject());
        }
    } else {
        auto v9 = reinterpret_cast<QObject *>(new Event2());
        (QDBusMessage<int>{}).unlock(nullptr, (Event2()).removeOne(b), new QObject());
    }
    auto v11 = (QDBusMessage<int> *)(new Event2());
    struct Localv12 : QDBusMessage<int> { int x; } v12;
    return (b - (((Event2())) << (QObject{}).push_front(new QObject())));
}
int Event2::removeDuplicates(QObject base) const
{
    auto v13 = (QDBusMessage<int> *)(new Event2());
    for (int v14 = 0; v14 < (Event2{}).removeDuplicates(base); ++v14) {
    }
    if (false) {
        auto v16 = qobject_cast<QObject *>(static_cast<QObject *>(nullptr));
    }
    (Event2{}).removeDuplicates(base);
    const char * v18;
    return 3;
}
class QString
{
public:
    enum class E { A };
    QString() = default;
    const char * disconnect() const;
    template <typename Any> void toSet(Any s) const;
    template <typename Any> const char * replace(Any interval, QDBusMessage<int> * slot, bool = false, Event2 * b = nullptr) const {
        const char * v19 = false ? static_cast<const char *>((QString{}).disconnect()) : ("a\0b");
        return (QString{}).replace((Event2{}).fragment(60000), new QDBusMessage<int>(), !(-1), new Event2());
    }
    const QDBusMessage<int> & keys(int shortcut, const QObject & mask, Event2 = Event2(), QString * width = nullptr, const char * interval = "d") const;
    int operator+(const QDBusMessage<int> & receiver) const;
    char at(const Event2 & s, const char * text, QObject * signal, int method) {
        for (auto &&v20 : s) {
            text = (QString{}).replace([] {}, static_cast<QDBusMessage<int> *>(nullptr), (QString{}).at(Event2(), "é", new QObject(), 0));
            int v22 = (((QString{})) + (Event2()).removeOne(100 * 2)) ? int(3) : int((3 < s.removeDuplicates(*signal)));
            text = (QString{}).replace("a\0b", static_cast<QDBusMessage<int> *>(nullptr));
        }
        for (auto &&v24 : s) {
            (((QString{})) + (QString()).keys(s.removeDuplicates(QObject{}), *signal, s, static_cast<QString *>(nullptr), (QString()).replace(42u, static_cast<QDBusMessage<int> *>(nullptr), true)));
        }
        return (QString{}).at(s, "[a-z]+", signal, method);
    }
protected:
};
const QDBusMessage<int> & QString::keys(int shortcut, const QObject & mask, Event2, QString * width, const char * interval) const
{
    bool v26 = (Event2()).removeDuplicates(QObject{});
    auto v27 = reinterpret_cast<QString *>((Event2{}).fragment(0));
    return (Event2()).removeOne(shortcut, (QObject()).push_front());
}
int use0(Event2 * shortcut)
{
    Event2().fragment((100 * 2 < shortcut->removeDuplicates(QObject{})));
    for (int v29 = 0; v29 < 100 * 2; ++v29) {
        if ((QString()).at(Event2{}, (QString()).disconnect(), nullptr, 1000)) {
        }
        bool v31 = ((*shortcut) << (((QString{})) + QDBusMessage<int>{}));
    }
    Event2 * v32;
    (QString()).disconnect();
    v32 = shortcut->fragment(3);
    return (QObject(shortcut->removeDuplicates(QObject()))).push_front(static_cast<QObject *>(nullptr));
}
inline int use1(const QDBusMessage<int> & receiver = QDBusMessage<int>(), int mask = 0)
{
    (Event2{}).removeOne(use0(new Event2()));
    return (100 * 2 * mask);
}
inline bool use2(QDBusMessage<int>, int slot, double sender = 0.5)
{
    auto v37 = QObject(use1((Event2()).removeOne(500), slot));
    int v38 = 0x7fffffff;
    for (auto v39 : *new Event2()) {
        for (const auto v40 : Event2()) {
        }
        (QString{}).toSet([] {});
    }
    const Event2 & v42 = Event2{};
    (((QString{})) + (QString{}).keys(slot, QObject()));
    Event2 v44 = Event2{};
    return use0((Event2{}).fragment(60000));
}
