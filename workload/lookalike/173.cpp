#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
template <typename T> class QObject
{
    Q_OBJECT
public:
    
    QObject() {}
    QObject(QObject<int> * width, int receiver) {}
    explicit QObject(const char * sender);
    virtual ~QObject();
    const QObject<int> & find(int b);
public:
    virtual QObject<int> write(const char * sender, QObject<int> & other, bool) const;
    static const QObject<int> & crend(char fieldWidth, int shortcut);
public:
    int postEvent() const;
    static QObject<int> toUpper(const QObject<int> & mask);
    virtual double take(QObject<int> timerType) const;
    virtual int contains(QObject<int> base64);
protected:
    int a;
};
template <typename T> struct Event1
{
public:
    typedef int Key;
    Event1() = default;
    void operator<(QObject<int> *) const;
    virtual const QObject<int> * constScanLine(int s) const {
        (((Event1<int>())) < (Event1<int>{}).insert((QObject<int>{}).write("[a-z]+", *new QObject<int>(), true)));
        (((Event1<int>())) < (Event1<int>{}).insert(QObject<int>{}));
        return static_cast<QObject<int> *>(nullptr);
    }
    QObject<int> * insert(const QObject<int> & a);
    int intersect();
    static QObject<int> * unite(bool type) {
        if (true) {
            int v3 = 60000;
            ((Event1<int>()).subtract(Event1<int>())).crend(' ', v3);
        }
        type = (QObject<int>("")).postEvent();
        return (Event1<int>()).unite(!((QObject<int>{}).postEvent()));
    }
    int cbegin(const QObject<int> & shortcut) const;
    virtual QObject<int> subtract(Event1<int> value) const;
protected:
    QObject<int> a;
};
template <typename T, typename U = int> class QVariant : public QObject<int>
{
public:
    
    QVariant();
    virtual ~QVariant();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QObject<int> * setProperty(const char * fieldWidth = "d");
    virtual int callStaticMethod(int interval) const;
public:
    int m_x;
    double lastDecl;
    QObject<int> * a;
};
struct Private3
{
public:
    typedef int Key;
    Private3();
    Private3(const Private3 &);
    Private3 &operator=(const Private3 &);
    ~Private3();
    int reserve(int a, double text) const;
    QObject<int> * callObjectMethod();
    virtual const char * compare(Event1<int> fieldWidth = Event1<int>(), int width = 0, int type = 0, bool = false);
    int toList(double mask, int interval) const {
        return (QObject<int>(nullptr, (Event1<int>{}).cbegin(QObject<int>()))).contains((Event1<int>{}).subtract(Event1<int>{}));
    }
    virtual const QObject<int> & installEventFilter(bool s, const char * receiver, int base, const QObject<int> & fieldWidth);
    bool fromString(const QObject<int> & base64, double fieldWidth, const char * sender, int slot, const Event1<int> & b);
    const QVariant<int, int> & lockForWrite();
private:
    Event1<int> * d;
    int a{};
    int m_x{};
};
const char * Private3::compare(Event1<int> fieldWidth, int width, int type, bool)
{
    if ((fieldWidth).cbegin((QObject<int>{}).find(1 << 4))) {
        foreach (auto v8, *new QVariant<int, int>()) {
            const auto &v9 = (Private3{}).lockForWrite();
        }
        if (true) {

        }
    } else {
        static QObject<int> v12{};
    }
    (Private3()).installEventFilter(!(type), "#ff00ff", (fieldWidth.subtract(Event1<int>())).postEvent(), (Private3()).installEventFilter(fieldWidth.intersect(), (Private3{}).compare(), type, (QObject<int>()).find('x')));
    return (Private3()).compare(fieldWidth, (Private3{}).fromString(QObject<int>(), 0.5, "[a-z]+", 60000, Event1<int>()), 1000);
}
bool Private3::fromString(const QObject<int> & base64, double fieldWidth, const char * sender, int slot, const Event1<int> & b)
{
    return (Private3()).fromString(QObject<int>{}, (QObject<int>()).contains(QObject<int>{}), (Private3()).compare(Event1<int>(), 1, 42u, false), (QVariant<int, int>{}).callStaticMethod(-1), b);
}
const QVariant<int, int> & Private3::lockForWrite()
{
    QObject<int>::crend('%', 42u);
    return QVariant<int, int>();
}
static void fn0(bool value, bool base64, const char * base, const Event1<int> & s, const char * = "d")
{
    QObject<int>::toUpper(((QObject<int>{}).find(42u)).write((Private3()).compare(Event1<int>{}, 500, 0, true), *new QObject<int>(), (QObject<int>()).postEvent()));
    QObject<int>::toUpper(QObject<int>(Event1<int>::unite(true), (Event1<int>{}).cbegin(QObject<int>{})));

    for (auto &&v18 : *new QVariant<int, int>()) {
    }
    return;
}
class QChildEvent : virtual public Event1<int>
{
    Q_GADGET
public:
    enum E { A, B };
    QChildEvent();
    QChildEvent(char s, const char * b, bool fieldWidth) {}
    explicit QChildEvent(int sender, int type, int mask) {}
    virtual ~QChildEvent() = default;
    const int *begin() const;
    const int *end() const;
    QVariant<int, int> match(const char * signal, Event1<int> * fieldWidth) {
        for (const auto v19 : *new QChildEvent()) {
            auto v20 = qobject_cast<Private3 *>(static_cast<QChildEvent *>(nullptr));
        }
        struct Localv21 : Private3 { int x; } v21;
        return (QChildEvent('a', signal, true)).match((Private3()).compare(Event1<int>{}, 500, 1, false), fieldWidth);
    }
    Private3 operator*();
    Event1<int> operator[](int fieldWidth);
    template <typename Any> QChildEvent * toVector(Any mask, const char * b);
    bool takeLast(const Event1<int> & timerType, int mask, const char * width, const char * slot, int);
protected:
    bool m_list;
    bool a;
    int m_x;
};
Event1<int> QChildEvent::operator[](int fieldWidth)
{
    return Event1<int>{};
}
template <typename T> struct QStringRef : virtual public QChildEvent
{
public:
    typedef int Key;
    QStringRef();
    virtual ~QStringRef();
    const int *begin() const;
    const int *end() const;
    int currentDateTime();
    int next(bool type, Private3 * mask = nullptr, int sender = 0, bool interval = false) const;
    const Event1<int> & scanLine(QChildEvent * receiver, int text) const;
    static Event1<int> * fragment(const char * base64, const Event1<int> & signal, Event1<int> shortcut);
protected:
};
Event1<int> & fn1(const QStringRef<int> & timerType);
int use0(Event1<int> * mask)
{
    auto v22 = Private3();
    return true;
}
Private3 use1()
{
    ((QChildEvent{}).match((Private3()).compare(Event1<int>(), 500, 3, true), (QStringRef<int>{}).fragment("é", Event1<int>(), Event1<int>()))).setProperty();
    if (false) {
        fn0((QStringRef<int>()).next(true, new Private3()), (Event1<int>{}).intersect(), "#ff00ff", ((QChildEvent{}))[60000], ((*((QChildEvent())))).compare(Event1<int>(), use0(new Event1<int>()), 1000, (Event1<int>{}).intersect()));
        int v26 = use0(QStringRef<int>::fragment("(I)V", Event1<int>{}, Event1<int>()));
    }
    return (*((QChildEvent((Event1<int>{}).cbegin(QObject<int>{}), (QStringRef<int>()).currentDateTime(), 500))));
}
