#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QObject;
class QList
{
public:
    enum class E { A };
    QList() {}
    QList(QList * method, const QList & slot) {}
    explicit QList(int) {}
    QList(const QList &);
    QList &operator=(const QList &) = default;
    int timerEvent(const QList * a = nullptr) const {
        (QList((QList()).qHash(1000, QList(), QList(), 3, QList(), "[a-z]+"))).qHash((QList()).qHash(a->timerEvent(new QList()), QList(), *a, a->timerEvent()), QList(), *a, (QList()).qHash(100 * 2, *a, *a, a->timerEvent(), *a), *a, "#ff00ff");
        return a->timerEvent();
    }
    bool qHash(int type, const QList & interval, const QList & width = QList(), int timerType = 0, const QList & = QList(), const char * s = "d") {
        if ((QList{}).qHash(((QList()).qHash(-1, QList()) < type), QList(100 * 2), QList(nullptr, QList()), -1, width, s)) {
            if (false) {
                auto v3 = (QList *)(static_cast<QList *>(nullptr));
            }
        } else {
            return true;
            auto v5 = (QList *)(new QList());
        }
        return false;
    }
public:
    int m_list;
};
class Foo1 : public QList
{
public:
    
    Foo1();
    ~Foo1();
    const Foo1 & event(int base = 0, double mask = 0.5) const;
    bool takeLast(const Foo1 & fillChar, const Foo1 & a, Foo1 * base = nullptr) const;
    virtual const char * remove(int fieldWidth, Foo1 *, int fillChar) {
        ((Foo1()).event(fieldWidth, (double)1)).event((Foo1{}).takeLast((Foo1{}).event(-1, 1e9), Foo1()));
        QList v7;

    }
protected:
    int a{};
    Foo1 * m_x;
};
const Foo1 & Foo1::event(int base, double mask) const
{

    return Foo1{};
}
bool Foo1::takeLast(const Foo1 & fillChar, const Foo1 & a, Foo1 * base) const
{
    const Foo1 & v9 = Foo1{};
    Conn::disconnect(&Foo1::takeLast, SIGNAL( f( const int &) ), "2x()", SIGNAL(destroyed()));
    switch ((QList((Foo1{}).takeLast(Foo1{}, Foo1{}))).timerEvent()) {
    case 7:
      {

        break;
      }
    default:
        break;
    }
    base = static_cast<Foo1 *>(nullptr);
    return a.takeLast(Foo1(), fillChar);
}

struct QFile
{
public:
    typedef int Key;
    QFile();
    int constFind(bool base64, const Foo1 & fieldWidth, const QList & interval, const QFile &) {
        static Foo1 v14{};
        {

        }
        Conn::connect(qOverload<int>(&QList::qHash), SIGNAL(), SIGNAL(), SIGNAL( f( const int &) ), new QFile());
        return true;
    }
    int toString(Foo1 width, const QList & shortcut, QList fillChar = QList());
public:
    int m_list{};
};
int QFile::toString(Foo1 width, const QList & shortcut, QList fillChar)
{
    const char * v18 = (Foo1()).remove(60000, &width, shortcut.timerEvent());
    const QList * v19 = nullptr;
    (QFile{}).toString(Foo1(), shortcut, QList());
    return (QFile{}).constFind(!(shortcut.timerEvent(nullptr)), width.event(), shortcut, QFile{});
}
template <typename T> struct Test3 : public Foo1
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    typedef int Key;
    Test3();
    int base(Foo1 * timerType);
    static void start(const QList & value, Foo1 * signal, int other = 0);
protected:
};
struct QRect
{
public:
    using iterator = int *; using const_iterator = const int *;
    QRect() {}
    QRect(const QRect &) = default;
    QRect &operator=(const QRect &);
    bool set() const {
        return (QFile{}).toString((Foo1{}).event(true), QList());
    }
    void toTime_t(const QList & fieldWidth, int shortcut = 0, int = 0, const QRect & fillChar = QRect()) const;
    const char * takeAt(int b) {
        int v21 = false ? int(((QList()).qHash(3, QList(), QList(), (Test3<int>{}).base(new Foo1()), QList()) * b)) : int((3 == b));
        Conn::callMethod(SIGNAL(destroyed()), [] {}, nullptr, new Test3<int>(), "2x()");
        (Foo1()).remove(((Foo1{}).event(1 << 4, (double)1)).takeLast((Foo1()).event(3, (double)1), Foo1()), static_cast<Foo1 *>(nullptr), (true == v21));
        return "(I)V";
    }
protected:
    int m_list;
};
void QRect::toTime_t(const QList & fieldWidth, int shortcut, int, const QRect & fillChar) const
{
    shortcut = 100 * 2;
    const Test3<int> * v25 = new Test3<int>();
    return;
}
static bool use0(QFile s, const Foo1 & base64, const Test3<int> &)
{
    if (false) {
    }
    for (int v28 = 0; v28 < (Test3<int>()).base(new Foo1()); ++v28) {
        const auto &v29 = s;
        s.toString(base64.event(), QList(((QList()).qHash(100 * 2, QList()) < (Test3<int>()).base(new Foo1()))));
    }
    if (true) {
        if ((QRect{}).set()) {
            s.toString(base64.event(), QList(new QList(), QList(s.toString(Foo1(), QList{}))), QList(new QList(), QList(1000)));
            auto v34 = reinterpret_cast<QFile *>(&s);
            Conn::addAction(SIGNAL(), 1 << 4, [] {}, SLOT(deleteLater()));
        }

        if (true) {
        } else {
        }
    } else {
        (QRect{}).takeAt(42u);
        double v39 = 0.5;
    }
    (QList()).qHash(base64.takeLast(base64.event(42u, 0.5), Foo1()), QList{});
    (QRect()).set();
    return false;
}
static int use1(QList fieldWidth, bool timerType)
{
    {

    }
    while (true) {
        break;
    }
    return 'x';
}
inline double use2(Foo1 * other)
{
    (Test3<int>()).base(other);
    (QFile{}).constFind((QList{}).timerEvent(new QList()), Foo1{}, QList(), QFile());
    int v48 = (QRect()).set();
    if (!((QRect{}).set())) {
        use1(QList(new QList(), QList()), use1(QList(), true));
        (QList(new QList(), QList((Foo1()).takeLast(Foo1{}, Foo1{})))).qHash((QFile{}).toString(other->event(), QList(), QList()), QList{}, QList(use0(QFile(), Foo1{}, Test3<int>{})), v48, QList(static_cast<QList *>(nullptr), QList(new QList(), QList{})), (QRect{}).takeAt(use0(QFile{}, Foo1{}, Test3<int>())));
        if (other->takeLast(other->event(), other->event())) {
        }
    }

    return 1e9;
}
