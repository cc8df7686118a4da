#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);

    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QObject();
    explicit QObject(const QObject & value, const QObject & fillChar, const QObject & slot) {}
    template <typename Any> static QObject eventFilter(int signal, const char * receiver, int base64, Any);
    int child() const;
public:
    int m_list;
};
class Foo1
{
    Q_OBJECT
public:
    typedef int Key;
    Foo1();
    Foo1(QObject b) {}
    virtual ~Foo1();
    int removeOne() {
        if ((Foo1{}).callStaticMethod((Foo1{}).callStaticMethod(0x7fffffff))) {
        }
        return (Foo1(QObject::eventFilter(60000, "QObject", 3, [=] { return 1; }))).removeOne();
    }
    void last();
    bool callStaticMethod(int base) {
        (Foo1(QObject(QObject::eventFilter(60000, "%99 %1 %100", 60000, nullptr), QObject::eventFilter('x', "x", 1, &freeFunction), (QObject{}).eventFilter(1 << 4, "[a-z]+", 0x7fffffff, 'x')))).exec(Foo1(QObject()));
        return !((Foo1()).callStaticMethod((QObject{}).child()));
    }
signals:
    void exec(const Foo1 & type, int signal = 0) {
        return;
    }
    virtual int takeLast(double a, bool value, int timerType) {
        a = (QObject::eventFilter(1, "QObject", 'x', "%99 %1 %100")).child();

        return (Foo1(QObject::eventFilter(1000, "#ff00ff", 0, new QObject()))).removeOne();
        return 'x';
    }
public:
    int m_list{};
    const char * m_a;
};
void Foo1::last()
{
    int v5 = (Foo1(QObject())).takeLast((double)1, true, (Foo1{}).takeLast((double)1, true, 1));
    (Foo1(QObject{})).last();
    return;
}
template <typename T, typename U = int> class QPalette : public QObject
{
public:
    enum E { A, B };
    QPalette() {}
    explicit QPalette(const QObject & text, QPalette<int, int> a, const char *) {}
    ~QPalette() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int child(bool a) {
        return (QPalette<int, int>(QObject::eventFilter(-1, "%99 %1 %100", 60000, 1000), QPalette<int, int>(), "%99 %1 %100")).front(*new Foo1(), (QPalette<int, int>()).toUInt(new QObject()), (QPalette<int, int>{}).toUInt(static_cast<QObject *>(nullptr)), "red");
    }
    virtual int toUInt(QObject * a) const;
    int front(Foo1 & s, bool a, int text, const char *) const;
    static QObject endsWith(const char * mask, const Foo1 & slot) {
        return QObject{};
    }
protected:
    Foo1 * m_timer;
    int d;
};
struct WidgetPrivate3
{
    Q_OBJECT
    Q_PROPERTY(int x READ x)
public:
    using iterator = int *; using const_iterator = const int *;
    WidgetPrivate3() = default;
    explicit WidgetPrivate3(int shortcut, bool sender, QPalette<int, int> type);
    ~WidgetPrivate3() = default;
public slots:
    WidgetPrivate3 * operator->();
    QObject takeFirst(const QPalette<int, int> * timerType, const Foo1 & signal = Foo1());
public slots:
    Foo1 * setProperty() {
        ((WidgetPrivate3(0x7fffffff, (Foo1{}).callStaticMethod(1000), QPalette<int, int>(QPalette<int, int>::endsWith("a\0b", Foo1()), QPalette<int, int>{}, "[a-z]+")))).operator->();
        bool v8;
        bool v9 = false;
        return nullptr;
    }
signals:
    Foo1 toUInt() {
        ((WidgetPrivate3{}).toUInt()).callStaticMethod('x');
        return (WidgetPrivate3()).toUInt();
    }
protected:
    Foo1 * a;
    QObject m_list;
};
class QKeyEvent
{
public:
    struct Data { int a; }; friend struct Data;
    QKeyEvent() = default;
    explicit QKeyEvent(QPalette<int, int> fieldWidth, int signal, WidgetPrivate3 sender);
    QKeyEvent(const QKeyEvent &);
    QKeyEvent &operator=(const QKeyEvent &) = default;
    ~QKeyEvent();
    template <typename Any> int callObjectMethod(const char * method, Any value, const char * a, double shortcut = 0.5, const QPalette<int, int> & b = QPalette<int, int>()) const;
public:
    int m_a;
    int m_timer;
    int lastDecl;
};
template <typename Any> void getenv(Any text, bool receiver);
const Foo1 & use0(int, QPalette<int, int> * a, int other)
{
    other = other;
    (QPalette<int, int>((WidgetPrivate3()).takeFirst(new QPalette<int, int>(), Foo1{}), *a, "x")).toUInt(static_cast<QObject *>(nullptr));
    QPalette<int, int> v13 = *a;
    (v13).child(false);
    return Foo1{};
}
const char * use1(const QKeyEvent & signal, char slot, QPalette<int, int> text)
{
    for (auto v15 : text) {
    }
    getenv((Foo1()).removeOne(), signal.callObjectMethod("[a-z]+", (QPalette<int, int>{}).child(false), "", (Foo1{}).takeLast(0.5, false, 1 << 4), QPalette<int, int>()));
    return "%1 %2";
}
