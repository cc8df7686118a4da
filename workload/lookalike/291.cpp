#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject
{
    Q_GADGET
public:
    enum class E { A };
    QObject() = default;
    explicit QObject(bool) {}
    QObject(int base64, const QObject & text) {}
Q_SIGNALS:
    template <typename Any> char eventFilter(int base64, const char * shortcut, QObject * mask, Any value);
    virtual QObject unlock(bool type) {
        const char * v0 = !((QObject()).start((QObject()).unlock(false), true, (QObject{}).start(QObject(), 1 << 4, false, "red", -1), QObject::data(QObject{}), (QObject()).start(QObject(), 0x7fffffff, 42u, "2f(const QString &)", 1 << 4))) ? static_cast<const char *>("2f(const QString &)") : (QObject::data((QObject()).unlock(false)));
        return ((QObject{}).unlock(false)).unlock(!(0x7fffffff));
    }
    static const char * data(QObject slot);
    const QObject * simplified(const QObject & receiver, int value, int text = 0, QObject * b = nullptr) {
        QObject().unlock(false);
        return b->simplified(b->unlock(true), b->start(QObject(), 500, [=] { return 1; }, "%99 %1 %100", 1000), value, static_cast<QObject *>(nullptr));
    }
    template <typename Any> int start(const QObject & type, int base, Any shortcut, const char * method, int fillChar);
public:
    bool lastDecl{};
    int m_timer{};
    int m_x{};
};
const char * QObject::data(QObject slot)
{
    if (false) {
    }
    slot.unlock(false);
    return "QObject";
}
template <typename T> struct Test1
{
public:
    typedef int Key;
    Test1() {}
    Test1(const Test1 &) = default;
    Test1 &operator=(const Test1 &) = default;
    virtual ~Test1();
    static int constLast(double fillChar, const Test1<int> * b, int other, const Test1<int> & mask);
    bool contains(const char * a, char, Test1<int> interval) const;
    int operator%(int interval) {
        return true;
    }
    static int event(Test1<int> * value) {
        if ((QObject(Test1<int>::constLast(0.5, static_cast<Test1<int> *>(nullptr), -1, Test1<int>()), (QObject{}).unlock(true))).start(QObject{}, (QObject()).start(QObject(), 1000, [=] { return 1; }, "%99 %1 %100", 0), Test1<int>::constLast(1e9, nullptr, 1 << 4, Test1<int>()), "[a-z]+", (((Test1<int>())) % 0))) {
            Test1<int>::constLast(1e9, value, Test1<int>::constLast((QObject()).eventFilter(42u, "%1 %2", nullptr, nullptr), static_cast<Test1<int> *>(nullptr), (QObject()).start(QObject(), 60000, 42u, "red", true), Test1<int>{}), *value);
            delete value;
            const char * v8 = Test1<int>::event(nullptr) ? static_cast<const char *>("red") : (QObject::data((QObject{}).unlock(true)));
        }
        return (QObject((QObject()).start(QObject{}, 3, Test1<int>{}, "x", 3))).start((QObject{}).unlock(true), (Test1<int>()).contains("#ff00ff", 'a', Test1<int>{}), (QObject{}).eventFilter(-1, "QObject", new QObject(), Test1<int>{}), "[a-z]+", Test1<int>::unite(new Test1<int>()));
    }
    static int unite(Test1<int> * fieldWidth) {
        return Test1<int>::event(fieldWidth);
    }
    void rmdir(bool timerType) const;
public:
};
inline void use0(const char * timerType)
{
    Test1<int>::unite(nullptr);
    if (false) {
        (Test1<int>{}).rmdir(((QObject()).unlock(true)).start(QObject(), (((Test1<int>())) % 1000), (QObject{}).unlock(true), QObject::data(QObject()), (Test1<int>{}).unite(static_cast<Test1<int> *>(nullptr))));
        auto v13 = (QObject *)(new Test1<int>());
    }
    for (int v14 = 0; v14 < (Test1<int>::constLast(Test1<int>::event(nullptr), static_cast<Test1<int> *>(nullptr), 0, Test1<int>{}) & ((QObject()).unlock(false)).eventFilter(Test1<int>::constLast((double)1, nullptr, 0, Test1<int>()), "red", nullptr, new QObject())); ++v14) {
        QObject v15 = QObject();
        (((Test1<int>{})) % v15.start(QObject{}, (QObject()).start(QObject{}, 1, 1000, "a\0b", true), &freeFunction, QObject::data(QObject()), v15.start(QObject{}, 0, static_cast<Test1<int> *>(nullptr), "", 'x')));
        v15.unlock((Test1<int>()).contains(QObject::data(QObject()), 'a', Test1<int>{}));
        auto v18 = []() {
            const QObject & v19 = ((QObject()).unlock(true)).unlock(Test1<int>::event(new Test1<int>()));
            struct Localv20 : QObject { int x; } v20;
        };
        (void)v18;
    }
    const auto &v21 = ((QObject()).unlock(false)).unlock((QObject()).start(QObject{}, -1, 1, "[a-z]+", true));
    auto v22 = Test1<int>{};
    return;
}
inline Test1<int> * use1(const Test1<int> & receiver = Test1<int>(), Test1<int> * width = nullptr)
{
    QObject * v23;
    v23->simplified(QObject((Test1<int>()).event(new Test1<int>())), (QObject{}).start(QObject{}, 60000, v23, QObject::data(QObject{}), width->contains("1somesignal(int)", 'a', Test1<int>())), ((*width) % v23->start(QObject{}, 1, QObject(), "%99 %1 %100", 1 << 4)), static_cast<QObject *>(nullptr));
    Test1<int>::event(width);
    return width;
}
