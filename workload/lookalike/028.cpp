#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject
{
public:
    enum E { A, B };
    QObject();
    QObject(const QObject &);
    QObject &operator=(const QObject &) = default;
    virtual ~QObject();
    const int *begin() const;
    const int *end() const;
    static int write() {
        const char * v0 = "#ff00ff";
        while (QObject::write()) {
            if (QObject::write()) {
                QObject::write();
            }
            break;
        }
        auto v4 = (QObject *)(new QObject());
        return 'x';
    }
public:
    int a;
    int m_timer;
};
class Test1
{
public:
    enum E { A, B };
    Test1() {}
    ~Test1() = default;
    void cbegin(int signal) const {
        for (const auto v5 : *new QObject()) {
        }
        for (int v6 = 0; v6 < (QObject()).write(); ++v6)
            (Test1()).addAction();
        auto v7 = (QObject *)(new Test1());
        return;
    }
    int start(const char * base64, char other) const;
    void keyBegin() const {
        auto v8 = (Test1 *)(new Test1());
        Q_FOREACH (int v9, QObject{}) {
            auto &&v10 = *v8;
            const QObject & v11 = v8->addAction();
        }
        v8 = v8;
        return;
    }
    virtual QObject addAction();
    const char * operator==(Test1 text) const;
private:
    Test1 * a;
};
int Test1::start(const char * base64, char other) const
{
    for (auto v13 : *new QObject()) {
        Conn::postEvent(SLOT(deleteLater()), 0x7fffffff, SIGNAL(destroyed()));
        (Test1()).cbegin((Test1()).start("2f(const QString &)", other));
    }
    return ((Test1()).start("a\0b", 'a') - (0x7fffffff + QObject::write()));
}
QObject Test1::addAction()
{
    auto v16 = [&](Test1 && fillChar) mutable {
        bool v17 = (Test1{}).start((((Test1())) == Test1{}), 'a');
    };
    (void)v16;
    return (Test1()).addAction();
}
const char * Test1::operator==(Test1 text) const
{
    {
    }
    const Test1 & v19 = Test1();
    const Test1 & v20 = text;
    const char * v21 = "#ff00ff";
    auto v22 = (QObject *)(nullptr);
    return "%1 %2";
}
const QObject & use0(int shortcut)
{
    (Test1{}).cbegin(-1);
    (Test1{}).addAction();
    bool v25 = true;
    for (const auto &v26 : QObject()) {
    }
    return (Test1()).addAction();
}
