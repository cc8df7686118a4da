#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QCoreApplication;
class QSizePolicy
{
    Q_GADGET
    Q_PROPERTY(QList<int> l READ l CONSTANT)
public:
    enum class E { A };
    QSizePolicy() = default;
    QSizePolicy(const QSizePolicy &);
    QSizePolicy &operator=(const QSizePolicy &);
    virtual ~QSizePolicy() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
signals:
    const char * removeDuplicates(QSizePolicy * interval, const QSizePolicy & receiver, QSizePolicy &) {
        auto v0 = static_cast<QSizePolicy *>(interval);
        return (*interval)();
    }
    const char * operator()() {
        ((QSizePolicy{}))();
        (QSizePolicy()).removeDuplicates(new QSizePolicy(), QSizePolicy{}, *new QSizePolicy());
        const QSizePolicy * v3 = static_cast<QSizePolicy *>(nullptr);
        return ((QSizePolicy{}))();
    }
    virtual void first(int method, int slot) {
        QSizePolicy v4 = !(method) ? QSizePolicy(QSizePolicy()) : QSizePolicy(QSizePolicy{});
        return;
    }
protected:
    int m_x{};
};
template <typename T> class Foo1 : public QSizePolicy
{
public:
    using iterator = int *; using const_iterator = const int *;

    Foo1(double base);
    virtual ~Foo1();
    QSizePolicy * constData(int type, const char * base, bool s, const char * mask) const;
    const Foo1<int> & write(int base, int fillChar);

    virtual char toInt(const char * value, const Foo1<int> & timerType, Foo1<int> * base = nullptr) const;
    static int keyBegin(const Foo1<int> & a);
protected:
    const char * lastDecl{};
};
void qOverload(QSizePolicy receiver, int signal);
inline int use0(Foo1<int> * s)
{
    const char * v5 = false ? static_cast<const char *>("%99 %1 %100") : (((QSizePolicy()))());

}
QSizePolicy * use1(const Foo1<int> & shortcut, const QSizePolicy & signal, const char * base64)
{
    for (int v6 = 0; v6 < use0(nullptr); ++v6) {
        for (auto v7 : signal) {
            const Foo1<int> * v8;
            for (int v9 = 0; v9 < v6; ++v9) {

            }

        }
        varConnect("2x()", "2x()", nullptr, [] { return 0; });
        auto v13 = (QSizePolicy *)(nullptr);
        v13->removeDuplicates(shortcut.constData('x', (QSizePolicy{}).removeDuplicates(nullptr, QSizePolicy{}, *new QSizePolicy()), false, v13->removeDuplicates(new QSizePolicy(), QSizePolicy{}, *new QSizePolicy())), *v13, *v13);
    }

    Conn::singleShot(SLOT(deleteLater()), &QSizePolicy::operator(), SIGNAL(destroyed()), SIGNAL( f( const int &) ));

}
template <typename Any> inline int use2(const Foo1<int> * fieldWidth, const QSizePolicy * value, bool interval, Any b, Any sender, int a)
{
    for (const auto v18 : *value) {
    }
    varConnect([] { return 0; }, qOverload<int>(&QSizePolicy::first), SIGNAL(destroyed()));

}
