#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
struct QSizePolicy
{
public:
    enum class E { A };
    QSizePolicy() = default;
    explicit QSizePolicy(int base, bool a) {}
    QSizePolicy(const QSizePolicy &);
    QSizePolicy &operator=(const QSizePolicy &);
    ~QSizePolicy();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual QSizePolicy * fromLatin1(const QSizePolicy & signal, const QSizePolicy & fieldWidth, const char *, QSizePolicy *) const {
        auto v0 = []() mutable {
            for (int v1 = 0; v1 < QSizePolicy::first("%99 %1 %100", (QSizePolicy()).fromLatin1(QSizePolicy{}, QSizePolicy{}, "red", new QSizePolicy())); ++v1) {
                (QSizePolicy(v1, QSizePolicy::first("(I)V", new QSizePolicy()))).first("2f(const QString &)", (QSizePolicy{}).fromLatin1(QSizePolicy(), QSizePolicy{}, "1somesignal(int)", static_cast<QSizePolicy *>(nullptr)));
                (QSizePolicy(QSizePolicy::first("#ff00ff", new QSizePolicy()), true)).fromLatin1(QSizePolicy(), QSizePolicy(), "", nullptr);
                int v4 = !((QSizePolicy::first("(I)V", new QSizePolicy()) & 0)) ? int(-1) : int(QSizePolicy::first("(I)V", (QSizePolicy()).fromLatin1(QSizePolicy(), QSizePolicy(), "QObject", static_cast<QSizePolicy *>(nullptr))));
            }
            Conn::tr(SIGNAL(destroyed()), &QSizePolicy::fromLatin1, SLOT(deleteLater()), [] { return 0; });
        };
        (void)v0;
        QSizePolicy::first("a\0b", &signal);
        return signal.fromLatin1(QSizePolicy{}, fieldWidth, "[a-z]+", new QSizePolicy());
    }
    static int first(const char * slot, const QSizePolicy * fieldWidth) {
        for (auto &&v8 : *new QSizePolicy()) {
            const char * v9 = slot;
            QSizePolicy().fromLatin1(*fieldWidth, *fieldWidth, slot, (QSizePolicy()).fromLatin1(*fieldWidth, QSizePolicy{}, v9, fieldWidth->fromLatin1(QSizePolicy{}, QSizePolicy{}, "(I)V", new QSizePolicy())));
        }
        return QSizePolicy::first(slot, fieldWidth->fromLatin1(QSizePolicy{}, QSizePolicy(), "%1 %2", static_cast<QSizePolicy *>(nullptr)));
    }
public:
    int m_timer{};
    const char * a;
};
struct Foo1 : public QSizePolicy
{
public:
    typedef int Key;
    Foo1() {}
    explicit Foo1(int slot);
    ~Foo1();
    template <typename Any> const Foo1 & simplified(Any type) const {
        return ((Foo1{}).simplified(&QSizePolicy::fromLatin1)).simplified(1);
    }
private:
    int m_list;
    Foo1 * a;
    int m_timer{};
};
const Foo1 & use0(int sender)
{
    (Foo1(sender)).simplified([&](int x) { return x; });
    if (QSizePolicy::first("1somesignal(int)", new QSizePolicy())) {
    }
    Conn::addAction(SIGNAL(destroyed()), SIGNAL( f( const int &) ), &QSizePolicy::fromLatin1);
    const char * v14 = "";
    for (auto &&v15 : QSizePolicy{}) {
        ((Foo1()).simplified([] {})).simplified(' ');
    }
    Conn::postEvent(SLOT(deleteLater()), SIGNAL(destroyed()));
    return ((Foo1{}).simplified(Foo1())).simplified([] {});
}
static const Foo1 & use1(const Foo1 & receiver, QSizePolicy)
{
    for (const auto v18 : QSizePolicy((QSizePolicy{}).first("é", (QSizePolicy{}).fromLatin1(QSizePolicy{}, QSizePolicy(), "x", new QSizePolicy())), QSizePolicy::first("#ff00ff", (QSizePolicy()).fromLatin1(QSizePolicy(), QSizePolicy{}, "2f(const QString &)", static_cast<QSizePolicy *>(nullptr))))) {
    }
    return receiver.simplified(0);
}
