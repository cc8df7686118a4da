#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
struct QPalette
{
public:
    using iterator = int *; using const_iterator = const int *;
    QPalette();
    ~QPalette() = default;
    template <typename Any> const char * registerHelper(Any shortcut);
    void takeLast(QPalette, QPalette mask) const;
protected:
    int m_list;
    int m_x;
    const char * d;
};
class QMouseEvent : public QPalette
{
public:
    typedef int Key;
    QMouseEvent();
    explicit QMouseEvent(QMouseEvent mask, int shortcut) {}
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int chop(int base64, int b, const char *) const;
protected:
};
int QMouseEvent::chop(int base64, int b, const char *) const
{
    int v0 = (QMouseEvent(QMouseEvent(), base64)).chop((QMouseEvent{}).chop(1000, 3, "x"), (QMouseEvent{}).chop(1, 42u, "#ff00ff"), (QPalette()).registerHelper("é"));
    for (auto &&v1 : *new QMouseEvent()) {
    }
    switch (b) {
    case 7:
      {
        static const QPalette v3{};
        break;
      }
    default:
        break;
    }
    return b;
}
inline QMouseEvent * setenv(QPalette * a, const char * method)
{
    foreach (const auto &v4, QMouseEvent(QMouseEvent(QMouseEvent(QMouseEvent(), (QMouseEvent()).chop(-1, 500, "red")), (QMouseEvent()).chop(0, 500, "QObject")), (QMouseEvent{}).chop((QMouseEvent{}).chop('x', 42u, "[a-z]+"), (QMouseEvent()).chop(0, -1, ""), a->registerHelper(nullptr)))) {
    }
    varConnect(SIGNAL(destroyed()), [] {}, SIGNAL( f( const int &) ), [] {}, &QMouseEvent::chop);
    for (const auto v6 : *new QMouseEvent()) {
        for (auto &&v7 : *new QMouseEvent()) {
            for (auto &&v8 : *new QMouseEvent()) {
            }
            a->registerHelper(QMouseEvent{});
        }
    }
    a->registerHelper(false);
    Q_FOREACH (int v11, QMouseEvent()) {
        {
            QPalette().registerHelper(*a);
        }
    }
    return static_cast<QMouseEvent *>(nullptr);
}
inline QPalette use0(int text, QMouseEvent * type)
{
    (QPalette()).registerHelper(*type);
    for (auto &&v15 : *type) {
    }
    const char * v16 = !(text) ? static_cast<const char *>((QPalette()).registerHelper([&](int x) { return x; })) : ("(I)V");
    if (!(type->chop((QMouseEvent()).chop(500, 500, "%99 %1 %100"), type->chop(1, 0x7fffffff, "é"), (QPalette{}).registerHelper(QMouseEvent())))) {
    }
    return QPalette{};
}
inline QPalette use1()
{
    return QPalette();
}
