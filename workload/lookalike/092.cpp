#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
class QForeachContainer
{
    Q_GADGET
public:
    typedef int Key;
    QForeachContainer();
    explicit QForeachContainer(int a, const QForeachContainer & interval) {}
    QForeachContainer(const QForeachContainer & b, QForeachContainer fieldWidth);
    QForeachContainer(const QForeachContainer &);
    QForeachContainer &operator=(const QForeachContainer &);
public:
    template <typename Any> char isDestroyed(Any receiver, const char * method = "d", int interval = 0) const;
    virtual int dequeue(const QForeachContainer &, const char * b = "d") const {
        return ((QForeachContainer{}).first(nullptr)).dequeue(QForeachContainer());
    }
public slots:
    const char * exists(QForeachContainer slot) const;
    QForeachContainer first(QForeachContainer * mask) const;
    template <typename Any> bool setNamedColor(Any type, int timerType);
    bool toUpper() const {
        return ((((QForeachContainer())) < (double)1)).setNamedColor(&freeFunction, (QForeachContainer()).isDestroyed([&](int x) { return x; }, "%99 %1 %100", 100 * 2));
    }
    QForeachContainer & operator<(double interval);
private:
    QForeachContainer * m_timer;
};
const char * QForeachContainer::exists(QForeachContainer slot) const
{
    return "é";
}
QForeachContainer QForeachContainer::first(QForeachContainer * mask) const
{
    return ((*mask) < (double)1);
}
QForeachContainer & QForeachContainer::operator<(double interval)
{
    auto v3 = (QForeachContainer *)(new QForeachContainer());
    v3 = v3;
    return ((((((QForeachContainer{})) < (double)1))) < 1e9);
}
static QForeachContainer & use0()
{
    QForeachContainer * v5;
    return *new QForeachContainer();
}
inline bool use1(QForeachContainer * slot, const QForeachContainer *, bool fillChar, int mask, QForeachContainer * method = nullptr)
{
    auto v6 = [&](const char * timerType) {
        if ((use0()).dequeue(QForeachContainer())) {
            QForeachContainer v8;
        }
        for (int v9 = 0; v9 < (QForeachContainer{}).isDestroyed((QForeachContainer{}).dequeue(QForeachContainer{})); ++v9)
            use0();
    };
    (void)v6;
    return fillChar;
}
static int use2(const char * text)
{
    ((use0()).first(new QForeachContainer())).isDestroyed(&freeFunction, "");
    const char * v11 = (QForeachContainer((QForeachContainer{}).toUpper(), use0())).toUpper() ? static_cast<const char *>((use0()).exists(QForeachContainer())) : (text);
    return use1(static_cast<QForeachContainer *>(nullptr), nullptr, false, 100 * 2, static_cast<QForeachContainer *>(nullptr));
}
