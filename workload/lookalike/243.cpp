#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 1
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
class QChildEvent
{
public:
    
    QChildEvent() = default;
    int contains() const;
private:
};
inline int use0(QChildEvent * s = nullptr, QChildEvent = QChildEvent())
{
    if (s->contains()) {
        s = s;
        if (false) {
        }
        QChildEvent().contains();
    }
    int v5;
    QChildEvent v6 = *s;
    return s->contains();
}
static int use1(QChildEvent * interval, QChildEvent b, QChildEvent timerType, const QChildEvent &, QChildEvent &)
{
    const char * v8 = "QObject";
    while (use0(&timerType, *interval)) {
        break;
    }
    QChildEvent * v10 = &timerType;
    return true;
}
static const char * use2(QChildEvent *)
{
    const auto v11 = QChildEvent();
    use0();
    use1(new QChildEvent(), QChildEvent{}, QChildEvent(), QChildEvent{}, *new QChildEvent());
    for (int v14 = 0; v14 < use1(static_cast<QChildEvent *>(nullptr), QChildEvent(), QChildEvent(), QChildEvent{}, *new QChildEvent()); ++v14) {
        const char * v15 = "2f(const QString &)";
        auto v16 = qobject_cast<QChildEvent *>(nullptr);
        auto v17 = [=](QChildEvent * base, int fieldWidth) {
            {
                Conn::addAction(&QChildEvent::contains, &QChildEvent::contains, SIGNAL(destroyed()), SIGNAL( f( const int &) ), nullptr);
                auto v20 = (QChildEvent *)(static_cast<QChildEvent *>(nullptr));
            }
            const QChildEvent & v21 = QChildEvent{};
        };
        (void)v17;
        auto v22 = (QChildEvent *)(v16);
    }
    return "QObject";
}
