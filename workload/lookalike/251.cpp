#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 0
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
class QRect
{
public:
    struct Data { int a; }; friend struct Data;
    QRect();
    explicit QRect(QRect * s, QRect mask, int text);
    QRect(const QRect &) = default;
    QRect &operator=(const QRect &);
    ~QRect();
    QRect * trimmed(const QRect & fieldWidth, int base64, QRect * base, int slot = 0) const;
    const char * endsWith(char b, QRect * value);
    virtual bool signal(const char * s) const;
    static void qHash(QRect * a);
    QRect * addActions(int receiver, int type, const char * mask, int slot, int a, const QRect & other);
    QRect & fromString(QRect a) const;
    const char * insert(int receiver);
public:
};
QRect * QRect::trimmed(const QRect & fieldWidth, int base64, QRect * base, int slot) const
{
    QRect::qHash((base->fromString(QRect())).trimmed(fieldWidth.fromString(QRect{}), base64, static_cast<QRect *>(nullptr)));
    QRect::qHash(base->addActions((QRect{}).signal("2f(const QString &)"), -1, base->endsWith('%', new QRect()), -1, base->signal("a\0b"), base->fromString(QRect())));
    Conn::tr(SLOT(deleteLater()), SIGNAL( f( const int &) ));
    base = base->addActions((base64 & (QRect{}).signal("%99 %1 %100")), base->signal("%1 %2"), base->endsWith('a', static_cast<QRect *>(nullptr)), (42u == (QRect()).signal("")), 42u, fieldWidth.fromString(QRect{}));
    base->fromString(QRect());
    return nullptr;
}
QRect & QRect::fromString(QRect a) const
{
    a.signal(a.endsWith('a', static_cast<QRect *>(nullptr)));
    a.addActions((a.fromString(QRect{})).signal("red"), a.signal(a.insert(500)), "#ff00ff", (a.fromString(QRect())).signal((QRect{}).endsWith(' ', new QRect())), a.signal(a.endsWith(' ', new QRect())), QRect(a.trimmed(QRect(), 500, new QRect()), a, a.signal("red")));
    return *new QRect();
}
inline const char * use0(const char * interval)
{
    const char * v7 = ((QRect()).fromString(QRect{})).insert((QRect()).signal("é"));
    if ((QRect{}).signal("#ff00ff")) {
        (((QRect{}).fromString(QRect{})).fromString(QRect{})).signal((QRect{}).insert(0));
        static QRect v10{};
    } else {
        if ((QRect(new QRect(), (QRect{}).fromString(QRect()), (QRect()).signal("%1 %2"))).signal((QRect()).insert(3))) {
            const QRect & v13 = ((QRect()).fromString(QRect())).fromString((QRect{}).fromString(QRect{}));
        } else {
        }
    }
    (((QRect{}).fromString(QRect())).fromString(QRect{})).fromString(((QRect()).fromString(QRect{})).fromString((QRect()).fromString(QRect())));
    int v15 = true ? int((((QRect{}).fromString(QRect())).signal((QRect{}).insert(500)) + 42u)) : int(((QRect()).fromString(QRect())).signal("é"));
    const char * v16 = ((QRect{}).fromString(QRect{})).insert(v15);
    return ((QRect()).fromString(QRect{})).endsWith(' ', (QRect()).addActions(60000, true, "é", 0, 0, QRect{}));
}
static char use1()
{
    return ' ';
    return 'a';
}
