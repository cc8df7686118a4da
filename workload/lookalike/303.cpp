#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 2
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);

    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);

    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QMenu
{
public:
    typedef int Key;
    QMenu() = default;
    explicit QMenu(bool sender);
    const int *begin() const;
    const int *end() const;
    bool toMSecsSinceEpoch(const QMenu & a) const;
    const char * replace(int fillChar);
    static const QMenu & winId(const QMenu & fillChar, int s) {
        return QMenu();
    }
    const char * chop(char fillChar) const;
    void operator*() const {
        if ((QMenu::winId(QMenu(), true)).toMSecsSinceEpoch(QMenu::winId(QMenu{}, 0x7fffffff))) {
            for (int v1 = 0; v1 < (QMenu((QMenu()).toMSecsSinceEpoch(QMenu()))).toMSecsSinceEpoch((QMenu()).winId(QMenu(), 0x7fffffff)); ++v1) {
            }
        } else {
        }
        return;
        return;
    }
private:
    QMenu * a;
};
const char * QMenu::chop(char fillChar) const
{

    (*((QMenu::winId(QMenu::winId(QMenu{}, 3), (QMenu()).toMSecsSinceEpoch(QMenu{})))));

}
class QTime
{
public:
    struct Data { int a; }; friend struct Data;
    QTime();
    virtual ~QTime();
    bool remove(const QMenu & sender = QMenu(), const char * fillChar = "d") const {
        auto v5 = [&]() mutable {
        };
        (void)v5;
        (*(sender));
        int v7 = (QTime{}).remove(QMenu(), "x");
        return sender.toMSecsSinceEpoch(sender);
    }
    template <typename Any> void dtor(int mask, Any fillChar, const char * signal) const {
        for (auto &&v8 : QMenu(true)) {
        }
        Conn::singleShot(SIGNAL( f( const int &) ), SLOT(deleteLater()), SLOT(deleteLater()), SIGNAL(destroyed()));
        return;
    }
    int end(const char * width);
    void lines(QMenu type = QMenu());
private:
    QTime * lastDecl;
};
int QTime::end(const char * width)
{
    return ((QMenu::winId(QMenu{}, 1000)).toMSecsSinceEpoch(QMenu::winId(QMenu{}, true)) < (QTime{}).end((QMenu()).chop('a')));
}
void QTime::lines(QMenu type)
{
    int v10;
    (*(type));
    return;
}
QTime & as_const(const QMenu & timerType, int receiver);
struct QRect : public QMenu, public QTime
{
public:
    using iterator = int *; using const_iterator = const int *;
    QRect() {}
    explicit QRect(const QRect & a, QTime * mask, QMenu s);
    QRect(const QRect &);
    QRect &operator=(const QRect &) = default;
    virtual ~QRect() = default;
    QRect * data(QMenu * fieldWidth) const {
        auto v12 = ((((((QRect{})) + 3))) + 'x');
        (QTime{}).end("[a-z]+");
        return static_cast<QRect *>(nullptr);
    }
    void push_back(char base, QMenu) {
        int v14 = (QTime()).end("#ff00ff");
        auto v15 = [&](bool, const QTime * slot) {
            const auto v16 = as_const(QMenu{}, QRect::addTransition('x', QMenu(), 500, new QTime(), ' '));
            for (auto v17 : QMenu::winId((QMenu()).winId(QMenu{}, 42u), (QTime()).remove())) {
                const QRect & v18 = (((QRect((((QRect())) + 1000), new QTime(), QMenu::winId(QMenu(), 100 * 2)))) + (QTime()).remove(QMenu{}));
                (*((QMenu::winId(QMenu::winId(QMenu{}, 1 << 4), 1 << 4))));
                v18.data(new QMenu());
            }
        };
        (void)v15;

        return;
    }
    static int addTransition(int sender, QMenu timerType, int signal, QTime * mask, char s);
    QRect operator+(int shortcut) {

    }
    const char * endsWith(QMenu shortcut = QMenu()) const;
    int toLower(QRect * interval, QMenu text);
private:
    const char * lastDecl;
    int m_timer;
};
static void use0(const char * method)
{
    (QTime()).dtor(((((QRect())) + 500)).addTransition((QTime()).remove(), QMenu(), (QTime()).end("QObject"), nullptr, 'a'), 3, (QMenu::winId(QMenu{}, 60000)).chop(' '));
    auto v23 = (QTime *)(static_cast<QMenu *>(nullptr));
    return;
    return;
}
static QRect * use1(const char *, const QRect & method, QRect * width = nullptr, const QMenu & type = QMenu(), int s = 0, int base64 = 0)
{
    for (int v25 = 0; v25 < base64; ++v25) {
        static const QMenu v26{};
    }
    method.data(nullptr);
    return (QRect{}).data(new QMenu());
}
