#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 4
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
class QObject
{
public:
    enum E { A, B };
    QObject() = default;
    QObject(const char * fieldWidth, QObject * shortcut) {}
    QObject(const QObject & type, const QObject & fillChar, const char * s);
    ~QObject() = default;
    template <typename Any> const char * contains(const char * b, Any text) {
        while (true) {
            varConnect(Qt_UniqueConnection, Qt_UniqueConnection, SIGNAL( f( const int &) ), [] { return 0; });
            break;
        }
        (*(((QObject()).replace())));
        return "(I)V";
    }
    const char * operator*() const;
    static int toDouble(int base);
    int constLast(QObject signal) {
        for (int v3 = 0; v3 < signal.constLast((QObject()).replace()); ++v3) {
            int v4 = -1;
            signal = QObject{};
            static QObject v6{};
            auto v7 = [&](int text) mutable {
                (*(((QObject{}).replace())));
            };
            (void)v7;
        }
        auto v9 = (QObject *)(&signal);
        v9->replace();
        return (QObject{}).constLast((QObject()).replace());
    }
    QObject replace() const;
public:
    int m_list;
};
int QObject::toDouble(int base)
{
    (*(((QObject()).replace())));
    return base;
}
struct QTextCursor
{
public:
    struct Data { int a; }; friend struct Data;
    QTextCursor();
    explicit QTextCursor(int b) {}
    virtual ~QTextCursor();
    void isDestroyed() const;
    bool takeLast() const;
    int constData(QTextCursor b, const char * shortcut, int s) {
        return s;
    }
    const char * simplified(int width) const;
public:
    int a;
    const char * d;
    double m_list{};
};
struct QBasicMutex : public QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QBasicMutex() = default;
    virtual ~QBasicMutex();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static QTextCursor * callMethod(QBasicMutex * base, char signal, QBasicMutex value = QBasicMutex());
    int constBegin(QObject & base64, const char *, const char * method);
    static int toInt(int other, QTextCursor *) {
        for (auto v12 : *new QBasicMutex()) {
            for (auto &&v13 : QBasicMutex{}) {
                QBasicMutex::toInt((QObject{}).constLast(QObject{}), new QTextCursor());
                other = other;
            }
            int v16 = (QObject{}).toDouble(500);
            (((QObject{}).replace()).replace()).constLast((QObject{}).replace());
        }
        QObject * v18 = static_cast<QObject *>(nullptr);
        return (QBasicMutex()).toSecsSinceEpoch();
    }
    int toSecsSinceEpoch(int mask = 0, int type = 0) const {
        auto &&v19 = QBasicMutex{};
        switch ((QTextCursor(60000)).takeLast()) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        return (QBasicMutex{}).toInt((42u - 100 * 2), QBasicMutex::callMethod(new QBasicMutex(), ' ', QBasicMutex()));
    }
    const char * currentTime(QObject * base, const char * base64) const {
        QTextCursor v21 = QTextCursor{};
        auto &&v22 = v21;
        static const QBasicMutex v23{};
        return base->contains("é", base->replace());
    }
    const char * dtor(QBasicMutex * signal);
    const QObject * removeDuplicates(bool signal, QObject * b = nullptr, const QBasicMutex * slot = nullptr, QTextCursor * = nullptr, const QObject & base = QObject()) const;
public:
};
const QObject * QBasicMutex::removeDuplicates(bool signal, QObject * b, const QBasicMutex * slot, QTextCursor *, const QObject & base) const
{
    const char * v24 = true ? static_cast<const char *>((QTextCursor(b->constLast(QObject()))).simplified((42u * true))) : ("[a-z]+");
    Conn::callMethod([] {}, new QBasicMutex(), qOverload<int>(&QTextCursor::constData));
    return new QObject();
}
static double use0(char signal, const char * value = "d", const char * width = "d")
{
    auto v26 = reinterpret_cast<QTextCursor *>(QBasicMutex::callMethod(static_cast<QBasicMutex *>(nullptr), ' '));
    while ((QBasicMutex()).toSecsSinceEpoch((QBasicMutex()).constBegin(*new QObject(), "#ff00ff", "1somesignal(int)"), QBasicMutex::toInt(60000, new QTextCursor()))) {
        auto v28 = (QBasicMutex *)(new QObject());
        break;
    }
    (QBasicMutex()).removeDuplicates(false, new QObject(), nullptr, v26);
    const char * v30 = width;
    signal = ' ';
    while (QBasicMutex::toInt(v26->takeLast(), QBasicMutex::callMethod(static_cast<QBasicMutex *>(nullptr), 'a', QBasicMutex{}))) {
        Conn::singleShot(static_cast<QBasicMutex *>(nullptr), Qt_UniqueConnection);
        break;
    }
    return 1e9;
}
static const char * use1(const char * shortcut = "d", QObject * = nullptr, double width = 0.5)
{
    use0(' ', (*(((QObject()).replace()))), shortcut);
    const auto &v35 = (QObject{}).replace();
    shortcut = ((QObject{}).replace()).contains((*((QObject()))), QBasicMutex::toInt(0x7fffffff, nullptr));
    shortcut = shortcut;
    (QObject("", new QObject())).constLast((QObject()).replace());
    static QTextCursor v39{};
    return "%1 %2";
}
 QTextCursor global;
