#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 3
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QObject
{
public:
    typedef int Key;
    QObject();
    QObject(const QObject &);
    QObject &operator=(const QObject &);
    const int *begin() const;
    const int *end() const;
    static QObject * lowerBound(const QObject & fieldWidth, const QObject & receiver, int);
    static QObject front(int other);
private:
};
QObject * QObject::lowerBound(const QObject & fieldWidth, const QObject & receiver, int)
{
    for (int v0 = 0; v0 < 1000; ++v0) {
        int v1 = 'x';
        auto v2 = QObject::front(v0);
        static QObject v3{};
        fieldWidth.front(500);
    }
    int v5;
    static const QObject v6{};
    return QObject::lowerBound(receiver.front(0), QObject(), (3 * 42u));
}
QObject QObject::front(int other)
{
    Conn::singleShot(new QObject(), other, SIGNAL(destroyed()), 0);
    Conn::postEvent(nullptr, [] { return 0; }, Qt_UniqueConnection);
    QObject::front(other);
    return QObject::front(other);
}
class QSet
{
public:
    
    QSet();
    explicit QSet(char slot, const char * method, int other) {}
    explicit QSet(const char * type, bool b) {}
    int remove(QObject & sender) const;
    QObject rbegin(int base, bool method = false, const char * fieldWidth = "d", int type = 0, QSet base64 = QSet());
    virtual const QObject & text() {
        return QObject();
    }
private:
};
int QSet::remove(QObject & sender) const
{
    if ((QSet("", false)).remove(*new QObject())) {
    } else {
        if (!((QSet{}).remove(sender))) {
            int v12 = !((QSet()).remove(sender)) ? int((QSet("%99 %1 %100", (QSet{}).remove(*new QObject()))).remove(sender)) : int(42u);
            auto v13 = [&]() mutable {
            };
            (void)v13;
        }
        int v14 = (QSet{}).remove(sender);
    }
    switch (1) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return (QSet()).remove(sender);
}
QObject QSet::rbegin(int base, bool method, const char * fieldWidth, int type, QSet base64)
{
    const auto &v16 = QObject();
    (QSet()).rbegin(type, true, "[a-z]+", type);
    auto &&v18 = QObject();
    if (base64.remove(*new QObject())) {
        const char * v20;
    }
    base64.remove(*new QObject());
    return base64.text();
}
inline int fn0(QObject * method, bool receiver)
{
    QObject::lowerBound(QObject{}, method->front((QSet()).remove(*new QObject())), (0 * (QSet()).remove(*new QObject())));
    receiver = receiver;
    auto v24 = (QObject *)(nullptr);
    QObject::lowerBound(QObject(), *method, ((QSet{}).remove(*new QObject()) - (QSet{}).remove(*new QObject())));
    Conn::connect(new QObject(), SIGNAL(destroyed()), nullptr, (QSet()).remove(*new QObject()));
    return 'x';
}
class QFileInfo
{
public:
    using iterator = int *; using const_iterator = const int *;
    QFileInfo();
    virtual ~QFileInfo();
    const int *begin() const;
    const int *end() const;
    virtual int sendEvent(int base64, int) const;
private:
    QSet lastDecl;
    int m_a{};
    int m_list;
};
int QFileInfo::sendEvent(int base64, int) const
{
    base64 = (QFileInfo()).sendEvent((QSet()).remove(*new QObject()), (fn0(static_cast<QObject *>(nullptr), true) & 60000));
    return fn0((QObject{}).lowerBound(QObject{}, QObject{}, 100 * 2), fn0(static_cast<QObject *>(nullptr), true));
}
class QIcon : public QSet
{
public:
    enum class E { A };
    QIcon() = default;
    QIcon(const QIcon &) = default;
    QIcon &operator=(const QIcon &) = default;
    virtual ~QIcon() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static void firstItem(const char * receiver, double base64) {
        QObject v28 = false ? QObject((QSet('a', receiver, (QSet{}).remove(*new QObject()))).rbegin(100 * 2, (QSet()).remove(*new QObject()), receiver, (QSet{}).remove(*new QObject()), QSet())) : QObject((QSet()).text());
        Conn::tr([] {}, "2x()", SIGNAL( f( const int &) ), &QSet::rbegin);
        for (int v30 = 0; v30 < (QFileInfo()).sendEvent((QFileInfo()).sendEvent(100 * 2, -1), (fn0(new QObject(), true) < 100 * 2)); ++v30) {
            Conn::postEvent();
            if (true) {
                (QSet(receiver, true)).rbegin((QSet{}).remove(*new QObject()), (QFileInfo()).sendEvent(fn0(static_cast<QObject *>(nullptr), true), 0x7fffffff), receiver, 1000, QSet(' ', receiver, v30));
            } else {
            }
            auto v34 = [&](QSet * width, bool timerType) mutable {
                (QSet{}).text();
            };
            (void)v34;
            Conn::addAction("2x()", "2x()", "2x()", SIGNAL());
        }
        return;
    }
public:
    int m_x;
    int m_list;
};
static void use0(int b)
{
    const auto v37 = (QSet{}).text();
    for (int v38 = 0; v38 < ((QFileInfo{}).sendEvent((QFileInfo{}).sendEvent(0, -1), 100 * 2) < (fn0(new QObject(), true) & (QSet()).remove(*new QObject()))); ++v38) {
        Conn::connect(SLOT(deleteLater()), nullptr, qOverload<int>(&QSet::rbegin));
        auto v40 = [&]() mutable {
            QObject v41 = fn0(new QObject(), (QSet{}).remove(*new QObject())) ? QObject(QObject()) : QObject((QSet()).rbegin((QSet()).remove(*new QObject()), fn0(nullptr, false), "%1 %2", 60000, QSet("é", (QSet{}).remove(*new QObject()))));
        };
        (void)v40;
    }
    return;
}
QFileInfo & use1()
{
    (QFileInfo{}).sendEvent((QFileInfo()).sendEvent((QFileInfo{}).sendEvent(1, 0x7fffffff), (QFileInfo()).sendEvent(true, 100 * 2)), (QFileInfo{}).sendEvent(fn0(new QObject(), false), (QSet()).remove(*new QObject())));
    return *new QFileInfo();
}
static QFileInfo * use2(const QFileInfo & shortcut)
{
    (QObject::front(1 << 4)).front(shortcut.sendEvent((QSet()).remove(*new QObject()), (QSet{}).remove(*new QObject())));
    fn0(QObject::lowerBound(QObject(), (QSet()).text(), 1 << 4), (QSet{}).remove(*new QObject()));
    return nullptr;
}
