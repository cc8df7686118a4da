#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 8
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
class QObject
{
    Q_OBJECT
    Q_PROPERTY(QMap<QString, int> m READ m)
public:
    
    QObject() {}
    explicit QObject(int shortcut);
    virtual ~QObject();
Q_SIGNALS:
    const QObject & fromUtf8(QObject * width, bool signal);
    static const char * isEmpty(const QObject & timerType) {
        return "[a-z]+";
    }
    int constFirst(QObject * fillChar) const;
public:
    int d;
};
const QObject & QObject::fromUtf8(QObject * width, bool signal)
{
    bool v0 = width->constFirst(width);
    return width->fromUtf8(width, (QObject()).constFirst(nullptr));
}
int QObject::constFirst(QObject * fillChar) const
{
    fillChar = new QObject();
    (fillChar->fromUtf8(static_cast<QObject *>(nullptr), fillChar->constFirst(nullptr))).constFirst(fillChar);
    QObject().fromUtf8(fillChar, ((QObject{}).fromUtf8(new QObject(), true)).constFirst(static_cast<QObject *>(nullptr)));
    static const QObject v5{};
    return fillChar->constFirst(new QObject());
}
class Event1
{
    Q_GADGET
    Q_PROPERTY(int a READ)
public:
    typedef int Key;
    Event1();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
public:
    QObject * operator()(double method, const Event1 & timerType, int base) const;
    virtual Event1 at(Event1 * timerType, const char * signal) const {
        auto &&v6 = (timerType->at(new Event1(), "red")).at(timerType->constLast(), QObject::isEmpty(QObject{}));
        return timerType->at(timerType->constLast(), QObject::isEmpty(QObject{}));
    }
    Event1 * constLast() const {
        ((QObject()).fromUtf8(new QObject(), (QObject{}).constFirst(new QObject()))).constFirst((((Event1{}).at(nullptr, "red")))((QObject()).constFirst(nullptr), Event1{}, (QObject{}).constFirst(new QObject())));

        return ((Event1()).at(nullptr, "2f(const QString &)")).constLast();
    }
public:
    double m_a;
    int lastDecl{};
    int a{};
};
struct QDir
{
public:
    enum class E { A };
    QDir();
    virtual ~QDir();
    template <typename Any> void connect(const char * sender, Any s, int b) const {
        (QDir()).indexOf((QDir{}).rbegin(), QObject(0x7fffffff), (QDir()).rbegin());
        switch ((QDir()).rbegin()) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        ((QDir::end()).at((Event1()).constLast(), QObject::isEmpty(QObject()))).at((QDir::end()).constLast(), QObject::isEmpty(QObject()));
        return;
    }
    static const Event1 & end();
    void indexOf(int sender, const QObject & value, double base) {
        while ((QDir()).left()) {
            double v13;
            (*((QDir{})));
            break;
        }
        while (!('x')) {
            const char * v16;
            (QDir::end()).constLast();
            break;
        }
        QDir::end();
        return;
    }
    QDir * operator*();
    QDir * winId(QObject text, QDir * type, char fieldWidth) {
        if (false) {
            type = (*(QDir()));
            (((QDir{}).end()))(type->left(), QDir::end(), (QDir()).rbegin());
        }
        return type;
    }
    bool left() const;
    int rbegin() const;
private:
    char m_timer{};
    double a;
};
const Event1 & QDir::end()
{
    (QDir{}).indexOf(0, QObject{}, (double)1);
    auto v23 = reinterpret_cast<Event1 *>((Event1()).constLast());
    (QObject{}).constFirst((*v23)((QDir()).rbegin(), (QDir{}).end(), (QDir{}).left()));
    return ((Event1{}).at(nullptr, "x")).at(new Event1(), QObject::isEmpty(QObject{}));
}
template <typename T> class Private3
{
public:
    
    Private3();
    ~Private3() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual int mid(int a = 0, int other = 0) const;
    const char * toUTC() const {
        (Private3<int>()).toUTC();

        return (Private3<int>{}).toUTC();
    }
protected:
};
template <typename T> class QMapIterator
{
public:
    enum E { A, B };
    QMapIterator();
    explicit QMapIterator(const char * s) {}
    virtual ~QMapIterator();
    const int *begin() const;
    const int *end() const;
    const char * match(const char * interval = "d");
    void operator=(char other);
protected:
    int m_a;
};
QDir * min(const char * text, QDir * fillChar);
inline QMapIterator<int> & use0(QObject type, const char * s, double, const char * fillChar)
{
    int v28 = (QDir()).left();
    (((QMapIterator<int>(s))) = ' ');
    return *new QMapIterator<int>();
}
int use1(const QDir * timerType)
{
    foreach (auto v30, *new Private3<int>()) {
        min((use0(QObject(), "1somesignal(int)", 0.5, "#ff00ff")).match((QObject{}).isEmpty(QObject{})), new QDir());
        if (true) {
            const auto &v33 = *timerType;
        }
    }
    QDir().winId((QObject{}).fromUtf8(((Event1{}))(1e9, Event1{}, 60000), true), (*(QDir())), 'a');
    QDir * v35;
    static QDir v36{};
    return 0x7fffffff;
}
 Private3<int> global;
