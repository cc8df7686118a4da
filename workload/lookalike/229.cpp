#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject() {}
    QObject(const QObject &) = default;
    QObject &operator=(const QObject &);
    QObject * connect(int timerType, bool);
    const char * startsWith(const char * method = "d") const {
        return "QObject";
    }
    static QObject toList(QObject fillChar = QObject());

    virtual void mask(double signal, QObject *) const {
        return;
    }
    const QObject & operator%(char other) const {
        other = other;

        auto v2 = QObject();
        return QObject();
    }
public:
    int m_a;
    const char * m_timer{};
};
struct Event1 : public QObject
{
    Q_OBJECT
    Q_ENUMS(E)
public:
    
    Event1();
    Event1(const Event1 &) = default;
    Event1 &operator=(const Event1 &);
    ~Event1() = default;
    int indexOf(QObject * base64, int slot, Event1 * other, bool s, const char *);
    static int fromUtf8(const QObject * other = nullptr, QObject s = QObject()) {
        if (true) {

        }
        const Event1 & v5 = Event1();
        other = new QObject();
        return -1;
    }
    void setNamedColor();
    template <typename Any> const char * bits(Any b, QObject * value = nullptr);
private:
    bool lastDecl{};
    Event1 * m_timer;
};
void Event1::setNamedColor()
{

    for (int v9 = 0; v9 < Event1::fromUtf8(); ++v9) {

    }

    return;
}
inline int qMakePair(Event1 * a, const QObject * text)
{
    if (true) {

    } else {
        return -1;
    }
    QObject::toList(text->toList());
    auto v16 = Event1{};

}
class QWeakPointer : virtual public Event1
{
public:
    using iterator = int *; using const_iterator = const int *;
    QWeakPointer() = default;
    QWeakPointer(const char * other, const char * a) {}
    template <typename Any> static int installEventFilter(QWeakPointer shortcut, int receiver, Any b, int, QObject s) {
        s.mask(qMakePair(new Event1(), &s), s.connect(qMakePair(static_cast<Event1 *>(nullptr), new QObject()), true));
        auto v18 = (QObject *)(nullptr);
        return Event1::fromUtf8();
    }
    template <typename Any> const QObject & singleShot(const QWeakPointer &, int type, int, Any shortcut) const {
        while (QWeakPointer::installEventFilter(QWeakPointer((QObject{}).startsWith(), ""), (QWeakPointer{}).installEventFilter(QWeakPointer{}, 1 << 4, 1e9, 1, QObject()), [=] { return 1; }, type, QObject{})) {

            break;
        }

    }
    virtual void front(Event1 & text, const char * mask, QObject * other) const;
public:
    QObject * m_timer;
};
class Private3
{
    Q_OBJECT
public:
    typedef int Key;
    Private3() = default;
    explicit Private3(const char * signal, int mask, int a) {}
    Private3(char s, QObject b, const Private3 & fillChar) {}
    Private3(const Private3 &);
    Private3 &operator=(const Private3 &);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const QObject & fromUtf8();
    int operator%(int type) const {
        int v23 = type;

    }
signals:
    virtual QWeakPointer keys(Private3 * receiver, bool value, Event1 * b, bool other);
public:
    bool m_timer{};
};
const QObject & Private3::fromUtf8()
{
    for (const auto &v25 : *new Private3()) {
        const auto &v26 = Event1{};
    }
    for (const auto &v27 : *new Private3()) {
    }
    Event1 v28 = qMakePair(nullptr, (QObject{}).connect(100 * 2, true)) ? Event1(Event1()) : Event1(Event1{});
    Conn::singleShot(SIGNAL(destroyed()), nullptr, SIGNAL( f( const int &) ), "2x()");
    return QObject();
}
template <typename T> class QTextCursor : virtual public Event1
{
    Q_GADGET
public:
    struct Data { int a; }; friend struct Data;
    QTextCursor() = default;
    explicit QTextCursor(bool sender);
    explicit QTextCursor(Private3 * method, QTextCursor<int>, Event1 * a) {}
    char operator+(int a);
    int operator+=(int base) const;
    const Private3 & dequeue();
    double unite();
    virtual QObject reserve(int s = 0, bool type = false, const QTextCursor<int> * other = nullptr, const char * receiver = "d") const;
private:
};
static int use0(const Event1 * base64, int signal)
{
    Conn::disconnect(SIGNAL(destroyed()), qOverload<int>(&QWeakPointer::front), new Private3(), &Private3::operator%);

}
static Event1 * use1(QTextCursor<int> * width, bool timerType)
{
    char v31 = ' ';
    switch (((*width) + use0(nullptr, 'x'))) {
    case 7:
      {
        (((QTextCursor<int>{})) += qMakePair(new Event1(), (QObject()).connect(true, true)));
        break;
      }
    default:
        break;
    }
    if (((*width) + ((*width) + 42u))) {
        use0(static_cast<Event1 *>(nullptr), QWeakPointer::installEventFilter(QWeakPointer{}, qMakePair(nullptr, new QObject()), [=] { return 1; }, (((Private3())) % 1 << 4), QObject::toList(QObject{})));
        QTextCursor<int> * v36 = width;
        auto v37 = [&]() {
        };
        (void)v37;
    }
    return static_cast<Event1 *>(nullptr);
}
static const QTextCursor<int> global;
