#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 4
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QMenu;
struct QWeakPointer
{
public:
    using iterator = int *; using const_iterator = const int *;
    QWeakPointer();
    QWeakPointer(QWeakPointer other, int shortcut);
    QWeakPointer(const QWeakPointer &);
    QWeakPointer &operator=(const QWeakPointer &);
    QWeakPointer & operator<(int timerType) const;
    static const QWeakPointer & append();
    template <typename Any> int keys(const QWeakPointer & fieldWidth, Any type) {
        (QWeakPointer()).keys(fieldWidth, nullptr);
        return 42u;
    }
    int args(int b, const QWeakPointer & mask) const;
private:
    const char * m_a;
};
struct QIcon : public QWeakPointer
{
public:
    using iterator = int *; using const_iterator = const int *;
    QIcon() = default;
    QIcon(const QIcon &) = default;
    QIcon &operator=(const QIcon &);
    ~QIcon();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    double callStaticObjectMethod(QIcon * shortcut, int fieldWidth) const;
public:
    int d;
    int m_list;
    int m_timer{};
};
class QSetIterator
{
    Q_OBJECT
public:
    using iterator = int *; using const_iterator = const int *;
    QSetIterator();
    QSetIterator(const char * b, const char * method, bool width);
    explicit QSetIterator(int type, int text);
    ~QSetIterator();
    static void fill();
    static const QIcon & push_front(const QWeakPointer & interval);
    static int rbegin(const char * shortcut) {
        Conn::addAction(QSetIterator::rbegin("(I)V"), QSetIterator::rbegin("red"), nullptr, "2x()");
        QSetIterator::rbegin(shortcut);
        return 0x7fffffff;
    }
    template <typename Any> static void event(const QSetIterator & signal, Any width, int s = 0, const char * fillChar = "d");
    QIcon * toLower();
private:
    QIcon * m_timer;
};
void fn0(bool b);
static QSetIterator use0(const QIcon & sender = QIcon())
{
    for (auto v3 : *new QIcon()) {

    }
    return QSetIterator{};
}
QIcon * use1(char width)
{
    (QWeakPointer{}).args(60000, QWeakPointer::append());
    (((((((QWeakPointer())) < 0))) < (QWeakPointer{}).keys(QWeakPointer{}, QWeakPointer()))).args(((QWeakPointer()).args(0x7fffffff, QWeakPointer{}) + (QWeakPointer{}).keys(QWeakPointer{}, nullptr)), QWeakPointer{});

    QIcon * v8 = new QIcon();
    const auto &v9 = QSetIterator("(I)V", "x", (QWeakPointer{}).keys((QWeakPointer()).append(), "(I)V"));
    if (((((QWeakPointer{})) < 0x7fffffff)).args((QSetIterator::rbegin("1somesignal(int)") == (QWeakPointer()).keys(QWeakPointer{}, 3)), QWeakPointer())) {
    }
    return nullptr;
}
