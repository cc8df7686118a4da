#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
template <typename T> class QLinkedList
{
public:
    struct Data { int a; }; friend struct Data;
    QLinkedList() {}
    explicit QLinkedList(QLinkedList<int> * text, double mask, QLinkedList<int> timerType) {}
    virtual ~QLinkedList() = default;
    void toDouble() const;
    double size(QLinkedList<int> fillChar) const;
    virtual const QLinkedList<int> & insertMulti(int fillChar, QLinkedList<int> * width, bool a);
    virtual bool winId() const;
    int rmdir(int other, const QLinkedList<int> & a = QLinkedList<int>());
    static void singleShot(int width, const char * value);
    int constData(QLinkedList<int> s);
public:
    QLinkedList<int> * m_x;
    const char * m_list{};
};
QLinkedList<int> * qOverload(double width, QLinkedList<int> base, const QLinkedList<int> & mask, bool)
{
    bool v0 = base.constData(base.insertMulti(-1, nullptr, true));
    (base.insertMulti(true, nullptr, true)).winId();
    auto v3 = base.insertMulti(base.winId(), new QLinkedList<int>(), base.constData(QLinkedList<int>{}));
    if (base.winId()) {
        for (int v5 = 0; v5 < 500; ++v5) {
            QLinkedList<int>::singleShot(base.constData(QLinkedList<int>()), "(I)V");
        }
        if (true) {
            for (int v8 = 0; v8 < 42u; ++v8) {
                QLinkedList<int> v9 = base.insertMulti(((QLinkedList<int>()).winId() + base.constData(QLinkedList<int>())), &base, !(true));
            }
            if (true) {
                static QLinkedList<int> v11{};
                mask.toDouble();
            } else {
            }
            char v13 = 'a';
        }
    }
    return &base;
}
static int use0(const char * b, QLinkedList<int> interval, int signal = 0)
{
    const auto &v14 = interval.insertMulti((signal * (QLinkedList<int>{}).winId()), &interval, interval.constData(QLinkedList<int>{}));
    ((QLinkedList<int>{}).insertMulti('x', &interval, true)).toDouble();
    if (interval.rmdir((QLinkedList<int>{}).winId())) {
        (QLinkedList<int>{}).toDouble();
        auto v18 = static_cast<QLinkedList<int> *>(&interval);
        Conn::disconnect([] { return 0; }, SIGNAL( f( const int &) ), 0, [] {});
    }
    return (interval.winId() - interval.constData(interval.insertMulti(1 << 4, new QLinkedList<int>(), true)));
}
