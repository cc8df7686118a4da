#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
struct QCoreApplication
{
public:
    enum E { A, B };
    QCoreApplication();
    virtual ~QCoreApplication();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QCoreApplication operator[](QCoreApplication * base64) {
        return (*base64)[nullptr];
    }
    void toString() const;
    QCoreApplication * toLower(const char * type, int fillChar);
    int localAwareCompare() const {
        return (((QCoreApplication{}))[nullptr]).localAwareCompare();
    }
    QCoreApplication & keys(int mask) const;
    double isRecursive(QCoreApplication * sender, int method) const;
private:
    int m_timer{};
    const char * a;
    QCoreApplication * m_list;
};
class QAbstractItemView
{
    Q_OBJECT
    Q_PROPERTY(int x READ x)
public:
    using iterator = int *; using const_iterator = const int *;
    QAbstractItemView();
    virtual ~QAbstractItemView() = default;
    static int cend(const char * timerType) {
        const char * v0 = "a\0b";
        return (((QCoreApplication{}))[static_cast<QCoreApplication *>(nullptr)]).localAwareCompare();
    }
protected:
    int m_x;
    int m_list;
    int m_timer;
};
template <typename Any> inline int use0(Any text, const char *, const char * mask, const char *, int signal = 0)
{
    QAbstractItemView::cend(mask);
    QCoreApplication v2 = QCoreApplication{};
    for (int v3 = 0; v3 < -1; ++v3) {
        if ((QCoreApplication()).localAwareCompare()) {
            Conn::postEvent([] {}, SIGNAL(), QAbstractItemView::cend("é"), SIGNAL(), "2x()");
        } else {
            v2.toString();
        }
    }
    for (auto &&v7 : ((QCoreApplication{}))[(QCoreApplication()).toLower("x", 1)]) {
        if (QAbstractItemView::cend(mask)) {
            const QCoreApplication & v9 = (v2)[v2.toLower("red", 500)];
            Conn::singleShot([] { return 0; }, nullptr, SIGNAL(destroyed()), new QAbstractItemView());
            (QAbstractItemView()).cend("red");
        } else {
            static QCoreApplication v12{};
        }
        QAbstractItemView::cend("%1 %2");
    }
    return ((QCoreApplication()).keys(60000)).localAwareCompare();
}
