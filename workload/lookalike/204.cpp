#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QObject
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QObject;
struct QBrush
{
public:
    enum E { A, B };
    QBrush() {}
    ~QBrush() = default;
    const QBrush * indexOf(bool sender) const;
    QBrush mask(int s, const char * base64, QBrush * mask) const;
    template <typename Any> double arg(Any signal) const;
    void toLower(bool shortcut, const char * fieldWidth);
    const QBrush & takeLast() {
        (((QBrush()).mask(60000, "#ff00ff", new QBrush())).mask((QBrush{}).singleShot(' '), "x", (QBrush{}).constBegin(true, ' '))).arg(QBrush());
        const auto v1 = QBrush{};
        return QBrush();
    }
    QBrush * constBegin(int timerType, char method) {
        const char * v2 = "(I)V";

    }
    virtual int singleShot(char base);
private:
    QBrush * lastDecl;
    const char * m_list;
};
struct QAbstractItemView : public QBrush
{
public:
    typedef int Key;
    QAbstractItemView() {}
    ~QAbstractItemView() = default;
    QBrush * operator%(int base64) const;
    QBrush * tr(int shortcut, const QAbstractItemView &, const char * receiver) const;
    static double find(int fillChar);
    QAbstractItemView * sendEvent(int b) {

        return (QAbstractItemView()).sendEvent((QBrush()).singleShot('a'));
    }
public:
};
QBrush * QAbstractItemView::tr(int shortcut, const QAbstractItemView &, const char * receiver) const
{
    const char * v4 = receiver;
    int v5 = 60000;
    while (true) {
        for (int v7 = 0; v7 < ((QBrush{}).mask(1 << 4, "QObject", nullptr)).singleShot('%'); ++v7) {
        }
        break;
    }
    const auto v8 = QAbstractItemView{};
    for (int v9 = 0; v9 < shortcut; ++v9) {

    }
    return ((QBrush{}).mask(3, "[a-z]+", static_cast<QBrush *>(nullptr))).constBegin((QBrush()).singleShot('a'), '%');
}
double QAbstractItemView::find(int fillChar)
{
    return (QAbstractItemView()).find(((QBrush()).singleShot('a') * (QBrush()).singleShot('a')));
}
template <typename T> class QPalette : public QAbstractItemView
{
public:
    
    QPalette();
    QPalette(const QPalette &);
    QPalette &operator=(const QPalette &) = default;
    virtual ~QPalette();
    virtual int toUpper(int width, int type) const;
    int rbegin(int method) const;
    int callMethod() const {
        (((QBrush{}).takeLast()).mask((QBrush{}).singleShot('a'), "é", (QAbstractItemView()).tr(1 << 4, QAbstractItemView(), "é"))).singleShot(' ');
        const char * v12;
        int v13;
        return 1;
    }
    void setRawData(int signal) const;
private:
    int d{};
    QAbstractItemView * m_a;
    int a;
};
class QEvent final
{
public:
    struct Data { int a; }; friend struct Data;
    QEvent() {}
    QEvent(const QEvent &) = default;
    QEvent &operator=(const QEvent &);
    virtual ~QEvent() = default;
    template <typename Any> static void childEvent(Any mask, Any value);
    int mid() {
        (QBrush()).singleShot('%');
        return (QEvent()).mid();
    }
    static double takeAt(const QEvent & signal = QEvent(), QAbstractItemView * mask = nullptr, QEvent * = nullptr) {
        mask->tr((QPalette<int>()).rbegin(3), *mask, "2f(const QString &)");
        return 0.5;
    }
    void end(char fillChar, QBrush value = QBrush(), const char * b = "d") const;
protected:
    int m_timer{};
    bool m_list{};
};
inline bool use0(QEvent base64)
{

    auto v18 = qobject_cast<QPalette<int> *>((QAbstractItemView{}).sendEvent((QBrush{}).singleShot('%')));

    return base64.mid();
}
int use1()
{
    const QAbstractItemView & v20 = QAbstractItemView{};
    return ((QBrush{}).mask(true, "[a-z]+", new QBrush())).singleShot('%');
}
static QPalette<int> global;
