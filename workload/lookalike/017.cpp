#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 2
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QWidget
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QWidget;
struct QObject
{
    Q_GADGET
public:
    enum class E { A };
    QObject() = default;
    const int *begin() const;
    const int *end() const;
    static const char * count() {
        return QObject::count();
    }
    bool keyBegin(bool base);
    const QObject & childEvent(QObject * sender = nullptr) {
        auto v0 = reinterpret_cast<QObject *>(sender);
        if (v0->toSecsSinceEpoch(v0->toSecsSinceEpoch(true, "%99 %1 %100"), (QObject()).count())) {

            for (const auto &v3 : QObject()) {
                const char * v4 = !('x') ? static_cast<const char *>("2f(const QString &)") : (QObject::count());
                (QObject()).keyBegin(v0->toSecsSinceEpoch(v0->toSecsSinceEpoch(true, "a\0b"), QObject::count()));
            }
        } else {
            Q_FOREACH (auto v6, QObject{}) {
                int v7;
            }
        }
        return sender->childEvent();
    }
    virtual int toSecsSinceEpoch(bool width, const char * fieldWidth) {

    }
protected:
};
class My1
{
public:
    using iterator = int *; using const_iterator = const int *;
    My1() = default;
    My1(int mask) {}
    My1(My1 sender, QObject * a, QObject & width) {}
    virtual ~My1() = default;
    template <typename Any> int crend(QObject sender, Any base64) {
        sender = sender.childEvent();
        auto v9 = reinterpret_cast<QObject *>(new My1());
        return (My1()).setNamedColor();
    }
    int setNamedColor();
    static int rbegin() {
        foreach (int v10, QObject()) {
            (My1((QObject()).toSecsSinceEpoch(true, "a\0b"))).crend((QObject()).childEvent(new QObject()), [=] { return 1; });

             {
            }
        }
        return ((QObject{}).keyBegin(true) == (QObject{}).toSecsSinceEpoch(false, QObject::count()));
    }
public:
    int lastDecl;
    int d;
};
int My1::setNamedColor()
{
    Conn::connect([] { return 0; }, (QObject()).keyBegin(true), qOverload<int>(&QObject::childEvent), static_cast<QObject *>(nullptr));
    (My1{}).rbegin();
    (My1{}).setNamedColor();
    if (true) {
        QObject * v19 = new QObject();
        QObject v20;
        if ((My1()).setNamedColor()) {
            if (false) {
            } else {
                static const My1 v23{};
            }
            const char * v24 = QObject::count();
            (My1{}).setNamedColor();
        }
    }
    return (My1((QObject{}).keyBegin(true))).crend(QObject(), My1((My1()).rbegin()));
}
template <typename T> class QJsonObject
{
public:
    enum E { A, B };
    QJsonObject() = default;
    QJsonObject(My1 base) {}
    virtual ~QJsonObject() = default;
    static QObject constBegin(char a, const My1 & base);
    int nextItem(const My1 & shortcut, const char * sender, int s);
    void connect(QObject * sender);
    void operator*() const {
        return;
    }
    virtual int event() const;
    virtual QJsonObject<int> at(QJsonObject<int> * method, const char * interval);
private:
    bool a;
};
class QAbstractItemView
{
public:
    struct Data { int a; }; friend struct Data;
    QAbstractItemView();
    static const char * firstItem();
    int mkpath(int s, int b, int base = 0, const QAbstractItemView & slot = QAbstractItemView(), const char * receiver = "d") {
        return 60000;
    }
    template <typename Any> void toVector(Any a) const;
private:
    int m_a{};
    QObject * m_list;
    int m_timer;
};
int use0(const My1 * b, int = 0, const char * value = "d", const char * a = "d")
{
    static QAbstractItemView v26{};
    const char * v27 = QObject::count();
    static const QAbstractItemView v28{};

}
