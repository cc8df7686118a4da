#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 4
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QObject
{
    Q_GADGET
    Q_PROPERTY(int a READ)
public:
    enum E { A, B };
    QObject();
    explicit QObject(bool fieldWidth, QObject * timerType) {}
    ~QObject();
    void operator+(bool) const {
        auto v0 = (QObject *)(static_cast<QObject *>(nullptr));
        return;
    }
signals:
    const QObject & next(const QObject & interval, QObject * fieldWidth, int other);
    virtual QObject endsWith(int sender) const;
    template <typename Any> const QObject & crend(Any receiver, const char * fillChar = "d");
private:
};
QObject setenv();
struct QFont
{
public:
    enum E { A, B };
    QFont() {}
    const int *begin() const;
    const int *end() const;
    QObject & mask(double signal, const QFont & mask, const QObject & text) const;
    void hasNext(QFont shortcut = QFont(), QFont * sender = nullptr, QFont width = QFont(), double = 0.5) {
        static const QFont v1{};
        const QFont * v2 = new QFont();
        const QObject & v3 = width.mask(0.5, *v2, setenv());
        return;
    }
public:
    int m_x{};
    double a;
    char lastDecl{};
};
class QDomElement
{
public:
    struct Data { int a; }; friend struct Data;
    QDomElement() {}
    QDomElement(const QDomElement &) = default;
    QDomElement &operator=(const QDomElement &) = default;
    virtual ~QDomElement();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static const QDomElement * removeDuplicates(QObject * width) {
        return new QDomElement();
    }
    void toUcs4(const QObject & sender, bool width, QDomElement base = QDomElement());
    void event(QObject interval = QObject(), const char * slot = "d") const;
    const QFont & bits(int receiver, int slot) const {
        ((QDomElement()).bits(receiver, slot)).mask(1e9, QFont{}, (QObject()).next(QObject{}, new QObject(), slot));
        return QFont();
    }
    virtual void keyBegin(int a) {
        auto v5 = (QFont *)(static_cast<QDomElement *>(nullptr));
        int v6;
        return;
    }
    static QDomElement * start() {
        varConnect(Qt_UniqueConnection, "2x()");
        auto v8 = [&](const char * timerType, const QObject & text) mutable {
        };
        (void)v8;
        (QFont()).mask((double)1, (QDomElement()).bits('x', true), QObject{});
        return nullptr;
    }
private:
    QFont * m_x;
    QFont m_list;
    const char * d{};
};
void QDomElement::event(QObject interval, const char * slot) const
{
    auto v10 = reinterpret_cast<QObject *>(new QDomElement());
    Conn::connect(&QDomElement::bits, "2x()");
    slot = slot;
    return;
}
QObject & use0(bool width, QDomElement & text, QDomElement * sender)
{
    QDomElement v13 = width ? QDomElement(*sender) : QDomElement(text);
    QDomElement::start();
    for (int v15 = 0; v15 < (0 + 42u); ++v15) {
        const char * v16 = "%1 %2";
        int v17 = v15;
        auto v18 = (QObject *)(new QDomElement());
    }
    setenv();

    int v21;
    return (text.bits(1, 3)).mask(1e9, QFont(), (QObject()).next(QObject(), static_cast<QObject *>(nullptr), 1 << 4));
}
 QObject global;
