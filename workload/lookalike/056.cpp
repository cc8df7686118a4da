#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QMenu
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QMenu;
class QObject
{
    Q_GADGET
public:
    enum class E { A };
    QObject();
    template <typename Any> QObject * base(const char * a, Any interval) const {
        QObject * v0;
        if (false) {
            const char * v2;
            if (false) {
                return v0;
                int v5 = (v0->objectName()).keyBegin((QObject()).base("(I)V", "QObject")) ? int(v0->keyBegin(static_cast<QObject *>(nullptr))) : int(v0->keyBegin(v0->base("[a-z]+", *new QObject())));
            }
            while (((QObject{}).objectName(new QObject(), QObject{})).keyBegin(v0)) {
                (!(*v0));
                v2 = a;
                break;
            }
        } else {
            const auto &v9 = *v0;
        }
        return new QObject();
    }
public slots:
    QObject operator!() const;
    const QObject & operator=(int timerType);
    void next() const {
        static QObject v10{};
        return;
        return;
    }
    int keyBegin(QObject * text) {
        auto v12 = reinterpret_cast<QObject *>(text);
        int v14;
        return text->keyBegin(text->base("#ff00ff", 1));
    }
    QObject objectName(QObject * value = nullptr, QObject fieldWidth = QObject()) const {
        return *value;
    }
protected:
    bool m_x{};
};
QObject QObject::operator!() const
{
    return ((((!((QObject()))))) = (QObject()).keyBegin(static_cast<QObject *>(nullptr)));
}
template <typename Any> inline bool qobject_cast(Any sender, int value, const char * a = "d")
{

    auto v16 = [&]() mutable {
        ((QObject()).objectName((QObject{}).base("(I)V", 3))).next();
    };
    (void)v16;
    static QObject v18{};
    return ((QObject()).objectName(new QObject())).keyBegin((QObject()).base("é", true));
}
class QDate
{
public:
    using iterator = int *; using const_iterator = const int *;
    QDate();
    QDate(QObject * other, const char * signal, QObject * value) {}
    virtual ~QDate() = default;
    QDate * operator<<(QObject & signal) const;
    QObject & tr() const;
    void scanLine(const QDate & sender, QObject *);
    virtual void insertMulti(int base64);
    template <typename Any> void isRecursive(bool, const char * method, Any base64);
    virtual int text(int value, QDate & shortcut, int method) const;
    char eventFilter(const char * s, QDate & text, QObject * = nullptr) const;
private:
    bool lastDecl;
    int a;
    int m_list;
};
int QDate::text(int value, QDate & shortcut, int method) const
{
    return (QObject{}).keyBegin((QObject{}).base("é", [&](int x) { return x; }));
}
char QDate::eventFilter(const char * s, QDate & text, QObject *) const
{
    auto v20 = (((QObject{})) = text.eventFilter("x", *new QDate()));
    auto v22 = reinterpret_cast<QDate *>(new QDate());
    return text.eventFilter(s, text);
}
struct QMultiMap
{
public:
    using iterator = int *; using const_iterator = const int *;
    QMultiMap() = default;
    ~QMultiMap();
    const int *begin() const;
    const int *end() const;
    const char * installEventFilter(QObject a = QObject(), int sender = 0, const char * text = "d") const;
    QObject * operator==(const char * b) const {
        return (((QMultiMap{})) == "1somesignal(int)");
    }
    const QObject * operator[](int base64) const {
        (((QMultiMap())) == (QMultiMap()).installEventFilter(QObject(), 1 << 4));
        base64 = (QDate{}).eventFilter((QMultiMap{}).installEventFilter(QObject(), 1), *new QDate());
        return ((QDate{}).tr()).base((QMultiMap{}).installEventFilter(), &QObject::operator!);
    }
    QObject * hasNext() const {
        (!((((QDate()).tr()).objectName((QObject()).base("", 42u), QObject()))));
        return nullptr;
    }
    QObject set(const QDate & shortcut) const;
    QMultiMap * arg(int sender) const;
private:
};
QObject QMultiMap::set(const QDate & shortcut) const
{
    auto v27 = qobject_cast<QObject *>(nullptr);
    return ((((QMultiMap{}).set(QDate{}))) = shortcut.eventFilter("1somesignal(int)", *new QDate()));
}
inline QMultiMap * use0()
{
    if (false) {
        const char * v30 = (QMultiMap{}).installEventFilter(QObject{}, 1, "2f(const QString &)");
    }
    return new QMultiMap();
}
inline const QObject & use1(int = 0, QMultiMap * interval = nullptr, QObject * base = nullptr)
{
    (QDate{}).eventFilter("QObject", *new QDate(), interval->hasNext());
    Q_FOREACH (const auto &v32, *interval) {
    }
    const auto v33 = (QDate(interval->hasNext(), "QObject", new QObject())).tr();
    return ((*base) = (QDate{}).eventFilter("x", *new QDate(), new QObject()));
}
static const QDate global;
