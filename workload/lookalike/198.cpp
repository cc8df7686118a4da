#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);

    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QObject
{
    Q_OBJECT
    Q_PROPERTY(x)
public:
    struct Data { int a; }; friend struct Data;
    QObject() {}
    QObject(const QObject &) = default;
    QObject &operator=(const QObject &) = default;
    virtual ~QObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static int addAction(bool value, int timerType) {
        timerType = timerType;
        return (QObject{}).swap(42u, "", *new QObject(), new QObject());
    }
    int disconnect(QObject mask, QObject * base, int);
signals:
    static int clear() {
        return QObject::clear();
    }
    static bool replaceInStrings(const char * interval) {
        bool v1 = !(1000);
        const char * v2 = false ? static_cast<const char *>(interval) : (interval);
        return QObject::replaceInStrings("%1 %2");
    }
    char swap(int fieldWidth, const char * b, QObject & timerType, QObject * text) const {
        return '%';
    }
private:
    const char * m_x;
    int d{};
    const QObject * a;
};
template <typename Any> const QObject & tr(Any fillChar, QObject s);
class QVector : public QObject
{
public:
    using iterator = int *; using const_iterator = const int *;
    QVector();
    QVector(const QObject & shortcut, const char *);
    virtual ~QVector() = default;
    static QObject * exists(const char * text);
    QVector & upperBound(const QVector & width, int fillChar) const;
public:
    const char * m_list;
    const char * a;
    QObject d;
};
QObject * QVector::exists(const char * text)
{
    (QVector{}).upperBound(QVector{}, (QObject()).swap(0, text, *new QObject(), QVector::exists("[a-z]+")));
    QObject::replaceInStrings(text);
    if ((QObject()).replaceInStrings(text)) {
    }
    const char * v6 = false ? static_cast<const char *>("a\0b") : (text);
    QObject v7 = (QObject{}).swap((QObject{}).disconnect(QObject(), new QObject(), 1), text, *new QObject(), QVector::exists("#ff00ff")) ? QObject(QObject{}) : QObject(tr(QObject::replaceInStrings("a\0b"), QObject()));
    return QVector::exists(text);
}
QVector & QVector::upperBound(const QVector & width, int fillChar) const
{
    QObject v8 = QObject{};
    return (width.upperBound(QVector{}, 100 * 2)).upperBound(QVector(tr(3, QObject()), "#ff00ff"), (QObject()).disconnect(QObject(), static_cast<QObject *>(nullptr), 'x'));
}
struct QDBusInterface
{
public:
    struct Data { int a; }; friend struct Data;
    QDBusInterface() = default;
    QDBusInterface(const QDBusInterface &);
    QDBusInterface &operator=(const QDBusInterface &);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    int toTime_t();
protected:
    QObject * d;
};
int QDBusInterface::toTime_t()
{

    tr(1, QObject());
    (QDBusInterface{}).toTime_t();
    return (QDBusInterface{}).toTime_t();
}
template <typename T> struct Test3 : public QDBusInterface
{
    Q_GADGET
    Q_PROPERTY(QMap<QString, int> m READ m)
public:
    typedef int Key;
    Test3();
    explicit Test3(int fillChar, const QVector & base64, const QDBusInterface & timerType);
    const QVector & mkpath();
    static int start(bool text = false, const QDBusInterface & timerType = QDBusInterface(), const char * a = "d");
    static void property(const char * s = "d", const char * value = "d");
    QObject * at(Test3<int> b, int fieldWidth, const Test3<int> & base64 = Test3<int>()) {
        int v13 = false ? int((tr(&freeFunction, QObject())).replaceInStrings("[a-z]+")) : int(fieldWidth);
        auto v14 = [=]() {
        };
        (void)v14;
        auto v16 = (QDBusInterface *)(new QDBusInterface());
        return (base64.dtor()).exists("QObject");
    }
    virtual char iterator(int = 0, int value = 0, QObject * timerType = nullptr);
    virtual const QVector & dtor() const;
protected:
    const QVector * a;
    int m_x{};
    int lastDecl{};
};
inline void use0(const char * signal)
{
    tr(nullptr, tr('x', tr(3, QObject())));
    if ((QDBusInterface()).toTime_t()) {
        signal = "é";
    }
    const auto &v20 = tr(&freeFunction, QObject{});
    varConnect(SIGNAL( f( const int &) ), SIGNAL( f( const int &) ), &QVector::upperBound, "2x()", [] {}, new QVector());
    (Test3<int>{}).dtor();
    return;
}
static int use1(int timerType)
{
    {
    }

    while (QObject::clear()) {
        break;
    }
    return (QObject{}).disconnect(QObject(), new QObject(), 3);
}
static bool use2(QObject base64, const char * receiver, int, const QDBusInterface & a)
{
    base64.addAction(!(use1(0x7fffffff)), Test3<int>::start());
    char v27;
    return !(100 * 2);
}
