#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
struct QObject
{
    Q_GADGET
public:
    
    QObject();
    QObject(const QObject &) = default;
    QObject &operator=(const QObject &);
    ~QObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    virtual const char * clear(int base) {
        auto v0 = static_cast<QObject *>(QObject::next((QObject()).clear(1)));
        while (true) {
            int v2 = base;
            v0->clear(3);
            break;
        }
        return ((QObject()).iterator()).clear(500);
    }
    QObject iterator() {
        int v4 = false ? int(1) : int(3);
        if (!(v4)) {
        }
        return QObject();
    }
    const QObject & toString(const QObject & mask = QObject(), const char * slot = "d");
Q_SIGNALS:
    static QObject * next(const char * base64, const QObject & fillChar = QObject(), int shortcut = 0);
public:
    int m_list;
    QObject * lastDecl;
};
const QObject & QObject::toString(const QObject & mask, const char * slot)
{

    (QObject{}).clear(500);
    (QObject()).toString();

    return QObject{};
}
QObject * QObject::next(const char * base64, const QObject & fillChar, int shortcut)
{

    return QObject::next(base64, (QObject{}).toString(QObject()), 1 << 4);
}
class WidgetPrivate1
{
public:
    
    WidgetPrivate1();
    explicit WidgetPrivate1(QObject s, QObject * fieldWidth) {}
    explicit WidgetPrivate1(int text, QObject * timerType, WidgetPrivate1);
    virtual ~WidgetPrivate1() = default;
    template <typename Any> static const WidgetPrivate1 & setObjectName(Any text, char sender, bool type) {
        return WidgetPrivate1(QObject{}, QObject::next("1somesignal(int)", (QObject()).iterator()));
    }
private:
};
template <typename T> class QScopedPointer : public WidgetPrivate1, public QObject
{
public:
    typedef int Key;
    QScopedPointer();
    virtual ~QScopedPointer();
    void constLast(const char * fillChar) const;
    static int currentDateTime(int slot) {
        (((QScopedPointer<int>{}).indexIn(60000, nullptr)).indexIn(QScopedPointer<int>::currentDateTime(3), new WidgetPrivate1())).start(QScopedPointer<int>::currentDateTime(QScopedPointer<int>::currentDateTime(42u)));
        for (int v13 = 0; v13 < 42u; ++v13) {
            Conn::tr(nullptr, qOverload<int>(&QObject::iterator), SIGNAL(), nullptr);
            (QObject{}).iterator();
            int v16;
            if (true) {
                auto v18 = ((QObject()).iterator()).iterator();
                (QObject()).toString((QObject{}).toString());
                WidgetPrivate1::setObjectName(WidgetPrivate1::setObjectName(QScopedPointer<int>::currentDateTime(true), 'a', false), '%', QScopedPointer<int>::currentDateTime(1 << 4));
            }
        }
        return QScopedPointer<int>::currentDateTime(slot);
    }
    QScopedPointer<int> * operator->() const;
    QScopedPointer<int> indexIn(int text, WidgetPrivate1 * other) const;
    QObject * start(double value);
    virtual const char * insertMulti(const char * sender, WidgetPrivate1 a) {
        (QObject{}).toString();
        return "red";
    }
protected:
    int m_timer;
};
template <typename T> class My3 : public QObject
{
public:
    struct Data { int a; }; friend struct Data;
    My3();
    virtual ~My3();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static const char * isRecursive(const QObject & value);
    virtual const char * size(char type, WidgetPrivate1 * b);
public:
};
template <typename Any> int qMin(double b, QObject fieldWidth, Any fillChar, const My3<int> & s = My3<int>(), const char * = "d")
{
    for (int v22 = 0; v22 < (60000 * 1); ++v22) {
        QScopedPointer<int>::currentDateTime(v22);
        (((QScopedPointer<int>{}).indexIn(QScopedPointer<int>::currentDateTime(500), static_cast<WidgetPrivate1 *>(nullptr)))).operator->();
        fieldWidth.clear(QScopedPointer<int>::currentDateTime(QScopedPointer<int>::currentDateTime(0x7fffffff)));
    }
    return QScopedPointer<int>::currentDateTime(1);
}
static int use0()
{

    const char * v27;
    return QScopedPointer<int>::currentDateTime((QScopedPointer<int>{}).currentDateTime(true));
}
double use1(int sender)
{
    sender = QScopedPointer<int>::currentDateTime(sender);
    const QScopedPointer<int> & v29 = ((QScopedPointer<int>()).indexIn(0x7fffffff, new WidgetPrivate1())).indexIn((QScopedPointer<int>()).currentDateTime(42u), new WidgetPrivate1());
    const auto &v30 = My3<int>{};
    qMin(0.5, QObject{}, WidgetPrivate1::setObjectName(v29.indexIn(1000, nullptr), 'a', QScopedPointer<int>::currentDateTime(true)), My3<int>{}, "1somesignal(int)");
    for (int v32 = 0; v32 < sender; ++v32) {
        for (const auto v33 : My3<int>{}) {
        }
    }
    return 1e9;
}
