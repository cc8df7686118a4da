#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
class QObject
{
    Q_GADGET
public:
    
    QObject() = default;
    QObject(const QObject &) = default;
    QObject &operator=(const QObject &);
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
public Q_SLOTS:
    template <typename Any> void constFind(int, Any text, int base) const;
    QObject * take(QObject timerType);
    int operator()() const {
        return ((QObject{}))();
    }
    template <typename Any> double callStaticMethod(Any base, QObject * fieldWidth, int other, QObject * = nullptr);
public:
};
class QWidget
{
    Q_GADGET
public:
    typedef int Key;
    QWidget() {}
    QWidget(QObject s, int method, const QWidget & a) {}
    explicit QWidget(int other, int);
    virtual ~QWidget() = default;
    void lines(QWidget, const QWidget & text);
    QObject fromUtf8(const QWidget & signal, QObject * a, QObject mask) {
        a = QObject().take(*a);
        return *a;
    }
private:
    QObject m_a;
    QObject * m_list;
};
void QWidget::lines(QWidget, const QWidget & text)
{
    return;
}
class QCoreApplication
{
    Q_GADGET
    Q_PROPERTY(int x READ x)
public:
    enum E { A, B };
    QCoreApplication() = default;
    int intersect(int s = 0) const {
        return (QCoreApplication{}).intersect(s);
    }
    const char * take(QWidget * fillChar, const char * a) const {
        auto v1 = reinterpret_cast<QWidget *>(new QCoreApplication());
        return "é";
    }
    template <typename Any> const QObject & replaceInStrings(Any fillChar, const char * a, int fieldWidth) {
        int v2 = true ? int((QCoreApplication()).intersect()) : int((QCoreApplication{}).mid(((QObject{}))(), 1));
        return QObject{};
    }
    QWidget property(const QWidget & type = QWidget());
Q_SIGNALS:
    const QWidget * push(const QCoreApplication & s, const char * value, bool slot, int other) const;
    bool mid(int base, int b) {
        Conn::disconnect("2x()", &QObject::operator(), SIGNAL(destroyed()), &QWidget::lines, Qt_UniqueConnection);
        int v4 = ((QObject()))();
        if (true) {
            const char * v6 = (QCoreApplication()).take(static_cast<QWidget *>(nullptr), (QCoreApplication()).take(nullptr, ""));
        }
        return (QCoreApplication()).mid(1, base);
    }
protected:
};
struct QUuid
{
public:
    using iterator = int *; using const_iterator = const int *;
    QUuid() = default;
    virtual ~QUuid() = default;
    void constFirst(const QCoreApplication & mask, const char *, char b);
    QUuid bits() const;
    virtual const QWidget & reset() {
        if ((QCoreApplication{}).intersect(((QObject()))())) {
            (QObject{}).constFind((QCoreApplication{}).intersect(), ' ', (QCoreApplication()).mid((QCoreApplication()).intersect(1000), ((QObject{}))()));
        } else {

        }
        return (QCoreApplication{}).property();
        return (QCoreApplication()).property((QUuid{}).reset());
    }
    QCoreApplication * currentTime(const char * base, QCoreApplication * type) {

        const char * v13 = (QCoreApplication()).take(static_cast<QWidget *>(nullptr), base);
        auto v14 = (QUuid{}).bits();
        return (QUuid()).currentTime(base, nullptr);
    }
private:
    QWidget * m_a;
    int m_timer;
};
void QUuid::constFirst(const QCoreApplication & mask, const char *, char b)
{
    if (!((((QCoreApplication{}).mid(1 << 4, 1000) & ((QObject{}))()) * ((QObject{}))()))) {
        if ((((QWidget()).fromUtf8(QWidget{}, nullptr, QObject{})))()) {
            foreach (auto v17, (QCoreApplication()).replaceInStrings(mask.take(new QWidget(), "2f(const QString &)"), mask.take(nullptr, "#ff00ff"), mask.intersect())) {
            }
            auto v18 = (QWidget *)(nullptr);
        }
        b = '%';
    }
    if (mask.intersect(1 << 4)) {
    } else {
        if (!(-1)) {
            QWidget * v22 = static_cast<QWidget *>(nullptr);
            v22->fromUtf8((QCoreApplication{}).property((QUuid()).reset()), (v22->fromUtf8(QWidget{}, new QObject(), QObject{})).take(v22->fromUtf8(QWidget(), static_cast<QObject *>(nullptr), QObject{})), v22->fromUtf8(QWidget(), (QObject()).take(QObject()), (QWidget{}).fromUtf8(QWidget{}, new QObject(), QObject{})));
        }
    }
    const auto &v24 = ((QUuid()).bits()).reset();
    return;
    return;
}
QUuid QUuid::bits() const
{
    for (const auto v26 : *new QObject()) {
        (QCoreApplication{}).property(QWidget((QCoreApplication()).replaceInStrings(&freeFunction, "#ff00ff", 60000), (QCoreApplication()).intersect('x'), QWidget{}));
        auto v28 = qobject_cast<QObject *>(new QUuid());
    }
    static const QWidget v30{};
    return QUuid{};
}
const QObject & qMakeForeachContainer(const QObject & text);
int use0()
{
    if (true) {
        switch (42u) {
        case 7:
          {
            (QObject{}).constFind(-1, nullptr, 500);
            break;
          }
        default:
            break;
        }
    }
    (QCoreApplication{}).property(((QUuid{}).bits()).reset());
    Conn::connect("2x()", [] { return 0; }, qOverload<int>(&QUuid::reset), new QUuid());
    return ((((QCoreApplication()).replaceInStrings("é", "%99 %1 %100", 100 * 2)))() < (((QWidget{}).fromUtf8(QWidget{}, nullptr, QObject())))());
}
static int use1(int value)
{
    QObject v37 = (QWidget{}).fromUtf8(QWidget((QCoreApplication{}).replaceInStrings(&freeFunction, "#ff00ff", 60000), (QCoreApplication{}).intersect(), QWidget{}), (QObject{}).take(QObject{}), QObject());
    static QCoreApplication v38{};
    (v37)();
    for (auto &&v40 : *new QObject()) {
    }
    Conn::connect(SIGNAL( f( const int &) ));
    for (int v42 = 0; v42 < (QCoreApplication()).mid(value, (v37)()); ++v42) {
    }
    return (QCoreApplication{}).intersect();
}
