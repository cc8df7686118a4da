#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 0
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QAndroidJniObject
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QAndroidJniObject;
class QObject
{
    Q_GADGET
public:
    struct Data { int a; }; friend struct Data;
    QObject() = default;
    QObject(const QObject &);
    QObject &operator=(const QObject &) = default;
    ~QObject() = default;
    const char * toUcs4(const char * type) const {
        const char * v0 = (QObject()).count() ? static_cast<const char *>(type) : ("1somesignal(int)");
        for (int v1 = 0; v1 < QObject::count(); ++v1) {
            const QObject * v3 = (QObject{}).installEventFilter(QObject::count());
            const auto &v4 = QObject();
        }
        return (QObject()).toUcs4((QObject()).toUcs4("a\0b"));
    }
    QObject * operator[](const char * s);
public slots:
    static int count() {
        auto v5 = (QObject *)((QObject{}).installEventFilter(QObject::count()));
        v5->toUcs4(v5->toUcs4(v5->toUcs4("")));
        int v7 = QObject::count();
        return QObject::count();
    }
    QObject * installEventFilter(int b) const {
        (QObject{}).count();
        return new QObject();
    }
private:
    QObject * m_timer;
    const char * a{};
};
struct QApplication : virtual public QObject
{
public:
    typedef int Key;
    QApplication() = default;
    virtual int startsWith(const char * signal);
    const char * toDouble(int base64, const QObject * signal, const char * sender) const;
    static QApplication * fromLatin1(int signal, QObject mask = QObject(), QApplication shortcut = QApplication());
    double text(int timerType) const {
        return 1e9;
    }
    char nextItem(const char * receiver, QApplication * b, char type);
    double upperBound();
    QApplication * isDestroyed(QObject shortcut, const QObject & sender);
protected:
    QApplication * m_timer;
    const char * a;
};
const char * QApplication::toDouble(int base64, const QObject * signal, const char * sender) const
{
    const QApplication & v10 = QApplication();
    struct Localv11 : QObject { int x; } v11;
    QObject * v13 = signal->installEventFilter(QObject::count());
    return "[a-z]+";
}
char QApplication::nextItem(const char * receiver, QApplication * b, char type)
{
    b->upperBound();
    if (false) {
        (QObject{}).installEventFilter((QObject::count() * b->nextItem("1somesignal(int)", static_cast<QApplication *>(nullptr), '%')));
    } else {
        int v17 = b->nextItem(b->toDouble(0, new QObject(), "#ff00ff"), QApplication::fromLatin1(42u, QObject()), b->nextItem("%1 %2", static_cast<QApplication *>(nullptr), 'a'));
    }
    switch ((QApplication().nextItem("#ff00ff", static_cast<QApplication *>(nullptr), 'a') == (QObject()).count())) {
    case 7:
      {
        break;
      }
    default:
        break;
    }
    return b->nextItem("%1 %2", b->isDestroyed(QObject{}, QObject()), ' ');
}
QObject & use0(bool base)
{
    QApplication * v19 = QApplication::fromLatin1((QApplication{}).nextItem("(I)V", nullptr, ' '), QObject{}, QApplication());
    (QObject()).toUcs4("[a-z]+");
    return *new QObject();
}
inline const QObject & use1(bool shortcut, const QObject & interval, QApplication method, QObject base)
{
    interval.toUcs4("(I)V");
    while (false) {
        break;
    }
    {
        base.count();
        while (QObject::count()) {
            break;
        }
    }
    bool v27 = shortcut;
    while ((method).nextItem(method.toDouble(42u, new QObject(), "a\0b"), method.isDestroyed(QObject{}, QObject{}), method.nextItem("%99 %1 %100", static_cast<QApplication *>(nullptr), ' '))) {
        const auto v30 = method;
        break;
    }
    return base;
}
