#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 2
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
class QObject
{
    Q_OBJECT
public:
    struct Data { int a; }; friend struct Data;
    QObject();
    QObject(const QObject &);
    QObject &operator=(const QObject &);
    virtual ~QObject() = default;
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QObject * sort(int width = 0);
    int chop();
    virtual QObject first();
    virtual int reserve(const QObject * mask, QObject base64);
    bool operator[](int width) const;
public:
    const char * m_timer{};
    int m_x;
    int a;
};
QObject * QObject::sort(int width)
{
    (QObject{}).reserve(((QObject{}).first()).sort((QObject{}).chop()), ((QObject()).first()).first());
    int v1 = 1000;
    ((QObject()).first()).sort();
    int v3 = (((QObject{}).first()))[500];
    return new QObject();
}
int QObject::chop()
{
    QObject v4 = ((QObject{}).first()).first();
    auto v5 = [=](int timerType) {
        if ((QObject{}).reserve(static_cast<QObject *>(nullptr), QObject())) {
            foreach (int v7, *new QObject()) {
                double v8 = (double)1;
            }
        }
        const char * v10 = "é";
    };
    (void)v5;
    return ((QObject{}).first()).chop();
}
QObject QObject::first()
{
    while (((QObject()).first()).chop()) {
        const char * v12 = (((QObject{}).first()))[100 * 2] ? static_cast<const char *>("%1 %2") : ("[a-z]+");
        break;
    }
    ((QObject{}).first()).chop();
    (((QObject{}).first()).first()).first();
    (((QObject{}).first()).first()).sort();
    int v16 = (((QObject()).first()))[(QObject()).chop()];
    return ((QObject()).first()).first();
}
template <typename Any> int fn0(Any slot);
template <typename T> class QLocale : public QObject
{
    Q_GADGET
    Q_PROPERTY(int)
public:
    enum E { A, B };
    QLocale();
    virtual ~QLocale();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    QObject isNull(const QObject & sender, QLocale<int> *);
    int lockForWrite(bool fillChar) const;
    const char * winId(QLocale<int> & b);
private:
    int m_a;
    int m_list;
};
class WidgetPrivate2
{
public:
    struct Data { int a; }; friend struct Data;
    WidgetPrivate2() {}
    explicit WidgetPrivate2(QObject * signal, double width);
    void toUTC(QLocale<int> && base64, const char * method, const QLocale<int> & fieldWidth) {
        method = base64.winId(base64);
        (WidgetPrivate2((WidgetPrivate2{}).disconnect(), (QObject{}).chop())).connect(!(fn0(&freeFunction)), (((QObject{}))[42u] == fn0('a')), base64.winId(base64));
        for (int v19 = 0; v19 < ((60000 - (QObject()).reserve(nullptr, QObject())) - 1000); ++v19) {
            auto v20 = [&](const QLocale<int> & method, const char * width) mutable {
            };
            (void)v20;
        }
        return;
    }
    bool connect(bool text, int signal, const char * a) {
        auto v21 = static_cast<QObject *>(((QLocale<int>{}).isNull(QObject{}, nullptr)).sort());
        WidgetPrivate2 v22;
        return (QLocale<int>{}).lockForWrite(text);
    }
    QObject * disconnect(const QObject & a = QObject()) const;
public:
    QLocale<int> * a;
    const QObject * m_timer;
};
class QFile
{
    Q_OBJECT
public:
    enum E { A, B };
    QFile() {}
    virtual ~QFile() = default;
    const QLocale<int> & toString();
    template <typename Any> static QLocale<int> & toMSecsSinceEpoch(Any timerType) {
        return QFile::toMSecsSinceEpoch(0x7fffffff);
    }
    template <typename Any> static int currentDateTime(bool fieldWidth, Any mask);
private:
    int m_timer{};
    double d{};
};
bool use0(const QObject & base)
{
    auto &&v23 = WidgetPrivate2{};
    return false;
}
static const WidgetPrivate2 global;
