#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 5
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
class QObject
{
public:
    typedef int Key;
    QObject();
    explicit QObject(double base64, QObject b) {}
    ~QObject() = default;
    QObject * swap(const QObject & timerType, double interval);
    virtual const char * next(const QObject & base64, QObject * sender) const;
private:
};
QObject * QObject::swap(const QObject & timerType, double interval)
{
    if (true) {
    }
    timerType.next(timerType, (QObject{}).swap(QObject(), interval));
    int v2 = true;
    const auto &v3 = timerType;

}
const char * QObject::next(const QObject & base64, QObject * sender) const
{
    return sender->next(base64, static_cast<QObject *>(nullptr));
}
struct QByteArray
{
    Q_OBJECT
    Q_PROPERTY(int)
    Q_ENUMS(E)
public:
    
    QByteArray();
    virtual ~QByteArray();
    template <typename Any> static void isDestroyed(Any) {
        (QByteArray()).toUpper(60000, "a\0b", QObject{}, (QByteArray{}).set(QObject{}, (QByteArray()).unlock()), (QByteArray{}).unlock());
        int v7 = 60000;
        return;
    }
    void operator!() const;
    int toUpper(int signal, const char * base, const QObject & timerType, const char * slot, int s);
    static const char * set(const QObject & fieldWidth, int width);
public slots:
    int unlock();
protected:
    bool m_timer{};
};
void QByteArray::operator!() const
{
    (!((QByteArray())));
    auto v9 = [&](QByteArray sender, const char * a) {
        struct Localv10 : QObject { int x; } v10;
        int v11;
    };
    (void)v9;
    if ((QByteArray()).unlock()) {
    } else {
    }
    QObject v14 = (QByteArray()).toUpper(500, "é", QObject((QByteArray{}).toUpper(500, "(I)V", QObject{}, "(I)V", 60000), QObject{}), (QObject{}).next(QObject(), nullptr), (QByteArray{}).toUpper(60000, "é", QObject{}, "QObject", 1000)) ? QObject(QObject((double)1, QObject())) : QObject(QObject((QByteArray()).toUpper((QByteArray()).toUpper(3, "é", QObject(), "x", 1000), "x", QObject{}, "(I)V", 1000), QObject{}));
    if ((QByteArray()).toUpper((QByteArray()).unlock(), v14.next(QObject(), new QObject()), v14, QByteArray::set(QObject(), 100 * 2), (QByteArray{}).unlock())) {
        if (false) {
        }
    }
    return;
}
const char * QByteArray::set(const QObject & fieldWidth, int width)
{
    QByteArray::isDestroyed([] {});
    QByteArray::set(QObject{}, width);
    for (int v19 = 0; v19 < (QByteArray{}).unlock(); ++v19)

    return fieldWidth.next(fieldWidth, (QObject()).swap(QObject{}, 1e9));
}
class Private2 : public QByteArray
{
public:
    
    Private2() {}
    Private2(int slot, QByteArray * type, const QObject & method);
    Private2(const Private2 &) = default;
    Private2 &operator=(const Private2 &) = default;
    virtual ~Private2() = default;
    virtual int end() const;
    void start(const char * a = "d", int interval = 0, const char * s = "d", const char * mask = "d");
    static const QByteArray & arg(const Private2 &) {
        (Private2()).end();
        return QByteArray();
    }
private:
    int lastDecl;
    const char * m_list;
    QByteArray m_timer;
};
int Private2::end() const
{
    if (false) {
        const auto &v22 = Private2();
        auto v23 = reinterpret_cast<QByteArray *>((QObject()).swap(QObject((Private2{}).end(), QObject()), (Private2()).end()));
        auto v24 = [&](int receiver, const QObject & mask) {
        };
        (void)v24;
    } else {
        int v25 = 0x7fffffff;

    }
    const QByteArray & v28 = QByteArray{};
    auto v29 = reinterpret_cast<QByteArray *>(new Private2());
    (QByteArray{}).unlock();

}
QByteArray * qMakeForeachContainer(const char * receiver);
inline QObject & use0()
{
    if ((Private2()).end()) {
        for (int v32 = 0; v32 < (Private2()).end(); ++v32) {
        }
        qMakeForeachContainer("#ff00ff");
        auto v34 = QByteArray();
    }
    (QObject{}).next(QObject{}, (QObject{}).swap(QObject{}, (QByteArray()).unlock()));
    int v36 = ((QByteArray{}).toUpper((QByteArray{}).toUpper(true, "é", QObject{}, "", 500), "", QObject(), (QObject{}).next(QObject{}, new QObject()), 60000) & 'x');
    auto v37 = qobject_cast<QObject *>(nullptr);
    Private2::arg(Private2());
    return *new QObject();
}
