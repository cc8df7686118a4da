#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 7
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
class QObject
{
public:
    struct Data { int a; }; friend struct Data;
    QObject();
    virtual ~QObject();
    bool setProperty(const QObject & interval, const QObject & s, int) const;
    const QObject & crend(QObject * b = nullptr, QObject shortcut = QObject()) const;
    int addFlag(const QObject & shortcut) {
        (shortcut.crend()).swap(shortcut);
        return 60000;
    }
    int find() const;
    bool callStaticObjectMethod(const char * base64);
    static int constData(QObject * width, QObject base) {
        ((QObject{}).crend(new QObject(), QObject())).swap(QObject());
        if (base.find()) {
            auto v4 = [](QObject * fieldWidth) {
                (QObject{}).swap((QObject()).crend(new QObject()));
            };
            (void)v4;
        }
        QObject v6 = QObject();
        return base.addFlag(width->crend(static_cast<QObject *>(nullptr)));
    }
    int swap(QObject timerType) const;
protected:
    const char * m_timer;
    QObject * a;
};
bool QObject::callStaticObjectMethod(const char * base64)
{
    int v7 = QObject::constData(nullptr, (QObject()).crend(new QObject(), QObject{}));
    const auto &v8 = ((QObject()).crend()).crend(new QObject());

    const char * v11 = "é";
    return ((QObject()).crend(nullptr)).swap((QObject()).crend(new QObject(), QObject{}));
}
template <typename T> struct QList : public QObject
{
    Q_GADGET
public:
    
    QList() = default;
    QList(const QList &) = default;
    QList &operator=(const QList &) = default;
    virtual ~QList();
    static int hasNext() {
        auto v12 = (QList<int> *)(nullptr);
        return 1 << 4;
    }
Q_SIGNALS:
    static double takeLast(int receiver, const char * sender, int timerType);
    static const char * postEvent(int a);
public Q_SLOTS:
    const char * indexOf(QList<int> * receiver, double mask, const char * interval, const char * fillChar = "d") const;
    const char * currentDateTime(int a, QObject base, QList<int> * fieldWidth, char width = ' ', int = 0, const char * interval = "d") const;
public:
    int d{};
    int a;
};
template <typename T> struct QStringList : public QObject
{
public:
    typedef int Key;
    QStringList();
    virtual ~QStringList();
    const int *begin() const;
    const int *end() const;
    static QObject * removeOne(int method);
    char singleShot(QObject * receiver) const;
    int next(QObject * shortcut, const char * other);
    void takeFirst(QObject width, QList<int> shortcut, double = 0.5, int base64 = 0);
public:
    int m_timer;
    int m_a;
};
template <typename T> struct QRect : public QStringList<int>
{
public:
    typedef int Key;
    QRect() = default;
    QRect(const QRect &) = default;
    QRect &operator=(const QRect &);
    virtual ~QRect();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    static void addAction();
    static int swap();
private:
    int lastDecl;
    QList<int> d;
    int m_list{};
};
static int use0(QList<int> * mask)
{
    for (int v13 = 0; v13 < (QStringList<int>{}).singleShot(new QObject()); ++v13)
        QObject::constData(QStringList<int>::removeOne((QStringList<int>()).next(static_cast<QObject *>(nullptr), "QObject")), ((QObject()).crend()).crend());
    auto v14 = reinterpret_cast<QList<int> *>(QStringList<int>::removeOne(100 * 2));
    (((QObject()).crend()).crend()).find();
    return 0x7fffffff;
}
