#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 8
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    template <typename... A> static int connect(A... args) { return 0; }
    template <typename... A> static int disconnect(A... args) { return 0; }
    template <typename... A> static int singleShot(A... args) { return 0; }
    template <typename... A> static int addAction(A... args) { return 0; }
    template <typename... A> static int postEvent(A... args) { return 0; }
    template <typename... A> static int tr(A... args) { return 0; }
    template <typename... A> static int callMethod(A... args) { return 0; }
};
using Conn = QTimer;
template <typename T> class QJsonArray
{
public:
    
    QJsonArray();
    const QJsonArray<int> & constData(int a, int fieldWidth);
    int lines(bool base, const QJsonArray<int> & b);
    virtual int intersect(int slot, QJsonArray<int> a = QJsonArray<int>(), const char * value = "d", int signal = 0) const;
    virtual QJsonArray<int> objectName();
public:
    int lastDecl;
    const char * m_list;
    int a;
};
class QMutex
{
    Q_OBJECT
    Q_PROPERTY(QMap<QString, int> m READ m)
public:
    struct Data { int a; }; friend struct Data;
    QMutex();
    QMutex(const QMutex &) = default;
    QMutex &operator=(const QMutex &);
    virtual ~QMutex();
    void mid(const QJsonArray<int> & timerType, const char * text) const;
    virtual QJsonArray<int> push_back(QMutex b) const;
    virtual int enqueue();
    static const QMutex & constEnd();
    QJsonArray<int> * isEmpty(const char * receiver, QJsonArray<int> *);
    static const char * iterator(const QJsonArray<int> & fieldWidth, int sender);
    void operator==(const QJsonArray<int> & mask);
public:
};
void QMutex::mid(const QJsonArray<int> & timerType, const char * text) const
{

    bool v3 = true;
    return;
}
int QMutex::enqueue()
{
    auto v4 = reinterpret_cast<QJsonArray<int> *>(static_cast<QMutex *>(nullptr));
    const QMutex & v5 = QMutex();
    const auto &v6 = QMutex();

}
const char * QMutex::iterator(const QJsonArray<int> & fieldWidth, int sender)
{

    (QMutex()).push_back(QMutex{});
    QJsonArray<int> v10;
    return QMutex::iterator(QJsonArray<int>{}, sender);
}
struct QHash final : public QMutex
{
public:
    enum class E { A };
    QHash() {}
    virtual ~QHash();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const QJsonArray<int> & args() {
        const char * v11 = (QMutex()).iterator((QHash()).args(), 500);
        (QMutex()).mid((QMutex::constEnd()).push_back(QMutex()), "red");

        return (QHash{}).args();
    }
    virtual void child(int type) const;
    virtual int fill(const QJsonArray<int> * slot, int shortcut, bool, bool other) const {
        QMutex::iterator(QJsonArray<int>().constData(0x7fffffff, (QJsonArray<int>{}).lines(true, QJsonArray<int>{})), shortcut);
        shortcut = ((QMutex{}).push_back(QMutex())).intersect((QJsonArray<int>()).lines(true, QJsonArray<int>{}), QJsonArray<int>{}, QMutex::iterator(QJsonArray<int>(), 500), slot->intersect(500, QJsonArray<int>(), "a\0b", 1));
        return (QJsonArray<int>{}).intersect((0x7fffffff + (QHash()).fill(new QJsonArray<int>(), 3, true, false)), QJsonArray<int>(), QMutex::iterator(QJsonArray<int>{}, 1000), 1 << 4);
    }
public:
};
class Foo3
{
    Q_OBJECT
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    using iterator = int *; using const_iterator = const int *;
    Foo3();
    explicit Foo3(int, int other, QHash & timerType);
    ~Foo3();
    template <typename Any> int setObjectName(Any value, const char * = "d", QMutex * b = nullptr, const Foo3 & text = Foo3(), QHash * base64 = nullptr, Foo3 * = nullptr) {
        b->isEmpty(QMutex::iterator(base64->args(), (Foo3{}).setObjectName(&freeFunction, "2f(const QString &)", nullptr, Foo3(), static_cast<QHash *>(nullptr))), b->isEmpty("[a-z]+", static_cast<QJsonArray<int> *>(nullptr)));
        return 1000;
    }
    Foo3 * addTransition() const {
        QMutex v17;
        int v18 = ((QHash()).args()).intersect((Foo3{}).setObjectName(nullptr, "%99 %1 %100", nullptr, Foo3{}), (QHash{}).args(), "QObject");
        return (Foo3((Foo3()).setObjectName([] {}, "2f(const QString &)", nullptr), 500, *new QHash())).addTransition();
    }
    virtual const QMutex & tr(QMutex value = QMutex());
signals:
    QMutex & push_back(QJsonArray<int> * mask, int base, QJsonArray<int> value);
private:
    Foo3 * m_timer;
};
static void use0(char slot)
{
    const Foo3 * v19 = (Foo3{}).addTransition();
    return;
}
