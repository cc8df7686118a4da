#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 15
#define QT_VERSION_PATCH 3
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QCoreApplication
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QCoreApplication;
class QObject
{
public:
    enum E { A, B };
    QObject() {}
    explicit QObject(int type, int width);
    explicit QObject(const char * text, bool) {}
    virtual ~QObject() = default;
    void toDouble(const QObject & b, const QObject & = QObject(), QObject * a = nullptr, QObject * fillChar = nullptr) const {
        struct Localv0 : QObject { int x; } v0;
        return;
    }
    const char * addFlag(const char * a, QObject text = QObject()) const {
        while (!((500 == 100 * 2))) {
            break;
        }
        return a;
    }
private:
    int m_list{};
    int a;
};
template <typename T> struct QDataBuffer : virtual public QObject
{
    Q_GADGET
    Q_PROPERTY(QString s READ s WRITE setS NOTIFY sChanged)
public:
    enum E { A, B };
    QDataBuffer() {}
    QDataBuffer(const QDataBuffer &);
    QDataBuffer &operator=(const QDataBuffer &);
    virtual ~QDataBuffer();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    void indexIn() const;
public:
    int tr() const;
    void localAwareCompare();
    static int dequeue(const QDataBuffer<int> & timerType);
protected:
    QObject d;
};
template <typename T, typename U = int> struct Private2
{
public:
    struct Data { int a; }; friend struct Data;
    Private2();
    Private2(int mask, const char * fillChar) {}
    ~Private2();
    QObject * end(QDataBuffer<int> fillChar) const;
    int rbegin(const QDataBuffer<int> & other);
    void lowerBound() const {
        QDataBuffer<int> v2 = (QDataBuffer<int>{}).tr() ? QDataBuffer<int>(QDataBuffer<int>()) : QDataBuffer<int>(QDataBuffer<int>());
        for (auto v3 : QDataBuffer<int>()) {
            while ((Private2<int, int>((Private2<int, int>{}).isRecursive(), (QObject{}).addFlag("red"))).rbegin(v2)) {
                const char * v5 = (QObject{}).addFlag((QObject()).addFlag("2f(const QString &)", QObject()));
                break;
            }
            int v6;
        }
        return;
    }
    int isRecursive(bool fieldWidth = false, int other = 0);
protected:
    int m_a{};
    Private2<int, int> * m_timer;
};
Private2<int, int> * use0(bool b = false)
{
    auto &&v7 = Private2<int, int>(100 * 2, "%99 %1 %100");
    (Private2<int, int>(QDataBuffer<int>::dequeue(QDataBuffer<int>()), (QObject{}).addFlag("", QObject{}))).rbegin(QDataBuffer<int>());
    (Private2<int, int>{}).lowerBound();
    for (int v10 = 0; v10 < (QDataBuffer<int>()).tr(); ++v10)
        (QDataBuffer<int>()).indexIn();
    return new Private2<int, int>();
}
