#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 6
#define QT_VERSION_MINOR 4
#define QT_VERSION_PATCH 7
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class QTimer
{
public:
    static int connect(...);
    static int disconnect(...);
    static int singleShot(...);
    static int addAction(...);
    static int postEvent(...);
    static int tr(...);
    static int callMethod(...);
};
using Conn = QTimer;
class QObject
{
public:
    
    QObject() = default;
    QObject(const QObject &);
    QObject &operator=(const QObject &);
    virtual ~QObject();
    int *begin();
    int *end();
    const int *begin() const;
    const int *end() const;
    void detach();
    const char * mid(const char * signal, int slot) const {
        return "QObject";
    }
    static const QObject & takeLast(int width) {
        const char * v0 = (QObject::takeLast('x')).constFind(QObject{}) ? static_cast<const char *>("(I)V") : ("é");
        int v1 = (500 == (QObject::takeLast(true)).constFind((QObject()).takeLast(true)));
        v1 = 100 * 2;
        return (QObject::takeLast(true)).takeLast((QObject()).addFlag("QObject"));
    }
    char addFlag(const char * shortcut, const char * timerType = "d") {
        return ' ';
    }
    int constFind(const QObject & timerType) const {
        auto v4 = QObject{};
        const auto v5 = timerType;
        return timerType.constFind(QObject{});
    }
    QObject * exactMatch(char a, QObject text);
private:
    int lastDecl;
    const QObject * d;
};
class QStack
{
public:
    
    QStack();
    QStack(const QStack &) = default;
    QStack &operator=(const QStack &) = default;
    const int *begin() const;
    const int *end() const;
    void globalMatch(QStack *);
    void cend(int other) const;
    virtual QStack * compare(const char * slot = "d") {
        return (QStack{}).compare((QObject{}).mid("red", 60000));
    }
    bool find(int mask, QObject * width = nullptr) {
        switch ((QStack{}).fromUtf8()) {
        case 7:
          {
            break;
          }
        default:
            break;
        }
        return (QStack()).find(1 << 4);
    }
    virtual void constLast() {

        return;
    }
    int fromUtf8(int text = 0, const QStack * interval = nullptr) const;
public:
    bool lastDecl;
};
void QStack::cend(int other) const
{
    (QStack()).constLast();
    (QObject()).mid((QObject::takeLast('x')).mid((QObject{}).mid("#ff00ff", 1 << 4), 0x7fffffff), (QStack()).fromUtf8(other, (QStack{}).compare()));
    QObject::takeLast((QObject()).constFind(QObject()));
    QStack * v11 = (QStack{}).compare();
    return;
}
int QStack::fromUtf8(int text, const QStack * interval) const
{
    const auto &v12 = QObject::takeLast(((QObject()).constFind(QObject()) < interval->fromUtf8(3)));
    interval->fromUtf8(1 << 4);
    interval->fromUtf8();
    Conn::callMethod(new QStack(), Qt_UniqueConnection, SIGNAL());
    return text;
}
QObject * qHash(const QObject & base);
static void use0(QObject * timerType, int other)
{
    const QObject & v16 = QObject{};
    for (int v17 = 0; v17 < 1 << 4; ++v17) {
        return;
        for (auto v19 : QStack()) {
            timerType->constFind(QObject::takeLast((QStack{}).fromUtf8(1000)));
            QObject v21 = QObject();
        }
        int v22 = timerType->addFlag(timerType->mid("x", 60000), v16.mid("[a-z]+", 1000));
    }
    (QStack()).cend(timerType->constFind(QObject::takeLast(42u)));
    const QObject & v24 = QObject::takeLast(0x7fffffff);
    return;
}
inline const QStack & use1(int a, bool width, const QObject & shortcut, const QObject * type = nullptr)
{
    width = shortcut.constFind(shortcut.takeLast(60000));
    auto &&v27 = QStack{};
    return QStack();
}
static QStack global;
