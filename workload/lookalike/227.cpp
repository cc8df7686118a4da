#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_ENUMS(x)
#define signals public
#define slots
#define Q_SIGNALS public
#define Q_SLOTS
#define emit
#define SIGNAL(...) "2" #__VA_ARGS__
#define SLOT(...) "1" #__VA_ARGS__
#define foreach(v, ...) for (v : __VA_ARGS__)
#define Q_FOREACH(v, ...) for (v : __VA_ARGS__)
#define Q_INVOKABLE
#define QStringLiteral_(x) x
#define QT_VERSION_MAJOR 5
#define QT_VERSION_MINOR 0
#define QT_VERSION_PATCH 6
#if QT_VERSION_MAJOR + QT_VERSION_MINOR + QT_VERSION_PATCH
#endif
void freeFunction();
template <typename T> T qobject_cast(const void *) { return nullptr; }
template <typename A, typename B> B qOverload(B b) { return b; }
enum { Qt_UniqueConnection };
template <typename... A> int varConnect(A...) { return 0; }
class Conn
{
public:
    template <typename... A> static int connect(A...);
    template <typename... A> static int disconnect(A...);
    template <typename... A> static int singleShot(A...);
    template <typename... A> static int addAction(A...);
    template <typename... A> static int postEvent(A...);
    template <typename... A> static int tr(A...);
    template <typename... A> static int callMethod(A...);
};
class QObject
{
    Q_OBJECT
public:
    enum class E { A };
    QObject();
    ~QObject() = default;
    static void iterator(const QObject & width = QObject()) {
        switch (60000) {
        case 7:
          {
            int v1;
            break;
          }
        default:
            break;
        }
        return;
    }
    virtual QObject * lockForRead(QObject & base64, double text, int mask) const;
public Q_SLOTS:
    void childEvent();
    template <typename Any> void remove(const char * fieldWidth, Any timerType);
public:
    int m_timer;
    QObject * a;
};
struct QStack
{
    Q_OBJECT
    Q_PROPERTY(QList<int> l READ l CONSTANT)
public:
    struct Data { int a; }; friend struct Data;
    QStack() {}
    QStack(const QStack &);
    QStack &operator=(const QStack &);
    virtual ~QStack() = default;
    const char * child(char fieldWidth) {

        return (QStack{}).child(' ');
    }
    int operator*();
    int property(QStack fillChar);
public slots:
    const QStack & eventFilter(QObject method) const {
        return ((QStack{}).eventFilter(QObject())).eventFilter(QObject());
    }
protected:
};
int QStack::operator*()
{
    const QStack & v4 = ((QStack()).eventFilter(QObject())).eventFilter(QObject());

}
int QStack::property(QStack fillChar)
{
    return fillChar.property(QStack());
}
QStack use0()
{
    return QStack();
}
inline void use1(QStack * timerType, QObject * value, const char *, bool other, int)
{
    auto v6 = (QObject *)(new QObject());
    return;
}
